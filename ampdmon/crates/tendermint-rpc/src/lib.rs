//! Stand-in for the parts of tendermint-rpc that ampd uses.
use async_trait::async_trait;
use tendermint::block::Height;

pub mod endpoint {
    pub mod block {
        #[derive(Clone, Debug, Default)]
        pub struct Response {
            pub block_id: tendermint::block::Id,
            pub block: tendermint::Block,
        }
    }
    pub mod block_results {
        use tendermint::abci;
        #[derive(Clone, Debug, Default)]
        pub struct DeliverTx {
            pub code: u32,
            pub events: Vec<abci::Event>,
        }
        #[derive(Clone, Debug, Default)]
        pub struct Response {
            pub height: tendermint::block::Height,
            pub txs_results: Option<Vec<DeliverTx>>,
            pub begin_block_events: Option<Vec<abci::Event>>,
            pub end_block_events: Option<Vec<abci::Event>>,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[async_trait]
pub trait Client {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error>;
    async fn block_results<H: Into<Height> + Send>(
        &self,
        height: H,
    ) -> Result<endpoint::block_results::Response, Error>;
}

/// the node behind a URL
pub mod server {
    use super::endpoint::{block, block_results};
    use super::Error;
    use std::collections::BTreeMap;
    use std::sync::{Arc, Mutex};
    pub trait Node: Send + Sync {
        fn latest_block(&self) -> Result<block::Response, Error>;
        fn block_results(&self, height: u64) -> Result<block_results::Response, Error>;
    }
    static NODES: Mutex<BTreeMap<String, Arc<dyn Node>>> = Mutex::new(BTreeMap::new());
    pub fn register(url: &str, n: Arc<dyn Node>) {
        NODES.lock().unwrap().insert(url.to_string(), n);
    }
    pub fn unregister(url: &str) {
        NODES.lock().unwrap().remove(url);
    }
    pub fn find(url: &str) -> Option<Arc<dyn Node>> {
        NODES.lock().unwrap().get(url).cloned()
    }
}

#[derive(Clone)]
pub struct HttpClient(std::sync::Arc<dyn server::Node>);
impl HttpClient {
    pub fn new(url: &str) -> Result<Self, Error> {
        server::find(url).map(HttpClient).ok_or_else(|| Error("no network".into()))
    }
}
/// a reply takes a moment
async fn moment() {
    tokio::task::yield_now().await
}
#[async_trait]
impl Client for HttpClient {
    async fn latest_block(&self) -> Result<endpoint::block::Response, Error> {
        moment().await;
        let r = self.0.latest_block();
        moment().await;
        r
    }
    async fn block_results<H: Into<Height> + Send>(
        &self,
        height: H,
    ) -> Result<endpoint::block_results::Response, Error> {
        let h: Height = height.into();
        moment().await;
        let r = self.0.block_results(h.value());
        moment().await;
        r
    }
}
