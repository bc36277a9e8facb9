//! Stand-in for the parts of cosmos-sdk-proto that ampd uses. Messages are encoded as JSON, so that monitors can
//! read what was sent. The grpc clients are served by what is registered under
//! their URL.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Any {
    pub type_url: String,
    pub value: Vec<u8>,
}

#[derive(Debug)]
pub struct CodecError(pub String);
impl std::fmt::Display for CodecError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CodecError {}

/// the chain behind a URL
pub trait ChainApi: Send + Sync {
    fn broadcast_tx(&self, r: cosmos::tx::v1beta1::BroadcastTxRequest) -> Result<cosmos::tx::v1beta1::BroadcastTxResponse, tonic::Status>;
    fn simulate(&self, r: cosmos::tx::v1beta1::SimulateRequest) -> Result<cosmos::tx::v1beta1::SimulateResponse, tonic::Status>;
    fn get_tx(&self, r: cosmos::tx::v1beta1::GetTxRequest) -> Result<cosmos::tx::v1beta1::GetTxResponse, tonic::Status>;
    fn account(&self, r: cosmos::auth::v1beta1::QueryAccountRequest) -> Result<cosmos::auth::v1beta1::QueryAccountResponse, tonic::Status>;
}
pub type Chain = std::sync::Arc<dyn ChainApi>;
static CHAINS: std::sync::Mutex<std::collections::BTreeMap<String, Chain>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn register(url: &str, c: Chain) {
    CHAINS.lock().unwrap().insert(url.to_string(), c);
}
pub fn unregister(url: &str) {
    CHAINS.lock().unwrap().remove(url);
}
pub fn find(url: &str) -> Option<Chain> {
    CHAINS.lock().unwrap().get(url).cloned()
}
/// a reply takes a moment
async fn moment() {
    tokio::task::yield_now().await
}

pub mod traits {
    use super::{Any, CodecError};
    use serde::{de::DeserializeOwned, Serialize};
    pub trait Message: Serialize + DeserializeOwned {
        fn decode(b: &[u8]) -> Result<Self, CodecError> {
            serde_json::from_slice(b).map_err(|e| CodecError(e.to_string()))
        }
        fn encode_to_vec(&self) -> Vec<u8> {
            serde_json::to_vec(self).expect("encodable")
        }
    }
    impl<T: Serialize + DeserializeOwned> Message for T {}
    pub trait MessageExt: Message {
        fn to_bytes(&self) -> Result<Vec<u8>, CodecError> {
            Ok(self.encode_to_vec())
        }
        fn to_any(&self) -> Result<Any, CodecError> {
            Ok(Any { type_url: std::any::type_name::<Self>().to_string(), value: self.encode_to_vec() })
        }
    }
    impl<T: Message> MessageExt for T {}
}

pub mod cosmos {
    pub mod base {
        pub mod v1beta1 {
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct DecCoin {
                pub denom: String,
                pub amount: String,
            }
        }
        pub mod abci {
            pub mod v1beta1 {
                #[derive(Clone, Debug, PartialEq, Eq, Default)]
                pub struct TxResponse {
                    pub height: i64,
                    pub txhash: String,
                    pub codespace: String,
                    pub code: u32,
                    pub data: String,
                    pub raw_log: String,
                    pub gas_wanted: i64,
                    pub gas_used: i64,
                }
                #[derive(Clone, Debug, PartialEq, Eq, Default)]
                pub struct GasInfo {
                    pub gas_wanted: u64,
                    pub gas_used: u64,
                }
                #[derive(Clone, Debug, PartialEq, Eq, Default)]
                pub struct Result {
                    pub log: String,
                }
            }
        }
    }
    pub mod tx {
        pub mod v1beta1 {
            use super::super::base::abci::v1beta1::{GasInfo, Result as AbciResult, TxResponse};
            use serde::{Deserialize, Serialize};
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            #[repr(i32)]
            pub enum BroadcastMode {
                Unspecified = 0,
                Block = 1,
                Sync = 2,
                Async = 3,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct BroadcastTxRequest {
                pub tx_bytes: Vec<u8>,
                pub mode: i32,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct BroadcastTxResponse {
                pub tx_response: Option<TxResponse>,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct GetTxRequest {
                pub hash: String,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct Tx;
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct GetTxResponse {
                pub tx: Option<Tx>,
                pub tx_response: Option<TxResponse>,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct SimulateRequest {
                pub tx: Option<Tx>,
                pub tx_bytes: Vec<u8>,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct SimulateResponse {
                pub gas_info: Option<GasInfo>,
                pub result: Option<AbciResult>,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
            pub struct TxRaw {
                pub body_bytes: Vec<u8>,
                pub auth_info_bytes: Vec<u8>,
                pub signatures: Vec<Vec<u8>>,
            }
            pub mod service_client {
                use super::*;
                use tonic::{Response, Status};
                #[derive(Clone)]
                pub struct ServiceClient<T>(crate::Chain, std::marker::PhantomData<T>);
                impl ServiceClient<tonic::transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                        crate::find(&url).map(|c| ServiceClient(c, std::marker::PhantomData)).ok_or(tonic::transport::Error)
                    }
                    pub async fn broadcast_tx(&mut self, r: BroadcastTxRequest) -> Result<Response<BroadcastTxResponse>, Status> {
                        crate::moment().await;
                        self.0.broadcast_tx(r).map(Response)
                    }
                    pub async fn simulate(&mut self, r: SimulateRequest) -> Result<Response<SimulateResponse>, Status> {
                        crate::moment().await;
                        self.0.simulate(r).map(Response)
                    }
                    pub async fn get_tx(&mut self, r: GetTxRequest) -> Result<Response<GetTxResponse>, Status> {
                        crate::moment().await;
                        self.0.get_tx(r).map(Response)
                    }
                }
            }
        }
    }
    pub mod auth {
        pub mod v1beta1 {
            use serde::{Deserialize, Serialize};
            #[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
            pub struct BaseAccount {
                pub address: String,
                pub account_number: u64,
                pub sequence: u64,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct QueryAccountRequest {
                pub address: String,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct QueryAccountResponse {
                pub account: Option<crate::Any>,
            }
            pub mod query_client {
                use super::*;
                use tonic::{Response, Status};
                #[derive(Clone)]
                pub struct QueryClient<T>(crate::Chain, std::marker::PhantomData<T>);
                impl QueryClient<tonic::transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                        crate::find(&url).map(|c| QueryClient(c, std::marker::PhantomData)).ok_or(tonic::transport::Error)
                    }
                    pub async fn account(&mut self, r: QueryAccountRequest) -> Result<Response<QueryAccountResponse>, Status> {
                        crate::moment().await;
                        self.0.account(r).map(Response)
                    }
                }
            }
        }
    }
}
