// The daemon as it is in /repo, under this crate's dependencies, and names for what monitors drive.
include!("/repo/ampd/src/lib.rs");

pub mod access {
    pub use crate::block_height_monitor::BlockHeightMonitor;
    pub use crate::broadcaster::accounts::account;
    pub use crate::broadcaster::{
        BroadcastClientBuilder, Broadcaster, Config as BroadcastConfig, Error as BroadcastError,
    };
    pub use crate::event_processor::{EventHandler, EventProcessor};
    pub use crate::event_sub::{skip_to_block, EventSub};
    pub use crate::evm::ChainName as EvmChainName;
    pub use crate::handlers::config::{Chain as ChainConfig, Config as HandlerConfig};
    pub use crate::handlers::end_block::with_block_height_notifier;
    pub use crate::handlers::evm_verify_msg::Handler as EvmMsgHandler;
    pub use crate::handlers::evm_verify_worker_set::Handler as EvmSetHandler;
    pub use crate::handlers::multisig::Handler as SignHandler;
    pub use crate::handlers::sui_verify_msg::Handler as SuiMsgHandler;
    pub use crate::handlers::sui_verify_worker_set::Handler as SuiSetHandler;
    pub use crate::json_rpc::Client as JsonRpc;
    pub use crate::queue::queued_broadcaster::{
        BroadcasterClient, Error as QueueError, QueuedBroadcaster, QueuedBroadcasterDriver,
    };
    pub use crate::state::StateUpdater;
    pub use crate::tofnd::error::Error as TofndError;
    pub use crate::tofnd::grpc::{EcdsaClient, MultisigClient, SharableEcdsaClient};
    pub use crate::tofnd::{Config as TofndConfig, MessageDigest, Signature};
    pub use crate::types::{PublicKey, TMAddress};
    pub use crate::url::Url;
}
