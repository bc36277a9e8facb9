//! Shared pieces: addresses, the runtime, the recorded broadcasts and the real voting verifier.
use crate::core::*;
use ampd::access::{BroadcasterClient, QueueError, TMAddress};
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine};
use connection_router::state::{CrossChainId, Message};
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::{AccountId, Any};
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{
    from_binary, to_binary, Addr, ContractResult, Empty, OwnedDeps, SystemError, SystemResult, Uint128, WasmQuery,
};
use error_stack::Report;
use futures::FutureExt;
use serde_json::Value;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use tendermint::abci;
use voting_verifier::msg::{ExecuteMsg, InstantiateMsg};

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

/// what became of a call into the daemon
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Ok,
    Err(String),
    Panic(String),
}
pub fn run<E>(rt: &tokio::runtime::Runtime, f: impl Future<Output = error_stack::Result<(), E>>) -> Out {
    match rt.block_on(AssertUnwindSafe(f).catch_unwind()) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(r)) => Out::Err(format!("{r:?}").lines().take(6).collect::<Vec<_>>().join(" | ")),
        Err(e) => Out::Panic(crate::world::panic_text(e)),
    }
}

pub fn account(ep: &mut Ep) -> AccountId {
    AccountId::new("axelar", &ep.bytes::<20>()).unwrap()
}
pub fn contract(ep: &mut Ep) -> AccountId {
    AccountId::new("axelar", &ep.bytes::<32>()).unwrap()
}
pub fn tm(a: &AccountId) -> TMAddress {
    TMAddress::from(a.clone())
}

/// what the daemon asked to have broadcast
#[derive(Clone, Default)]
pub struct Cap {
    pub sent: Arc<Mutex<Vec<Any>>>,
    pub closed: Arc<Mutex<bool>>,
}
impl Cap {
    pub fn take(&self) -> Vec<Any> {
        std::mem::take(&mut self.sent.lock().unwrap())
    }
}
#[async_trait]
impl BroadcasterClient for Cap {
    async fn broadcast<T>(&self, tx: T) -> error_stack::Result<(), QueueError>
    where
        T: cosmrs::tx::Msg + Send + Sync + 'static,
    {
        if *self.closed.lock().unwrap() {
            return Err(Report::new(QueueError::Broadcast));
        }
        self.sent.lock().unwrap().push(tx.into_any().unwrap());
        Ok(())
    }
}

/// the message a broadcast document carries, if it is a contract call
pub fn exec_of(a: &Any) -> Option<(String, String, Value, usize)> {
    if a.type_url != "/cosmwasm.wasm.v1.MsgExecuteContract" {
        return None;
    }
    let m: MsgExecuteContract = serde_json::from_slice(&a.value).ok()?;
    let v = serde_json::from_slice(&m.msg).ok()?;
    Some((m.sender.to_string(), m.contract.to_string(), v, m.funds.len()))
}

/// an event as a node reports it
pub fn node_event(kind: &str, attrs: &[(String, String)]) -> abci::Event {
    abci::Event::new(
        kind,
        attrs.iter().map(|(k, v)| (STANDARD.encode(k), STANDARD.encode(v))),
    )
}
pub fn wasm_event(contract: &str, ev: &cosmwasm_std::Event) -> abci::Event {
    let mut attrs = vec![("_contract_address".to_string(), contract.to_string())];
    attrs.extend(ev.attributes.iter().map(|a| (a.key.clone(), a.value.clone())));
    node_event(&format!("wasm-{}", ev.ty), &attrs)
}
pub fn read_event(e: &abci::Event) -> events::Event {
    events::Event::try_from(e.clone()).expect("readable event")
}

pub fn msg(chain: &str, id: &str, src: &str, dest_chain: &str, dest: &str, hash: [u8; 32]) -> Message {
    Message {
        cc_id: CrossChainId { chain: chain.parse().unwrap(), id: id.try_into().unwrap() },
        source_address: src.parse().unwrap(),
        destination_chain: dest_chain.parse().unwrap(),
        destination_address: dest.parse().unwrap(),
        payload_hash: hash,
    }
}

/// the real voting verifier contract, with a played service registry
pub struct Vv {
    deps: OwnedDeps<MockStorage, MockApi, MockQuerier<Empty>>,
    pub addr: AccountId,
    pub chain: String,
    pub expiry: u64,
    pub conf: u64,
    active: Arc<Mutex<Vec<String>>>,
}
impl Vv {
    pub fn new(addr: AccountId, chain: &str, gateway: &str, expiry: u64, conf: u64) -> Vv {
        let active: Arc<Mutex<Vec<String>>> = Default::default();
        let mut q = MockQuerier::<Empty>::new(&[]);
        let a = active.clone();
        q.update_wasm(move |q| match q {
            WasmQuery::Smart { msg, .. } => {
                let v: Value = from_binary(msg).unwrap();
                if v.get("get_active_workers").is_none() {
                    return SystemResult::Err(SystemError::UnsupportedRequest { kind: v.to_string() });
                }
                let ws: Vec<_> = a.lock().unwrap().iter().map(|w| worker(w)).collect();
                SystemResult::Ok(ContractResult::Ok(to_binary(&ws).unwrap()))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        });
        let mut deps =
            OwnedDeps { storage: MockStorage::new(), api: MockApi::default(), querier: q, custom_query_type: Default::default() };
        let init = InstantiateMsg {
            service_registry_address: "registry".try_into().unwrap(),
            service_name: "validators".try_into().unwrap(),
            source_gateway_address: gateway.try_into().unwrap(),
            voting_threshold: axelar_wasm_std::Threshold::try_from((1u64, 1u64)).unwrap().try_into().expect("majority"),
            block_expiry: expiry,
            confirmation_height: conf,
            source_chain: chain.parse().unwrap(),
            rewards_address: "rewards".into(),
        };
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(addr.to_string());
        voting_verifier::contract::instantiate(deps.as_mut(), env, mock_info("admin", &[]), init).expect("instantiate");
        Vv { deps, addr, chain: chain.to_lowercase(), expiry, conf, active }
    }
    pub fn set_active(&self, ws: &[AccountId]) {
        *self.active.lock().unwrap() = ws.iter().map(|w| w.to_string()).collect();
    }
    /// run the contract; its events as the node reports them
    pub fn exec(&mut self, height: u64, sender: &str, m: Value) -> Result<Vec<abci::Event>, String> {
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(self.addr.to_string());
        env.block.height = height;
        let m: ExecuteMsg = serde_json::from_value(m).map_err(|e| e.to_string())?;
        let backup = self.deps.storage.range_all();
        match voting_verifier::contract::execute(self.deps.as_mut(), env, mock_info(sender, &[]), m) {
            Ok(r) => Ok(r.events.iter().map(|e| wasm_event(self.addr.as_ref(), e)).collect()),
            Err(e) => {
                // a failed call leaves nothing behind on a chain
                self.deps.storage = restore(backup);
                Err(format!("{e:?}"))
            }
        }
    }
    pub fn verified(&self, ms: &[Message]) -> Vec<bool> {
        let q = voting_verifier::msg::QueryMsg::IsVerified { messages: ms.to_vec() };
        let b = voting_verifier::contract::query(self.deps.as_ref(), mock_env(), q).expect("query");
        let v: Vec<(CrossChainId, bool)> = from_binary(&b).expect("statuses");
        v.into_iter().map(|x| x.1).collect()
    }
}
pub trait RangeAll {
    fn range_all(&self) -> Vec<(Vec<u8>, Vec<u8>)>;
}
impl RangeAll for MockStorage {
    fn range_all(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        use cosmwasm_std::Storage;
        self.range(None, None, cosmwasm_std::Order::Ascending).collect()
    }
}
pub fn restore(v: Vec<(Vec<u8>, Vec<u8>)>) -> MockStorage {
    use cosmwasm_std::Storage;
    let mut s = MockStorage::new();
    for (k, x) in v {
        s.set(&k, &x);
    }
    s
}
fn worker(a: &str) -> service_registry::state::Worker {
    service_registry::state::Worker {
        address: Addr::unchecked(a),
        bonding_state: service_registry::state::BondingState::Bonded { amount: Uint128::new(1000) },
        authorization_state: service_registry::state::AuthorizationState::Authorized,
        service_name: "validators".into(),
    }
}

/// the attributes of an event, decoded
pub fn plain_attrs(e: &abci::Event) -> Vec<(String, String)> {
    let d = |s: &str| String::from_utf8(STANDARD.decode(s).unwrap_or_default()).unwrap_or_default();
    e.attributes.iter().map(|a| (d(&a.key), d(&a.value))).collect()
}
pub fn attr_of(e: &abci::Event, k: &str) -> String {
    plain_attrs(e).into_iter().find(|a| a.0 == k).map(|a| a.1).unwrap_or_default()
}
