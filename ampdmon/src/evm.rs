//! Votes of the daemon on messages and worker sets of an EVM chain.
//! Polls are started by the real voting verifier; the source chain's node is played; the votes the daemon asks to
//! broadcast are compared with what that node shows and are given back to the real contract.
use crate::core::*;
use crate::gen::recase;
use crate::rig::*;
use ampd::access::{EventHandler, EvmChainName, EvmMsgHandler, EvmSetHandler, JsonRpc};
use async_trait::async_trait;
use connection_router::state::Message;
use cosmrs::AccountId;
use cosmwasm_std::{HexBinary, Uint256};
use ethers::abi::{encode, Token};
use ethers::providers::{JsonRpcClient, ProviderError};
use ethers::types::{Address, Bytes, Log, TransactionReceipt, H256, U256, U64};
use ethers::utils::keccak256;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use tokio::sync::watch;

#[derive(Clone, Debug)]
pub enum Spec {
    Call { sender: Address, chain: String, dest: String, hash: [u8; 32] },
    Set { ops: Vec<(Vec<u8>, u128)>, threshold: u128 },
    /// right address, but not an event of the gateway
    Junk,
    /// a gateway event of the right signature whose data cannot be read
    Torn,
}
#[derive(Clone, Debug)]
pub struct LogSpec {
    pub at: Address,
    pub index: u64,
    pub spec: Spec,
    /// the log claims to be of another transaction
    pub alien: bool,
}
#[derive(Clone, Debug)]
pub struct Tx {
    pub hash: H256,
    /// none: the node knows the transaction but has not put it in a block
    pub block: Option<u64>,
    pub logs: Vec<LogSpec>,
}
#[derive(Default, Debug)]
pub struct Node {
    pub tip: u64,
    pub finalized: u64,
    pub txs: BTreeMap<H256, Tx>,
    /// requests that fail
    pub down: BTreeSet<String>,
    /// requests, in order
    pub asked: Vec<String>,
}

fn call_topic() -> H256 {
    keccak256("ContractCall(address,string,string,bytes32,bytes)").into()
}
fn set_topic() -> H256 {
    keccak256("OperatorshipTransferred(bytes)").into()
}
pub fn set_data(ops: &[(Vec<u8>, u128)], threshold: u128) -> Vec<u8> {
    encode(&[
        Token::Array(ops.iter().map(|o| Token::Address(Address::from_slice(&o.0))).collect()),
        Token::Array(ops.iter().map(|o| Token::Uint(U256::from(o.1))).collect()),
        Token::Uint(U256::from(threshold)),
    ])
}
impl Tx {
    fn receipt(&self) -> Value {
        let block_hash = Some(H256::from_low_u64_be(self.block.unwrap_or(0)));
        let logs = self
            .logs
            .iter()
            .map(|l| {
                let (topics, data) = match &l.spec {
                    Spec::Call { sender, chain, dest, hash } => (
                        vec![call_topic(), H256::from(*sender), H256::from(*hash)],
                        encode(&[Token::String(chain.clone()), Token::String(dest.clone()), Token::Bytes(vec![1, 2, 3])]),
                    ),
                    Spec::Set { ops, threshold } => {
                        (vec![set_topic()], encode(&[Token::Bytes(set_data(ops, *threshold))]))
                    }
                    Spec::Junk => (vec![keccak256("Executed(bytes32)").into(), H256::repeat_byte(7)], vec![]),
                    Spec::Torn => (vec![call_topic(), H256::repeat_byte(1), H256::repeat_byte(2)], vec![9; 31]),
                };
                Log {
                    address: l.at,
                    topics,
                    data: Bytes::from(data),
                    block_hash,
                    block_number: self.block.map(U64::from),
                    transaction_hash: Some(if l.alien { H256::repeat_byte(0xee) } else { self.hash }),
                    transaction_index: Some(0.into()),
                    log_index: Some(U256::from(l.index)),
                    ..Default::default()
                }
            })
            .collect();
        let r = TransactionReceipt {
            transaction_hash: self.hash,
            block_hash,
            block_number: self.block.map(U64::from),
            status: Some(1.into()),
            logs,
            ..Default::default()
        };
        serde_json::to_value(r).unwrap()
    }
}
#[derive(Clone, Debug)]
pub struct Rpc(pub Arc<Mutex<Node>>);
pub fn answer(n: &mut Node, method: &str, params: &Value) -> Result<Value, String> {
    let h = |p: &Value| p[0].as_str().and_then(|s| s.parse::<H256>().ok());
    let what = match method {
        "eth_getTransactionReceipt" => format!("receipt {:?}", h(params).ok_or("bad params")?),
        _ => method.to_string(),
    };
    n.asked.push(what.clone());
    if n.down.contains(&what) || n.down.contains(method) {
        return Err("unavailable".into());
    }
    Ok(match method {
        "eth_getBlockByNumber" => {
            if params[0] != "finalized" {
                return Err(format!("unexpected block tag {params}"));
            }
            serde_json::to_value(ethers::types::Block::<H256> {
                number: Some(n.finalized.into()),
                hash: Some(H256::from_low_u64_be(n.finalized)),
                ..Default::default()
            })
            .unwrap()
        }
        "eth_blockNumber" => json!(U64::from(n.tip)),
        "eth_getTransactionReceipt" => n.txs.get(&h(params).unwrap()).map(|t| t.receipt()).unwrap_or(Value::Null),
        m => return Err(format!("unexpected method {m}")),
    })
}
#[async_trait]
impl JsonRpcClient for Rpc {
    type Error = ProviderError;
    async fn request<T, R>(&self, method: &str, params: T) -> Result<R, ProviderError>
    where
        T: Debug + Serialize + Send + Sync,
        R: DeserializeOwned + Send,
    {
        let p = serde_json::to_value(&params).map_err(ProviderError::SerdeJson)?;
        tokio::task::yield_now().await;
        let v = answer(&mut self.0.lock().unwrap(), method, &p).map_err(ProviderError::CustomError)?;
        serde_json::from_value(v).map_err(ProviderError::SerdeJson)
    }
}

/// what the polled chain's node lets an honest worker say about a message id
fn settled<'a>(n: &'a Node, eth: bool, conf: u64, tx: &H256) -> Option<&'a Tx> {
    let t = n.txs.get(tx)?;
    let b = t.block?;
    let final_ = if eth { n.finalized } else { (n.tip + 1).saturating_sub(conf) };
    let silent = n.down.contains(&format!("receipt {tx:?}")) || n.down.contains("eth_getTransactionReceipt");
    if b <= final_ && !silent {
        Some(t)
    } else {
        None
    }
}
fn log_at<'a>(t: &'a Tx, gw: &Address, index: u64) -> Option<&'a LogSpec> {
    t.logs.iter().find(|l| l.index == index).filter(|l| l.at == *gw && !l.alien)
}

pub const NAMES: &[&str] = &["avalanche", "Fantom", "polygon-2", "binance", "ethereum-sepolia", "moonbeam"];
const DESTS: &[&str] = &["Ethereum", "avalanche", "Osmosis-6", "fantom", "ethereum-2", "ETHEREUM"];

#[derive(Clone, Debug)]
struct Q {
    m: Message,
    tx: H256,
    index: u64,
    /// the message id in the poll is the one spelling of the event's place on the source chain, and its fields can be read
    readable: bool,
}

struct S {
    rt: tokio::runtime::Runtime,
    node: Arc<Mutex<Node>>,
    eth: bool,
    chain: EvmChainName,
    name: String,
    gw: Address,
    vv: Vv,
    other: Vv,
    me: AccountId,
    peers: Vec<AccountId>,
    height: u64,
    seen_h: watch::Sender<u64>,
    rx: watch::Receiver<u64>,
    cap: Cap,
    next_log: u64,
    used: BTreeSet<(H256, u64)>,
}

type MH = EvmMsgHandler<JsonRpc<Rpc>, Cap>;
type WH = EvmSetHandler<JsonRpc<Rpc>, Cap>;

impl S {
    fn new(ep: &mut Ep) -> S {
        let eth = ep.chance(35);
        let name: String = if eth { "Ethereum".into() } else { ep.pick(NAMES).to_string() };
        let chain = if eth { EvmChainName::Ethereum } else { EvmChainName::Other(recase(ep, &name)) };
        let gw = Address::from(ep.bytes::<20>());
        let gw_text = match ep.below(3) {
            0 => ethers::utils::to_checksum(&gw, None),
            _ => format!("{gw:?}"),
        };
        let conf = ep.range(1, 12);
        let expiry = ep.range(1, 20);
        let me = account(ep);
        let peers: Vec<_> = (0..ep.range(1, 3)).map(|_| account(ep)).collect();
        let (a, b) = (contract(ep), contract(ep));
        let vname = recase(ep, &name);
        let vv = Vv::new(a, &vname, &gw_text, expiry, conf);
        let oname = if ep.chance(50) { vname.clone() } else { "optimism".into() };
        let other = Vv::new(b, &oname, &gw_text, expiry, conf);
        let tip = if ep.chance(10) { ep.below(conf + 2) } else { ep.range(20, 1000) };
        let finalized = tip.saturating_sub(ep.below(10));
        let height = ep.range(1, 1000);
        let (seen_h, rx) = watch::channel(height);
        S {
            rt: rt(),
            node: Arc::new(Mutex::new(Node { tip, finalized, ..Default::default() })),
            eth,
            chain,
            name: name.to_lowercase(),
            gw,
            vv,
            other,
            me,
            peers,
            height,
            seen_h,
            rx,
            cap: Cap::default(),
            next_log: 0,
            used: Default::default(),
        }
    }
    fn msg_handler(&self, who: &AccountId) -> MH {
        EvmMsgHandler::new(
            tm(who),
            tm(&self.vv.addr),
            self.chain.clone(),
            JsonRpc::new(Rpc(self.node.clone())),
            self.cap.clone(),
            self.rx.clone(),
        )
    }
    fn set_handler(&self, who: &AccountId) -> WH {
        EvmSetHandler::new(
            tm(who),
            tm(&self.vv.addr),
            self.chain.clone(),
            JsonRpc::new(Rpc(self.node.clone())),
            self.cap.clone(),
            self.rx.clone(),
        )
    }
    fn mine(&mut self, ep: &mut Ep) {
        let mut n = self.node.lock().unwrap();
        n.tip += ep.range(0, 6);
        if n.finalized < n.tip {
            n.finalized += ep.below(n.tip - n.finalized + 1);
        }
        for _ in 0..ep.range(1, 3) {
            let hash = H256::from(ep.bytes::<32>());
            let block = match ep.below(20) {
                0 => None,
                1..=3 => Some(n.tip),
                4..=6 => Some((n.tip + 1).saturating_sub(self.vv.conf)),
                7..=9 => Some((n.tip + 2).saturating_sub(self.vv.conf)),
                10..=12 => Some(n.finalized),
                13..=14 => Some(n.finalized + 1),
                _ => Some(ep.below(n.tip + 1)),
            };
            self.next_log = if ep.chance(20) { 0 } else { ep.below(200) };
            let mut logs: Vec<LogSpec> = vec![];
            for _ in 0..ep.range(1, 4) {
                let spec = match ep.below(10) {
                    0 => Spec::Junk,
                    1 => Spec::Torn,
                    2..=4 => {
                        let k = ep.range(1, 5);
                        let mut ops: Vec<(Vec<u8>, u128)> = (0..k)
                            .map(|_| {
                                let w = if ep.chance(10) { u64::MAX as u128 * 3 } else { ep.range(1, 9) as u128 };
                                (ep.bytes::<20>().to_vec(), w)
                            })
                            .collect();
                        if ep.chance(80) {
                            ops.sort();
                        }
                        Spec::Set { threshold: ep.range(1, 20) as u128, ops }
                    }
                    _ => match logs.iter().rev().find(|l| matches!(l.spec, Spec::Call { .. })) {
                        // like an earlier one, but for one field
                        Some(l) if ep.chance(40) => {
                            let mut s = l.spec.clone();
                            if let Spec::Call { sender, chain, dest, hash } = &mut s {
                                match ep.below(4) {
                                    0 => *sender = Address::from(ep.bytes::<20>()),
                                    1 => *chain = ep.pick(DESTS).to_string(),
                                    2 => *dest = crate::gen::near(ep, dest),
                                    _ => *hash = ep.bytes::<32>(),
                                }
                            }
                            s
                        }
                        _ => Spec::Call {
                            sender: Address::from(ep.bytes::<20>()),
                            chain: ep.pick(DESTS).to_string(),
                            dest: format!("0x{}", hex::encode(ep.bytes::<20>())),
                            hash: ep.bytes::<32>(),
                        },
                    },
                };
                let at = if ep.chance(85) { self.gw } else { Address::from(ep.bytes::<20>()) };
                logs.push(LogSpec { at, index: self.next_log, spec, alien: ep.chance(3) });
                self.next_log += ep.range(1, 3);
            }
            n.txs.insert(hash, Tx { hash, block, logs });
        }
    }
    fn pick_log(&self, ep: &mut Ep) -> Option<(Tx, LogSpec)> {
        let n = self.node.lock().unwrap();
        let all: Vec<_> = n.txs.values().collect();
        if all.is_empty() {
            return None;
        }
        let t = (*ep.pick(&all)).clone();
        let l = ep.pick(&t.logs).clone();
        Some((t, l))
    }
    /// a message to ask about
    fn question(&mut self, ep: &mut Ep) -> Option<Q> {
        let (t, l) = self.pick_log(ep)?;
        let (mut sender, mut chain, mut dest, mut hash) = match &l.spec {
            Spec::Call { sender, chain, dest, hash } => (*sender, chain.clone(), dest.clone(), *hash),
            _ => (Address::from(ep.bytes::<20>()), "fantom".to_string(), "0xdd".to_string(), ep.bytes::<32>()),
        };
        let (mut tx, mut index) = (t.hash, l.index);
        match ep.below(24) {
            0 => sender = Address::from(ep.bytes::<20>()),
            1 => chain = ep.pick(DESTS).to_string(),
            2 => dest = crate::gen::near(ep, &dest),
            3 => hash[ep.below(32) as usize] ^= 1 << ep.below(8),
            4 => index += ep.range(1, 3),
            5 => index = index.saturating_sub(1),
            6 => index += 1 << 32,
            7 => tx = H256::from(ep.bytes::<32>()),
            8 => {
                let mut b = tx.0;
                b[ep.below(32) as usize] ^= 1 << ep.below(8);
                tx = H256(b);
            }
            9 => chain = recase(ep, &chain),
            10 => sender = Address::from_slice(&t.hash.0[..20]),
            11 => hash = t.hash.0,
            _ => {}
        }
        if dest.is_empty() || dest.contains('~') {
            dest = "0xdd".into();
        }
        if !self.used.insert((tx, index)) && ep.chance(90) {
            return None;
        }
        let mut readable = true;
        let mut id = format!("{tx:?}:{index}");
        let mut src = match ep.below(3) {
            0 => ethers::utils::to_checksum(&sender, None),
            _ => format!("{sender:?}"),
        };
        if ep.chance(6) {
            readable = false;
            match ep.below(6) {
                0 => id = format!("0x{}:{index}", hex::encode(tx).to_uppercase()),
                1 => id = format!("{}:{index}", hex::encode(tx)),
                2 => id = format!("0x{}:{index}", &hex::encode(tx)[2..]),
                3 => id = format!("{}:{index}", bs58::encode(tx.0).into_string()),
                4 => src = crate::gen::near(ep, &src[..20]),
                _ => src = "cosmos1qqqq".into(),
            }
            if id == format!("{tx:?}:{index}") && !src.starts_with("cosmos") && src.len() == 42 {
                readable = true;
            }
        }
        if src.is_empty() || src.contains('~') {
            src = "x".into();
        }
        let c = recase(ep, &self.name);
        Some(Q { m: msg(&c, &id, &src, &chain, &dest, hash), tx, index, readable })
    }
    fn expect(&self, q: &Q) -> bool {
        if !q.readable {
            return false;
        }
        let n = self.node.lock().unwrap();
        let Some(t) = settled(&n, self.eth, self.vv.conf, &q.tx) else { return false };
        match log_at(t, &self.gw, q.index).map(|l| &l.spec) {
            Some(Spec::Call { sender, chain, dest, hash }) => {
                let src: Address = q.m.source_address.to_string().parse().unwrap();
                src == *sender
                    && q.m.destination_chain.to_string() == chain.to_lowercase()
                    && q.m.destination_address.to_string() == *dest
                    && q.m.payload_hash == *hash
            }
            _ => false,
        }
    }
}

pub fn votes_of(v: &Value) -> Option<(Value, Vec<bool>)> {
    let v = v.as_object()?.get("vote")?;
    if v.as_object()?.len() != 2 {
        return None;
    }
    let out = v["votes"]
        .as_array()?
        .iter()
        .map(|x| match x.as_str() {
            Some("succeeded_on_chain") => Some(true),
            Some("not_found") => Some(false),
            _ => None,
        })
        .collect::<Option<Vec<_>>>()?;
    Some((v["poll_id"].clone(), out))
}

const ALL: &[&str] = &["C41", "C42", "C44"];
const D: &[&str] = &["C44"];

/// something that is none of this worker's business must leave no trace
fn ignored(ep: &mut Ep, out: &Out, sent: &[cosmrs::Any], asked: bool, why: &str) {
    ep.count("ignored");
    ep.check(*out == Out::Ok, D, "stopped-by-foreign-event", || {
        format!("the worker's handler failed on an event that is not its business ({why}): {out:?}")
    });
    ep.check(sent.is_empty(), D, "acted-on-foreign-event", || {
        format!("the worker broadcast something for an event that is not its business ({why})")
    });
    let _ = asked;
    ep.seen(D, &("ignored", why.to_string(), *out == Out::Ok));
}

pub fn drive(ep: &mut Ep) -> R {
    let mut s = S::new(ep);
    let n = if ep.thorough { ep.range(6, 24) } else { ep.range(5, 14) };
    s.mine(ep);
    for _ in 0..n {
        match ep.weighted(&[4, 2, 8, 5, 3, 2]) {
            0 => {
                s.mine(ep);
                ep.step("blocks are mined on the source chain");
            }
            1 => {
                s.height += ep.range(1, 6);
                let h = if ep.chance(80) { s.height } else { s.height.saturating_sub(ep.below(4)) };
                let _ = s.seen_h.send(h);
                ep.step(format!("axelar is at {}, the daemon knows of {h}", s.height));
            }
            2 => poll(ep, &mut s)?,
            3 => set_poll(ep, &mut s)?,
            4 => foreign(ep, &mut s)?,
            _ => {
                let mut nd = s.node.lock().unwrap();
                nd.down.clear();
                if ep.chance(50) {
                    let ks: Vec<_> = nd.txs.keys().cloned().collect();
                    let what = match ep.below(6) {
                        0 => "eth_getBlockByNumber".to_string(),
                        1 => "eth_blockNumber".to_string(),
                        2 => "eth_getTransactionReceipt".to_string(),
                        _ if !ks.is_empty() => format!("receipt {:?}", ep.pick(&ks)),
                        _ => "eth_blockNumber".to_string(),
                    };
                    ep.step(format!("the node stops answering {what}"));
                    nd.down.insert(what);
                }
            }
        }
        ep.settle()?;
    }
    Ok(())
}

/// (the worker is asked, why not)
fn asked(ep: &mut Ep, s: &S) -> (Vec<AccountId>, bool) {
    let mut ws: Vec<AccountId> = s.peers.clone();
    let in_ = ep.chance(88);
    if in_ {
        ws.push(s.me.clone());
        ep.shuffle(&mut ws);
    }
    (ws, in_)
}
fn final_known(s: &S) -> bool {
    let n = s.node.lock().unwrap();
    !n.down.contains(if s.eth { "eth_getBlockByNumber" } else { "eth_blockNumber" })
}

/// the ids of the messages a poll is about, in order
pub fn polled_ids(ev: &tendermint::abci::Event) -> Vec<String> {
    match read_event(ev) {
        events::Event::Abci { attributes, .. } => attributes["messages"]
            .as_array()
            .unwrap()
            .iter()
            .map(|m| format!("{}:{}", m["tx_id"].as_str().unwrap(), m["event_index"]))
            .collect(),
        _ => vec![],
    }
}

fn poll(ep: &mut Ep, s: &mut S) -> R {
    let k = if ep.big() { ep.big_size().min(60) } else { ep.range(1, 4) };
    let mut qs: Vec<Q> = vec![];
    for _ in 0..k {
        if let Some(q) = s.question(ep) {
            if !qs.iter().any(|x| x.m.cc_id == q.m.cc_id) {
                qs.push(q);
            }
        }
    }
    if qs.is_empty() {
        return Ok(());
    }
    let (ws, in_) = asked(ep, s);
    s.vv.set_active(&ws);
    let ms: Vec<Message> = qs.iter().map(|q| q.m.clone()).collect();
    let h = s.height;
    ep.step(format!("verify {} messages at {h}: {:?}", ms.len(), ms));
    let evs = match s.vv.exec(h, "anyone", json!({"verify_messages": {"messages": ms}})) {
        Ok(e) => e,
        Err(e) => {
            ep.note(format!("refused: {e}"));
            return Ok(());
        }
    };
    let Some(ev) = evs.iter().find(|e| e.kind == "wasm-messages_poll_started") else {
        ep.count("no poll");
        return Ok(());
    };
    let polled: Vec<Q> = polled_ids(ev)
        .iter()
        .filter_map(|id| qs.iter().find(|q| q.m.cc_id.id.to_string() == *id).cloned())
        .collect();
    let expires = h + s.vv.expiry;
    let me = s.me.clone();
    let hd = s.msg_handler(&me);
    let parsed = read_event(ev);
    // the worker-set handler sees the same event
    let wh = s.set_handler(&me);
    let o2 = run(&s.rt, wh.handle(&parsed));
    let sent2 = s.cap.take();
    ignored(ep, &o2, &sent2, false, "a poll for messages, at the worker set verifier");
    // the daemon's height may be anywhere around the poll's end
    if ep.chance(25) {
        let x = match ep.below(3) {
            0 => expires - 1,
            1 => expires,
            _ => expires + ep.below(5),
        };
        let _ = s.seen_h.send(x);
    }
    let known_h = *s.rx.borrow();
    s.node.lock().unwrap().asked.clear();
    let o = run(&s.rt, hd.handle(&parsed));
    let sent = s.cap.take();
    ep.note(format!("in={in_} known height {known_h}, expires {expires} -> {o:?}, {} sent", sent.len()));
    if !in_ || known_h >= expires {
        ignored(ep, &o, &sent, true, if !in_ { "not a participant" } else { "the poll has expired" });
        let _ = s.seen_h.send(s.height);
        return ep.settle();
    }
    let _ = s.seen_h.send(s.height);
    if !final_known(s) {
        // no way to tell what is final: nothing may be reported as seen
        for a in &sent {
            if let Some((_, _, v, _)) = exec_of(a) {
                let bad = votes_of(&v).map(|v| v.1.contains(&true)).unwrap_or(true);
                ep.check(!bad, &["C41"], "voted-blind", || "voted 'succeeded' without knowing what is final".into());
            }
        }
        ep.check(!matches!(o, Out::Panic(_)), ALL, "panic", || format!("{o:?}"));
        ep.count("node silent");
        return ep.settle();
    }
    let exp: Vec<bool> = polled.iter().map(|q| s.expect(q)).collect();
    ep.check(o == Out::Ok, D, "poll-not-answered", || {
        format!("a poll the worker takes part in ended in {o:?}; {} of its messages readable", polled.iter().filter(|q| q.readable).count())
    });
    ep.check(!matches!(o, Out::Panic(_)), &["C41"], "panic", || format!("{o:?}"));
    if o == Out::Ok {
        ep.check(sent.len() == 1, D, "one-vote", || format!("{} transactions for one poll", sent.len()));
    }
    for a in &sent {
        let Some((from, to, v, funds)) = exec_of(a) else {
            ep.fail(D, "not-a-vote", format!("broadcast {a:?}"));
            continue;
        };
        ep.check(
            from == me.to_string() && to == s.vv.addr.to_string() && funds == 0,
            D,
            "vote-misaddressed",
            || format!("vote from {from} to {to}"),
        );
        let Some((_, votes)) = votes_of(&v) else {
            ep.fail(D, "not-a-vote", format!("broadcast {v}"));
            continue;
        };
        ep.check(votes.len() == exp.len(), D, "vote-count", || format!("{} votes for {} messages", votes.len(), exp.len()));
        for (i, q) in polled.iter().enumerate() {
            let Some(got) = votes.get(i) else { continue };
            ep.count(if exp[i] { "present" } else { "absent" });
            if !q.readable {
                ep.count("unreadable");
            }
            ep.check(*got == exp[i], &["C41"], if *got { "false-report" } else { "missed-event" }, || {
                format!("voted {} for {:?} (index {i}); the node shows {:?}", if *got { "succeeded" } else { "not found" }, q.m,
                    s.node.lock().unwrap().txs.get(&q.tx))
            });
            ep.seen(&["C41"], &(exp[i], q.readable, s.eth, q.index, known_h % 4, ms.len(), q.m.cc_id.id.to_string()));
        }
        ep.settle()?;
        // the contract takes the vote as it is
        let r = s.vv.exec(h + s.vv.expiry - 1, me.as_ref(), v.clone());
        ep.check(r.is_ok(), D, "vote-refused", || format!("the verifier refused the vote {v}: {r:?}"));
        ep.count("votes");
        ep.seen(D, &("vote", votes, known_h % 8));
        // everyone else runs the same daemon: then exactly what is there becomes verified
        for p in s.peers.clone() {
            let hp = s.msg_handler(&p);
            let o = run(&s.rt, hp.handle(&parsed));
            for a in s.cap.take() {
                if let Some((from, _, v, _)) = exec_of(&a) {
                    let r = s.vv.exec(h + s.vv.expiry - 1, &from, v);
                    ep.check(r.is_ok(), D, "vote-refused", || format!("the verifier refused a peer's vote: {r:?}"));
                }
            }
            ep.check(o == Out::Ok, D, "poll-not-answered", || format!("a peer's daemon: {o:?}"));
        }
        let poll_id = v["vote"]["poll_id"].clone();
        let r = s.vv.exec(h + s.vv.expiry, "anyone", json!({"end_poll": {"poll_id": poll_id}}));
        ep.check(r.is_ok(), D, "poll-not-ended", || format!("{r:?}"));
        let pm: Vec<Message> = polled.iter().map(|q| q.m.clone()).collect();
        let ver = s.vv.verified(&pm);
        for (i, q) in polled.iter().enumerate() {
            ep.check(ver[i] == exp[i], &["C41"], "verdict", || {
                format!("after unanimous votes {:?} is {}", q.m, if ver[i] { "verified" } else { "not verified" })
            });
        }
        s.height = h + s.vv.expiry;
        let _ = s.seen_h.send(s.height);
    }
    ep.settle()
}

fn set_poll(ep: &mut Ep, s: &mut S) -> R {
    let Some((t, l)) = s.pick_log(ep) else { return Ok(()) };
    let (mut ops, mut thr) = match &l.spec {
        Spec::Set { ops, threshold } => (ops.clone(), *threshold),
        _ if ep.chance(85) => return Ok(()),
        _ => (vec![(ep.bytes::<20>().to_vec(), 1)], 1),
    };
    let (mut tx, mut index) = (t.hash, l.index);
    let mut readable = true;
    match ep.below(22) {
        0 => thr += 1,
        1 => thr = thr.saturating_sub(1),
        2 => {
            let i = ep.below(ops.len() as u64) as usize;
            ops[i].1 += 1;
        }
        3 => {
            ops.pop();
        }
        4 => ops.push((ep.bytes::<20>().to_vec(), 1)),
        5 => ops.reverse(),
        6 => {
            let i = ep.below(ops.len() as u64) as usize;
            ops[i].0[19] ^= 1;
        }
        7 => index += ep.range(1, 4),
        8 => tx = H256::from(ep.bytes::<32>()),
        9 => {
            let d = ops[0].clone();
            ops.push(d);
        }
        10 if ops.len() > 1 => {
            // the same total, differently spread
            ops[0].1 += 1;
            ops[1].1 = ops[1].1.saturating_sub(1);
        }
        11 => {
            readable = false;
            ops[0].0.push(1);
        }
        _ => {}
    }
    let jops: Vec<(HexBinary, Uint256)> = ops.iter().map(|o| (HexBinary::from(o.0.clone()), Uint256::from(o.1))).collect();
    let (ws, in_) = asked(ep, s);
    s.vv.set_active(&ws);
    let h = s.height;
    let mut id = format!("{tx:?}:{index}");
    if ep.chance(5) {
        readable = false;
        id = format!("0x{}:{index}", hex::encode(tx).to_uppercase());
        if id == format!("{tx:?}:{index}") {
            readable = true;
        }
    }
    let new_ops = json!({"weights_by_addresses": jops, "threshold": Uint256::from(thr)});
    ep.step(format!("verify worker set {id} {new_ops} at {h}"));
    let evs = match s.vv.exec(h, "anyone", json!({"verify_worker_set": {"message_id": id, "new_operators": new_ops}})) {
        Ok(e) => e,
        Err(e) => {
            ep.note(format!("refused: {e}"));
            return Ok(());
        }
    };
    let Some(ev) = evs.iter().find(|e| e.kind == "wasm-worker_set_poll_started") else {
        ep.count("no poll");
        return Ok(());
    };
    let parsed = read_event(ev);
    let expires = h + s.vv.expiry;
    let me = s.me.clone();
    let mh = s.msg_handler(&me);
    let o2 = run(&s.rt, mh.handle(&parsed));
    let sent2 = s.cap.take();
    ignored(ep, &o2, &sent2, false, "a poll for a worker set, at the message verifier");
    if ep.chance(25) {
        let x = match ep.below(3) {
            0 => expires - 1,
            1 => expires,
            _ => expires + ep.below(5),
        };
        let _ = s.seen_h.send(x);
    }
    let known_h = *s.rx.borrow();
    let hd = s.set_handler(&me);
    let o = run(&s.rt, hd.handle(&parsed));
    let sent = s.cap.take();
    let _ = s.seen_h.send(s.height);
    ep.note(format!("in={in_} known height {known_h}, expires {expires} -> {o:?}, {} sent", sent.len()));
    if !in_ || known_h >= expires {
        ignored(ep, &o, &sent, true, if !in_ { "not a participant" } else { "the poll has expired" });
        return ep.settle();
    }
    let down = {
        let n = s.node.lock().unwrap();
        n.down.contains(&format!("receipt {tx:?}")) || n.down.contains("eth_getTransactionReceipt")
    };
    let exp = readable && {
        let n = s.node.lock().unwrap();
        settled(&n, s.eth, s.vv.conf, &tx)
            .and_then(|t| log_at(t, &s.gw, index))
            .map(|l| matches!(&l.spec, Spec::Set { ops: o, threshold } if *o == ops && *threshold == thr))
            .unwrap_or(false)
    };
    ep.check(!matches!(o, Out::Panic(_)), &["C42"], "panic", || format!("{o:?}"));
    if down || !final_known(s) {
        ep.count("node silent");
        for a in &sent {
            let bad = exec_of(a).and_then(|x| votes_of(&x.2)).map(|v| v.1.contains(&true)).unwrap_or(true);
            ep.check(!bad, &["C42"], "voted-blind", || "voted 'succeeded' without an answer from the node".into());
        }
        return ep.settle();
    }
    ep.check(o == Out::Ok, D, "poll-not-answered", || format!("a worker set poll the worker takes part in ended in {o:?}"));
    if o == Out::Ok {
        ep.check(sent.len() == 1, D, "one-vote", || format!("{} transactions for one poll", sent.len()));
    }
    for a in &sent {
        let Some((from, to, v, funds)) = exec_of(a) else {
            ep.fail(D, "not-a-vote", format!("broadcast {a:?}"));
            continue;
        };
        ep.check(
            from == me.to_string() && to == s.vv.addr.to_string() && funds == 0,
            D,
            "vote-misaddressed",
            || format!("vote from {from} to {to}"),
        );
        let votes = votes_of(&v).map(|v| v.1).unwrap_or_default();
        if !ep.check(votes.len() == 1, D, "vote-count", || format!("{v}")) {
            continue;
        }
        ep.count(if exp { "present set" } else { "absent set" });
        ep.check(votes[0] == exp, &["C42"], if votes[0] { "false-report" } else { "missed-event" }, || {
            format!("voted {:?} for worker set {new_ops} at {id}; the node shows {:?}", votes, s.node.lock().unwrap().txs.get(&tx))
        });
        ep.seen(&["C42"], &(exp, readable, s.eth, ops.clone(), thr));
        let r = s.vv.exec(h + s.vv.expiry - 1, me.as_ref(), v.clone());
        ep.check(r.is_ok(), D, "vote-refused", || format!("the verifier refused the vote {v}: {r:?}"));
        ep.count("votes");
    }
    ep.settle()
}

/// events that are none of this worker's business
fn foreign(ep: &mut Ep, s: &mut S) -> R {
    let me = s.me.clone();
    let (ev, why): (tendermint::abci::Event, String) = match ep.below(7) {
        // the same kind of poll, at another verifier
        0 | 1 => {
            let Some(q) = s.question(ep) else { return Ok(()) };
            let mut m = q.m;
            m.cc_id.chain = s.other.chain.parse().unwrap();
            s.other.set_active(&[me.clone()]);
            let h = s.height;
            match s.other.exec(h, "anyone", json!({"verify_messages": {"messages": [m]}})) {
                Ok(e) if !e.is_empty() => (e[0].clone(), "another verifier's poll".into()),
                _ => return Ok(()),
            }
        }
        // a poll of a verifier whose chain has other addresses
        2 | 3 => {
            let addr = contract(ep);
            let gw = format!("0x{}", hex::encode(ep.bytes::<32>()));
            let mut o = Vv::new(addr, "sui", &gw, 10, 1);
            o.set_active(&[me.clone()]);
            let tx = bs58::encode(ep.bytes::<32>()).into_string();
            let src = format!("0x{}", hex::encode(ep.bytes::<32>()));
            let h = s.height;
            let r = if ep.chance(60) {
                let m = msg("sui", &format!("{tx}:1"), &src, "ethereum", "0xdd", ep.bytes::<32>());
                o.exec(h, "anyone", json!({"verify_messages": {"messages": [m]}}))
            } else {
                let jops = vec![(HexBinary::from(ep.bytes::<33>().to_vec()), Uint256::from(1u128))];
                o.exec(h, "anyone", json!({"verify_worker_set": {"message_id": format!("{tx}:0"),
                    "new_operators": {"weights_by_addresses": jops, "threshold": Uint256::from(1u128)}}}))
            };
            (r.expect("poll")[0].clone(), "a poll for a chain with other addresses".into())
        }
        // anyone can write a contract that emits such events
        4 | 5 => {
            let kind = *ep.pick(&["wasm-messages_poll_started", "wasm-worker_set_poll_started", "messages_poll_started"]);
            let c = contract(ep).to_string();
            let mut at = vec![("_contract_address".to_string(), c)];
            for k in ["poll_id", "source_chain", "source_gateway_address", "confirmation_height", "expires_at", "participants", "messages", "worker_set"] {
                if ep.chance(60) {
                    let v = match ep.below(6) {
                        0 => "1".to_string(),
                        1 => "\"1\"".to_string(),
                        2 => format!("[\"{me}\"]"),
                        3 => "{}".to_string(),
                        4 => s.name.clone(),
                        _ => format!("{:?}", s.gw),
                    };
                    at.push((k.to_string(), v));
                }
            }
            (node_event(kind, &at), "an event made up by some contract".into())
        }
        _ => {
            let kind = *ep.pick(&["wasm-voted", "transfer", "tm", "wasm", "wasm-signing_started", "wasm-poll_ended"]);
            (node_event(kind, &[("amount".into(), "1uaxl".into())]), "an event of another kind".into())
        }
    };
    let parsed = read_event(&ev);
    ep.step(format!("{why}: {}", ev.kind));
    let h1 = s.msg_handler(&me);
    let o = run(&s.rt, h1.handle(&parsed));
    let sent = s.cap.take();
    ignored(ep, &o, &sent, false, &format!("{why}, at the message verifier"));
    let h2 = s.set_handler(&me);
    let o = run(&s.rt, h2.handle(&parsed));
    let sent = s.cap.take();
    ignored(ep, &o, &sent, false, &format!("{why}, at the worker set verifier"));
    ep.settle()
}
