//! Votes of the daemon on messages and worker sets of Sui, decided as for EVM chains.
use crate::core::*;
use crate::evm::{polled_ids, votes_of};
use crate::gen::{near, recase};
use crate::rig::*;
use ampd::access::{EventHandler, JsonRpc, SuiMsgHandler, SuiSetHandler};
use async_trait::async_trait;
use connection_router::state::Message;
use cosmrs::AccountId;
use cosmwasm_std::{HexBinary, Uint256};
use ethers::providers::{JsonRpcClient, ProviderError};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use tokio::sync::watch;

type B32 = [u8; 32];
fn hex0(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}

#[derive(Clone, Debug)]
enum Spec {
    Call { src: B32, chain: String, dest: String, hash: B32 },
    Set { ops: Vec<(Vec<u8>, u128)>, threshold: u128 },
    /// fields of the right names, of another kind of event
    Lookalike { module: &'static str, name: &'static str, src: B32, hash: B32 },
    Torn,
}
#[derive(Clone, Debug)]
struct Ev {
    at: B32,
    seq: u64,
    spec: Spec,
}
#[derive(Clone, Debug)]
struct Block {
    digest: B32,
    checkpoint: Option<u64>,
    /// none: the node gives no events
    events: Option<Vec<Ev>>,
}
#[derive(Default, Debug)]
struct Node {
    blocks: BTreeMap<B32, Block>,
    down: bool,
    bad_request: Option<String>,
}
/// what Sui's BCS encoding of (vector<vector<u8>>, vector<u128>, u128) is
fn bcs(ops: &[(Vec<u8>, u128)], threshold: u128) -> Vec<u8> {
    fn len(mut n: usize, out: &mut Vec<u8>) {
        while n >= 128 {
            out.push((n & 127) as u8 | 128);
            n >>= 7;
        }
        out.push(n as u8);
    }
    let mut out = vec![];
    len(ops.len(), &mut out);
    for o in ops {
        len(o.0.len(), &mut out);
        out.extend(&o.0);
    }
    len(ops.len(), &mut out);
    for o in ops {
        out.extend(o.1.to_le_bytes());
    }
    out.extend(threshold.to_le_bytes());
    out
}
impl Block {
    fn json(&self) -> Value {
        let mut v = json!({"digest": bs58::encode(self.digest).into_string()});
        if let Some(c) = self.checkpoint {
            v["checkpoint"] = json!(c.to_string());
        }
        if let Some(es) = &self.events {
            v["events"] = es
                .iter()
                .map(|e| {
                    let (ty, body) = match &e.spec {
                        Spec::Call { src, chain, dest, hash } => (
                            "gateway::ContractCall".to_string(),
                            json!({"source_id": hex0(src), "destination_chain": chain, "destination_address": dest,
                                "payload_hash": hex0(hash), "payload": [1, 2]}),
                        ),
                        Spec::Set { ops, threshold } => (
                            "validators::OperatorshipTransferred".to_string(),
                            json!({"payload": bcs(ops, *threshold), "epoch": "1"}),
                        ),
                        Spec::Lookalike { module, name, src, hash } => (
                            format!("{module}::{name}"),
                            json!({"source_id": hex0(src), "destination_chain": "fantom", "destination_address": "0xdd",
                                "payload_hash": hex0(hash), "payload": []}),
                        ),
                        Spec::Torn => ("gateway::ContractCall".to_string(), json!({"source_id": 7})),
                    };
                    json!({"id": {"txDigest": bs58::encode(self.digest).into_string(), "eventSeq": e.seq.to_string()},
                        "type": format!("{}::{ty}", hex0(&e.at)), "parsedJson": body})
                })
                .collect();
        }
        v
    }
}
#[derive(Clone, Debug)]
struct Rpc(Arc<Mutex<Node>>);
#[async_trait]
impl JsonRpcClient for Rpc {
    type Error = ProviderError;
    async fn request<T, R>(&self, method: &str, params: T) -> Result<R, ProviderError>
    where
        T: Debug + Serialize + Send + Sync,
        R: DeserializeOwned + Send,
    {
        let p = serde_json::to_value(&params).map_err(ProviderError::SerdeJson)?;
        tokio::task::yield_now().await;
        let err = |m: &str| ProviderError::CustomError(m.to_string());
        let v = {
            let mut n = self.0.lock().unwrap();
            if n.down {
                return Err(err("unavailable"));
            }
            if p[1]["showEvents"] != true {
                n.bad_request = Some(format!("{method} {p}"));
            }
            let get = |d: &Value| -> Option<&Block> {
                let b: B32 = bs58::decode(d.as_str()?).into_vec().ok()?.try_into().ok()?;
                n.blocks.get(&b)
            };
            match method {
                "sui_getTransactionBlock" => get(&p[0]).map(|b| b.json()).ok_or_else(|| err("could not find the transaction"))?,
                "sui_multiGetTransactionBlocks" => {
                    let ds = p[0].as_array().ok_or_else(|| err("params"))?;
                    let mut u = ds.clone();
                    u.sort_by_key(|d| d.to_string());
                    u.dedup();
                    if u.len() != ds.len() {
                        return Err(err("the list of digests contains duplicates"));
                    }
                    // in no particular order; what is not known is given without a checkpoint
                    u.iter().map(|d| get(d).map(|b| b.json()).unwrap_or_else(|| json!({"digest": d}))).collect()
                }
                m => return Err(err(&format!("unexpected method {m}"))),
            }
        };
        serde_json::from_value(v).map_err(ProviderError::SerdeJson)
    }
}

struct S {
    rt: tokio::runtime::Runtime,
    node: Arc<Mutex<Node>>,
    gw: B32,
    vv: Vv,
    me: AccountId,
    height: u64,
    seen_h: watch::Sender<u64>,
    rx: watch::Receiver<u64>,
    cap: Cap,
}
#[derive(Clone, Debug)]
struct Q {
    m: Message,
    tx: B32,
    seq: u64,
    src: B32,
    readable: bool,
}
const DESTS: &[&str] = &["Ethereum", "avalanche", "Osmosis-6", "fantom", "ethereum-2"];
const P: &[&str] = &["C43"];
const D: &[&str] = &["C44", "C43"];

impl S {
    fn new(ep: &mut Ep) -> S {
        let gw = ep.bytes::<32>();
        let a = contract(ep);
        let expiry = ep.range(1, 20);
        let vv = Vv::new(a, &recase(ep, "sui"), &hex0(&gw), expiry, 1);
        let height = ep.range(1, 1000);
        let (seen_h, rx) = watch::channel(height);
        S { rt: rt(), node: Default::default(), gw, vv, me: account(ep), height, seen_h, rx, cap: Cap::default() }
    }
    fn rpc(&self) -> JsonRpc<Rpc> {
        JsonRpc::new(Rpc(self.node.clone()))
    }
    fn mh(&self) -> SuiMsgHandler<JsonRpc<Rpc>, Cap> {
        SuiMsgHandler::new(tm(&self.me), tm(&self.vv.addr), self.rpc(), self.cap.clone(), self.rx.clone())
    }
    fn wh(&self) -> SuiSetHandler<JsonRpc<Rpc>, Cap> {
        SuiSetHandler::new(tm(&self.me), tm(&self.vv.addr), self.rpc(), self.cap.clone(), self.rx.clone())
    }
    fn mine(&mut self, ep: &mut Ep) {
        for _ in 0..ep.range(1, 3) {
            let digest = if ep.chance(10) {
                let mut b = ep.bytes::<32>();
                b[0] = 0;
                b
            } else {
                ep.bytes::<32>()
            };
            let checkpoint = if ep.chance(75) { Some(ep.below(1000)) } else { None };
            let mut es: Vec<Ev> = vec![];
            let mut seq = ep.below(3);
            for _ in 0..ep.range(1, 4) {
                let spec = match ep.below(10) {
                    0 => Spec::Torn,
                    1 => {
                        let (module, name) = *ep.pick(&[
                            ("gateway", "ContractCall2"),
                            ("gateway", "OperatorshipTransferred"),
                            ("validators", "ContractCall"),
                            ("gateways", "ContractCall"),
                        ]);
                        Spec::Lookalike { module, name, src: ep.bytes(), hash: ep.bytes() }
                    }
                    2..=4 => {
                        let k = if ep.big() { ep.big_size() } else { ep.range(1, 5) };
                        let ops = (0..k)
                            .map(|_| {
                                let w = if ep.chance(10) { u128::MAX } else { ep.range(1, 9) as u128 };
                                (ep.bytes::<33>().to_vec(), w)
                            })
                            .collect();
                        Spec::Set { ops, threshold: ep.range(1, 20) as u128 }
                    }
                    _ => match es.iter().rev().find(|l| matches!(l.spec, Spec::Call { .. })) {
                        Some(l) if ep.chance(40) => {
                            let mut s = l.spec.clone();
                            if let Spec::Call { src, chain, dest, hash } = &mut s {
                                match ep.below(4) {
                                    0 => *src = ep.bytes(),
                                    1 => *chain = ep.pick(DESTS).to_string(),
                                    2 => *dest = near(ep, dest),
                                    _ => *hash = ep.bytes(),
                                }
                            }
                            s
                        }
                        _ => Spec::Call {
                            src: ep.bytes(),
                            chain: ep.pick(DESTS).to_string(),
                            dest: hex0(&ep.bytes::<20>()),
                            hash: ep.bytes(),
                        },
                    },
                };
                let at = if ep.chance(85) { self.gw } else { ep.bytes() };
                es.push(Ev { at, seq, spec });
                seq += ep.range(1, 2);
            }
            let events = if ep.chance(95) { Some(es) } else { None };
            self.node.lock().unwrap().blocks.insert(digest, Block { digest, checkpoint, events });
        }
    }
    fn pick(&self, ep: &mut Ep) -> Option<(Block, Ev)> {
        let n = self.node.lock().unwrap();
        let all: Vec<_> = n.blocks.values().filter(|b| b.events.is_some()).collect();
        if all.is_empty() {
            return None;
        }
        let b = (*ep.pick(&all)).clone();
        let e = ep.pick(b.events.as_ref().unwrap()).clone();
        Some((b, e))
    }
    fn question(&self, ep: &mut Ep) -> Option<Q> {
        let (b, e) = self.pick(ep)?;
        let (mut src, mut chain, mut dest, mut hash) = match &e.spec {
            Spec::Call { src, chain, dest, hash } => (*src, chain.clone(), dest.clone(), *hash),
            Spec::Lookalike { src, hash, .. } => (*src, "fantom".to_string(), "0xdd".to_string(), *hash),
            _ => (ep.bytes(), "fantom".to_string(), "0xdd".to_string(), ep.bytes()),
        };
        let (mut tx, mut seq) = (b.digest, e.seq);
        match ep.below(20) {
            0 => src = ep.bytes(),
            1 => chain = ep.pick(DESTS).to_string(),
            2 => dest = near(ep, &dest),
            3 => hash[ep.below(32) as usize] ^= 1 << ep.below(8),
            4 => seq += ep.range(1, 3),
            5 => seq = seq.saturating_sub(1),
            6 => seq += 1 << 32,
            7 => tx = ep.bytes(),
            8 => chain = recase(ep, &chain),
            9 => src = b.digest,
            _ => {}
        }
        if dest.is_empty() || dest.contains('~') {
            dest = "0xdd".into();
        }
        let mut readable = true;
        let mut id = format!("{}:{seq}", bs58::encode(tx).into_string());
        let mut s = hex0(&src);
        if ep.chance(6) {
            readable = false;
            match ep.below(4) {
                0 => id = format!("{}:{seq}", hex0(&tx)),
                1 => id = format!("1{id}"),
                2 => s = hex0(&src[..20]),
                _ => s = "cosmos1qqqq".into(),
            }
        }
        Some(Q { m: msg(&recase(ep, "sui"), &id, &s, &chain, &dest, hash), tx, seq, src, readable })
    }
    fn event(&self, tx: &B32, seq: u64) -> Option<Ev> {
        let n = self.node.lock().unwrap();
        let b = n.blocks.get(tx)?;
        b.checkpoint?;
        b.events.as_ref()?.iter().find(|e| e.seq == seq && e.at == self.gw).cloned()
    }
    fn expect(&self, q: &Q) -> bool {
        q.readable
            && match self.event(&q.tx, q.seq).map(|e| e.spec) {
                Some(Spec::Call { src, chain, dest, hash }) => {
                    src == q.src
                        && q.m.destination_chain.to_string() == chain.to_lowercase()
                        && q.m.destination_address.to_string() == dest
                        && q.m.payload_hash == hash
                }
                _ => false,
            }
    }
}

pub fn drive(ep: &mut Ep) -> R {
    let mut s = S::new(ep);
    s.mine(ep);
    let n = if ep.thorough { ep.range(6, 24) } else { ep.range(5, 14) };
    for _ in 0..n {
        match ep.weighted(&[4, 2, 8, 4, 2]) {
            0 => {
                s.mine(ep);
                ep.step("transactions on sui");
            }
            1 => {
                s.height += ep.range(1, 6);
                let _ = s.seen_h.send(s.height);
                ep.step(format!("axelar is at {}", s.height));
            }
            2 => poll(ep, &mut s, false)?,
            3 => poll(ep, &mut s, true)?,
            _ => {
                let mut nd = s.node.lock().unwrap();
                nd.down = ep.chance(30);
                ep.step(format!("the node is down: {}", nd.down));
            }
        }
        ep.settle()?;
    }
    Ok(())
}

fn poll(ep: &mut Ep, s: &mut S, set: bool) -> R {
    let in_ = ep.chance(88);
    let mut ws: Vec<AccountId> = (0..ep.range(1, 3)).map(|_| account(ep)).collect();
    if in_ {
        ws.push(s.me.clone());
    }
    s.vv.set_active(&ws);
    let h = s.height;
    // what is asked, and what an honest answer is
    let mut qs: Vec<Q> = vec![];
    let mut exp_set = false;
    let mut known_tx = true;
    let ask = if set {
        let Some((b, e)) = s.pick(ep) else { return Ok(()) };
        let Spec::Set { mut ops, mut threshold } = e.spec else { return Ok(()) };
        let (mut tx, mut seq) = (b.digest, e.seq);
        let mut readable = true;
        let mut wide = None;
        match ep.below(20) {
            0 => threshold += 1,
            1 => threshold = threshold.saturating_sub(1),
            2 => ops[0].1 = ops[0].1.wrapping_sub(1),
            3 => {
                ops.pop();
            }
            4 => ops.push((ep.bytes::<33>().to_vec(), 1)),
            5 => ops.reverse(),
            6 => ops[0].0[32] ^= 1,
            7 => {
                ops[0].0.pop();
            }
            8 => seq += ep.range(1, 4),
            9 => tx = ep.bytes(),
            10 => {
                // as the weight on chain but for what does not fit in 128 bits
                readable = false;
                wide = Some(Uint256::from(1u128) + Uint256::from(u128::MAX));
            }
            _ => {}
        }
        let mut id = format!("{}:{seq}", bs58::encode(tx).into_string());
        if ep.chance(4) {
            readable = false;
            id = format!("{}:{seq}", hex0(&tx));
        }
        known_tx = s.node.lock().unwrap().blocks.contains_key(&tx) || !readable;
        exp_set = readable
            && matches!(s.event(&tx, seq).map(|e| e.spec), Some(Spec::Set { ops: o, threshold: t }) if o == ops && t == threshold);
        let jops: Vec<(HexBinary, Uint256)> = ops
            .iter()
            .map(|o| (HexBinary::from(o.0.clone()), Uint256::from(o.1) + wide.unwrap_or_default()))
            .collect();
        json!({"verify_worker_set": {"message_id": id,
            "new_operators": {"weights_by_addresses": jops, "threshold": Uint256::from(threshold)}}})
    } else {
        for _ in 0..if ep.big() { 40 } else { ep.range(1, 4) } {
            if let Some(q) = s.question(ep) {
                if !qs.iter().any(|x| x.m.cc_id == q.m.cc_id) {
                    qs.push(q);
                }
            }
        }
        if qs.is_empty() {
            return Ok(());
        }
        json!({"verify_messages": {"messages": qs.iter().map(|q| q.m.clone()).collect::<Vec<_>>()}})
    };
    ep.step(format!("{ask} at {h}"));
    let evs = match s.vv.exec(h, "anyone", ask) {
        Ok(e) => e,
        Err(e) => {
            ep.note(format!("refused: {e}"));
            return Ok(());
        }
    };
    let kind = if set { "wasm-worker_set_poll_started" } else { "wasm-messages_poll_started" };
    let Some(ev) = evs.iter().find(|e| e.kind == kind) else { return Ok(()) };
    let exp: Vec<bool> = if set {
        vec![exp_set]
    } else {
        polled_ids(ev)
            .iter()
            .map(|id| qs.iter().find(|q| q.m.cc_id.id.to_string() == *id).map(|q| s.expect(q)).unwrap_or(false))
            .collect()
    };
    let parsed = read_event(ev);
    let expires = h + s.vv.expiry;
    if ep.chance(25) {
        let x = match ep.below(3) {
            0 => expires - 1,
            1 => expires,
            _ => expires + ep.below(5),
        };
        let _ = s.seen_h.send(x);
    }
    let known_h = *s.rx.borrow();
    let (o, other) = if set {
        let o = run(&s.rt, s.mh().handle(&parsed));
        let n = s.cap.take().len();
        (run(&s.rt, s.wh().handle(&parsed)), (o, n))
    } else {
        let o = run(&s.rt, s.wh().handle(&parsed));
        let n = s.cap.take().len();
        (run(&s.rt, s.mh().handle(&parsed)), (o, n))
    };
    let sent = s.cap.take();
    let _ = s.seen_h.send(s.height);
    ep.note(format!("in={in_} known height {known_h}, expires {expires} -> {o:?}, {} sent", sent.len()));
    ep.check(other == (Out::Ok, 0), D, "acted-on-foreign-event", || format!("the handler of the other kind of poll: {other:?}"));
    let bad = s.node.lock().unwrap().bad_request.take();
    ep.check(bad.is_none(), P, "blind-request", || format!("events were not asked for: {bad:?}"));
    if !in_ || known_h >= expires {
        ep.count("ignored");
        ep.check(o == Out::Ok && sent.is_empty(), D, "acted-on-foreign-event", || {
            format!("participant: {in_}, height {known_h} of {expires}: {o:?}, {} sent", sent.len())
        });
        return ep.settle();
    }
    ep.check(!matches!(o, Out::Panic(_)), P, "panic", || format!("{o:?}"));
    if s.node.lock().unwrap().down || !known_tx {
        ep.count("node silent");
        for a in &sent {
            let bad = exec_of(a).and_then(|x| votes_of(&x.2)).map(|v| v.1.contains(&true)).unwrap_or(true);
            ep.check(!bad, P, "voted-blind", || "voted 'succeeded' without an answer from the node".into());
        }
        return ep.settle();
    }
    ep.check(o == Out::Ok && sent.len() == 1, D, "poll-not-answered", || format!("{o:?}, {} transactions", sent.len()));
    for a in &sent {
        let Some((from, to, v, funds)) = exec_of(a) else {
            ep.fail(D, "not-a-vote", format!("broadcast {a:?}"));
            continue;
        };
        ep.check(from == s.me.to_string() && to == s.vv.addr.to_string() && funds == 0, D, "vote-misaddressed", || {
            format!("vote from {from} to {to}")
        });
        let Some((_, votes)) = votes_of(&v) else {
            ep.fail(D, "not-a-vote", format!("broadcast {v}"));
            continue;
        };
        ep.check(votes.len() == exp.len(), D, "vote-count", || format!("{} votes for {}", votes.len(), exp.len()));
        for (i, (got, want)) in votes.iter().zip(&exp).enumerate() {
            ep.count(match (set, *want) {
                (false, true) => "present",
                (false, false) => "absent",
                (true, true) => "present set",
                (true, false) => "absent set",
            });
            ep.check(got == want, P, if *got { "false-report" } else { "missed-event" }, || {
                format!("voted {got} for item {i} of {:?}; node: {:?}", parsed, s.node.lock().unwrap().blocks)
            });
            ep.seen(P, &(set, *want, known_h % 4, exp.len(), i, format!("{parsed:?}")));
        }
        ep.settle()?;
        let me = s.me.to_string();
        let r = s.vv.exec(h + s.vv.expiry - 1, &me, v.clone());
        ep.check(r.is_ok(), D, "vote-refused", || format!("the verifier refused the vote {v}: {r:?}"));
        ep.count("votes");
    }
    ep.settle()
}
