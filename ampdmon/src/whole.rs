//! The daemon as a whole, with the commands that set it up: real configuration, state file, subscription, handlers,
//! broadcast queue and client, over a played node and tofnd, and a real multisig contract that executes what is broadcast.
use crate::blocks::{url, Scratch};
use crate::core::*;
use crate::net::{Chain, Sent};
use crate::rig::*;
use crate::sign::{key, public, Mood, Ms, Tofnd};
use ampd::commands::{bond_worker, daemon, declare_chain_support, register_public_key, worker_address};
use ampd::config::Config;
use cosmos_sdk_proto::cosmos::auth::v1beta1::{BaseAccount, QueryAccountRequest, QueryAccountResponse};
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
use cosmos_sdk_proto::cosmos::tx::v1beta1::{
    BroadcastTxRequest, BroadcastTxResponse, GetTxRequest, GetTxResponse, SimulateRequest, SimulateResponse, TxRaw,
};
use cosmos_sdk_proto::ChainApi;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::Body;
use cosmrs::AccountId;
use k256::ecdsa::SigningKey;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tendermint::abci;
use tendermint_rpc::endpoint::{block, block_results};
use tendermint_rpc::server::{register, unregister, Node};
use tokio::time::{sleep, timeout, Instant};
use tonic::Status;

const P: &[&str] = &["C49"];
/// signals reach every daemon of the process
static ALONE: Mutex<()> = Mutex::new(());

/// a message executed on the chain
#[derive(Clone, Debug)]
struct Done {
    from: String,
    to: String,
    msg: Value,
    funds: Vec<(u128, String)>,
}
struct Net {
    chain: Chain,
    ms: Ms,
    registry: String,
    done: Vec<Done>,
    codes: BTreeMap<String, u32>,
    blocks: BTreeMap<u64, Vec<abci::Event>>,
    height: u64,
    /// of the node: every request fails from this height on
    fails_at: u64,
    /// transactions fail
    refuse: bool,
    wrong: Vec<String>,
}
impl Net {
    fn play(&mut self, body: &Body) -> Result<Vec<Done>, String> {
        let mut v = vec![];
        for m in &body.messages {
            let (from, to, msg, _) = exec_of(m).ok_or("not a contract call")?;
            let raw: MsgExecuteContract = serde_json::from_slice(&m.value).map_err(|e| e.to_string())?;
            if to == self.ms.addr.to_string() {
                self.ms.exec(self.height, &from, msg.clone())?;
            } else if to == self.registry {
                serde_json::from_value::<service_registry::msg::ExecuteMsg>(msg.clone()).map_err(|e| e.to_string())?;
            } else {
                return Err("no such contract".into());
            }
            let funds = raw.funds.iter().map(|c| (c.amount, c.denom.to_string())).collect();
            v.push(Done { from, to, msg, funds });
        }
        Ok(v)
    }
}
struct Api(Arc<Mutex<Net>>);
impl ChainApi for Api {
    fn broadcast_tx(&self, r: BroadcastTxRequest) -> Result<BroadcastTxResponse, Status> {
        let mut n = self.0.lock().unwrap();
        let raw: TxRaw = serde_json::from_slice(&r.tx_bytes).map_err(|e| Status::internal(e.to_string()))?;
        let (body, auth) = Chain::read(&raw).ok_or_else(|| Status::internal("tx"))?;
        if n.refuse {
            return Err(Status::unavailable("broadcast"));
        }
        let wrong = n.chain.examine(&raw, &body, &auth);
        let hash = format!("HASH{}", n.codes.len() + 1);
        if let Some(w) = &wrong {
            n.wrong.push(w.clone());
            return Err(Status::internal(w.clone()));
        }
        let from = auth.signer_infos[0].public_key.unwrap().account_id("axelar").unwrap().to_string();
        n.chain.accounts.get_mut(&from).unwrap().1 += 1;
        let backup = n.ms.save();
        let code = match n.play(&body) {
            Ok(v) => {
                n.done.extend(v);
                0
            }
            Err(e) => {
                n.ms.load(backup);
                n.wrong.push(format!("failed: {e}"));
                5
            }
        };
        n.codes.insert(hash.clone(), code);
        n.chain.sent.push(Sent { body, auth, mode: r.mode, hash: hash.clone(), wrong, raw });
        Ok(BroadcastTxResponse { tx_response: Some(TxResponse { txhash: hash, ..Default::default() }) })
    }
    fn simulate(&self, r: SimulateRequest) -> Result<SimulateResponse, Status> {
        let mut n = self.0.lock().unwrap();
        let raw: TxRaw = serde_json::from_slice(&r.tx_bytes).map_err(|e| Status::internal(e.to_string()))?;
        let (body, _) = Chain::read(&raw).ok_or_else(|| Status::internal("tx"))?;
        let backup = n.ms.save();
        let r = n.play(&body);
        n.ms.load(backup);
        r.map_err(Status::internal)?;
        let gas = 100 * body.messages.len() as u64;
        Ok(SimulateResponse { gas_info: Some(GasInfo { gas_wanted: gas, gas_used: gas }), result: None })
    }
    fn get_tx(&self, r: GetTxRequest) -> Result<GetTxResponse, Status> {
        let n = self.0.lock().unwrap();
        let code = *n.codes.get(&r.hash).ok_or_else(|| Status::not_found("tx"))?;
        Ok(GetTxResponse { tx: None, tx_response: Some(TxResponse { txhash: r.hash, code, ..Default::default() }) })
    }
    fn account(&self, r: QueryAccountRequest) -> Result<QueryAccountResponse, Status> {
        use cosmos_sdk_proto::traits::MessageExt;
        let n = self.0.lock().unwrap();
        let Some((account_number, sequence)) = n.chain.accounts.get(&r.address).copied() else {
            return Err(Status::not_found("account"));
        };
        let a = BaseAccount { address: r.address, account_number, sequence };
        Ok(QueryAccountResponse { account: Some(a.to_any().unwrap()) })
    }
}
struct Sim {
    net: Arc<Mutex<Net>>,
    base: u64,
    last: u64,
    t0: Instant,
    seen: Mutex<Option<u64>>,
}
impl Sim {
    fn tip(&self) -> Result<u64, tendermint_rpc::Error> {
        let now = (Instant::now() - self.t0).as_millis() as u64;
        let h = (self.base + now / 1000).min(self.last);
        let mut n = self.net.lock().unwrap();
        n.height = n.height.max(h);
        if h >= n.fails_at {
            return Err(tendermint_rpc::Error("unavailable".into()));
        }
        Ok(h)
    }
}
impl Node for Sim {
    fn latest_block(&self) -> Result<block::Response, tendermint_rpc::Error> {
        let h = self.tip()?;
        self.seen.lock().unwrap().get_or_insert(h);
        let mut r = block::Response::default();
        r.block.header.height = h.try_into().unwrap();
        Ok(r)
    }
    fn block_results(&self, height: u64) -> Result<block_results::Response, tendermint_rpc::Error> {
        if height > self.tip()? {
            return Err(tendermint_rpc::Error("no such block".into()));
        }
        let evs = self.net.lock().unwrap().blocks.get(&height).cloned().unwrap_or_default();
        Ok(block_results::Response {
            height: height.try_into().unwrap(),
            begin_block_events: None,
            txs_results: Some(vec![block_results::DeliverTx { code: 0, events: evs }]),
            end_block_events: None,
        })
    }
}

struct Session {
    id: u64,
    height: u64,
    /// the worker taking part
    who: Option<String>,
}

pub fn drive(ep: &mut Ep) -> R {
    let dir = Scratch::new();
    let file = dir.0.join("state.json");
    let (node, grpc, tofnd_url) = (url(), url(), url());
    let ms = Ms::new(contract(ep), 1_000_000);
    let registry = contract(ep);
    let account_keys: Vec<SigningKey> = (0..ep.range(1, 2)).map(|_| key(ep)).collect();
    let ms_keys: Vec<SigningKey> = (0..ep.range(1, 2)).map(|_| key(ep)).collect();
    let uid = ep.pick(&["axelar", "worker"]).to_string();
    let tofnd = Arc::new(Mutex::new(Tofnd {
        keys: BTreeMap::from([(uid.clone(), vec![account_keys[0].clone()]), (ms.addr.to_string(), vec![ms_keys[0].clone()])]),
        asked: vec![],
        mood: Mood::Good,
    }));
    let tt = tofnd.clone();
    tonic::server::register(&tofnd_url, Arc::new(move |r| tt.lock().unwrap().answer(r)));
    let address = |k: &SigningKey| -> AccountId {
        let pk: ampd::access::PublicKey = (*k.verifying_key()).into();
        pk.account_id("axelar").expect("address")
    };
    let multisig = ms.addr.clone();
    let net = Arc::new(Mutex::new(Net {
        chain: Chain { id: "axelar-dojo-1".into(), ..Default::default() },
        ms,
        registry: registry.to_string(),
        done: vec![],
        codes: BTreeMap::new(),
        blocks: BTreeMap::new(),
        height: 100,
        fails_at: u64::MAX,
        refuse: false,
        wrong: vec![],
    }));
    for k in &account_keys {
        net.lock().unwrap().chain.accounts.insert(address(k).to_string(), (ep.below(1000), ep.below(1000)));
    }
    cosmos_sdk_proto::register(&grpc, Arc::new(Api(net.clone())));
    let mut handlers = vec![json!({"type": "MultisigSigner", "cosmwasm_contract": multisig.to_string()})];
    for (kind, name) in [("EvmMsgVerifier", "Ethereum"), ("EvmMsgVerifier", "Polygon"), ("EvmWorkerSetVerifier", "Ethereum")] {
        if ep.chance(30) {
            handlers.push(json!({"type": kind, "cosmwasm_contract": contract(ep).to_string(),
                "chain_name": name, "chain_rpc_url": "http://localhost:7545/"}));
        }
    }
    ep.shuffle(&mut handlers);
    let signer_on = handlers.len() == 1 || ep.chance(90);
    if !signer_on {
        handlers.retain(|h| h["type"] != "MultisigSigner");
    }
    let batch = ep.range(50, 700);
    let every = ep.range(1, 9) * 1000;
    let config = json!({
        "tm_jsonrpc": node, "tm_grpc": grpc, "event_buffer_cap": 1000, "handlers": handlers,
        "broadcast": {"chain_id": "axelar-dojo-1", "tx_fetch_interval": 0, "tx_fetch_max_retries": 2, "gas_adjustment": 1.5,
            "gas_price": "0.007uaxl", "batch_gas_limit": batch, "queue_cap": 50, "broadcast_interval": every},
        "tofnd_config": {"url": tofnd_url, "party_uid": "party", "key_uid": uid},
        "service_registry": {"cosmwasm_contract": registry.to_string()},
    });
    let config = || serde_json::from_value::<Config>(config.clone()).expect("config");
    let prover = contract(ep).to_string();
    net.lock().unwrap().ms.exec(1, "governance", json!({"authorize_caller": {"contract_address": prover}})).expect("authorise");

    // the key of the account is fixed once the daemon has run
    let mut fixed: Option<SigningKey> = None;
    let mut registered: Option<SigningKey> = None;
    let mut sessions: Vec<Session> = vec![];
    // blocks the daemon is to have handled, from here on
    let mut from: Option<u64> = None;
    let mut tip = 100u64;
    let n = ep.range(4, 12);
    for step in 0..=n {
        let current = fixed.clone().unwrap_or_else(|| tofnd.lock().unwrap().keys[&uid].last().unwrap().clone());
        let me = address(&current);
        let last_one = step == n;
        match if last_one { 5 } else { ep.weighted(&[1, 3, 1, 1, 4, 4, 1]) } {
            0 => {
                // which address
                let o = rt_io().block_on(worker_address::run(config().tofnd_config, &file));
                ep.step(format!("worker-address: {o:?}"));
                ep.count("addresses");
                let ok = o.as_ref().is_ok_and(|o| o.as_ref().is_some_and(|s| s.contains(me.as_ref())));
                ep.check(ok, P, "wrong-address", || format!("{o:?}, expected {me}"));
            }
            k @ 1..=3 => {
                let refuse = ep.chance(15);
                let down = ep.chance(10);
                let (before, sent_before) = {
                    let mut n = net.lock().unwrap();
                    n.refuse = refuse;
                    (n.done.len(), n.codes.len())
                };
                tofnd.lock().unwrap().mood = if down { *ep.pick(&[Mood::Refuses, Mood::Down, Mood::Empty, Mood::Garbage]) } else { Mood::Good };
                let rt = rt_io();
                let (name, o, want, to, funds) = match k {
                    1 => {
                        let o = rt.block_on(register_public_key::run(config(), &file));
                        let k = tofnd.lock().unwrap().keys[&multisig.to_string()].last().unwrap().clone();
                        let want = json!({"register_public_key": {"public_key": {"ecdsa": hex::encode(public(&k))}}});
                        ("register-public-key", o, want, multisig.to_string(), vec![])
                    }
                    2 => {
                        let amount = if ep.chance(30) { u128::MAX - ep.below(3) as u128 } else { ep.range(0, 1 << 40) as u128 };
                        let service = ep.pick(&["validators", "s"]).to_string();
                        let denom = ep.pick(&["uaxl", "utest"]).to_string();
                        let args = bond_worker::Args { service_name: service.clone().try_into().unwrap(), amount, denom: denom.clone() };
                        let o = rt.block_on(bond_worker::run(config(), &file, args));
                        ("bond-worker", o, json!({"bond_worker": {"service_name": service}}), registry.to_string(), vec![(amount, denom)])
                    }
                    _ => {
                        let chains: Vec<&str> = ["ethereum", "polygon", "sui", "Avalanche"].into_iter().filter(|_| ep.chance(50)).collect();
                        let args = declare_chain_support::Args {
                            service_name: "validators".to_string().try_into().unwrap(),
                            chains: chains.iter().map(|c| c.parse().unwrap()).collect(),
                        };
                        let o = rt.block_on(declare_chain_support::run(config(), &file, args));
                        let want = json!({"declare_chain_support": {"service_name": "validators",
                            "chains": chains.iter().map(|c| c.to_lowercase()).collect::<Vec<_>>()}});
                        ("declare-chain-support", o, want, registry.to_string(), vec![])
                    }
                };
                ep.step(format!("{name} (chain refuses: {refuse}, tofnd fails: {down}): {}", match &o {
                    Ok(o) => format!("{o:?}"),
                    Err(e) => format!("{:?}", e.current_context()),
                }));
                let (done, sent) = {
                    let mut n = net.lock().unwrap();
                    n.refuse = false;
                    (n.done[before..].to_vec(), n.codes.len() - sent_before)
                };
                tofnd.lock().unwrap().mood = Mood::Good;
                ep.seen(P, &(name, refuse, down, fixed.is_some(), registered.is_some()));
                // without a signer configured there is nothing to register with
                if refuse || down || (k == 1 && !signer_on) {
                    ep.count("commands that fail");
                    ep.check(o.is_err() && sent == 0, P, "failure-hidden", || format!("{name}: {o:?}, {sent} transactions"));
                    ep.settle()?;
                    continue;
                }
                ep.count("commands");
                let wrong = net.lock().unwrap().wrong.clone();
                ep.check(o.is_ok() && sent == 1 && done.len() == 1, P, "command-fails", || format!("{name}: {o:?}, {sent} transactions, {wrong:?}"));
                ep.settle()?;
                let d = &done[0];
                let loose = |v: &Value| v.to_string().to_lowercase();
                ep.check(d.from == me.to_string() && d.to == to && d.funds == funds, P, "command-form", || format!("{d:?}"));
                ep.check(loose(&d.msg) == loose(&want), P, if k == 1 { "wrong-key-registered" } else { "command-form" }, || format!("{} instead of {want}", d.msg));
                if k == 1 {
                    registered = tofnd.lock().unwrap().keys[&multisig.to_string()].last().cloned();
                }
            }
            4 => {
                // sessions to come
                for _ in 0..ep.range(1, 6) {
                    let h = tip + ep.range(1, 40);
                    let mut members: BTreeMap<String, Value> = BTreeMap::new();
                    for _ in 0..ep.range(1, 3) {
                        members.insert(account(ep).to_string(), json!({"ecdsa": hex::encode(public(&key(ep)))}));
                    }
                    let mine = ep.chance(75) && registered.is_some();
                    if mine {
                        members.insert(me.to_string(), json!({"ecdsa": hex::encode(public(registered.as_ref().unwrap()))}));
                    }
                    let signers: BTreeMap<&String, Value> =
                        members.iter().map(|(a, k)| (a, json!({"address": a, "weight": "1", "pub_key": k}))).collect();
                    // never completed, so that a signature can be given at any time
                    let set = json!({"signers": signers, "threshold": members.len().to_string(), "created_at": ep.below(1 << 40)});
                    let typed: multisig::worker_set::WorkerSet = serde_json::from_value(set.clone()).expect("set");
                    let mut n = net.lock().unwrap();
                    n.ms.exec(h, &prover, json!({"register_worker_set": {"worker_set": set}})).expect("register");
                    let digest = ep.bytes::<32>();
                    let start = json!({"start_signing_session": {"worker_set_id": typed.id(), "msg": hex::encode(digest),
                        "chain_name": "ethereum", "sig_verifier": null}});
                    let evs = n.ms.exec(h, &prover, start).expect("start");
                    let ev = evs.iter().find(|e| e.kind == "wasm-signing_started").expect("event").clone();
                    let id = attr_of(&ev, "session_id").parse::<u64>().expect("session");
                    n.blocks.entry(h).or_default().extend(evs);
                    drop(n);
                    ep.step(format!("session {id} at {h}, {}", if mine { "mine" } else { "of others" }));
                    sessions.push(Session { id, height: h, who: mine.then(|| me.to_string()) });
                }
            }
            5 => {
                // the daemon
                let how = if last_one { 0 } else { ep.weighted(&[6, 2, 2]) };
                let stop = if last_one { 80_000 } else { ep.range(1, 30_000) };
                let before = std::fs::read(&file).ok();
                {
                    let mut n = net.lock().unwrap();
                    n.fails_at = if how == 2 { tip + ep.range(0, 20) } else { u64::MAX };
                    n.done.clear();
                }
                let guard = ALONE.lock().unwrap_or_else(|e| e.into_inner());
                let rt = rt_io();
                let (end, seen, now) = rt.block_on(async {
                    let sim = Arc::new(Sim { net: net.clone(), base: tip, last: u64::MAX >> 2, t0: Instant::now(), seen: Mutex::new(None) });
                    register(&node, sim.clone());
                    let killer = tokio::spawn(async move {
                        sleep(Duration::from_millis(stop)).await;
                        if how == 0 {
                            signal_hook_registry::deliver(libc_sig(stop));
                        }
                    });
                    let limit = if how == 1 { Duration::from_millis(stop) } else { Duration::from_secs(1_000_000) };
                    let r = timeout(limit, daemon::run(config(), &file)).await;
                    killer.abort();
                    unregister(&node);
                    let now = (Instant::now() - sim.t0).as_millis() as u64;
                    let s = *sim.seen.lock().unwrap();
                    (r, s, now)
                });
                drop(rt);
                drop(guard);
                ep.step(format!("the daemon from {tip}, {} at {stop}: after {now} ms {}", ["stopped", "killed", "its node failing"][how],
                    match &end { Err(_) => "killed".into(), Ok(Ok(_)) => "in order".to_string(), Ok(Err(e)) => format!("{:?}", e.current_context()) }));
                ep.count(["orderly runs", "crashes", "runs ended by the node"][how]);
                tip += now / 1000 + 1;
                let (wrong, fails_at, done) = {
                    let n = net.lock().unwrap();
                    (n.wrong.clone(), n.fails_at, n.done.clone())
                };
                ep.check(wrong.is_empty(), P, "tx-invalid", || format!("{wrong:?}"));
                match how {
                    0 => ep.check(matches!(end, Ok(Ok(_))) && now <= stop + 20_000, P, "no-orderly-end", || format!("after {now}: {end:?}")),
                    2 => ep.check(matches!(end, Ok(Err(_))), P, "failure-hidden", || format!("{end:?}")),
                    _ => true,
                };
                ep.settle()?;
                if how == 2 && fails_at <= tip {
                    tip = tip.max(fails_at);
                }
                for d in &done {
                    let id = d.msg["submit_signature"]["session_id"].as_str().and_then(|s| s.parse::<u64>().ok());
                    let s = sessions.iter().find(|s| Some(s.id) == id);
                    ep.count("signatures");
                    // a block of a run that was killed may come again, but no signature counts twice
                    ep.check(d.from == me.to_string() && s.is_some_and(|s| s.who.as_ref() == Some(&d.from)), P, "uninvited", || format!("{d:?}"));
                }
                let after = std::fs::read(&file).ok();
                if matches!(end, Err(_)) {
                    ep.check(after == before, P, "state-while-running", || format!("{before:?} {after:?}"));
                } else if seen.is_some() {
                    // it keeps to the account it has begun with
                    if fixed.is_none() {
                        fixed = Some(current.clone());
                    }
                    let st = ampd::state::load(&file);
                    let ok = st.as_ref().is_ok_and(|s| s.pub_key == Some((*fixed.as_ref().unwrap().verifying_key()).into()));
                    ep.check(ok, P, "account-forgotten", || format!("{st:?}"));
                    if from.is_none() && st.as_ref().is_ok_and(|s| s.min_handler_block_height().is_some()) {
                        from = seen;
                    }
                    // every block up to here is done
                    let upto = st.ok().and_then(|s| s.min_handler_block_height().map(|h| h.value())).unwrap_or(0);
                    if let (Some(from), true) = (from, signer_on) {
                        let n = net.lock().unwrap();
                        // the node may answer the first two requests one block apart
                        for s in sessions.iter().filter(|s| s.who == Some(me.to_string()) && s.height > from + 1 && s.height <= upto) {
                            let signed = n.ms.signers_of(s.id).contains(&me.to_string());
                            ep.check(signed, P, "session-unsigned", || format!("session {} at {}, handled {from} to {upto}", s.id, s.height));
                            ep.count("sessions looked at");
                        }
                    }
                    if last_one {
                        ep.check(handlers.is_empty() || upto + 10 >= tip, P, "fell-behind", || format!("at {upto}, the chain at {tip}"));
                    }
                    ep.seen(P, &("run", how, from.is_some(), handlers.len(), sessions.len().min(8), done.len().min(6), batch / 100));
                }
                ep.settle()?;
            }
            _ => {
                // new keys at tofnd
                let mut t = tofnd.lock().unwrap();
                if ep.chance(50) && account_keys.len() > 1 {
                    t.keys.insert(uid.clone(), account_keys.clone());
                }
                if ms_keys.len() > 1 {
                    t.keys.insert(multisig.to_string(), ms_keys.clone());
                }
                ep.step("keys may have changed");
            }
        }
        ep.settle()?;
    }
    cosmos_sdk_proto::unregister(&grpc);
    tonic::server::unregister(&tofnd_url);
    Ok(())
}
fn libc_sig(n: u64) -> i32 {
    // interrupt or terminate
    if n % 2 == 0 {
        2
    } else {
        15
    }
}
fn rt_io() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
