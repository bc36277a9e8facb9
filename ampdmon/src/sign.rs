//! Signatures of the daemon: sessions are started by the real multisig contract, tofnd is played, and what the daemon asks
//! to broadcast is given back to the contract.
use crate::core::*;
use crate::rig::*;
use ampd::access::{EventHandler, MultisigClient, SharableEcdsaClient, SignHandler, Url};
use cosmrs::AccountId;
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockStorage};
use cosmwasm_std::{from_binary, Addr, Api, Deps, DepsMut, Querier, QuerierResult, QuerierWrapper, SystemError, SystemResult, Uint256, Uint64};
use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use multisig::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tendermint::abci;
use tonic::server::{Reply, Request};
use tonic::Status;

const P: &[&str] = &["C45"];

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Mood {
    Good,
    Refuses,
    Empty,
    Garbage,
    Down,
}
/// a tofnd server with its keys by uid
pub struct Tofnd {
    pub keys: BTreeMap<String, Vec<SigningKey>>,
    pub asked: Vec<Request>,
    pub mood: Mood,
}
pub fn key(ep: &mut Ep) -> SigningKey {
    loop {
        if let Ok(k) = SigningKey::from_slice(&ep.bytes::<32>()) {
            return k;
        }
    }
}
pub fn public(k: &SigningKey) -> Vec<u8> {
    k.verifying_key().to_encoded_point(true).as_bytes().to_vec()
}
impl Tofnd {
    pub fn answer(&mut self, r: Request) -> Result<Reply, Status> {
        self.asked.push(r.clone());
        match self.mood {
            Mood::Good => {}
            Mood::Refuses => return Ok(Reply::Error("no".into())),
            Mood::Empty => return Ok(Reply::Empty),
            Mood::Garbage => return Ok(Reply::Bytes(vec![0x30, 1, 2])),
            Mood::Down => return Err(Status::unavailable("down")),
        }
        match r {
            Request::Keygen { key_uid, .. } => match self.keys.get(&key_uid).and_then(|k| k.last()) {
                Some(k) => Ok(Reply::Bytes(public(k))),
                None => Ok(Reply::Error("no such key".into())),
            },
            Request::Sign { key_uid, msg_to_sign, pub_key, .. } => {
                let k = self.keys.get(&key_uid).and_then(|ks| ks.iter().find(|k| public(k) == pub_key));
                match k {
                    Some(k) => {
                        let s: Signature = k.sign_prehash(&msg_to_sign).map_err(|e| Status::internal(e.to_string()))?;
                        Ok(Reply::Bytes(s.to_der().as_bytes().to_vec()))
                    }
                    None => Ok(Reply::Error("no such key".into())),
                }
            }
        }
    }
}

/// the real multisig contract
pub struct Ms {
    storage: MockStorage,
    pub addr: AccountId,
}
fn api() -> &'static dyn Api {
    static A: std::sync::OnceLock<MockApi> = std::sync::OnceLock::new();
    A.get_or_init(MockApi::default)
}
/// nothing to ask on the chain
struct Nobody;
impl Querier for Nobody {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() })
    }
}
impl Ms {
    fn deps(&mut self) -> DepsMut<'_> {
                DepsMut { storage: &mut self.storage, api: api(), querier: QuerierWrapper::new(&Nobody) }
    }
    pub fn new(addr: AccountId, grace: u64) -> Ms {
        let mut ms = Ms { storage: MockStorage::new(), addr };
        let init = InstantiateMsg { governance_address: "governance".into(), rewards_address: "rewards".into(), grace_period: grace };
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(ms.addr.to_string());
        multisig::contract::instantiate(ms.deps(), env, mock_info("admin", &[]), init).expect("instantiate");
        ms
    }
    pub fn exec(&mut self, height: u64, sender: &str, m: Value) -> Result<Vec<abci::Event>, String> {
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(self.addr.to_string());
        env.block.height = height;
        let m: ExecuteMsg = serde_json::from_value(m).map_err(|e| e.to_string())?;
        let backup = self.storage.range_all();
        match multisig::contract::execute(self.deps(), env, mock_info(sender, &[]), m) {
            Ok(r) => Ok(r.events.iter().map(|e| wasm_event(self.addr.as_ref(), e)).collect()),
            Err(e) => {
                self.storage = restore(backup);
                Err(format!("{e:?}"))
            }
        }
    }
    fn look(&self) -> Deps<'_> {
        Deps { storage: &self.storage, api: api(), querier: QuerierWrapper::new(&Nobody) }
    }
    pub fn save(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.storage.range_all()
    }
    pub fn load(&mut self, b: Vec<(Vec<u8>, Vec<u8>)>) {
        self.storage = restore(b);
    }
    /// who has signed
    pub fn signers_of(&self, session: u64) -> Vec<String> {
        let q = QueryMsg::GetMultisig { session_id: Uint64::from(session) };
        let b = multisig::contract::query(self.look(), mock_env(), q).expect("query");
        let m: multisig::msg::Multisig = from_binary(&b).expect("multisig");
        m.signers.into_iter().filter(|s| s.1.is_some()).map(|s| s.0.address.to_string()).collect()
    }
    /// completed at all?
    fn completed(&self, session: u64) -> bool {
        let q = QueryMsg::GetMultisig { session_id: Uint64::from(session) };
        let b = multisig::contract::query(self.look(), mock_env(), q).expect("query");
        let m: multisig::msg::Multisig = from_binary(&b).expect("multisig");
        !matches!(m.state, multisig::types::MultisigState::Pending)
    }
}

#[derive(Clone, Debug)]
enum Key {
    Mine(SigningKey),
    Ecdsa(SigningKey),
    Ed([u8; 32]),
    /// well formed, but no point of the curve
    Off(Vec<u8>),
}
impl Key {
    fn json(&self) -> Value {
        match self {
            Key::Mine(k) | Key::Ecdsa(k) => json!({"ecdsa": hex::encode(public(k))}),
            Key::Ed(b) => json!({"ed25519": hex::encode(b)}),
            Key::Off(b) => json!({"ecdsa": hex::encode(b)}),
        }
    }
}
struct Set {
    id: String,
    members: BTreeMap<String, (Key, u128)>,
}

pub fn drive(ep: &mut Ep) -> R {
    let rt = rt();
    let mut ms = Ms::new(contract(ep), 1_000_000);
    let me = account(ep);
    let party = "party".to_string();
    let url = format!("http://tofnd-{}.test:50051/", hex::encode(ep.bytes::<8>()));
    let uid = ms.addr.to_string();
    let mine: Vec<SigningKey> = (0..3).map(|_| key(ep)).collect();
    let other_uid = contract(ep).to_string();
    let decoy = key(ep);
    let tofnd = Arc::new(Mutex::new(Tofnd {
        keys: BTreeMap::from([(uid.clone(), mine.clone()), (other_uid, vec![decoy.clone()])]),
        asked: vec![],
        mood: Mood::Good,
    }));
    let t = tofnd.clone();
    tonic::server::register(&url, Arc::new(move |r| t.lock().unwrap().answer(r)));
    let client = rt
        .block_on(MultisigClient::connect(party.clone(), url.parse::<Url>().expect("url")))
        .map_err(|_| Stop)?;
    let cap = Cap::default();
    let handler = SignHandler::new(tm(&me), tm(&ms.addr), cap.clone(), SharableEcdsaClient::new(client));
    let prover = contract(ep).to_string();
    ms.exec(1, "governance", json!({"authorize_caller": {"contract_address": prover}})).expect("authorise");

    let mut sets: Vec<Set> = vec![];
    let mut height = ep.range(1, 1000);
    let n = if ep.thorough { ep.range(6, 30) } else { ep.range(5, 16) };
    let mut old: Vec<abci::Event> = vec![];
    for _ in 0..n {
        height += ep.below(4);
        match ep.weighted(&[4, 9, 3, 2, 2]) {
            0 => {
                // a worker set
                let mut members: BTreeMap<String, (Key, u128)> = BTreeMap::new();
                let k = if ep.big() { ep.big_size().min(80) } else { ep.range(1, 5) };
                for _ in 0..k {
                    let a = account(ep).to_string();
                    let key = match ep.below(8) {
                        0 => Key::Ed(ep.bytes()),
                        1 => {
                            let mut b = vec![2];
                            b.extend(ep.bytes::<32>());
                            if VerifyingKey::from_sec1_bytes(&b).is_err() {
                                Key::Off(b)
                            } else {
                                Key::Ecdsa(key(ep))
                            }
                        }
                        _ => Key::Ecdsa(key(ep)),
                    };
                    members.insert(a, (key, ep.range(1, 5) as u128));
                }
                let mut how = "without";
                if ep.chance(80) {
                    let key = match ep.below(10) {
                        0 => Key::Ed(ep.bytes()),
                        1 => Key::Ecdsa(decoy.clone()),
                        _ => Key::Mine(ep.pick(&mine).clone()),
                    };
                    how = match key {
                        Key::Mine(_) => "with",
                        _ => "with a foreign key of",
                    };
                    members.insert(me.to_string(), (key, ep.range(1, 5) as u128));
                }
                let total: u128 = members.values().map(|m| m.1).sum();
                let threshold = ep.range(1, total as u64);
                let signers: BTreeMap<&String, Value> = members
                    .iter()
                    .map(|(a, (k, w))| (a, json!({"address": a, "weight": w.to_string(), "pub_key": k.json()})))
                    .collect();
                let set = json!({"signers": signers, "threshold": threshold.to_string(), "created_at": height});
                let typed: multisig::worker_set::WorkerSet = serde_json::from_value(set.clone()).expect("set");
                debug_assert!(typed.threshold > Uint256::zero());
                let id = typed.id();
                ms.exec(height, &prover, json!({"register_worker_set": {"worker_set": set}})).expect("register");
                ep.step(format!("a set of {} {how} me", members.len()));
                sets.push(Set { id, members });
            }
            1 => {
                if sets.is_empty() {
                    continue;
                }
                let set = &sets[ep.below(sets.len() as u64) as usize];
                let digest = if ep.chance(10) { [ep.below(3) as u8; 32] } else { ep.bytes::<32>() };
                let start = json!({"start_signing_session": {"worker_set_id": set.id, "msg": hex::encode(digest),
                    "chain_name": *ep.pick(&["ethereum", "42", "Osmosis-6", "true"]), "sig_verifier": null}});
                let evs = ms.exec(height, &prover, start).expect("start");
                let ev = evs.iter().find(|e| e.kind == "wasm-signing_started").expect("event").clone();
                let session = attr_of(&ev, "session_id").parse::<u64>().expect("session");
                ep.step(format!("session {session} over a set of {}", set.members.len()));
                // others may have completed it before the event is handled
                if ep.chance(25) {
                    for (a, (k, _)) in &set.members {
                        if let Key::Ecdsa(k) = k {
                            if a == me.as_ref() {
                                continue;
                            }
                            let s: Signature = k.sign_prehash(&digest).expect("sign");
                            let m = json!({"submit_signature": {"session_id": session.to_string(), "signature": hex::encode(s.to_bytes())}});
                            let _ = ms.exec(height, a, m);
                        }
                    }
                }
                let mood = match ep.below(12) {
                    0 => Mood::Refuses,
                    1 => Mood::Empty,
                    2 => Mood::Garbage,
                    3 => Mood::Down,
                    _ => Mood::Good,
                };
                let mut again = if ep.chance(15) { 2 } else { 1 };
                let own = set.members.get(me.as_ref()).map(|m| m.0.clone());
                let odd = set.members.values().filter(|m| matches!(m.0, Key::Off(_))).count();
                let mut submitted = false;
                while again > 0 {
                    again -= 1;
                    {
                        let mut t = tofnd.lock().unwrap();
                        t.mood = mood;
                        t.asked.clear();
                    }
                    let o = run(&rt, handler.handle(&read_event(&ev)));
                    let asked = tofnd.lock().unwrap().asked.clone();
                    let sent = cap.take();
                    ep.check(!matches!(o, Out::Panic(_)), P, "panic", || format!("{o:?}"));
                    ep.seen(P, &(mood, own.as_ref().map(std::mem::discriminant), odd.min(3), set.members.len(), submitted, digest[0] < 3));
                    let pk = match &own {
                        None => {
                            ep.count("not mine");
                            ep.check(o == Out::Ok, P, "others-session-fails", || {
                                format!("a session I take no part in ({odd} keys in it are no curve points): {o:?}")
                            });
                            ep.check(asked.is_empty() && sent.is_empty(), P, "signed-uninvited", || format!("{asked:?} {sent:?}"));
                            continue;
                        }
                        Some(Key::Mine(k)) => k,
                        Some(k) => {
                            // a key tofnd does not have: there is nothing to submit
                            ep.count("foreign key");
                            ep.check(sent.is_empty(), P, "submitted-with-foreign-key", || format!("{k:?} {sent:?}"));
                            continue;
                        }
                    };
                    let want = Request::Sign {
                        key_uid: uid.clone(),
                        msg_to_sign: digest.to_vec(),
                        party_uid: party.clone(),
                        pub_key: public(pk),
                    };
                    if !ep.check(asked == vec![want.clone()], P, "sign-request", || {
                        format!("asked tofnd for {asked:?}, expected {want:?} ({odd} keys in the set are no curve points): {o:?}")
                    }) {
                        break;
                    }
                    if mood != Mood::Good {
                        ep.count("tofnd fails");
                        ep.check(sent.is_empty(), P, "submitted-without-signature", || format!("{mood:?}: {sent:?}"));
                        ep.check(o != Out::Ok, P, "failure-hidden", || format!("{mood:?}"));
                        continue;
                    }
                    ep.count("signed");
                    ep.check(o == Out::Ok && sent.len() == 1, P, "not-submitted", || format!("{o:?} {sent:?}"));
                    let Some((from, to, m, funds)) = sent.first().and_then(exec_of) else {
                        ep.fail(P, "submission-form", format!("{sent:?}"));
                        break;
                    };
                    ep.check(from == me.to_string() && to == uid && funds == 0, P, "submission-form", || format!("{from} {to} {funds}"));
                    let got = m["submit_signature"].clone();
                    ep.check(got["session_id"] == json!(session.to_string()), P, "session-id", || m.to_string());
                    let sig = hex::decode(got["signature"].as_str().unwrap_or("")).unwrap_or_default();
                    let good = Signature::from_slice(&sig)
                        .ok()
                        .map_or(false, |s| pk.verifying_key().verify_prehash(&digest, &s).is_ok());
                    ep.check(good, P, "bad-signature", || format!("{m} by {}", hex::encode(public(pk))));
                    let done = ms.completed(session);
                    let r = ms.exec(height, &from, m.clone());
                    // within the grace period signatures are still accepted; a second one of the same worker is not
                    ep.check(r.is_ok() != submitted, P, "contract-refuses", || {
                        format!("completed before: {done}, submitted before: {submitted}: {r:?}")
                    });
                    submitted = true;
                }
                old.push(ev);
            }
            2 => {
                // what another contract emits is none of its business, in whatever form
                let Some(ev) = old.last() else { continue };
                let other = if ep.chance(50) { contract(ep).to_string() } else { uid.to_uppercase() };
                let mut attrs: Vec<(String, String)> = plain_attrs(ev);
                for a in attrs.iter_mut() {
                    if a.0 == "_contract_address" {
                        a.1 = other.clone();
                    }
                }
                if ep.chance(20) {
                    attrs.retain(|a| a.0 != "_contract_address");
                }
                let i = ep.below(attrs.len() as u64) as usize;
                match ep.below(4) {
                    0 if attrs[i].0 != "_contract_address" => attrs[i].1 = "junk".into(),
                    1 if attrs[i].0 != "_contract_address" => {
                        attrs.remove(i);
                    }
                    _ => {}
                }
                foreign(ep, &rt, &handler, &cap, &tofnd, &node_event("wasm-signing_started", &attrs), "foreign-event")?;
                ep.step("an event of another contract");
            }
            3 => {
                // other events of the contract
                let evs = match ep.below(2) {
                    0 => ms.exec(height, me.as_ref(), json!({"register_public_key": {"public_key": Key::Mine(mine[0].clone()).json()}})),
                    _ => ms.exec(height, "governance", json!({"authorize_caller": {"contract_address": prover}})),
                }
                .expect("event");
                for e in &evs {
                    foreign(ep, &rt, &handler, &cap, &tofnd, e, "other-event")?;
                }
                ep.step("another event of the contract");
            }
            _ => {
                let e = match ep.below(2) {
                    0 => events::Event::block_begin(height as u32),
                    _ => events::Event::block_end(height as u32),
                };
                let o = run(&rt, handler.handle(&e));
                ep.check(o == Out::Ok && cap.take().is_empty(), P, "block-event", || format!("{o:?}"));
                ep.step("a block");
            }
        }
        ep.settle()?;
    }
    tonic::server::unregister(&url);
    Ok(())
}

fn foreign(
    ep: &mut Ep,
    rt: &tokio::runtime::Runtime,
    h: &SignHandler<Cap>,
    cap: &Cap,
    tofnd: &Arc<Mutex<Tofnd>>,
    e: &abci::Event,
    sig: &str,
) -> R {
    {
        let mut t = tofnd.lock().unwrap();
        t.mood = Mood::Good;
        t.asked.clear();
    }
    let o = run(rt, h.handle(&read_event(e)));
    let asked = tofnd.lock().unwrap().asked.clone();
    let sent = cap.take();
    ep.count("passed over");
    ep.check(o == Out::Ok && asked.is_empty() && sent.is_empty(), P, sig, || format!("{:?}: {o:?} {asked:?} {sent:?}", plain_attrs(e)));
    Ok(())
}
