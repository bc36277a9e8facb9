//! Transactions: the real broadcast client over a played chain that checks them as a chain does, and a played tofnd.
use crate::core::*;
use crate::rig::*;
use crate::sign::{key, public, Mood, Tofnd};
use ampd::access::{account as account_of, BroadcastClientBuilder, BroadcastConfig, Broadcaster, MultisigClient, SharableEcdsaClient, Url};
use cosmos_sdk_proto::cosmos::auth::v1beta1::query_client::QueryClient;
use cosmos_sdk_proto::cosmos::auth::v1beta1::{BaseAccount, QueryAccountRequest, QueryAccountResponse};
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
use cosmos_sdk_proto::cosmos::tx::v1beta1::service_client::ServiceClient;
use cosmos_sdk_proto::cosmos::tx::v1beta1::{
    BroadcastTxRequest, BroadcastTxResponse, GetTxRequest, GetTxResponse, SimulateRequest, SimulateResponse, TxRaw,
};
use cosmos_sdk_proto::ChainApi;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::{AuthInfo, Body, Msg, SignDoc};
use cosmrs::Any;
use futures::FutureExt;
use k256::ecdsa::signature::hazmat::PrehashVerifier;
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use serde_json::json;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::server::Request;
use tonic::Status;

const P: &[&str] = &["C47"];

/// a transaction as the chain received it
#[derive(Clone, Debug)]
pub struct Sent {
    pub body: Body,
    pub auth: AuthInfo,
    pub mode: i32,
    pub hash: String,
    /// what is wrong with it, if anything
    pub wrong: Option<String>,
    pub raw: TxRaw,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Success,
    Failure(u32),
    Nothing,
    NotFound,
    Down,
}
/// how the chain treats the next transaction
#[derive(Clone, Debug)]
pub struct Mishap {
    pub sim_fails: bool,
    pub sim_empty: bool,
    pub gas: u64,
    pub refused: bool,
    pub empty: bool,
    pub answers: Vec<Answer>,
}
#[derive(Default)]
pub struct Chain {
    pub id: String,
    pub accounts: BTreeMap<String, (u64, u64)>,
    pub account_mood: u8,
    pub sims: Vec<(Body, AuthInfo)>,
    pub sent: Vec<Sent>,
    pub asked: Vec<String>,
    pub plan: Option<Mishap>,
    pub queries: Vec<String>,
    pub next: u64,
}
impl Chain {
    pub fn read(raw: &TxRaw) -> Option<(Body, AuthInfo)> {
        Some((serde_json::from_slice(&raw.body_bytes).ok()?, serde_json::from_slice(&raw.auth_info_bytes).ok()?))
    }
    /// what a chain checks before anything else
    pub fn examine(&self, raw: &TxRaw, body: &Body, auth: &AuthInfo) -> Option<String> {
        let [info] = auth.signer_infos.as_slice() else { return Some("not one signer".into()) };
        let Some(pk) = info.public_key else { return Some("no public key".into()) };
        let Ok(addr) = pk.account_id("axelar") else { return Some("no address".into()) };
        let Some((number, seq)) = self.accounts.get(addr.as_ref()) else { return Some(format!("no account {addr}")) };
        if info.sequence != *seq {
            return Some(format!("sequence {} instead of {seq}", info.sequence));
        }
        let doc = SignDoc {
            body_bytes: raw.body_bytes.clone(),
            auth_info_bytes: raw.auth_info_bytes.clone(),
            chain_id: self.id.clone(),
            account_number: *number,
        };
        let digest = Sha256::digest(doc.into_bytes().unwrap());
        let good = raw.signatures.len() == 1
            && Signature::from_slice(&raw.signatures[0]).is_ok_and(|s| {
                VerifyingKey::from_sec1_bytes(&pk.to_bytes()).is_ok_and(|k| k.verify_prehash(&digest, &s).is_ok())
            });
        if !good {
            return Some("signature".into());
        }
        let stranger = body.messages.iter().filter_map(exec_of).any(|m| m.0 != addr.to_string());
        if stranger {
            return Some("a message of another sender".into());
        }
        None
    }
}
pub struct Api(pub Arc<Mutex<Chain>>);
impl ChainApi for Api {
    fn broadcast_tx(&self, r: BroadcastTxRequest) -> Result<BroadcastTxResponse, Status> {
        let mut c = self.0.lock().unwrap();
        let raw: TxRaw = serde_json::from_slice(&r.tx_bytes).map_err(|e| Status::internal(e.to_string()))?;
        let (body, auth) = Chain::read(&raw).ok_or_else(|| Status::internal("tx"))?;
        let wrong = c.examine(&raw, &body, &auth);
        c.next += 1;
        let hash = format!("HASH{}", c.next);
        c.sent.push(Sent { body, auth, mode: r.mode, hash: hash.clone(), wrong, raw });
        let plan = c.plan.clone();
        if plan.as_ref().is_some_and(|p| p.refused) {
            return Err(Status::unavailable("broadcast"));
        }
        if plan.as_ref().is_some_and(|p| p.empty) {
            return Ok(BroadcastTxResponse { tx_response: None });
        }
        Ok(BroadcastTxResponse { tx_response: Some(TxResponse { txhash: hash, ..Default::default() }) })
    }
    fn simulate(&self, r: SimulateRequest) -> Result<SimulateResponse, Status> {
        let mut c = self.0.lock().unwrap();
        let raw: TxRaw = serde_json::from_slice(&r.tx_bytes).map_err(|e| Status::internal(e.to_string()))?;
        let x = Chain::read(&raw).ok_or_else(|| Status::internal("tx"))?;
        c.sims.push(x);
        let (fails, empty, gas) = c.plan.as_ref().map_or((false, false, 50), |p| (p.sim_fails, p.sim_empty, p.gas));
        if fails {
            return Err(Status::unavailable("simulate"));
        }
        let info = GasInfo { gas_wanted: gas.wrapping_add(99), gas_used: gas };
        Ok(SimulateResponse { gas_info: (!empty).then_some(info), result: None })
    }
    fn get_tx(&self, r: GetTxRequest) -> Result<GetTxResponse, Status> {
        let mut c = self.0.lock().unwrap();
        let n = c.asked.len();
        c.asked.push(r.hash.clone());
        let a = c.plan.as_ref().map_or(Answer::Success, |p| p.answers.get(n).cloned().unwrap_or(Answer::NotFound));
        let resp = |code| Ok(GetTxResponse { tx: None, tx_response: Some(TxResponse { txhash: r.hash.clone(), code, ..Default::default() }) });
        match a {
            Answer::Success => resp(0),
            Answer::Failure(n) => resp(n),
            Answer::Nothing => Ok(GetTxResponse { tx: None, tx_response: None }),
            Answer::NotFound => Err(Status::not_found("tx")),
            Answer::Down => Err(Status::unavailable("get")),
        }
    }
    fn account(&self, r: QueryAccountRequest) -> Result<QueryAccountResponse, Status> {
        use cosmos_sdk_proto::traits::MessageExt;
        let mut c = self.0.lock().unwrap();
        c.queries.push(r.address.clone());
        match c.account_mood {
            1 => return Err(Status::unavailable("account")),
            2 => return Ok(QueryAccountResponse { account: None }),
            3 => return Ok(QueryAccountResponse { account: Some(Any { type_url: "x".into(), value: vec![1, 2, 3] }) }),
            _ => {}
        }
        let Some((account_number, sequence)) = c.accounts.get(&r.address).copied() else {
            return Err(Status::not_found("account"));
        };
        let a = BaseAccount { address: r.address, account_number, sequence };
        Ok(QueryAccountResponse { account: Some(a.to_any().unwrap()) })
    }
}

fn fee_ok(fee: &cosmrs::tx::Fee, gas: u64, adj: f64, price: f64, denom: &str) -> Result<(), String> {
    let want = gas as f64 * adj;
    let limit = fee.gas_limit as f64;
    let eps = 1.0 + want * 1e-9;
    if (limit - want).abs() > eps || limit < want.floor() - want * 1e-9 {
        return Err(format!("gas limit {} for {gas} used, adjusted by {adj}", fee.gas_limit));
    }
    let [c] = fee.amount.as_slice() else { return Err(format!("{:?}", fee.amount)) };
    let pay = limit * price;
    let a = c.amount as f64;
    if c.denom.as_ref() != denom || a < pay * (1.0 - 1e-9) || a > pay * (1.0 + 1e-9) + 1.0 {
        return Err(format!("{c:?} for {} gas at {price}{denom}", fee.gas_limit));
    }
    if fee.payer.is_some() || fee.granter.is_some() {
        return Err("somebody else pays".into());
    }
    Ok(())
}

pub fn drive(ep: &mut Ep) -> R {
    let rt = rt();
    let (u, t) = (crate::blocks::url(), crate::blocks::url());
    let mine = key(ep);
    let decoy = key(ep);
    let pk: ampd::access::PublicKey = (*mine.verifying_key()).into();
    let me = pk.account_id("axelar").expect("address");
    let uid = ep.pick(&["axelar", "k", ""]).to_string();
    let tofnd = Arc::new(Mutex::new(Tofnd {
        keys: BTreeMap::from([(uid.clone(), vec![decoy, mine.clone()])]),
        asked: vec![],
        mood: Mood::Good,
    }));
    let tt = tofnd.clone();
    tonic::server::register(&t, Arc::new(move |r| tt.lock().unwrap().answer(r)));
    let number = if ep.chance(20) { ep.below(3) } else { ep.range(0, 1 << 40) };
    let seq = if ep.chance(20) { ep.below(3) } else { ep.range(0, 1 << 40) };
    let id = ep.pick(&["axelar-dojo-1", "devnet", "x"]).to_string();
    let chain = Arc::new(Mutex::new(Chain { id: id.clone(), ..Default::default() }));
    chain.lock().unwrap().accounts.insert(me.to_string(), (number, seq));
    let other = account(ep).to_string();
    chain.lock().unwrap().accounts.insert(other, (number + 1, seq + 7));
    cosmos_sdk_proto::register(&u, Arc::new(Api(chain.clone())));
    let adj = *ep.pick(&[1.0f64, 1.2, 1.5, 2.0, 3.75]);
    let price = *ep.pick(&[0.00005f64, 0.007, 1.0, 25.5, 0.0]);
    let retries = ep.range(0, 6);
    let cfg: BroadcastConfig = serde_json::from_value(json!({
        "chain_id": id, "tx_fetch_interval": 0, "tx_fetch_max_retries": retries, "gas_adjustment": adj,
        "gas_price": format!("{price}uaxl"), "batch_gas_limit": 1000, "queue_cap": 10, "broadcast_interval": 1000,
    }))
    .expect("config");
    let made = rt.block_on(async {
        let s = ServiceClient::connect(u.clone()).await.expect("service");
        let q = QueryClient::connect(u.clone()).await.expect("query");
        let m = MultisigClient::connect("party".into(), t.parse::<Url>().expect("url")).await.expect("tofnd");
        (s, q, m)
    });
    let (service, query, multisig) = made;
    let signer = SharableEcdsaClient::new(multisig);
    // the account it works for
    let mood = ep.below(6).saturating_sub(2) as u8;
    chain.lock().unwrap().account_mood = mood;
    let a = rt.block_on(account_of(query.clone(), &tm(&me)));
    ep.step(format!("account: {a:?}"));
    match (mood, &a) {
        (0, Ok(a)) => {
            ep.check((a.account_number, a.sequence) == (number, seq), P, "wrong-account", || format!("{a:?}"));
        }
        (0, Err(e)) => ep.fail(P, "no-account", format!("{e:?}")),
        (_, a) => {
            ep.check(a.is_err(), P, "account-invented", || format!("{a:?}"));
        }
    }
    chain.lock().unwrap().account_mood = 0;
    ep.settle()?;

    'client: for _ in 0..ep.range(1, 3) {
        let seq = chain.lock().unwrap().accounts[me.as_ref()].1;
        let mut b = BroadcastClientBuilder::default()
            .client(service.clone())
            .signer(signer.clone())
            .acc_number(number)
            .acc_sequence(seq)
            .pub_key((uid.clone(), pk))
            .config(cfg.clone())
            .build()
            .map_err(|_| Stop)?;
        for _ in 0..ep.range(1, 6) {
            let k = ep.below(5);
            let msgs: Vec<Any> = (0..k)
                .map(|_| {
                    MsgExecuteContract { sender: me.clone(), contract: contract(ep), msg: ep.bytes::<4>().map(|b| b'0' + b % 10).to_vec(), funds: vec![] }
                        .to_any()
                        .unwrap()
                })
                .collect();
            let n = ep.below(retries + 3);
            let mut answers: Vec<Answer> =
                (0..n).map(|_| ep.pick(&[Answer::Nothing, Answer::NotFound, Answer::Down]).clone()).collect();
            answers.push(if ep.chance(80) { Answer::Success } else { Answer::Failure(ep.range(1, 100) as u32) });
            let plan = Mishap {
                sim_fails: ep.chance(5),
                sim_empty: ep.chance(5),
                gas: match ep.below(5) {
                    0 => ep.below(3),
                    1 => ep.range(1 << 30, 1 << 44),
                    _ => ep.range(10_000, 3_000_000),
                },
                refused: ep.chance(5),
                empty: ep.chance(5),
                answers,
            };
            let mood = match ep.below(40) {
                0 => Mood::Refuses,
                1 => Mood::Empty,
                2 => Mood::Garbage,
                3 => Mood::Down,
                _ => Mood::Good,
            };
            let estimate_only = ep.chance(25);
            {
                let mut c = chain.lock().unwrap();
                c.plan = Some(plan.clone());
                c.sims.clear();
                c.sent.clear();
                c.asked.clear();
                let mut t = tofnd.lock().unwrap();
                t.mood = mood;
                t.asked.clear();
            }
            let seq = chain.lock().unwrap().accounts[me.as_ref()].1;
            ep.step(format!(
                "{} {k} messages at sequence {seq}, tofnd {mood:?}, {plan:?}",
                if estimate_only { "estimate" } else { "broadcast" }
            ));
            let sim_ok = !plan.sim_fails && !plan.sim_empty;
            if estimate_only {
                let o = rt.block_on(AssertUnwindSafe(b.estimate_fee(msgs.clone())).catch_unwind());
                let c = chain.lock().unwrap();
                ep.check(c.sent.is_empty() && tofnd.lock().unwrap().asked.is_empty(), P, "estimate-acts", || format!("{:?}", c.sent));
                match o {
                    Err(e) => ep.fail(P, "panic", crate::world::panic_text(e)),
                    Ok(Ok(f)) => {
                        ep.count("estimates");
                        ep.check(sim_ok, P, "fee-invented", || format!("{f:?}"));
                        let r = fee_ok(&f, plan.gas, adj, price, "uaxl");
                        ep.check(r.is_ok(), P, "fee", || r.unwrap_err());
                        ep.check(c.sims.iter().any(|s| s.0.messages == msgs && s.1.signer_infos[0].sequence == seq), P, "simulated-something-else", || {
                            format!("{:?}", c.sims)
                        });
                    }
                    Ok(Err(e)) => {
                        ep.check(!sim_ok, P, "no-fee", || format!("{e:?}"));
                    }
                }
                drop(c);
                ep.settle()?;
                continue;
            }
            let o = rt.block_on(AssertUnwindSafe(b.broadcast(msgs.clone())).catch_unwind());
            let (sims, sent, asked) = {
                let c = chain.lock().unwrap();
                (c.sims.clone(), c.sent.clone(), c.asked.clone())
            };
            let signs = tofnd.lock().unwrap().asked.clone();
            let o = match o {
                Ok(x) => x,
                Err(e) => {
                    ep.fail(P, "panic", crate::world::panic_text(e));
                    return ep.settle();
                }
            };
            ep.check(sims.iter().all(|s| s.0.messages == msgs), P, "simulated-something-else", || format!("{sims:?}"));
            let conf: usize = plan
                .answers
                .iter()
                .position(|a| matches!(a, Answer::Success | Answer::Failure(_)))
                .map_or(usize::MAX, |p| p + 1);
            let within = conf <= retries as usize + 1;
            let verdict = if !sim_ok {
                "simulation"
            } else if mood != Mood::Good {
                "signing"
            } else if plan.refused || plan.empty {
                "refused"
            } else if !within {
                "unconfirmed"
            } else if plan.answers.last() != Some(&Answer::Success) {
                "failed"
            } else {
                "success"
            };
            ep.seen(P, &(verdict, k, conf.min(9), retries, mood, adj as u64, (price * 10.0) as u64, plan.gas.ilog2_or(), seq < 3));
            ep.count(match verdict {
                "success" => "confirmed",
                "failed" => "executed and failed",
                "unconfirmed" => "unconfirmed",
                _ => "not sent",
            });
            // what was signed and sent
            ep.check(sent.len() == matches!(verdict, "refused" | "unconfirmed" | "failed" | "success") as usize, P, "sent-count", || {
                format!("{} transactions, {verdict}: {o:?}", sent.len())
            });
            ep.check(signs.len() == (verdict != "simulation") as usize, P, "sign-count", || format!("{signs:?}"));
            for s in &signs {
                let Request::Sign { key_uid, pub_key, party_uid, .. } = s else {
                    ep.fail(P, "not-a-signature-request", format!("{s:?}"));
                    continue;
                };
                ep.check(*key_uid == uid && *pub_key == public(&mine) && party_uid == "party", P, "wrong-key", || format!("{s:?}"));
            }
            for s in &sent {
                ep.check(s.wrong.is_none(), P, "tx-invalid", || s.wrong.clone().unwrap());
                ep.check(s.body.messages == msgs, P, "messages-differ", || format!("{:?} instead of {msgs:?}", s.body.messages));
                ep.check(s.mode == 2, P, "broadcast-mode", || s.mode.to_string());
                let r = fee_ok(&s.auth.fee, plan.gas, adj, price, "uaxl");
                ep.check(r.is_ok(), P, "fee", || r.unwrap_err());
                ep.check(asked.iter().all(|h| *h == s.hash), P, "asked-for-another", || format!("{asked:?} {}", s.hash));
                let _ = &s.raw;
            }
            let polls = match verdict {
                "unconfirmed" => retries as usize + 1,
                "failed" | "success" => conf,
                _ => 0,
            };
            ep.check(asked.len() == polls, P, "confirmations", || format!("asked {} times instead of {polls}", asked.len()));
            match (&o, verdict) {
                (Ok(r), "success") => {
                    ep.check(Some(&r.txhash) == sent.first().map(|s| &s.hash), P, "wrong-response", || format!("{r:?}"));
                }
                (Ok(_), v) => ep.fail(P, "failure-hidden", v.to_string()),
                (Err(e), "success") => ep.fail(P, "success-hidden", format!("{e:?}")),
                (Err(_), _) => {}
            }
            ep.settle()?;
            // what the chain makes of it
            let used = match verdict {
                "success" | "failed" => true,
                "unconfirmed" => ep.chance(50),
                _ => false,
            };
            if used {
                chain.lock().unwrap().accounts.get_mut(me.as_ref()).unwrap().1 += 1;
            }
            // the daemon ends with an error, and starts again with the account as it is then
            if matches!(verdict, "failed" | "unconfirmed") {
                continue 'client;
            }
        }
    }
    cosmos_sdk_proto::unregister(&u);
    tonic::server::unregister(&t);
    Ok(())
}
trait Log2 {
    fn ilog2_or(&self) -> u32;
}
impl Log2 for u64 {
    fn ilog2_or(&self) -> u32 {
        self.checked_ilog2().unwrap_or(0)
    }
}
