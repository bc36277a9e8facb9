//! C01, C39: the real router, gateways, verifiers, registry, rewards and multisig wired together. Everything that is
//! asserted about a message is derived from ballots and registry operations this driver itself carried out.
use crate::core::*;
use crate::gen::{self, Msg};
use crate::keys::Key;
use crate::voting::{majority, quorum};
use crate::world::*;
use cosmwasm_std::{coin, Addr, CosmosMsg, WasmMsg};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const SVC: &str = "validators";
const D: &str = "uaxl";
const MIN: u128 = 100;
/// named by every service, and of no authority
const SERVICE_CONTRACT: &str = "nowhere";
const REAL: &[&str] = &["ethereum", "sui", "avalanche"];
const EVIL: &str = "evil";

#[derive(Clone, Debug, Default)]
struct Wk {
    bonded: u128,
    unbonding: u128,
    auth: bool,
    chains: BTreeSet<String>,
}

#[derive(Clone, Debug)]
struct Poll {
    vv: usize,
    id: u64,
    items: Vec<Msg>,
    voters: BTreeSet<String>,
    quorum: u64,
    expires: u64,
    ballots: BTreeMap<String, Vec<usize>>,
    ended: bool,
}
impl Poll {
    fn yes(&self, i: usize) -> u64 {
        self.ballots.values().filter(|b| b.get(i) == Some(&0)).count() as u64
    }
}

#[derive(Clone)]
struct Vv {
    addr: Addr,
    chain: String,
    thr: (u64, u64),
    expiry: u64,
}

#[derive(Clone)]
struct Gw {
    addr: Addr,
    /// index of the voting verifier it relies on
    vv: usize,
    chain: String,
}

#[derive(Clone, Debug)]
struct Chain {
    gw: Addr,
    inc: bool,
    out: bool,
}

struct S {
    w: W,
    router: Addr,
    registry: Addr,
    rewards: Addr,
    ms: Addr,
    nexus: Addr,
    evilgw: Addr,
    evil: Stub,
    fake: Addr,
    router_gov: Addr,
    router_admin: Addr,
    registry_gov: Addr,
    rewards_gov: Addr,
    ms_gov: Addr,
    vvs: Vec<Vv>,
    gws: Vec<Gw>,
    /// every contract whose state must not move on refused calls
    all: Vec<Addr>,
    chains: BTreeMap<String, Chain>,
    workers: Vec<String>,
    wk: BTreeMap<String, Wk>,
    polls: Vec<Poll>,
    /// content that exists on the source chains, at most one per id
    truth: Vec<Msg>,
    /// everything anybody ever submits, forgeries included
    pool: Vec<Msg>,
    /// gateway -> what must be readable there
    avail: BTreeMap<String, BTreeMap<(String, String), Msg>>,
    callers: BTreeSet<String>,
    ex_callers: Vec<String>,
    set_id: String,
    services: BTreeSet<String>,
    router_evil_plan: Rc<RefCell<Vec<CosmosMsg>>>,
}

fn gateway_code() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    Box::new(ContractWrapper::new(
        ::gateway::contract::execute,
        ::gateway::contract::instantiate,
        ::gateway::contract::query,
    ))
}

fn new_vv(ep: &mut Ep, s: &mut S, chain: &str) -> usize {
    let thr = if ep.chance(50) { (2, 3) } else { majority(ep) };
    let expiry = ep.range(1, 12);
    let addr = s
        .w
        .install(
            Box::new(ContractWrapper::new(
                voting_verifier::contract::execute,
                voting_verifier::contract::instantiate,
                voting_verifier::contract::query,
            )),
            &json!({
                "service_registry_address": s.registry, "service_name": SVC, "source_gateway_address": "0xgateway",
                "voting_threshold": [thr.0.to_string(), thr.1.to_string()], "block_expiry": expiry,
                "confirmation_height": 3, "source_chain": chain, "rewards_address": s.rewards,
            }),
        )
        .expect("voting verifier");
    s.all.push(addr.clone());
    s.vvs.push(Vv { addr, chain: chain.into(), thr, expiry });
    s.vvs.len() - 1
}

fn new_gateway(ep: &mut Ep, s: &mut S, chain: &str) -> Addr {
    let old: Vec<usize> = (0..s.vvs.len()).filter(|i| s.vvs[*i].chain == chain).collect();
    let vv = if !old.is_empty() && ep.chance(60) { *ep.pick(&old) } else { new_vv(ep, s, chain) };
    let mut verifier = s.vvs[vv].addr.clone();
    if ep.chance(50) {
        verifier = s
            .w
            .install(
                Box::new(
                    ContractWrapper::new(
                        aggregate_verifier::contract::execute,
                        aggregate_verifier::contract::instantiate,
                        aggregate_verifier::contract::query,
                    )
                    .with_reply(aggregate_verifier::contract::reply),
                ),
                &json!({ "verifier_address": verifier }),
            )
            .expect("aggregate verifier");
        s.all.push(verifier.clone());
    }
    let g = s
        .w
        .install(gateway_code(), &json!({"verifier_address": verifier, "router_address": s.router}))
        .expect("gateway");
    s.all.push(g.clone());
    s.gws.push(Gw { addr: g.clone(), vv, chain: chain.into() });
    s.avail.insert(g.to_string(), BTreeMap::new());
    g
}

fn must(ep: &mut Ep, o: Out, what: &str) -> R {
    // setting the stage goes through the same operations that are under test
    if let Err(e) = o {
        ep.fail(&["C39"], "authority-refused", format!("{what}: {e}"));
    }
    ep.settle()
}

fn setup(ep: &mut Ep) -> S {
    let nw = if size(ep) == 1 { ep.range(12, 40) } else { ep.range(3, 7) };
    let workers: Vec<String> = (0..nw).map(|i| format!("worker{i}")).collect();
    let funds = workers.iter().map(|a| (addr(a), vec![coin(1_000_000, D)])).collect();
    let mut w = W::with_funds(funds);
    let (nexus, _) = w.stub();
    let (evilgw, evil) = w.stub();
    let (fakev, fakestub) = w.stub();
    // a verifier that vouches for anything
    fakestub.on_query(|q| {
        let l = q["is_verified"]["messages"].as_array().cloned().unwrap_or_default();
        Ok(Value::Array(l.iter().map(|m| json!([m["cc_id"], true])).collect()))
    });
    let names = ["routergov", "routeradmin", "registrygov", "rewardsgov", "multisiggov"];
    let mut auth: Vec<Addr> = names.iter().map(|n| addr(n)).collect();
    if ep.chance(25) {
        let (i, j) = (ep.below(5) as usize, ep.below(5) as usize);
        auth[i] = auth[j].clone();
    }
    let router = w
        .install(
            Box::new(ContractWrapper::new(
                connection_router::contract::execute,
                connection_router::contract::instantiate,
                connection_router::contract::query,
            )),
            &json!({"admin_address": auth[1], "governance_address": auth[0], "nexus_gateway": nexus}),
        )
        .expect("router");
    let registry = w
        .install(
            Box::new(ContractWrapper::new(
                service_registry::contract::execute,
                service_registry::contract::instantiate,
                service_registry::contract::query,
            )),
            &json!({"governance_account": auth[2]}),
        )
        .expect("registry");
    let rewards = w
        .install(
            Box::new(ContractWrapper::new(
                ::rewards::contract::execute,
                ::rewards::contract::instantiate,
                |_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: cosmwasm_std::Empty| {
                    cosmwasm_std::StdResult::Err(cosmwasm_std::StdError::generic_err("no queries"))
                },
            )),
            &json!({"governance_address": auth[3], "rewards_denom": D, "params": {
                "epoch_duration": "10", "rewards_per_epoch": "100", "participation_threshold": ["1", "2"]}}),
        )
        .expect("rewards");
    let ms = w
        .install(
            Box::new(ContractWrapper::new(
                ::multisig::contract::execute,
                ::multisig::contract::instantiate,
                ::multisig::contract::query,
            )),
            &json!({"governance_address": auth[4], "rewards_address": rewards, "grace_period": 3}),
        )
        .expect("multisig");
    let fake = w
        .install(gateway_code(), &json!({"verifier_address": fakev, "router_address": router}))
        .expect("fake gateway");
    let plan: Rc<RefCell<Vec<CosmosMsg>>> = Default::default();
    let p2 = plan.clone();
    evil.on_exec(move |_, _, _| {
        let mut r = StubReply::rec();
        r.msgs = std::mem::take(&mut *p2.borrow_mut());
        Ok(r)
    });
    S {
        all: vec![router.clone(), registry.clone(), rewards.clone(), ms.clone(), fake.clone()],
        w,
        router,
        registry,
        rewards,
        ms,
        nexus,
        evilgw,
        evil,
        fake,
        router_gov: auth[0].clone(),
        router_admin: auth[1].clone(),
        registry_gov: auth[2].clone(),
        rewards_gov: auth[3].clone(),
        ms_gov: auth[4].clone(),
        vvs: vec![],
        gws: vec![],
        chains: BTreeMap::new(),
        wk: workers.iter().map(|a| (a.clone(), Wk::default())).collect(),
        workers,
        polls: vec![],
        truth: vec![],
        pool: vec![],
        avail: BTreeMap::new(),
        callers: BTreeSet::new(),
        ex_callers: vec![],
        set_id: String::new(),
        services: [SVC.to_string()].into(),
        router_evil_plan: plan,
    }
}

fn service_json(name: &str) -> Value {
    json!({"register_service": {
        "service_name": name, "service_contract": SERVICE_CONTRACT, "min_num_workers": 0, "max_num_workers": 100,
        "min_worker_bond": MIN.to_string(), "bond_denom": D, "unbonding_period_days": 1, "description": "d"}})
}

fn stage(ep: &mut Ep, s: &mut S) -> R {
    let (reg, rg) = (s.registry.clone(), s.registry_gov.clone());
    let o = s.w.exec(&rg, &reg, &service_json(SVC), &[]);
    must(ep, o, "register service")?;
    let o = s.w.exec(&rg, &reg, &json!({"authorize_workers": {"workers": s.workers, "service_name": SVC}}), &[]);
    must(ep, o, "authorise workers")?;
    for a in s.workers.clone() {
        s.wk.get_mut(&a).unwrap().auth = true;
        if ep.chance(90) {
            let n = MIN + ep_amount(ep);
            bond(ep, s, &a, n)?;
        }
        let mut cs: Vec<&str> = REAL.iter().copied().filter(|_| ep.chance(85)).collect();
        ep.shuffle(&mut cs);
        declare(ep, s, &a, &cs)?;
    }
    let (ro, gov) = (s.router.clone(), s.router_gov.clone());
    let n = ep.range(2, 3) as usize;
    for c in &REAL[..n] {
        let g = new_gateway(ep, s, c);
        let o = s.w.exec(&gov, &ro, &json!({"register_chain": {"chain": c, "gateway_address": g}}), &[]);
        must(ep, o, "register chain")?;
        s.chains.insert(c.to_string(), Chain { gw: g, inc: false, out: false });
    }
    if ep.chance(60) {
        let g = s.evilgw.clone();
        let o = s.w.exec(&gov, &ro, &json!({"register_chain": {"chain": EVIL, "gateway_address": g}}), &[]);
        must(ep, o, "register chain")?;
        s.chains.insert(EVIL.to_string(), Chain { gw: g, inc: false, out: false });
    }
    // multisig: a worker set and an authorised caller
    let mut signers = serde_json::Map::new();
    for a in s.workers.iter().take(2) {
        let k = Key::ec(ep, false);
        signers.insert(a.clone(), json!({"address": a, "weight": "1", "pub_key": k.json()}));
    }
    let set = json!({"signers": signers, "threshold": "1", "created_at": 1});
    let typed: multisig::worker_set::WorkerSet = serde_json::from_value(set.clone()).expect("worker set");
    s.set_id = typed.id();
    let ms = s.ms.clone();
    let o = s.w.exec(&addr("anyone"), &ms, &json!({"register_worker_set": {"worker_set": set}}), &[]);
    must(ep, o, "register worker set")?;
    let mg = s.ms_gov.clone();
    let o = s.w.exec(&mg, &ms, &json!({"authorize_caller": {"contract_address": "prover"}}), &[]);
    must(ep, o, "authorise caller")?;
    s.callers.insert("prover".into());
    for _ in 0..if size(ep) == 2 { ep.range(40, 160) } else { ep.range(3, 6) } {
        invent(ep, s);
    }
    Ok(())
}

fn ep_amount(ep: &mut Ep) -> u128 {
    ep.below(50) as u128
}

fn bond(ep: &mut Ep, s: &mut S, a: &str, n: u128) -> R {
    let reg = s.registry.clone();
    let o = s.w.exec(&addr(a), &reg, &json!({"bond_worker": {"service_name": SVC}}), &[coin(n, D)]);
    ep.step(format!("{a} bonds {n}: {}", short(&o)));
    if o.is_ok() {
        let x = s.wk.get_mut(a).unwrap();
        x.bonded += n + x.unbonding;
        x.unbonding = 0;
    }
    Ok(())
}

fn declare(ep: &mut Ep, s: &mut S, a: &str, cs: &[&str]) -> R {
    let reg = s.registry.clone();
    let o = s.w.exec(&addr(a), &reg, &json!({"declare_chain_support": {"service_name": SVC, "chains": cs}}), &[]);
    ep.step(format!("{a} declares {cs:?}: {}", short(&o)));
    if o.is_ok() {
        let x = s.wk.get_mut(a).unwrap();
        x.chains.extend(cs.iter().map(|c| c.to_string()));
    }
    Ok(())
}

/// a message that happens on some source chain
fn invent(ep: &mut Ep, s: &mut S) {
    let names: Vec<String> = s.chains.keys().cloned().collect();
    let src = ep.pick(REAL).to_string();
    let dst = match ep.below(10) {
        0 => "axelarnet".to_string(),
        1 => src.clone(),
        _ => ep.pick(&names).clone(),
    };
    let mut m = gen::msg(ep, &src, &dst);
    m.id = format!("0x{}:{}", hex::encode(ep.bytes::<32>()), ep.below(4));
    if !s.truth.is_empty() && ep.chance(25) {
        // the id of another chain's message, or the next event of the same transaction
        let t = ep.pick(&s.truth).clone();
        m.id = if ep.chance(50) {
            t.id
        } else {
            let (tx, _) = t.id.split_once(':').unwrap();
            format!("{tx}:{}", ep.below(20))
        };
    }
    if s.truth.iter().any(|t| t.key() == m.key()) {
        return;
    }
    s.truth.push(m.clone());
    s.pool.push(m);
}

/// something that never happened, as close as possible to what did
fn forge(ep: &mut Ep, s: &mut S) -> Msg {
    let t = ep.pick(&s.truth).clone();
    let mut m = t.clone();
    match ep.below(7) {
        0 => m.saddr = if ep.chance(40) { "attacker".into() } else { gen::near(ep, &m.saddr) },
        1 => m.daddr = if ep.chance(40) { "attacker".into() } else { gen::near(ep, &m.daddr) },
        2 => m.hash[ep.below(32) as usize] ^= 1 << ep.below(8),
        3 => m.dst = ep.pick(REAL).to_string(),
        4 => m.src = ep.pick(REAL).to_string(),
        5 => {
            let (tx, i) = m.id.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            m.id = match ep.below(4) {
                0 => format!("{tx}:0{i}"),
                1 => format!("{tx}:+{i}"),
                _ => format!("{tx}:{}", i.parse::<u64>().unwrap_or(0) + 1 + ep.below(3)),
            };
        }
        _ => {
            std::mem::swap(&mut m.saddr, &mut m.daddr);
        }
    }
    // move a character across neighbouring fields
    if s.truth.contains(&m) {
        m.daddr.push('z');
    }
    // concatenations that hash alike are the recorded finding of C38: not a second time here
    if s.truth.iter().chain(&s.pool).any(|o| *o != m && gen::alike(o, &m)) {
        m.hash[0] ^= 0x55;
        m.daddr.push('q');
    }
    if !s.pool.contains(&m) {
        s.pool.push(m.clone());
    }
    m
}

impl S {
    fn verified(&self, vv: usize, m: &Msg) -> bool {
        self.polls.iter().any(|p| {
            p.vv == vv
                && p.items.iter().enumerate().any(|(i, x)| x == m && p.yes(i) >= p.quorum && p.yes(i) > 0)
        })
    }
    fn verified_somewhere(&self, m: &Msg) -> bool {
        (0..self.vvs.len()).any(|v| self.verified(v, m))
    }
    fn active(&self, chain: &str) -> BTreeSet<String> {
        self.wk
            .iter()
            .filter(|(_, w)| w.auth && w.bonded >= MIN && w.chains.contains(chain))
            .map(|(a, _)| a.clone())
            .collect()
    }
    fn gw(&self, a: &Addr) -> Option<&Gw> {
        self.gws.iter().find(|g| g.addr == *a)
    }
    fn hash(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.all.iter().map(|a| self.w.state_hash(a)).collect();
        for a in self.workers.iter().map(|a| addr(a)).chain(self.all.iter().cloned()) {
            v.push(self.w.balance(&a, D) as u64);
        }
        v
    }
}

pub fn run(ep: &mut Ep) -> R {
    let mut s = setup(ep);
    stage(ep, &mut s)?;
    let n = match size(ep) {
        2 => 30,
        _ if ep.thorough => 160,
        _ => 70,
    };
    let w: [u64; 9] = if ep.is("C39") {
        [4, 10, 4, 6, 5, 3, 5, 3, 60]
    } else {
        [16, 36, 7, 20, 12, 3, 5, 3, 4]
    };
    for _ in 0..n {
        match ep.weighted(&w) {
            0 => verify(ep, &mut s)?,
            1 => vote(ep, &mut s)?,
            2 => end(ep, &mut s)?,
            3 => route(ep, &mut s)?,
            4 => attack(ep, &mut s)?,
            5 => {
                if ep.chance(50) {
                    invent(ep, &mut s)
                }
            }
            6 => churn(ep, &mut s)?,
            7 => admin(ep, &mut s)?,
            _ => privileged(ep, &mut s)?,
        }
        let (b, t) = match ep.below(10) {
            0..=6 => (0, 1),
            7 | 8 => (1, 5),
            _ => (ep.below(13), 86_400 / 2),
        };
        s.w.advance(b, t);
        if ep.is("C01") && ep.chance(40) {
            observe(ep, &s)?;
        }
    }
    if ep.is("C01") {
        observe(ep, &s)?;
    }
    Ok(())
}

/// what every gateway hands out, against what should be there
fn observe(ep: &mut Ep, s: &S) -> R {
    let keys: BTreeSet<(String, String)> = s.pool.iter().map(|m| m.key()).collect();
    for g in &s.gws {
        let want = &s.avail[g.addr.as_str()];
        for k in &keys {
            let got: Result<Value, String> =
                s.w.query(&g.addr, &json!({"get_messages": {"message_ids": [{"chain": k.0, "id": k.1}]}}));
            let got = got.ok().and_then(|v| Msg::parse_all(&v)).unwrap_or_default();
            ep.count("observe.lookups");
            match (want.get(k), got.first()) {
                (None, None) => {}
                (None, Some(m)) => {
                    let v = s.verified_somewhere(m);
                    ep.fail(
                        &["C01"],
                        if v { "available-elsewhere-or-unrouted" } else { "unverified-message-available" },
                        format!("{} at the gateway {} of {}", m.brief(), g.addr, g.chain),
                    );
                }
                (Some(m), None) => {
                    ep.fail(&["C01"], "delivered-message-missing", format!("{} at {} of {}", m.brief(), g.addr, g.chain))
                }
                (Some(m), Some(x)) => {
                    ep.count("observe.available");
                    ep.check(m == x && got.len() == 1, &["C01"], "delivered-message-altered", || {
                        format!("{} instead of {}", x.brief(), m.brief())
                    });
                }
            }
        }
    }
    ep.settle()
}

/// 0 for an ordinary episode, 1 with many workers, 2 with many messages at a time
fn size(ep: &Ep) -> u64 {
    if ep.big() {
        1 + (ep.idx / 40) % 2
    } else {
        0
    }
}

fn some_msgs(ep: &mut Ep, s: &mut S, chain: &str, forged: u64) -> Vec<Msg> {
    let mut out: Vec<Msg> = vec![];
    let n = if size(ep) == 2 && ep.chance(60) { ep.range(10, 80) } else { *ep.pick(&[1u64, 1, 2, 2, 3, 5]) };
    for _ in 0..n {
        let m = if ep.chance(forged) {
            forge(ep, s)
        } else {
            let own: Vec<Msg> = s.truth.iter().filter(|m| m.src == chain).cloned().collect();
            if own.is_empty() {
                continue;
            }
            ep.pick(&own).clone()
        };
        if m.src != chain && ep.chance(85) {
            continue;
        }
        if out.iter().all(|o| o.key() != m.key()) || (!out.contains(&m) && ep.chance(15)) {
            out.push(m);
        }
    }
    out
}

fn note_polls(ep: &mut Ep, s: &mut S, r: &cw_multi_test::AppResponse) {
    for vv in 0..s.vvs.len() {
        let v = s.vvs[vv].clone();
        for e in evs(r, "messages_poll_started", &v.addr) {
            let id = serde_json::from_str::<String>(attr(e, "poll_id").unwrap_or("")).ok().and_then(|x| x.parse().ok());
            let l: Value = serde_json::from_str(attr(e, "messages").unwrap_or("null")).unwrap_or(Value::Null);
            // what the voters are asked about
            let items: Option<Vec<Msg>> = l.as_array().map(|l| {
                l.iter()
                    .map(|x| Msg {
                        id: format!("{}:{}", x["tx_id"].as_str().unwrap_or(""), x["event_index"]),
                        src: v.chain.clone(),
                        saddr: x["source_address"].as_str().unwrap_or("").into(),
                        dst: x["destination_chain"].as_str().unwrap_or("").into(),
                        daddr: x["destination_address"].as_str().unwrap_or("").into(),
                        hash: hex::decode(x["payload_hash"].as_str().unwrap_or(""))
                            .ok()
                            .and_then(|h| h.try_into().ok())
                            .unwrap_or([0; 32]),
                    })
                    .collect()
            });
            let (Some(id), Some(items)) = (id, items) else {
                ep.fail(&["C11"], "poll-event-unreadable", format!("{e:?}"));
                continue;
            };
            let voters = s.active(&v.chain);
            let q = quorum(voters.len() as u64, v.thr);
            ep.count("polls");
            ep.note(format!("poll {id} at {} voters {} quorum {q}", v.chain, voters.len()));
            let expires = s.w.height() + v.expiry;
            s.polls.push(Poll { vv, id, items, voters, quorum: q, expires, ballots: BTreeMap::new(), ended: false });
        }
    }
}

fn verify(ep: &mut Ep, s: &mut S) -> R {
    let g = ep.pick(&s.gws).clone();
    let ms = some_msgs(ep, s, &g.chain, 35);
    if ms.is_empty() {
        return Ok(());
    }
    let who = *ep.pick(&["relayer", "user", "worker0"]);
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let direct = ep.chance(15);
    let (to, call) = if direct {
        (s.vvs[g.vv].addr.clone(), json!({"verify_messages": {"messages": arr}}))
    } else {
        (g.addr.clone(), json!({ "verify_messages": arr }))
    };
    let o = s.w.exec(&addr(who), &to, &call, &[]);
    ep.step(format!(
        "{who} asks {} to verify [{}] direct={direct}: {}",
        g.chain,
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        short(&o)
    ));
    if let Ok(r) = o {
        ep.count("verify.ok");
        note_polls(ep, s, &r);
    }
    ep.settle()
}

fn vote(ep: &mut Ep, s: &mut S) -> R {
    if s.polls.is_empty() {
        return Ok(());
    }
    let h = s.w.height();
    let open: Vec<usize> = (0..s.polls.len()).filter(|i| s.polls[*i].expires > h).collect();
    let pi = if !open.is_empty() && ep.chance(92) {
        *ep.pick(&open)
    } else {
        ep.below(s.polls.len() as u64) as usize
    };
    let p = s.polls[pi].clone();
    let left: Vec<String> = p.voters.iter().filter(|v| !p.ballots.contains_key(*v)).cloned().collect();
    // usually several at once, so that polls get decided
    let mut who: Vec<String> = left.clone();
    ep.shuffle(&mut who);
    let k = ep.range(1, who.len().max(1) as u64) as usize;
    who.truncate(k);
    if ep.chance(25) {
        let x = match ep.below(3) {
            0 => "stranger".to_string(),
            1 => ep.pick(&s.workers).clone(),
            _ => s.router.to_string(),
        };
        who.push(x);
    }
    for a in who {
        let p = s.polls[pi].clone();
        let hostile = ep.chance(30);
        let mut b: Vec<usize> = vec![];
        for (i, m) in p.items.iter().enumerate() {
            let real = s.truth.contains(m);
            let v = if real {
                if ep.chance(if hostile { 40 } else { 88 }) { 0 } else { 1 + ep.below(2) as usize }
            } else if (hostile || ep.chance(30)) && p.yes(i) + 1 < p.quorum {
                // a minority that falls short of the quorum may say anything
                0
            } else if !p.voters.contains(&a) {
                // votes of outsiders count for nothing, so they may say anything too
                0
            } else {
                1 + ep.below(2) as usize
            };
            b.push(v);
        }
        let votes: Vec<&str> = b.iter().map(|v| ["succeeded_on_chain", "failed_on_chain", "not_found"][*v]).collect();
        let vv = s.vvs[p.vv].addr.clone();
        let o = s.w.exec(&addr(&a), &vv, &json!({"vote": {"poll_id": p.id.to_string(), "votes": votes}}), &[]);
        ep.step(format!("{a} votes {b:?} in poll {} of {}: {}", p.id, s.vvs[p.vv].chain, short(&o)));
        let counts = p.voters.contains(&a) && h < p.expires && !p.ballots.contains_key(&a);
        if counts && o.is_ok() {
            let before: Vec<bool> = (0..p.items.len()).map(|i| p.yes(i) >= p.quorum).collect();
            s.polls[pi].ballots.insert(a.clone(), b);
            let p = &s.polls[pi];
            for i in 0..p.items.len() {
                if p.yes(i) >= p.quorum && !before[i] {
                    ep.count("votes.reached_quorum");
                }
                if p.yes(i) > 0 && p.yes(i) < p.quorum && p.ballots.len() == p.voters.len() {
                    ep.count("votes.fell_short");
                }
            }
        } else if counts {
            ep.fail(&["C10"], "valid-vote-refused", short(&o));
        } else {
            ep.count("votes.void");
        }
    }
    ep.settle()
}

fn end(ep: &mut Ep, s: &mut S) -> R {
    let due: Vec<usize> = (0..s.polls.len()).filter(|i| !s.polls[*i].ended).collect();
    if due.is_empty() {
        return Ok(());
    }
    let pi = *ep.pick(&due);
    if s.polls[pi].expires > s.w.height() && ep.chance(50) {
        let d = s.polls[pi].expires - s.w.height();
        s.w.advance(d, 5);
    }
    let vv = s.vvs[s.polls[pi].vv].addr.clone();
    let id = s.polls[pi].id;
    let o = s.w.exec(&addr("relayer"), &vv, &json!({"end_poll": {"poll_id": id.to_string()}}), &[]);
    ep.step(format!("end poll {id}: {}", short(&o)));
    if o.is_ok() {
        ep.count("polls.ended");
        s.polls[pi].ended = true;
    }
    Ok(())
}

/// deliveries that a successful call must have made; everything stored is what the gateway's verifier vouched for
fn deliver(ep: &mut Ep, s: &mut S, ms: &[Msg]) {
    for m in ms {
        match s.chains.get(&m.dst) {
            Some(c) => {
                if let Some(x) = s.avail.get_mut(c.gw.as_str()) {
                    x.insert(m.key(), m.clone());
                    ep.count("delivered");
                } else {
                    ep.count("delivered.evil");
                }
            }
            None => ep.count("delivered.nexus"),
        }
    }
}

/// what the stub gateways (nexus and the evil chain) got must be vouched for as well
fn stubs(ep: &mut Ep, s: &S, r: &cw_multi_test::AppResponse, allowed: &[Msg]) {
    let mut got: Vec<Msg> = vec![];
    for c in recs(r) {
        let to_nexus = c.to == s.nexus.as_str();
        if !to_nexus && c.to != s.evilgw.as_str() {
            continue;
        }
        if c.sender != s.router.as_str() {
            continue;
        }
        let l = c.msg.get("route_messages").and_then(Msg::parse_all).unwrap_or_default();
        for m in l {
            let right = match s.chains.get(&m.dst) {
                Some(x) => x.gw.as_str() == c.to,
                None => to_nexus,
            };
            ep.check(allowed.contains(&m), &["C01"], "unverified-message-available", || format!("{} to {}", m.brief(), c.to));
            ep.check(right, &["C01"], "available-elsewhere-or-unrouted", || format!("{} to {}", m.brief(), c.to));
            got.push(m);
        }
    }
    for m in allowed {
        let stub = match s.chains.get(&m.dst) {
            Some(x) => x.gw == s.evilgw,
            None => true,
        };
        if stub {
            ep.check(got.contains(m), &["C01"], "delivered-message-missing", || m.brief());
        }
    }
}

fn route(ep: &mut Ep, s: &mut S) -> R {
    let live: Vec<Gw> = s.gws.iter().filter(|g| s.chains.get(&g.chain).map(|c| c.gw == g.addr).unwrap_or(false)).cloned().collect();
    let g = if !live.is_empty() && ep.chance(85) { ep.pick(&live).clone() } else { ep.pick(&s.gws).clone() };
    let mut ms = some_msgs(ep, s, &g.chain, 25);
    if ep.chance(60) {
        // whatever was verified already
        let v: Vec<Msg> = s.truth.iter().filter(|m| m.src == g.chain && s.verified(g.vv, m)).cloned().collect();
        for m in v {
            if ms.iter().all(|o| o.key() != m.key()) && ep.chance(50) {
                ms.push(m);
            }
        }
        ep.shuffle(&mut ms);
    }
    if ms.is_empty() {
        return Ok(());
    }
    let who = match ep.below(6) {
        0 => s.nexus.clone(),
        1 => s.evilgw.clone(),
        2 => addr("worker1"),
        _ => addr("relayer"),
    };
    let plan = arm(ep, s);
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let o = s.w.exec(&who, &g.addr, &json!({ "route_messages": arr }), &[]);
    s.router_evil_plan.borrow_mut().clear();
    let good: Vec<Msg> = ms.iter().filter(|m| s.verified(g.vv, m)).cloned().collect();
    ep.step(format!(
        "{who} routes through {} (gateway {}) [{}] {} verified, armed={plan}: {}",
        g.chain,
        g.addr,
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        good.len(),
        short(&o)
    ));
    let registered = s.chains.get(&g.chain).map(|c| c.gw == g.addr).unwrap_or(false);
    let frozen = registered && s.chains[&g.chain].inc;
    let dst: Vec<(bool, bool)> = good
        .iter()
        .map(|m| s.chains.get(&m.dst).map(|c| (true, c.out)).unwrap_or((false, false)))
        .collect();
    ep.seen(
        &["C01"],
        &(
            ms.iter().map(|m| (s.verified(g.vv, m), s.truth.contains(m), m.dst.clone())).collect::<Vec<_>>(),
            registered,
            frozen,
            dst,
            o.is_ok(),
        ),
    );
    match o {
        Ok(r) => {
            ep.count(if good.is_empty() { "route.nothing_verified" } else { "route.ok" });
            if !good.is_empty() && good.len() < ms.len() {
                ep.count("route.mixed");
            }
            stubs(ep, s, &r, &good);
            if !registered && !good.is_empty() {
                // not the gateway of its chain (any more): observe() sees whether anything arrived
                ep.fail(&["C02"], "accepted-from-unregistered-gateway", format!("{good:?}"));
            }
            deliver(ep, s, &good);
        }
        Err(_) => ep.count("route.refused"),
    }
    ep.settle()?;
    if ep.is("C01") {
        observe(ep, s)?;
    }
    Ok(())
}

/// the evil gateway sometimes answers a delivery by calling back with forgeries
fn arm(ep: &mut Ep, s: &mut S) -> bool {
    if !ep.chance(10) || !s.chains.contains_key(EVIL) {
        return false;
    }
    let m = forge(ep, s);
    let to = if ep.chance(60) { s.router.clone() } else { ep.pick(&s.gws).addr.clone() };
    if s.pool.contains(&m) && s.verified_somewhere(&m) {
        return false;
    }
    s.router_evil_plan.borrow_mut().push(CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: to.to_string(),
        msg: cosmwasm_std::Binary(serde_json::to_vec(&json!({"route_messages": [m.json()]})).unwrap()),
        funds: vec![],
    }));
    true
}

/// attempts to get something delivered without the verifier's consent
fn attack(ep: &mut Ep, s: &mut S) -> R {
    let mut ms: Vec<Msg> = vec![];
    for _ in 0..ep.range(1, 3) {
        let m = if ep.chance(60) { forge(ep, s) } else { ep.pick(&s.truth).clone() };
        if ms.iter().all(|o| o.key() != m.key()) {
            ms.push(m);
        }
    }
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let call = json!({ "route_messages": arr });
    let how = ep.below(5);
    let (who, to) = match how {
        // straight to the router
        0 => {
            let old: Vec<Addr> = s
                .gws
                .iter()
                .filter(|g| s.chains.get(&g.chain).map(|c| c.gw != g.addr).unwrap_or(true))
                .map(|g| g.addr.clone())
                .collect();
            let w = match ep.below(6) {
                0 => s.fake.clone(),
                1 => addr("worker0"),
                2 => s.vvs[0].addr.clone(),
                3 => s.router_gov.clone(),
                4 if !old.is_empty() => ep.pick(&old).clone(),
                _ => addr("attacker"),
            };
            (w, s.router.clone())
        }
        // the registered gateway of the evil chain, for messages of other chains
        1 => (s.evilgw.clone(), s.router.clone()),
        // to a gateway, posing as a delivery
        2 => {
            let w = match ep.below(5) {
                0 => addr("attacker"),
                1 => s.evilgw.clone(),
                2 => s.nexus.clone(),
                3 => s.router_gov.clone(),
                _ => s.fake.clone(),
            };
            (w, ep.pick(&s.gws).addr.clone())
        }
        // through a gateway of the attacker's making
        3 => (addr("attacker"), s.fake.clone()),
        // the evil chain, for its own messages
        _ => (s.evilgw.clone(), s.router.clone()),
    };
    if how == 4 {
        let names: Vec<String> = s.chains.keys().cloned().collect();
        let dst = ep.pick(&names).clone();
        let mut m = gen::msg(ep, EVIL, &dst);
        m.id = format!("0x{}:1", hex::encode(ep.bytes::<4>()));
        if ep.chance(40) {
            m.id = ep.pick(&s.truth).id.clone();
        }
        if s.pool.iter().any(|x| x.key() == m.key()) {
            return Ok(());
        }
        s.pool.push(m.clone());
        // alone it is this chain's business; in company of others' messages it must not get through
        let alone = ep.chance(50);
        let mut l = vec![m.clone()];
        if !alone {
            l.extend(ms.iter().cloned());
            ep.shuffle(&mut l);
        }
        let arr: Vec<Value> = l.iter().map(|m| m.json_cased(ep)).collect();
        let o = s.w.exec(&who, &to, &json!({ "route_messages": arr }), &[]);
        ep.step(format!("evil chain routes [{}]: {}", l.iter().map(Msg::brief).collect::<Vec<_>>().join("; "), short(&o)));
        ep.count("attack.evil_own");
        if let Ok(r) = &o {
            stubs(ep, s, r, &[m.clone()]);
            deliver(ep, s, &[m]);
        }
        ep.settle()?;
        return if ep.is("C01") { observe(ep, s) } else { Ok(()) };
    }
    let o = s.w.exec(&who, &to, &call, &[]);
    ep.step(format!(
        "attack {how}: {who} calls {to} with [{}]: {}",
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        short(&o)
    ));
    ep.count("attack");
    ep.seen(&["C01"], &("attack", how, ms.iter().map(|m| (s.truth.contains(m), s.verified_somewhere(m))).collect::<Vec<_>>(), o.is_ok()));
    if let Ok(r) = &o {
        // a gateway forwards what its verifier vouches for, whoever asks
        let g = s.gw(&to).cloned();
        let good: Vec<Msg> = match &g {
            Some(g) => ms.iter().filter(|m| s.verified(g.vv, m)).cloned().collect(),
            None => vec![],
        };
        if g.is_none() {
            ep.fail(&["C01", "C39"], "router-accepted-stranger", format!("{who}"));
        }
        stubs(ep, s, r, &good);
        deliver(ep, s, &good);
        if !good.is_empty() {
            ep.count("attack.harmless_relay");
        }
    }
    ep.settle()?;
    if ep.is("C01") {
        observe(ep, s)?;
    }
    Ok(())
}

fn churn(ep: &mut Ep, s: &mut S) -> R {
    let a = ep.pick(&s.workers).clone();
    let (reg, rg) = (s.registry.clone(), s.registry_gov.clone());
    match ep.below(7) {
        0 | 1 => {
            let l: Vec<String> = if ep.chance(70) { vec![a.clone()] } else { s.workers.iter().filter(|_| ep.chance(50)).cloned().collect() };
            let up = ep.chance(60);
            let k = if up { "authorize_workers" } else { "unauthorize_workers" };
            let o = s.w.exec(&rg, &reg, &json!({k: {"workers": l, "service_name": SVC}}), &[]);
            ep.step(format!("{k} {l:?}: {}", short(&o)));
            if o.is_ok() {
                for x in l {
                    s.wk.get_mut(&x).unwrap().auth = up;
                }
            }
        }
        2 | 3 => {
            let n = *ep.pick(&[1u128, 50, MIN - 1, MIN, MIN + 1]);
            bond(ep, s, &a, n)?
        }
        4 => {
            let o = s.w.exec(&addr(&a), &reg, &json!({"unbond_worker": {"service_name": SVC}}), &[]);
            ep.step(format!("{a} unbonds: {}", short(&o)));
            if o.is_ok() {
                let x = s.wk.get_mut(&a).unwrap();
                x.unbonding += x.bonded;
                x.bonded = 0;
            }
        }
        5 => {
            let o = s.w.exec(&addr(&a), &reg, &json!({"claim_stake": {"service_name": SVC}}), &[]);
            ep.step(format!("{a} claims: {}", short(&o)));
            if o.is_ok() {
                let x = s.wk.get_mut(&a).unwrap();
                x.unbonding = 0;
            }
        }
        _ => {
            let c = *ep.pick(REAL);
            declare(ep, s, &a, &[c])?
        }
    }
    Ok(())
}

/// the authorities at work
fn admin(ep: &mut Ep, s: &mut S) -> R {
    let (ro, gov, adm) = (s.router.clone(), s.router_gov.clone(), s.router_admin.clone());
    let names: Vec<String> = s.chains.keys().cloned().collect();
    match ep.below(6) {
        0 => {
            let real: Vec<String> = names.iter().filter(|c| *c != EVIL).cloned().collect();
            let c = ep.pick(&real).clone();
            let g = new_gateway(ep, s, &c);
            let o = s.w.exec(&gov, &ro, &json!({"upgrade_gateway": {"chain": c, "contract_address": g}}), &[]);
            ep.step(format!("upgrade {c}: {}", short(&o)));
            if o.is_ok() {
                s.chains.get_mut(&c).unwrap().gw = g;
            }
            must(ep, o, "upgrade gateway")
        }
        1 => {
            let Some(c) = REAL.iter().find(|c| !s.chains.contains_key(**c)) else {
                return Ok(());
            };
            let g = new_gateway(ep, s, c);
            let o = s.w.exec(&gov, &ro, &json!({"register_chain": {"chain": c, "gateway_address": g}}), &[]);
            ep.step(format!("register {c}: {}", short(&o)));
            if o.is_ok() {
                s.chains.insert(c.to_string(), Chain { gw: g, inc: false, out: false });
            }
            must(ep, o, "register chain")
        }
        2 => {
            let c = ep.pick(&names).clone();
            freeze(ep, s, &adm, &c, true, true)
        }
        _ => {
            let f: Vec<String> = names.iter().filter(|c| s.chains[*c].inc || s.chains[*c].out).cloned().collect();
            if f.is_empty() {
                return Ok(());
            }
            let c = ep.pick(&f).clone();
            freeze(ep, s, &adm, &c, false, true)
        }
    }
}

fn freeze(ep: &mut Ep, s: &mut S, who: &Addr, c: &str, on: bool, may: bool) -> R {
    use connection_router::state::GatewayDirection as G;
    let d = ep.below(if may { 3 } else { 4 });
    let (dir, inc, out) = match d {
        0 => (G::Incoming, true, false),
        1 => (G::Outgoing, false, true),
        2 => (G::Bidirectional, true, true),
        _ => (G::None, false, false),
    };
    let k = if on { "freeze_chain" } else { "unfreeze_chain" };
    let dj = serde_json::to_value(dir).unwrap();
    let ro = s.router.clone();
    let before = if may { vec![] } else { s.hash() };
    let o = s.w.exec(who, &ro, &json!({k: {"chain": c, "direction": dj}}), &[]);
    ep.step(format!("{who} {k} {c} {d}: {}", short(&o)));
    if may {
        if o.is_ok() {
            let x = s.chains.get_mut(c).unwrap();
            if inc {
                x.inc = on;
            }
            if out {
                x.out = on;
            }
        }
        return must(ep, o, k);
    }
    refused(ep, s, who, k, o, before)
}

fn refused(ep: &mut Ep, s: &S, who: &Addr, what: &str, o: Out, before: Vec<u64>) -> R {
    ep.count("priv.refused");
    ep.check(o.is_err(), &["C39"], "operation-open-to-others", || format!("{what} by {who}"));
    ep.check(s.hash() == before, &["C39"], "refused-operation-left-traces", || format!("{what} by {who}"));
    ep.settle()
}

/// one reserved operation, by its authority or by somebody else
fn privileged(ep: &mut Ep, s: &mut S) -> R {
    let names: Vec<String> = s.chains.keys().cloned().collect();
    let c = ep.pick(&names).clone();
    let op = ep.below(12);
    let right: Addr = match op {
        0 | 1 => s.router_gov.clone(),
        2 | 3 => s.router_admin.clone(),
        4..=6 => s.registry_gov.clone(),
        7 => s.rewards_gov.clone(),
        8 | 9 => s.ms_gov.clone(),
        10 => {
            let v: Vec<String> = s.callers.iter().cloned().collect();
            if v.is_empty() { addr("nobody-at-all") } else { addr(ep.pick(&v).as_str()) }
        }
        _ => s.nexus.clone(),
    };
    let who = if ep.chance(30) { right.clone() } else { somebody(ep, s, &c) };
    let may = match op {
        10 => s.callers.contains(who.as_str()),
        11 => who == s.nexus,
        _ => who == right,
    };
    // what is asked for is often what would profit the one asking
    let k = match op {
        2 | 3 => {
            if may {
                ep.count("priv.allowed");
            }
            ep.seen(&["C39"], &(op, role(s, &who, &c), may, s.chains.len(), s.chains[&c].inc, s.chains[&c].out));
            return freeze(ep, s, &who, &c, op == 2, may);
        }
        _ => op,
    };
    let junk = !may && ep.chance(25);
    let mut fresh: Option<Addr> = None;
    let mut name = format!("svc{}", ep.below(1000));
    let mut list: Vec<String> = s.workers.iter().filter(|_| ep.chance(40)).cloned().collect();
    let mut caller = *ep.pick(&["prover", "prover2", "prover3"]);
    let newchain = REAL.iter().find(|c| !s.chains.contains_key(**c)).copied();
    let (to, call, valid): (Addr, Value, bool) = match k {
        0 => {
            let ch = newchain.unwrap_or("polygon");
            let g = if may || ep.chance(30) {
                let g = if newchain.is_some() { new_gateway(ep, s, ch) } else { s.w.stub().0 };
                fresh = Some(g.clone());
                g
            } else if ep.chance(50) {
                who.clone()
            } else {
                ep.pick(&s.gws).addr.clone()
            };
            let ch = if junk { c.as_str() } else { ch };
            let ok = newchain.is_some() && may;
            (s.router.clone(), json!({"register_chain": {"chain": ch, "gateway_address": g}}), ok)
        }
        1 => {
            let g = if may {
                let g = if c == EVIL { s.w.stub().0 } else { new_gateway(ep, s, &c) };
                fresh = Some(g.clone());
                g
            } else if ep.chance(40) {
                who.clone()
            } else {
                ep.pick(&s.gws).addr.clone()
            };
            let ch = if junk { "polygon" } else { c.as_str() };
            // the evil chain keeps its gateway: its stub is watched
            if may && c == EVIL {
                return Ok(());
            }
            (s.router.clone(), json!({"upgrade_gateway": {"chain": ch, "contract_address": g}}), may)
        }
        4 => {
            if junk {
                name = ep.pick(&["", SVC]).to_string();
            }
            let ok = !s.services.contains(&name);
            (s.registry.clone(), service_json(&name), ok)
        }
        5 | 6 => {
            if !may {
                match ep.below(3) {
                    0 => list = vec![who.to_string()],
                    1 => list.clear(),
                    _ => {}
                }
                if junk {
                    list.push("x".into());
                }
            }
            let svc = if junk && ep.chance(50) { "nothing" } else { SVC };
            let v = if k == 5 { "authorize_workers" } else { "unauthorize_workers" };
            (s.registry.clone(), json!({v: {"workers": list, "service_name": svc}}), true)
        }
        7 => {
            let p = if junk { 10 } else { ep.range(1, 30) };
            let call = json!({"update_params": {"params": {"epoch_duration": p.to_string(),
                "rewards_per_epoch": ep.range(1, 200).to_string(), "participation_threshold": ["1", "2"]}}});
            (s.rewards.clone(), call, true)
        }
        8 | 9 => {
            let v = if k == 8 { "authorize_caller" } else { "unauthorize_caller" };
            let a = if !may && ep.chance(50) { who.to_string() } else { caller.to_string() };
            if may && k == 9 && !s.callers.contains(caller) {
                caller = "prover";
            }
            let a = if may { caller.to_string() } else { a };
            (s.ms.clone(), json!({v: {"contract_address": a}}), may && (k == 8 || s.callers.contains(caller)))
        }
        10 => {
            let set = if junk { "nosuchset".to_string() } else { s.set_id.clone() };
            let ch = ep.pick(REAL);
            let m = hex::encode(ep.bytes::<32>());
            let sv = if ep.chance(20) { json!("verifier") } else { Value::Null };
            let call = json!({"start_signing_session": {"worker_set_id": set, "msg": m, "chain_name": ch, "sig_verifier": sv}});
            (s.ms.clone(), call, true)
        }
        _ => {
            // the router's own door for nexus, which may speak for chains the router does not know
            let dst = ep.pick(&names).clone();
            let mut m = gen::msg(ep, "cosmoshub", &dst);
            m.id = format!("{}:0", hex::encode(ep.bytes::<32>()));
            let valid = !s.chains[&dst].out;
            // a registered gateway speaks for its own chain only; this is none of those
            let l = if junk { vec![] } else { vec![m.json()] };
            let own = s.chains.values().any(|x| x.gw == who && !x.inc);
            if junk && own {
                // an empty batch from a registered gateway harms nobody
                return Ok(());
            }
            if may && valid {
                s.pool.push(m.clone());
                let o = s.w.exec(&who, &s.router.clone(), &json!({ "route_messages": l }), &[]);
                ep.step(format!("nexus routes {}: {}", m.brief(), short(&o)));
                ep.count("priv.allowed");
                ep.check(o.is_ok(), &["C39"], "authority-refused", || short(&o));
                if o.is_ok() {
                    deliver(ep, s, &[m]);
                }
                return ep.settle();
            }
            (s.router.clone(), json!({ "route_messages": l }), valid)
        }
    };
    let before = if may { vec![] } else { s.hash() };
    let o = if !may && ep.chance(15) {
        // through a contract of the caller's: it is the contract that asks
        let ev = s.evilgw.clone();
        let own_chain = k == 11 && s.chains.values().any(|x| x.gw == ev);
        if own_chain || s.callers.contains(ev.as_str()) {
            return Ok(());
        }
        s.router_evil_plan.borrow_mut().push(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: to.to_string(),
            msg: cosmwasm_std::Binary(serde_json::to_vec(&call).unwrap()),
            funds: vec![],
        }));
        let o = s.w.exec(&who, &ev, &json!({}), &[]);
        s.router_evil_plan.borrow_mut().clear();
        o
    } else {
        s.w.exec(&who, &to, &call, &[])
    };
    ep.step(format!("{who} asks {to} for {call}: {}", short(&o)));
    ep.seen(
        &["C39"],
        &(op, role(s, &who, &c), may, junk, s.callers.len(), s.polls.len() > 3, s.chains.len()),
    );
    if !may {
        return refused(ep, s, &who, &call.to_string(), o, before);
    }
    if valid {
        ep.count("priv.allowed");
        ep.check(o.is_ok(), &["C39"], "authority-refused", || format!("{who} {call}: {}", short(&o)));
    }
    if let Ok(r) = &o {
        match k {
            0 => {
                let ch = newchain.unwrap_or("polygon").to_string();
                if let Some(g) = fresh {
                    s.chains.insert(ch, Chain { gw: g, inc: false, out: false });
                }
            }
            1 => s.chains.get_mut(&c).unwrap().gw = fresh.unwrap(),
            4 => {
                s.services.insert(name);
            }
            5 | 6 => {
                for a in list {
                    if let Some(x) = s.wk.get_mut(&a) {
                        x.auth = k == 5;
                    }
                }
            }
            8 => {
                s.callers.insert(caller.into());
            }
            9 => {
                s.callers.remove(caller);
                s.ex_callers.push(caller.into());
            }
            _ => {}
        }
        note_polls(ep, s, r);
    }
    ep.settle()
}

fn somebody(ep: &mut Ep, s: &S, c: &str) -> Addr {
    match ep.below(20) {
        0 => s.router_gov.clone(),
        1 => s.router_admin.clone(),
        2 => s.registry_gov.clone(),
        3 => s.rewards_gov.clone(),
        4 => s.ms_gov.clone(),
        5 => s.router.clone(),
        6 => ep.pick(&s.all).clone(),
        7 => s.chains[c].gw.clone(),
        8 => ep.pick(&s.gws).addr.clone(),
        9 | 10 => addr(ep.pick(&s.workers).as_str()),
        11 => addr("deployer"),
        12 => s.nexus.clone(),
        13 => s.evilgw.clone(),
        14 if !s.ex_callers.is_empty() => addr(ep.pick(&s.ex_callers).as_str()),
        14 | 15 => addr(*ep.pick(&["prover", "prover2", "prover3"])),
        16 => addr(*ep.pick(&["ROUTERGOV", "routergo", "routergov2", "RouterAdmin", "registryGov", " multisiggov"])),
        17 => s.fake.clone(),
        18 => s.rewards.clone(),
        _ => addr(*ep.pick(&["stranger", "attacker", "relayer", SERVICE_CONTRACT])),
    }
}

fn role(s: &S, who: &Addr, c: &str) -> u8 {
    let a = [&s.router_gov, &s.router_admin, &s.registry_gov, &s.rewards_gov, &s.ms_gov, &s.nexus, &s.router, &s.evilgw, &s.fake];
    if let Some(i) = a.iter().position(|x| *x == who) {
        return i as u8;
    }
    if s.chains[c].gw == *who {
        return 20;
    }
    if s.gw(who).is_some() {
        return 21;
    }
    if s.workers.contains(&who.to_string()) {
        return 22;
    }
    if s.callers.contains(who.as_str()) {
        return 23;
    }
    if s.ex_callers.contains(&who.to_string()) {
        return 24;
    }
    if s.all.contains(who) {
        return 25;
    }
    30
}
