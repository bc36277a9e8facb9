//! C09-C13: the real voting verifier with a stub service registry (whose active workers change over
//! time) and a stub rewards contract, against a reference that recounts every ballot.
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::Threshold;
use cosmwasm_std::{Addr, HexBinary, Uint128, Uint256};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use voting_verifier::{contract, msg as vmsg};

const VOTES: [&str; 3] = ["succeeded_on_chain", "failed_on_chain", "not_found"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ops {
    pub list: Vec<(Vec<u8>, Uint256)>,
    pub thr: Uint256,
}
impl std::hash::Hash for Ops {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        for (a, w) in &self.list {
            (a, w.to_be_bytes()).hash(h);
        }
        self.thr.to_be_bytes().hash(h);
    }
}
impl Ops {
    pub fn real(&self, ep: &mut Ep) -> Operators {
        let mut l: Vec<(HexBinary, Uint256)> = self
            .list
            .iter()
            .map(|(a, w)| (HexBinary::from(a.clone()), *w))
            .collect();
        ep.shuffle(&mut l);
        Operators::new(l, self.thr)
    }
}

#[derive(Clone, Debug)]
enum Item {
    M(Msg),
    W(Ops),
}

#[derive(Clone, Debug)]
struct Poll {
    id: u64,
    items: Vec<Item>,
    voters: BTreeSet<String>,
    quorum: u64,
    expires: u64,
    votes: BTreeMap<String, Vec<usize>>,
    ended: bool,
    /// what honest voters will say
    truth: Vec<usize>,
}
impl Poll {
    fn result(&self, i: usize) -> Option<usize> {
        (0..3).find(|v| {
            let n = self.votes.values().filter(|b| b[i] == *v).count() as u64;
            n >= self.quorum && n > 0
        })
    }
    fn results(&self) -> Vec<Option<usize>> {
        (0..self.items.len()).map(|i| self.result(i)).collect()
    }
}

pub struct Reg {
    pub active: Vec<String>,
    pub down: bool,
    pub chain: String,
    pub service: String,
}

pub fn worker_json(a: &str, service: &str) -> Value {
    serde_json::to_value(service_registry::state::Worker {
        address: Addr::unchecked(a),
        bonding_state: service_registry::state::BondingState::Bonded {
            amount: Uint128::new(1000),
        },
        authorization_state: service_registry::state::AuthorizationState::Authorized,
        service_name: service.to_string(),
    })
    .unwrap()
}

pub fn stub_registry(stub: &Stub, reg: &Rc<RefCell<Reg>>) {
    let r = reg.clone();
    stub.on_query(move |q| {
        let r = r.borrow();
        if r.down {
            return Err("registry down".into());
        }
        let g = q.get("get_active_workers").ok_or("unexpected query")?;
        if g["service_name"] != json!(r.service) || g["chain_name"] != json!(r.chain) {
            return Err(format!("asked for the wrong service or chain: {g}"));
        }
        Ok(Value::Array(
            r.active.iter().map(|a| worker_json(a, &r.service)).collect(),
        ))
    });
}

struct S {
    w: W,
    vv: Addr,
    rewards: Addr,
    rstub: Stub,
    reg: Rc<RefCell<Reg>>,
    chain: String,
    thr: (u64, u64),
    expiry: u64,
    conf: u64,
    src_gw: String,
    polls: Vec<Poll>,
    ids: HashSet<u64>,
    latest: HashMap<Msg, (usize, usize)>,
    latest_ws: HashMap<Ops, usize>,
    pool: Vec<Msg>,
    wspool: Vec<Ops>,
    known: Vec<String>,
    decided_false: BTreeSet<String>,
    /// announced source event -> the message id it was announced for
    events: HashMap<(String, String), String>,
}

pub fn majority(ep: &mut Ep) -> (u64, u64) {
    match ep.below(8) {
        0 => (1, 1),
        1 => (2, 3),
        2 => (51, 100),
        3 => (3, 4),
        4 => (u64::MAX, u64::MAX),
        5 => (u64::MAX / 2 + 1, u64::MAX),
        6 => (4, 6),
        _ => {
            let d = ep.range(2, 30);
            let n = ep.range(d / 2 + 1, d);
            (n, d)
        }
    }
}

pub fn quorum(total: u64, thr: (u64, u64)) -> u64 {
    let p = total as u128 * thr.0 as u128;
    ((p + thr.1 as u128 - 1) / thr.1 as u128) as u64
}

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (regaddr, regstub) = w.stub();
    let (rewards, rstub) = w.stub();
    let chain = ["ethereum", "sui", "avalanche"][ep.below(3) as usize].to_string();
    let thr = majority(ep);
    let expiry = match ep.below(10) {
        0 => 0,
        1 => 1,
        _ => ep.range(2, 25),
    };
    // large episodes: many items in a poll, many voters, or many polls
    let size = scale(ep);
    let expiry = match size {
        1 => ep.range(2, 25),
        2 => ep.range(20, 70),
        3 => ep.below(4),
        _ => expiry,
    };
    let conf = ep.range(0, 30);
    let src_gw = text(ep);
    let reg = Rc::new(RefCell::new(Reg {
        active: vec![],
        down: false,
        chain: chain.clone(),
        service: "validators".into(),
    }));
    stub_registry(&regstub, &reg);
    let t: Threshold = thr.try_into().expect("threshold");
    let vv = w
        .install(
            Box::new(ContractWrapper::new(contract::execute, contract::instantiate, contract::query)),
            &vmsg::InstantiateMsg {
                service_registry_address: regaddr.to_string().try_into().unwrap(),
                service_name: "validators".try_into().unwrap(),
                source_gateway_address: src_gw.clone().try_into().unwrap(),
                voting_threshold: t.try_into().expect("majority"),
                block_expiry: expiry,
                confirmation_height: conf,
                source_chain: recase(ep, &chain).parse().unwrap(),
                rewards_address: rewards.to_string(),
            },
        )
        .expect("voting verifier");
    let nw = match size {
        2 if ep.chance(30) => ep.range(10, 70),
        2 => ep.big_size(),
        _ => ep.range(1, 9),
    } as usize;
    let known: Vec<String> = (0..nw + 3).map(|i| format!("worker{i}")).collect();
    let mut s = S {
        w,
        vv,
        rewards,
        rstub,
        reg,
        chain: chain.clone(),
        thr,
        expiry,
        conf,
        src_gw,
        polls: vec![],
        ids: HashSet::new(),
        latest: HashMap::new(),
        latest_ws: HashMap::new(),
        pool: vec![],
        wspool: vec![],
        known,
        decided_false: BTreeSet::new(),
        events: HashMap::new(),
    };
    s.reg.borrow_mut().active = s.known[..nw].to_vec();
    let k = match size {
        1 if ep.chance(40) => ep.range(60, 140),
        1 => ep.big_size(),
        _ => ep.range(3, 8),
    };
    for _ in 0..k {
        let m = fresh(ep, &chain);
        if s.pool.iter().any(|o| *o != m && alike(o, &m)) {
            continue;
        }
        s.pool.push(m.clone());
        if ep.chance(40) {
            let t = mutate(ep, &m);
            if !s.pool.iter().any(|o| *o != t && alike(o, &t)) {
                s.pool.push(t);
            }
        }
    }
    if size != 1 && ep.chance(20) {
        let mut m = fresh(ep, &chain);
        m.id = ep.pick(&["x", "a:b", ":3", "a:1:2", "a:-1", "a:18446744073709551616", "a:"]).to_string();
        s.pool.push(m);
    }
    let o = ops(ep);
    s.wspool.push(o.clone());
    // sets that differ from it in one respect only
    let mut o2 = o.clone();
    o2.thr = bit(ep, o.thr);
    s.wspool.push(o2);
    let mut o3 = o.clone();
    let i = ep.below(o3.list.len() as u64) as usize;
    o3.list[i].1 = bit(ep, o3.list[i].1);
    s.wspool.push(o3);
    let mut o4 = o.clone();
    match ep.below(4) {
        0 if o4.list.len() > 1 => {
            let i = ep.below(o4.list.len() as u64) as usize;
            o4.list.remove(i);
        }
        1 => {
            let i = ep.below(o4.list.len() as u64) as usize;
            o4.list[i].0.push(0);
            let a = o4.list[i].0.clone();
            if o4.list.iter().filter(|x| x.0 == a).count() > 1 {
                o4.list[i].0 = ep.bytes::<20>().to_vec();
            }
        }
        2 if o4.list.len() > 1 => {
            let w = o4.list[0].1;
            o4.list[0].1 = o4.list[1].1;
            o4.list[1].1 = w;
        }
        _ => o4.list.push((ep.bytes::<20>().to_vec(), Uint256::one())),
    }
    if o4 != o {
        s.wspool.push(o4);
    }

    let n = if ep.thorough { 160 } else { 80 };
    let weights: [u64; 5] = match ep.focus {
        "C12" => [8, 15, 52, 15, 10],
        "C13" => [14, 6, 55, 17, 8],
        "C11" => [30, 10, 35, 15, 10],
        "C40" => [50, 2, 30, 16, 2],
        _ => [16, 6, 58, 12, 8],
    };
    let (n, weights) = match size {
        1 => (30, [15, 0, 60, 20, 5]),
        2 => (60 + 2 * nw, [4, 2, 84, 6, 4]),
        3 => (300, [60, 3, 15, 20, 2]),
        _ => (n, weights),
    };
    for _ in 0..n {
        match ep.weighted(&weights) {
            0 => verify(ep, &mut s)?,
            1 => verify_ws(ep, &mut s)?,
            2 => vote(ep, &mut s)?,
            3 => end(ep, &mut s)?,
            _ => churn(ep, &mut s),
        }
        time(ep, &mut s);
        observe(ep, &mut s)?;
    }
    // wind down: expire everything and end it
    if ep.chance(60) {
        let e = s.expiry;
        s.w.advance(e + 1, 10);
        for i in 0..s.polls.len() {
            if !s.polls[i].ended {
                end_poll(ep, &mut s, i)?;
            }
        }
        observe(ep, &mut s)?;
    }
    Ok(())
}

fn fresh(ep: &mut Ep, chain: &str) -> Msg {
    let dst = *ep.pick(&["ethereum", "sui", "axelar", "polygon"]);
    let mut m = msg(ep, chain, dst);
    m.id = match ep.below(6) {
        0 => format!("{}:{}", tx_id(ep), ep.below(1 << 50)),
        1 => format!("{}:0{}", hex::encode(ep.bytes::<8>()), ep.below(10)),
        2 => format!("t{}:{}", ep.below(3), u64::MAX),
        _ => format!("{}:{}", tx_id(ep), ep.below(3)),
    };
    m
}

pub fn ops(ep: &mut Ep) -> Ops {
    let n = if ep.chance(6) { ep.range(20, 60) } else { ep.range(1, 5) };
    let mut seen = BTreeSet::new();
    let mut list = vec![];
    for _ in 0..n {
        let a = match ep.below(8) {
            0 => ep.bytes::<32>().to_vec(),
            1 => ep.bytes::<1>().to_vec(),
            2 => {
                let k = ep.below(3);
                vec![0; k as usize]
            }
            _ => ep.bytes::<20>().to_vec(),
        };
        if seen.insert(a.clone()) {
            list.push((a, Uint256::from(ep.range(1, 5))));
        }
    }
    let tot: Uint256 = list.iter().map(|x| x.1).fold(Uint256::zero(), |a, b| a + b);
    let thr = ep.range(1, 1 + list.len() as u64);
    Ops {
        thr: tot.min(Uint256::from(thr)),
        list,
    }
}

/// a number that differs from `x` in one bit (of low, middle or high significance)
fn bit(ep: &mut Ep, x: Uint256) -> Uint256 {
    let k = *ep.pick(&[0u32, 1, 7, 8, 31, 32, 63, 64, 65, 127, 128, 191, 200, 254]);
    let b = Uint256::one() << k;
    if (x >> k) % Uint256::from(2u64) == Uint256::zero() {
        x + b
    } else {
        x - b
    }
}

fn churn(ep: &mut Ep, s: &mut S) {
    let k = s.known.clone();
    let mut reg = s.reg.borrow_mut();
    match ep.below(10) {
        0 => reg.down = !reg.down,
        1 => reg.active.clear(),
        2 => reg.active = k,
        _ => {
            let a = ep.pick(&k).clone();
            if let Some(i) = reg.active.iter().position(|x| *x == a) {
                if reg.active.len() > 1 {
                    reg.active.remove(i);
                }
            } else {
                reg.active.push(a);
            }
            let mut v = reg.active.clone();
            ep.shuffle(&mut v);
            reg.active = v;
            reg.down = false;
        }
    }
    let d = format!("active={:?} down={}", reg.active, reg.down);
    drop(reg);
    ep.trace.push(d);
}

fn time(ep: &mut Ep, s: &mut S) {
    let h = s.w.height();
    let b = match ep.below(30) {
        0..=21 => 0,
        22..=26 => 1,
        27 => {
            let e = s.expiry;
            ep.range(0, e)
        }
        _ => {
            // to the boundary of some poll
            let open: Vec<u64> = s
                .polls
                .iter()
                .filter(|p| !p.ended && p.expires > h)
                .map(|p| p.expires)
                .collect();
            if open.is_empty() {
                0
            } else {
                let e = *ep.pick(&open);
                let off = ep.below(3);
                (e + off).saturating_sub(1).saturating_sub(h)
            }
        }
    };
    if b > 0 {
        s.w.advance(b, b * 5);
        let nh = s.w.height();
        ep.trace.push(format!("height {nh}"));
    }
}

impl S {
    fn verified(&self, m: &Msg) -> bool {
        self.latest
            .get(m)
            .map(|(p, i)| self.polls[*p].result(*i) == Some(0))
            .unwrap_or(false)
    }
    fn needs_poll(&self, m: &Msg) -> bool {
        match self.latest.get(m) {
            None => true,
            Some((p, i)) => self.polls[*p].result(*i) != Some(0) && self.polls[*p].ended,
        }
    }
    fn ws_verified(&self, o: &Ops) -> bool {
        self.latest_ws
            .get(o)
            .map(|p| self.polls[*p].result(0) == Some(0))
            .unwrap_or(false)
    }
}

/// no call other than those of the current operation may have reached anyone
fn no_calls(ep: &mut Ep, r: &cw_multi_test::AppResponse, what: &str) {
    let c = recs(r);
    ep.check(c.is_empty(), &["C13"], "participation-credited-by-other-operation", || {
        format!("{what}: {c:?}")
    });
}

fn parse_id(id: &str) -> Option<(String, u64)> {
    let c: Vec<&str> = id.split(':').collect();
    if c.len() != 2 || c[0].is_empty() {
        return None;
    }
    Some((c[0].to_string(), c[1].parse::<u64>().ok()?))
}

/// a message with an id that looks a lot like a known one's
fn respell(ep: &mut Ep, s: &S, mut m: Msg) -> Msg {
    let o = ep.pick(&s.pool).clone();
    if ep.chance(60) {
        // the same content once more
        m = o.clone();
    }
    let (tx, i) = o.id.split_once(':').unwrap_or((&o.id, "0"));
    m.id = match ep.below(14) {
        0 => format!("{tx}:0{i}"),
        1 => format!("{tx}:00{i}"),
        2 => format!("{tx}:+{i}"),
        3 => format!("{tx}:{i} "),
        4 => format!("{tx}: {i}"),
        5 => format!("{tx}:{i}:"),
        6 => format!("{tx}:{i}:0"),
        7 => format!("{tx}::{i}"),
        8 => format!(":{tx}:{i}"),
        9 => format!("{tx}:{i}.0"),
        10 => format!("{tx}:{}", i.parse::<u64>().unwrap_or(0) as u128 + (1u128 << *ep.pick(&[8u32, 16, 32, 64]))),
        11 => format!("{tx}:0x{i}"),
        12 => format!("{tx}:{i}\u{0}"),
        _ => near(ep, &o.id),
    };
    m
}

/// 1: many items in a poll, 2: many voters, 3: many polls
fn scale(ep: &Ep) -> u64 {
    match ep.idx % 40 {
        17 => 1 + (ep.idx / 40) % 3,
        37 => 1,
        _ => 0,
    }
}

/// spelled with the plain decimal index
fn plain_id(id: &str) -> bool {
    parse_id(id).is_some_and(|(t, i)| id == format!("{t}:{i}"))
}

fn verify(ep: &mut Ep, s: &mut S) -> R {
    let size = scale(ep);
    let n = match ep.below(12) {
        0 => 0,
        _ => ep.range(1, 4),
    };
    let mut ms: Vec<Msg> = vec![];
    if size == 1 && ep.chance(80) {
        ms = s.pool.clone();
        ep.shuffle(&mut ms);
        if ep.chance(50) {
            let k = ep.range(0, ms.len() as u64) as usize;
            ms.truncate(k);
        }
        let mut seen = HashSet::new();
        let plain = ep.chance(90);
        ms.retain(|m| seen.insert(m.clone()) && (!plain || plain_id(&m.id)));
    } else {
        for _ in 0..n {
            let m = ep.pick(&s.pool).clone();
            if !ms.contains(&m) {
                ms.push(m);
            }
        }
    }
    if ep.chance(if size == 3 { 85 } else if size == 1 { 3 } else if ep.is("C40") { 50 } else { 15 }) {
        let c = s.chain.clone();
        let mut m = fresh(ep, &c);
        if ep.chance(if ep.is("C40") { 70 } else { 12 }) {
            m = respell(ep, s, m);
        }
        if s.pool.iter().chain(s.latest.keys()).any(|o| *o != m && alike(o, &m)) {
            m.daddr = format!("d{}", hex::encode(ep.bytes::<16>()));
        }
        let i = ep.below(s.pool.len() as u64) as usize;
        s.pool.push(m.clone());
        if s.pool.len() > 25 && size != 1 {
            s.pool.swap_remove(i);
        }
        ms.push(m);
    }
    if size == 1 {
        ep.count_n("verify.large_requests", (ms.len() > 40) as u64);
    }
    let mut wrong_chain = false;
    if ep.chance(6) && !ms.is_empty() {
        let mut m = ep.pick(&ms).clone();
        m.src = "otherchain".into();
        ms.push(m);
        ep.shuffle(&mut ms);
        wrong_chain = true;
    }
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let who = anyone(ep, s);
    let before: Vec<bool> = ms.iter().map(|m| s.verified(m)).collect();
    let to_poll: Vec<Msg> = ms.iter().filter(|m| s.needs_poll(m)).cloned().collect();
    let bad_id = to_poll.iter().any(|m| parse_id(&m.id).is_none());
    let (active, down) = {
        let r = s.reg.borrow();
        (r.active.clone(), r.down)
    };
    let out = s.w.exec(&who, &s.vv.clone(), &json!({"verify_messages": {"messages": arr}}), &[]);
    ep.step(format!(
        "{who} verify [{}] to_poll={}: {}",
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        to_poll.len(),
        short(&out)
    ));
    let expect = if ms.is_empty() {
        "empty"
    } else if wrong_chain {
        "wrong-chain"
    } else if to_poll.is_empty() {
        "nothing"
    } else if bad_id {
        "bad-id"
    } else if down || active.is_empty() {
        "no-workers"
    } else {
        "poll"
    };
    let pat: Vec<(bool, bool)> = ms.iter().map(|m| (s.verified(m), s.needs_poll(m))).collect();
    ep.seen(&["C11", "C09"], &(expect, pat, out.is_ok()));
    if let Ok(r) = &out {
        // whatever is announced: one event, one id
        for e in evs(r, "messages_poll_started", &s.vv) {
            let l: Vec<Value> = attr(e, "messages").and_then(|t| serde_json::from_str(t).ok()).unwrap_or_default();
            if l.len() != to_poll.len() {
                continue;
            }
            for (x, m) in l.iter().zip(&to_poll) {
                let k = (x["tx_id"].to_string(), x["event_index"].to_string());
                let old = s.events.entry(k).or_insert_with(|| m.id.clone()).clone();
                ep.count("events.announced");
                ep.seen(&["C40"], &(&old, &m.id));
                ep.check(old == m.id, &["C40"], "event-under-two-ids", || {
                    format!("{:?} and {:?} are both announced as {} of {}", old, m.id, x["event_index"], x["tx_id"])
                });
            }
        }
        ep.settle()?;
    }
    if to_poll.iter().any(|m| parse_id(&m.id).is_some() && !plain_id(&m.id)) {
        ep.count("verify.respelled");
        // how such an index is treated is left open, as long as it does not name another id's event
        if expect == "poll" && out.is_err() {
            return ep.settle();
        }
    }
    if bad_id {
        ep.count("verify.bad_ids");
    }
    match (expect, out) {
        ("poll", Ok(r)) | ("nothing", Ok(r)) => {
            no_calls(ep, &r, "verify");
            // answered statuses
            let want: Vec<Value> = ms.iter().zip(&before).map(|(m, b)| json!([m.cc(), b])).collect();
            let got: Option<Value> = data_of(&r).and_then(|d| serde_json::from_slice(&d).ok());
            let st = got.as_ref().and_then(|v| v.get("verification_statuses")).cloned();
            ep.check(st == Some(Value::Array(want.clone())), &["C09"], "reply-statuses-wrong", || {
                format!("got {got:?} want {want:?}")
            });
            let e = evs(&r, "messages_poll_started", &s.vv);
            let w = evs(&r, "worker_set_poll_started", &s.vv);
            ep.check(w.is_empty(), &["C50", "C11", "C12"], "unexpected-worker-set-poll", || format!("{w:?}"));
            if expect == "nothing" {
                ep.count("verify.nothing_to_poll");
                ep.check(e.is_empty(), &["C50", "C11"], "poll-opened-for-nothing", || format!("{e:?}"));
                return ep.settle();
            }
            if !ep.check(e.len() == 1, &["C50", "C11"], "not-exactly-one-poll", || format!("{e:?}")) {
                return ep.settle();
            }
            let listed: Value = attr(e[0], "messages")
                .and_then(|t| serde_json::from_str(t).ok())
                .unwrap_or(Value::Null);
            let want: Vec<Value> = to_poll
                .iter()
                .map(|m| {
                    let (tx, idx) = parse_id(&m.id).unwrap();
                    json!({"tx_id": tx, "event_index": idx, "destination_address": m.daddr,
                        "destination_chain": m.dst, "source_address": m.saddr,
                        "payload_hash": hex::encode(m.hash)})
                })
                .collect();
            ep.check(listed == Value::Array(want.clone()), &["C50", "C11"], "poll-content-wrong", || {
                format!("announced {listed}\n expected {want:?}")
            });
            let id = metadata(ep, s, e[0], &active);
            open(ep, s, id, to_poll.iter().cloned().map(Item::M).collect(), &active);
            let p = s.polls.len() - 1;
            for (i, m) in to_poll.iter().enumerate() {
                s.latest.insert(m.clone(), (p, i));
            }
            ep.count("polls.messages");
            ep.count_n("polls.items", to_poll.len() as u64);
            return carry(ep, s, p);
        }
        ("poll", Err(e)) => ep.fail(&["C11"], "valid-request-refused", e),
        ("nothing", Err(e)) => ep.fail(&["C11", "C09"], "status-request-refused", e),
        (_, Err(_)) => ep.count("verify.refused"),
        (k, Ok(r)) => ep.fail(
            &["C11"],
            &format!("invalid-request-accepted:{k}"),
            format!("{:?}", r.events),
        ),
    }
    ep.settle()
}

fn metadata(ep: &mut Ep, s: &mut S, e: &cosmwasm_std::Event, active: &[String]) -> u64 {
    let id: u64 = attr(e, "poll_id")
        .and_then(|t| serde_json::from_str::<String>(t).ok())
        .and_then(|t| t.parse().ok())
        .unwrap_or(u64::MAX);
    ep.check(s.ids.insert(id), &["C11", "C09", "C12"], "poll-id-reused", || format!("{id}"));
    let parts: Option<Vec<String>> = attr(e, "participants").and_then(|t| serde_json::from_str(t).ok());
    let mut got = parts.unwrap_or_default();
    let mut want = active.to_vec();
    got.sort();
    want.sort();
    ep.check(got == want, &["C50", "C11", "C10"], "participants-wrong", || {
        format!("announced {got:?} active {want:?}")
    });
    let exp = s.w.height() + s.expiry;
    let ok = attr(e, "expires_at") == Some(exp.to_string().as_str())
        && attr(e, "source_chain") == Some(s.chain.as_str())
        && attr(e, "source_gateway_address") == Some(s.src_gw.as_str())
        && attr(e, "confirmation_height") == Some(s.conf.to_string().as_str());
    ep.check(ok, &["C50", "C11"], "poll-metadata-wrong", || {
        format!("{e:?}, expected expiry {exp}")
    });
    id
}

fn open(ep: &mut Ep, s: &mut S, id: u64, items: Vec<Item>, active: &[String]) {
    let voters: BTreeSet<String> = active.iter().cloned().collect();
    let q = quorum(voters.len() as u64, s.thr);
    let truth = items
        .iter()
        .map(|_| ep.weighted(&[70, 15, 15]))
        .collect();
    let h = s.w.height();
    s.polls.push(Poll {
        id,
        items,
        quorum: q,
        voters,
        expires: h + s.expiry,
        votes: BTreeMap::new(),
        ended: false,
        truth,
    });
}

fn verify_ws(ep: &mut Ep, s: &mut S) -> R {
    let o = ep.pick(&s.wspool).clone();
    let real = o.real(ep);
    let bad_id = ep.chance(8);
    let id = if bad_id {
        ep.pick(&["nope", "a:b", "1:2:3", ":1"]).to_string()
    } else {
        format!("{}:{}", tx_id(ep), ep.below(5))
    };
    let who = anyone(ep, s);
    let confirmed = s.ws_verified(&o);
    let (active, down) = {
        let r = s.reg.borrow();
        (r.active.clone(), r.down)
    };
    let out = s.w.exec(
        &who,
        &s.vv.clone(),
        &json!({"verify_worker_set": {"message_id": id, "new_operators": serde_json::to_value(&real).unwrap()}}),
        &[],
    );
    ep.step(format!("{who} verify worker set {o:?} at {id}: {}", short(&out)));
    let expect = if confirmed {
        "confirmed"
    } else if bad_id {
        "bad-id"
    } else if down || active.is_empty() {
        "no-workers"
    } else {
        "poll"
    };
    ep.seen(&["C12"], &(expect, s.latest_ws.contains_key(&o), out.is_ok()));
    match (expect, out) {
        ("poll", Ok(r)) => {
            no_calls(ep, &r, "verify_worker_set");
            let e = evs(&r, "worker_set_poll_started", &s.vv);
            let m = evs(&r, "messages_poll_started", &s.vv);
            if !ep.check(
                e.len() == 1 && m.is_empty(),
                &["C12", "C11"],
                "not-exactly-one-worker-set-poll",
                || format!("{:?}", r.events),
            ) {
                return ep.settle();
            }
            let listed: Value = attr(e[0], "worker_set")
                .and_then(|t| serde_json::from_str(t).ok())
                .unwrap_or(Value::Null);
            let (tx, idx) = parse_id(&id).unwrap();
            let mut w = o.list.clone();
            w.sort();
            let want = json!({"tx_id": tx, "event_index": idx, "operators": {
                "weights_by_addresses": w.iter().map(|(a, w)| json!([hex::encode(a), w.to_string()])).collect::<Vec<_>>(),
                "threshold": o.thr.to_string()}});
            ep.check(listed == want, &["C50", "C11", "C12"], "worker-set-announcement-wrong", || {
                format!("announced {listed}\n expected {want}")
            });
            let pid = metadata(ep, s, e[0], &active);
            open(ep, s, pid, vec![Item::W(o.clone())], &active);
            let p = s.polls.len() - 1;
            if s.latest_ws.insert(o, p).is_some() {
                ep.count("polls.worker_set_again");
            }
            ep.count("polls.worker_set");
            return carry(ep, s, p);
        }
        ("poll", Err(e)) => ep.fail(&["C12", "C11"], "valid-worker-set-request-refused", e),
        ("confirmed", Ok(_)) => ep.fail(&["C12"], "poll-for-confirmed-set", format!("{o:?}")),
        (_, Err(_)) => ep.count("verify_ws.refused"),
        (k, Ok(_)) => ep.fail(
            &["C11", "C12"],
            &format!("invalid-worker-set-request-accepted:{k}"),
            format!("{o:?} {id}"),
        ),
    }
    ep.settle()
}

fn anyone(ep: &mut Ep, s: &S) -> Addr {
    match ep.below(4) {
        0 => addr(&ep.pick(&s.known[..]).clone()),
        1 => s.rewards.clone(),
        _ => addr("relayer"),
    }
}

fn vote(ep: &mut Ep, s: &mut S) -> R {
    if s.polls.is_empty() {
        return Ok(());
    }
    let h = s.w.height();
    let open: Vec<usize> = (0..s.polls.len())
        .filter(|i| s.polls[*i].expires > h && s.polls[*i].votes.len() < s.polls[*i].voters.len())
        .collect();
    if open.is_empty() && ep.chance(80) {
        return verify(ep, s);
    }
    let pi = if !open.is_empty() && ep.chance(88) {
        *ep.pick(&open)
    } else {
        ep.below(s.polls.len() as u64) as usize
    };
    // single votes, and runs of votes in one poll that may or may not carry it past its quorum
    let left = s.polls[pi].voters.len() - s.polls[pi].votes.len();
    let burst = if s.polls[pi].expires > h && ep.chance(40) { ep.range(1, 1 + left as u64) } else { 1 };
    for _ in 0..burst {
        vote_in(ep, s, pi)?;
    }
    Ok(())
}

fn vote_in(ep: &mut Ep, s: &mut S, pi: usize) -> R {
    let h = s.w.height();
    let p = s.polls[pi].clone();
    let remaining: Vec<String> = p.voters.iter().filter(|v| !p.votes.contains_key(*v)).cloned().collect();
    let who = if !remaining.is_empty() && ep.chance(80) {
        ep.pick(&remaining).clone()
    } else if ep.chance(80) {
        ep.pick(&s.known).clone()
    } else {
        ep.pick(&["stranger", "relayer", ""]).to_string()
    };
    let who = if who.is_empty() { s.vv.to_string() } else { who };
    let honest = ep.chance(80);
    let one_off = ep.chance(if honest { 8 } else { 50 });
    let mut ballot: Vec<usize> = p
        .truth
        .iter()
        .map(|t| if honest || one_off { *t } else { ep.below(3) as usize })
        .collect();
    if one_off {
        // agrees everywhere except at one item
        let i = ep.below(ballot.len().max(1) as u64) as usize;
        if let Some(b) = ballot.get_mut(i) {
            *b = (*b + 1 + ep.below(2) as usize) % 3;
        }
    }
    if ep.chance(6) {
        match ep.below(3) {
            0 => {
                ballot.pop();
            }
            1 => ballot.push(0),
            _ => ballot.clear(),
        }
    }
    let known_poll = !ep.chance(3);
    let id = if known_poll {
        p.id
    } else {
        let mx = s.ids.iter().max().copied().unwrap_or(0);
        match ep.below(3) {
            0 => mx + 1,
            1 if !s.ids.contains(&0) => 0,
            _ => mx + 1000,
        }
    };
    let votes: Vec<&str> = ballot.iter().map(|b| VOTES[*b]).collect();
    let out = s.w.exec(
        &addr(&who),
        &s.vv.clone(),
        &json!({"vote": {"poll_id": id.to_string(), "votes": votes}}),
        &[],
    );
    ep.step(format!("{who} votes {ballot:?} in poll {id} (height {h}, expires {}): {}", p.expires, short(&out)));
    let why = if !known_poll {
        "no-poll"
    } else if !p.voters.contains(&who) {
        "not-participant"
    } else if h >= p.expires {
        "expired"
    } else if ballot.len() != p.items.len() {
        "wrong-length"
    } else if p.votes.contains_key(&who) {
        "already-voted"
    } else {
        "ok"
    };
    let active_now = s.reg.borrow().active.contains(&who);
    ep.seen(
        &["C10", "C09"],
        &(why, active_now, p.items.len(), p.votes.len(), p.quorum, out.is_ok()),
    );
    match (why, out) {
        ("ok", Ok(r)) => {
            no_calls(ep, &r, "vote");
            let l = vec![("poll_id", format!("\"{id}\"")), ("voter", who.clone())];
            tells(ep, &r, &s.vv.clone(), "vote", vec![("voted", l)]);
            ep.count("votes.accepted");
            if !active_now {
                ep.count("votes.accepted_from_deactivated");
            }
            let before = s.polls[pi].results();
            s.polls[pi].votes.insert(who, ballot);
            if s.polls[pi].results() != before {
                ep.count("votes.decided_an_item");
            }
        }
        ("ok", Err(e)) => ep.fail(&["C10"], "valid-vote-refused", e),
        (k, Err(_)) => {
            ep.count("votes.refused");
            match k {
                "expired" => ep.count("votes.refused_expired"),
                "already-voted" => ep.count("votes.refused_repeat"),
                "not-participant" => ep.count("votes.refused_outsider"),
                "wrong-length" => ep.count("votes.refused_length"),
                _ => {}
            }
        }
        (k, Ok(_)) => ep.fail(
            &["C10", "C09", "C12"],
            &format!("invalid-vote-accepted:{k}"),
            format!("{who} {ballot:?} in {p:?} at {h}"),
        ),
    }
    ep.settle()
}

fn end(ep: &mut Ep, s: &mut S) -> R {
    if s.polls.is_empty() {
        return Ok(());
    }
    let h = s.w.height();
    if ep.chance(4) {
        let mx = s.ids.iter().max().copied().unwrap_or(0);
        let out = s.w.exec(
            &addr("relayer"),
            &s.vv.clone(),
            &json!({"end_poll": {"poll_id": (mx + 1).to_string()}}),
            &[],
        );
        ep.step(format!("end unknown poll: {}", short(&out)));
        ep.check(out.is_err(), &["C11", "C13"], "unknown-poll-ended", String::new);
        return ep.settle();
    }
    let due: Vec<usize> = (0..s.polls.len())
        .filter(|i| s.polls[*i].expires <= h && !s.polls[*i].ended)
        .collect();
    let pi = if !due.is_empty() && ep.chance(70) {
        *ep.pick(&due)
    } else {
        ep.below(s.polls.len() as u64) as usize
    };
    end_poll(ep, s, pi)
}

fn end_poll(ep: &mut Ep, s: &mut S, pi: usize) -> R {
    let h = s.w.height();
    let p = s.polls[pi].clone();
    let who = anyone(ep, s);
    let rewards_down = ep.chance(4);
    if rewards_down {
        s.rstub.on_exec(|_, _, _| Err("rewards down".into()));
    }
    let out = s.w.exec(&who, &s.vv.clone(), &json!({"end_poll": {"poll_id": p.id.to_string()}}), &[]);
    s.rstub.cfg.borrow_mut().exec = None;
    ep.step(format!("{who} ends poll {} (height {h}, expires {}): {}", p.id, p.expires, short(&out)));
    let results = p.results();
    let credited: BTreeSet<String> = p
        .votes
        .iter()
        .filter(|(_, b)| b.iter().zip(&results).all(|(v, r)| r.is_none() || *r == Some(*v)))
        .map(|(w, _)| w.clone())
        .collect();
    let why = if p.ended {
        "already-ended"
    } else if h < p.expires {
        "too-early"
    } else if rewards_down && !credited.is_empty() {
        "rewards-down"
    } else {
        "ok"
    };
    ep.seen(
        &["C11", "C13"],
        &(why, &results, p.votes.len(), credited.len(), p.voters.len(), out.is_ok()),
    );
    match (why, out) {
        ("ok", Ok(r)) => {
            ep.count("polls.ended");
            s.polls[pi].ended = true;
            let e = evs(&r, "poll_ended", &s.vv);
            let want: Vec<Value> = results
                .iter()
                .map(|r| r.map(|v| json!(VOTES[v])).unwrap_or(Value::Null))
                .collect();
            let ok = e.len() == 1
                && attr(e[0], "poll_id") == Some(format!("\"{}\"", p.id).as_str())
                && attr(e[0], "results").and_then(|t| serde_json::from_str::<Value>(t).ok())
                    == Some(Value::Array(want.clone()));
            ep.check(ok, &["C11", "C09", "C10"], "announced-results-wrong", || {
                format!("{e:?}\n expected {want:?} of {p:?}")
            });
            let l = vec![("poll_id", format!("\"{}\"", p.id)), ("results", serde_json::to_string(&want).unwrap())];
            tells(ep, &r, &s.vv.clone(), "end", vec![("poll_ended", l)]);
            let mut got: Vec<String> = vec![];
            for c in recs(&r) {
                let rp = c.msg.get("record_participation");
                let w = rp.and_then(|x| x.get("worker_address")).and_then(|x| x.as_str());
                let ev = rp.and_then(|x| x.get("event_id")).and_then(|x| x.as_str());
                let fine = c.to == s.rewards.as_str()
                    && c.sender == s.vv.as_str()
                    && ev == Some(p.id.to_string().as_str());
                match w {
                    Some(w) if fine => got.push(w.to_string()),
                    _ => ep.fail(&["C13"], "unexpected-call", format!("{c:?}")),
                }
            }
            got.sort();
            let want: Vec<String> = credited.into_iter().collect();
            if !want.is_empty() {
                ep.count("credits.polls");
            }
            ep.count_n("credits.participations", want.len() as u64);
            if want.len() < p.votes.len() {
                ep.count("credits.withheld");
            }
            ep.check(got == want, &["C13"], "credited-participants-wrong", || {
                format!("credited {got:?}, expected {want:?}; {p:?} results {results:?}")
            });
        }
        ("ok", Err(e)) => ep.fail(&["C11", "C13"], "due-poll-not-ended", e),
        ("rewards-down", Ok(_)) => ep.fail(&["C13"], "credit-lost", format!("{p:?}")),
        (k, Err(_)) => {
            ep.count("end.refused");
            match k {
                "already-ended" => ep.count("end.refused_again"),
                "too-early" => ep.count("end.refused_early"),
                _ => {}
            }
        }
        (k, Ok(_)) => {
            ep.fail(&["C11", "C13"], &format!("poll-ended-wrongly:{k}"), format!("{p:?} at {h}"))
        }
    }
    ep.settle()
}

/// large polls are mostly carried to their end and looked at in full
fn carry(ep: &mut Ep, s: &mut S, p: usize) -> R {
    ep.settle()?;
    let (n, k) = (s.polls[p].items.len(), s.polls[p].voters.len());
    if (n <= 16 && k <= 40) || !ep.chance(60) {
        return Ok(());
    }
    for _ in 0..k * 4 / 3 + 1 {
        vote_in(ep, s, p)?;
    }
    let decided = s.polls[p].results().iter().any(|r| *r == Some(0));
    if decided {
        ep.count(if n > 16 { "polls.large_decided" } else { "polls.crowded_decided" });
    }
    look(ep, s, s.polls[p].items.clone())?;
    if ep.chance(60) {
        let h = s.w.height();
        let e = s.polls[p].expires;
        if e > h {
            s.w.advance(e - h, (e - h) * 5);
        }
        end_poll(ep, s, p)?;
        ep.settle()?;
    }
    Ok(())
}

fn look(ep: &mut Ep, s: &mut S, items: Vec<Item>) -> R {
    let ms: Vec<Msg> = items.into_iter().filter_map(|i| if let Item::M(m) = i { Some(m) } else { None }).collect();
    statuses(ep, s, ms);
    ep.settle()
}

fn observe(ep: &mut Ep, s: &mut S) -> R {
    let mut ms = s.pool.clone();
    // every message ever polled is watched too
    if ep.chance(20) {
        ms.extend(s.latest.keys().cloned().collect::<BTreeSet<_>>());
    }
    if scale(ep) > 0 && !ep.chance(25) {
        // sizes vary; a full look at a large population every few operations
        ep.shuffle(&mut ms);
        ms.truncate(8);
    }
    ep.shuffle(&mut ms);
    if ep.chance(20) {
        ms.truncate(2);
    }
    statuses(ep, s, ms);
    for o in s.wspool.clone() {
        let real = o.real(ep);
        let got: Result<bool, String> = s.w.query(
            &s.vv,
            &json!({"is_worker_set_verified": {"new_operators": serde_json::to_value(&real).unwrap()}}),
        );
        let want = s.ws_verified(&o);
        ep.count(if want { "ws.confirmed" } else { "ws.unconfirmed" });
        ep.check(
            got.as_ref().ok() == Some(&want),
            &["C12"],
            "worker-set-status-differs-from-recount",
            || format!("{o:?}: reported {got:?}, expected {want}; {:?}", s.polls),
        );
    }
    let h = s.w.state_hash(&s.vv);
    ep.seen(&["C09", "C12"], &h);
    let _ = &s.decided_false;
    ep.settle()
}

fn statuses(ep: &mut Ep, s: &mut S, ms: Vec<Msg>) {
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let got: Result<Value, String> = s.w.query(&s.vv, &json!({"is_verified": {"messages": arr}}));
    let want: Vec<Value> = ms.iter().map(|m| json!([m.cc(), s.verified(m)])).collect();
    ep.count_n("status.queries", ms.len() as u64);
    let nv = ms.iter().filter(|m| s.verified(m)).count();
    ep.count_n("status.verified", nv as u64);
    ep.check(
        got.as_ref().ok() == Some(&Value::Array(want.clone())),
        &["C09", "C10", "C38"],
        "reported-status-differs-from-recount",
        || {
            let d: Vec<String> = match got.as_ref().ok().and_then(|g| g.as_array()) {
                Some(g) => want
                    .iter()
                    .zip(g)
                    .filter(|(a, b)| a != b)
                    .map(|(a, b)| format!("reported {b} expected {a}"))
                    .collect(),
                None => vec![format!("{got:?}")],
            };
            format!("{d:?}; polls {:?}", s.polls)
        },
    );
}
