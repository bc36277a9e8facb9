//! C33: the real batching contract with a journalling target, bank transfers and nested batches, against an interpreter
//! of the batch semantics.
use crate::core::*;
use crate::world::*;
use anyhow::anyhow;
use cosmwasm_std::{to_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, WasmMsg};
use cw_multi_test::{Contract, ContractWrapper};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// keeps a journal of its calls in its storage; may fail after writing; may pass messages on
struct Journal;
impl Contract<Empty> for Journal {
    fn execute(&self, deps: DepsMut, _: Env, info: MessageInfo, msg: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = serde_json::from_slice(&msg)?;
        let mut l: Vec<Value> = match deps.storage.get(b"log") {
            Some(b) => serde_json::from_slice(&b)?,
            None => vec![],
        };
        l.push(json!([v["tag"], info.sender]));
        deps.storage.set(b"log", &serde_json::to_vec(&l)?);
        if v["fail"] == json!(true) {
            return Err(anyhow!("boom-{}", v["tag"]));
        }
        let msgs: Vec<CosmosMsg> = serde_json::from_value(v["msgs"].clone())?;
        let mut r = Response::new().add_messages(msgs);
        if v["speak"] == json!(true) {
            r = r
                .add_attribute("tag", v["tag"].to_string())
                .add_event(cosmwasm_std::Event::new("written").add_attribute("tag", v["tag"].to_string()))
                .set_data(b"data".to_vec());
        }
        Ok(r)
    }
    fn instantiate(&self, _: DepsMut, _: Env, _: MessageInfo, _: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
    fn query(&self, deps: Deps, _: Env, _: Vec<u8>) -> anyhow::Result<Binary> {
        let l: Value = match deps.storage.get(b"log") {
            Some(b) => serde_json::from_slice(&b)?,
            None => json!([]),
        };
        Ok(to_binary(&l)?)
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> {
        Err(anyhow!("no"))
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> {
        Err(anyhow!("no"))
    }
}

#[derive(Clone, Debug)]
enum M {
    Log { tag: u64, fail: bool, speak: bool, funds: u128, then: Vec<M> },
    Send { to: usize, amount: u128 },
    Batch { who: usize, must: Vec<M>, can: Vec<M> },
}

/// what the real contracts should amount to
#[derive(Clone, Debug, PartialEq)]
struct Model {
    log: Vec<(u64, String)>,
    bal: BTreeMap<String, u128>,
    /// (batch contract, position, text the error contains)
    failed: Vec<(String, usize, String)>,
}

struct S {
    w: W,
    journal: Addr,
    batch: Vec<Addr>,
    sinks: Vec<Addr>,
    next: u64,
    model: Model,
}

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::with_funds(vec![(addr("bank"), vec![Coin::new(1_000_000, "coin")])]);
    let journal = w.install(Box::new(Journal), &Empty {}).expect("journal");
    let mut batch = vec![];
    for _ in 0..2 {
        batch.push(
            w.install(
                Box::new(
                    ContractWrapper::new(
                        ::batching::contract::execute,
                        ::batching::contract::instantiate,
                        |_: Deps, _: Env, _: Empty| -> cosmwasm_std::StdResult<Binary> { Ok(Binary::default()) },
                    )
                    .with_reply(batching::contract::reply),
                ),
                &json!({}),
            )
            .expect("batching"),
        );
    }
    let sinks = vec![addr("sink0"), addr("sink1")];
    let mut bal = BTreeMap::new();
    for b in &batch {
        let n = if ep.big() { ep.below(3000) } else { ep.below(60) } as u128;
        if n > 0 {
            w.send(&addr("bank"), b, vec![Coin::new(n, "coin")]).expect("fund");
        }
        bal.insert(b.to_string(), n);
    }
    for a in sinks.iter().chain([&journal]) {
        bal.insert(a.to_string(), 0);
    }
    let mut s = S {
        w,
        journal,
        batch,
        sinks,
        next: 0,
        model: Model {
            log: vec![],
            bal,
            failed: vec![],
        },
    };
    let n = if ep.thorough { 20 } else { 10 };
    for _ in 0..n {
        one(ep, &mut s)?;
    }
    Ok(())
}

fn gen(ep: &mut Ep, s: &mut S, depth: u64, p_fail: u64) -> M {
    match ep.below(10) {
        0 | 1 => M::Send {
            to: ep.below(2) as usize,
            amount: ep.range(1, 25) as u128,
        },
        2 | 3 if depth > 0 => {
            let must = list(ep, s, depth - 1, p_fail / 2, 2);
            let can = list(ep, s, depth - 1, p_fail, 3);
            M::Batch {
                who: ep.below(2) as usize,
                must,
                can,
            }
        }
        _ => {
            s.next += 1;
            let then = if depth > 0 && ep.chance(20) { list(ep, s, depth - 1, p_fail, 2) } else { vec![] };
            M::Log {
                tag: s.next,
                fail: ep.chance(p_fail),
                speak: ep.chance(50),
                funds: if ep.chance(15) { ep.range(1, 20) as u128 } else { 0 },
                then,
            }
        }
    }
}

fn list(ep: &mut Ep, s: &mut S, depth: u64, p_fail: u64, max: u64) -> Vec<M> {
    let mut l: Vec<M> = vec![];
    for _ in 0..ep.below(max + 1) {
        // the very same message more than once is as good as any other
        let m = match l.last() {
            Some(m) if ep.chance(12) => m.clone(),
            _ => gen(ep, s, depth, p_fail),
        };
        l.push(m);
    }
    l
}

fn real(s: &S, m: &M) -> CosmosMsg {
    let ex = |to: &Addr, v: Value, funds: u128| {
        CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: to.to_string(),
            msg: Binary(serde_json::to_vec(&v).unwrap()),
            funds: if funds > 0 { vec![Coin::new(funds, "coin")] } else { vec![] },
        })
    };
    match m {
        M::Log { tag, fail, speak, funds, then } => {
            let msgs: Vec<CosmosMsg> = then.iter().map(|x| real(s, x)).collect();
            ex(&s.journal, json!({"tag": tag, "fail": fail, "speak": speak, "msgs": msgs}), *funds)
        }
        M::Send { to, amount } => CosmosMsg::Bank(BankMsg::Send {
            to_address: s.sinks[*to].to_string(),
            amount: vec![Coin::new(*amount, "coin")],
        }),
        M::Batch { who, must, can } => ex(&s.batch[*who], batch_json(s, must, can), 0),
    }
}

fn batch_json(s: &S, must: &[M], can: &[M]) -> Value {
    json!({"batch": {
        "must_succeed_msgs": must.iter().map(|x| real(s, x)).collect::<Vec<_>>(),
        "can_fail_msgs": can.iter().map(|x| real(s, x)).collect::<Vec<_>>(),
    }})
}

fn pay(st: &mut Model, from: &str, to: &str, n: u128) -> Result<(), String> {
    let f = st.bal.get_mut(from).expect("known account");
    if *f < n {
        return Err("sub with overflow|Overflow|insufficient|Cannot".into());
    }
    *f -= n;
    *st.bal.get_mut(to).expect("known account") += n;
    Ok(())
}

/// the semantics; an error text is a list of alternatives one of which the report must contain
fn interpret(s: &S, st: &mut Model, sender: &str, m: &M) -> Result<(), String> {
    match m {
        M::Send { to, amount } => pay(st, sender, s.sinks[*to].as_str(), *amount),
        M::Log { tag, fail, funds, then, .. } => {
            if *funds > 0 {
                pay(st, sender, s.journal.as_str(), *funds)?;
            }
            st.log.push((*tag, sender.to_string()));
            if *fail {
                return Err(format!("boom-{tag}"));
            }
            for x in then {
                interpret(s, st, s.journal.as_str(), x)?;
            }
            Ok(())
        }
        M::Batch { who, must, can } => {
            let me = s.batch[*who].to_string();
            for x in must {
                interpret(s, st, &me, x)?;
            }
            for (i, x) in can.iter().enumerate() {
                let mut t = st.clone();
                match interpret(s, &mut t, &me, x) {
                    Ok(()) => *st = t,
                    Err(_) => st.failed.push((me.clone(), i, hint(x))),
                }
            }
            Ok(())
        }
    }
}

/// what the error of a message is sure to contain (cw-multi-test reports the message that failed, not the cause)
fn hint(m: &M) -> String {
    match m {
        M::Log { tag, .. } => format!("\"tag\":{tag}}}"),
        M::Send { amount, .. } => format!("and {amount}|nsufficient"),
        M::Batch { .. } => "batch".into(),
    }
}

fn shape(m: &M) -> String {
    match m {
        M::Log { fail, then, funds, .. } => format!("L{}{}({})", *fail as u8, (*funds > 0) as u8, then.iter().map(shape).collect::<String>()),
        M::Send { .. } => "S".into(),
        M::Batch { must, can, .. } => format!(
            "B({}|{})",
            must.iter().map(shape).collect::<String>(),
            can.iter().map(shape).collect::<String>()
        ),
    }
}

fn one(ep: &mut Ep, s: &mut S) -> R {
    let p_must = *ep.pick(&[0u64, 0, 10, 30]);
    let p_can = *ep.pick(&[0u64, 20, 50]);
    let who = ep.below(2) as usize;
    let (mut nm, mut nc, mut depth) = (4, 5, 2);
    if ep.big() {
        // long batches
        depth = ep.below(2);
        match ep.below(3) {
            0 => nm = ep.big_size(),
            1 => nc = ep.big_size(),
            _ => {
                nm = ep.big_size() / 2;
                nc = ep.big_size();
            }
        }
        if ep.chance(30) {
            nc = ep.range(500, 700);
        }
    }
    let p_must = if nm > 4 { *ep.pick(&[0u64, 0, 1]) } else { p_must };
    let must = list(ep, s, depth, p_must, nm);
    let can = list(ep, s, depth, p_can, nc);
    let top = M::Batch { who, must: must.clone(), can: can.clone() };
    let mut st = s.model.clone();
    st.failed.clear();
    let want = interpret(s, &mut st, "caller", &top);
    ep.step(format!("batch {} (expect {want:?})", shape(&top)));
    let o = s.w.exec(&addr("caller"), &s.batch[who].clone(), &batch_json(s, &must, &can), &[]);
    ep.note(short(&o));
    ep.count(if want.is_ok() { "batch.took_effect" } else { "batch.rejected" });
    ep.count_n("batch.isolated_failures", st.failed.len() as u64);
    if want.is_ok() && st.failed.len() < can.len() {
        ep.count("batch.with_successful_optional");
    }
    if !st.failed.is_empty() && want.is_ok() && !must.is_empty() {
        ep.count("batch.mixed");
    }
    ep.seen(&["C33"], &shape(&top));
    match (&o, &want) {
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => ep.fail(&["C33"], "failed-mandatory-ignored", e.clone()),
        (Err(e), Ok(())) => ep.fail(&["C33"], "batch-refused", e.clone()),
        (Ok(r), Ok(())) => {
            // reported failures, per batch contract in order
            let got: Vec<(String, usize, String)> = r
                .events
                .iter()
                .filter(|e| e.ty == "wasm-failed_msg")
                .filter_map(|e| {
                    let by = attr(e, "_contract_addr")?.to_string();
                    let a = attrs(e);
                    let (k, v) = a.first()?;
                    Some((by, k.parse().ok()?, v.clone()))
                })
                .collect();
            let good = got.len() == st.failed.len()
                && got
                    .iter()
                    .zip(&st.failed)
                    .all(|(g, w)| g.0 == w.0 && g.1 == w.1 && w.2.split('|').any(|t| g.2.contains(t)));
            ep.check(good, &["C33"], "failure-report", || format!("{got:?} instead of {:?}", st.failed));
            s.model = st;
            s.model.failed.clear();
        }
    }
    let log: Value = s.w.query(&s.journal, &json!({})).unwrap_or(Value::Null);
    let wl: Value = s.model.log.iter().map(|(t, a)| json!([t, a])).collect();
    ep.check(log == wl, &["C33"], "effects", || {
        let n = s.model.log.len().saturating_sub(12);
        format!("journal {:?} instead of {:?}", log.as_array().map(|l| l[n.min(l.len())..].to_vec()), &s.model.log[n..])
    });
    for (a, b) in s.model.bal.clone() {
        let got = s.w.balance(&addr(&a), "coin");
        ep.check(got == b, &["C33"], "balances", || format!("{a} has {got} instead of {b}"));
    }
    ep.settle()
}
