//! C14-C17: the real service registry with real balances, against a reference of stakes, authorisations and
//! declared chain support. Time is driven to the nanosecond around the end of unbonding periods.
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use cosmwasm_std::{coin, Addr, Coin};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use service_registry::{contract, msg as rmsg};
use std::collections::{BTreeMap, BTreeSet};

const DENOMS: &[&str] = &["uaxl", "uother", "ibc/AB"];
const CHAINS: &[&str] = &["ethereum", "sui", "e", "eth"];
const NAMES: &[&str] = &["validators", "validator", "VALIDATORS", "a", "a:b", "\u{17c}"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Bond {
    Bonded(u128),
    Unbonding(u128, u64),
    None,
}
impl Bond {
    fn amount(&self) -> u128 {
        match self {
            Bond::Bonded(a) | Bond::Unbonding(a, _) => *a,
            Bond::None => 0,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Wk {
    bond: Bond,
    auth: bool,
}
#[derive(Clone, Debug)]
struct Svc {
    json: Value,
    denom: String,
    min: u128,
    days: u64,
}

struct S {
    w: W,
    reg: Addr,
    gov: Addr,
    svcs: BTreeMap<String, Svc>,
    wk: BTreeMap<(String, String), Wk>,
    sup: BTreeSet<(String, String, String)>,
    donated: BTreeMap<String, u128>,
    accounts: Vec<Addr>,
    /// what each account should hold, per denomination
    bal: BTreeMap<(String, String), u128>,
    names: Vec<String>,
    chains: Vec<String>,
    flavour: u64,
    /// observe everything
    full: bool,
    /// whom, where and for which chain the next operations are for
    aim: Option<(Addr, String, String)>,
}

impl S {
    fn now(&self) -> u64 {
        self.w.app.block_info().time.nanos()
    }
    fn names(&self) -> Vec<String> {
        self.svcs.keys().cloned().collect()
    }
    fn known(&self) -> Vec<String> {
        let n = self.names();
        if n.is_empty() {
            vec!["validators".into()]
        } else {
            n
        }
    }
}

fn svc_name(ep: &mut Ep, s: &S) -> String {
    if let Some((_, svc, _)) = &s.aim {
        svc.clone()
    } else if ep.chance(6) {
        ep.pick(&s.names).clone()
    } else {
        let k = s.known();
        ep.pick(&k).clone()
    }
}

pub fn run(ep: &mut Ep) -> R {
    // large histories: many workers / many services / many chains
    let flavour = if ep.big() { 1 + (ep.idx / 40) % 3 } else { 0 };
    let mut accounts: Vec<Addr> = ["gov", "wk1", "wk2", "wk3", "wk4", "wk5", "newgov"]
        .iter()
        .map(|a| addr(a))
        .collect();
    let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    let mut chains: Vec<String> = CHAINS.iter().map(|n| n.to_string()).collect();
    let size = ep.big_size();
    match flavour {
        1 => accounts.extend((6..size).map(|i| addr(&format!("wk{i}")))),
        2 => {
            for _ in 0..size.min(80) {
                let x = ep.pick(&names).clone();
                let x = near(ep, &x);
                if !names.contains(&x) {
                    names.push(x);
                }
            }
        }
        3 => chains.extend((0..size).map(|i| format!("chain-{i}"))),
        _ => {}
    }
    let start = 10u128.pow(30);
    let fund: Vec<Coin> = DENOMS.iter().map(|d| coin(start, *d)).collect();
    let mut w = W::with_funds(accounts.iter().map(|a| (a.clone(), fund.clone())).collect());
    let reg = w
        .install(
            Box::new(ContractWrapper::new(contract::execute, contract::instantiate, contract::query)),
            &rmsg::InstantiateMsg {
                governance_account: "gov".into(),
            },
        )
        .expect("registry");
    let mut bal = BTreeMap::new();
    for a in &accounts {
        for d in DENOMS {
            bal.insert((a.to_string(), d.to_string()), start);
        }
    }
    let mut s = S {
        w,
        reg,
        gov: addr("gov"),
        svcs: BTreeMap::new(),
        wk: BTreeMap::new(),
        sup: BTreeSet::new(),
        donated: BTreeMap::new(),
        accounts,
        bal,
        names,
        chains,
        flavour,
        full: false,
        aim: None,
    };
    for _ in 0..ep.range(1, if flavour == 2 { 60 } else { 3 }) {
        register(ep, &mut s, true)?;
    }
    let n = match flavour {
        1 => 3 * s.accounts.len().min(140) + 40,
        2 | 3 => 150,
        _ if ep.thorough => 180,
        _ => 90,
    };
    if flavour == 1 && ep.chance(70) {
        // many at once become active in one service for one chain
        let svcs: Vec<String> = s.svcs.keys().cloned().collect();
        let (svc, chain) = (ep.pick(&svcs).clone(), ep.pick(&s.chains).clone());
        let gov = s.gov.clone();
        s.aim = Some((gov, svc.clone(), chain.clone()));
        authorise(ep, &mut s)?;
        for a in s.accounts.clone() {
            if ep.chance(90) {
                s.aim = Some((a, svc.clone(), chain.clone()));
                bond(ep, &mut s)?;
                declare(ep, &mut s)?;
            }
        }
        s.aim = None;
        observe(ep, &mut s)?;
    }
    let weights: [u64; 7] = match ep.focus {
        "C15" => [3, 6, 4, 27, 25, 25, 10],
        "C16" => [3, 22, 22, 25, 14, 8, 6],
        "C17" => [15, 30, 10, 15, 10, 10, 10],
        _ => [4, 8, 6, 34, 20, 20, 8],
    };
    for _ in 0..n {
        match ep.weighted(&weights) {
            0 => register(ep, &mut s, false)?,
            1 => authorise(ep, &mut s)?,
            2 => declare(ep, &mut s)?,
            3 => bond(ep, &mut s)?,
            4 => unbond(ep, &mut s)?,
            5 => claim(ep, &mut s)?,
            _ => donate(ep, &mut s)?,
        }
        time(ep, &mut s);
        if flavour == 0 || ep.chance(6) {
            observe(ep, &mut s)?;
        }
    }
    s.full = true;
    observe(ep, &mut s)
}

fn time(ep: &mut Ep, s: &mut S) {
    let now = s.now();
    let to = match ep.below(10) {
        0..=4 => now,
        5 => now + 5_000_000_000,
        6 => now + ep.range(0, 3) * 86_400_000_000_000,
        _ => {
            let ends: Vec<u64> = s
                .wk
                .iter()
                .filter_map(|((svc, _), k)| match k.bond {
                    Bond::Unbonding(_, t) => Some(t + s.svcs[svc].days * 86_400_000_000_000),
                    _ => None,
                })
                // (block times stay this side of the year 2096)
                .filter(|e| *e > now && *e < 4_000_000_000_000_000_000)
                .collect();
            if ends.is_empty() {
                now
            } else {
                let e = *ep.pick(&ends);
                match ep.below(3) {
                    0 => e - 1,
                    1 => e,
                    _ => e + ep.below(1 << 40),
                }
            }
        }
    };
    if to != now {
        s.w.app.update_block(|b| {
            b.time = b.time.plus_nanos(to - now);
            b.height += 1;
        });
        ep.trace.push(format!("time +{}ns", to - now));
    }
}

/// funds attached to something that is not a bond request; such tokens belong to nobody
fn stray(ep: &mut Ep) -> Vec<Coin> {
    if ep.chance(3) {
        vec![coin(ep.range(1, 50) as u128, *ep.pick(DENOMS))]
    } else {
        vec![]
    }
}

fn moved(s: &mut S, from: &Addr, funds: &[Coin], stake: bool) {
    for c in funds {
        if let Some(b) = s.bal.get_mut(&(from.to_string(), c.denom.clone())) {
            *b = b.wrapping_sub(c.amount.u128());
        }
        if !stake {
            *s.donated.entry(c.denom.clone()).or_insert(0) += c.amount.u128();
        }
    }
}

/// verdict on an operation whose acceptance the reference determines; with stray funds either answer is fine
fn decide(
    ep: &mut Ep,
    o: &Out,
    expect: bool,
    stray: bool,
    tags: &[&str],
    sig: &str,
) -> bool {
    ep.note(format!("{} (expected {})", short(o), if expect { "ok" } else { "refusal" }));
    match (o, expect) {
        (Ok(_), true) => true,
        (Err(_), false) => false,
        (Err(_), true) if stray => false,
        (Err(e), true) => {
            ep.fail(tags, &format!("{sig}-refused"), e.clone());
            false
        }
        (Ok(_), false) => {
            ep.fail(tags, &format!("{sig}-accepted"), format!("{o:?}"));
            false
        }
    }
}

fn register(ep: &mut Ep, s: &mut S, first: bool) -> R {
    let sender = if first || ep.chance(65) {
        s.gov.clone()
    } else {
        ep.pick(&s.accounts).clone()
    };
    let name = ep.pick(&s.names).clone();
    let denom = if ep.chance(70) { "uaxl" } else { *ep.pick(DENOMS) };
    let min: u128 = match ep.below(6) {
        0 => 0,
        1 => 1,
        2 => 10u128.pow(29),
        _ => ep.range(2, 200) as u128,
    };
    let days = match ep.below(5) {
        0 => 0,
        1 => 1,
        2 => *ep.pick(&[65535, 255, 256, 257, 300, 1000]),
        _ => ep.range(2, 40),
    };
    let max = match ep.below(4) {
        0 => json!(ep.below(65536)),
        1 => json!(ep.below(3)),
        _ => Value::Null,
    };
    let contract_addr = format!("svc{}", ep.below(5));
    let body = json!({
        "service_name": name, "service_contract": contract_addr, "min_num_workers": ep.below(65536),
        "max_num_workers": max, "min_worker_bond": min.to_string(), "bond_denom": denom,
        "unbonding_period_days": days, "description": text(ep),
    });
    let funds = stray(ep);
    ep.step(format!("register_service {body} by {sender}"));
    let o = s.w.exec(&sender, &s.reg, &json!({"register_service": body}), &funds);
    let fresh = !s.svcs.contains_key(&name);
    let ok = sender == s.gov && fresh;
    ep.count(if ok {
        "register.ok"
    } else if fresh {
        "register.unauthorised"
    } else {
        "register.duplicate"
    });
    if decide(ep, &o, ok, !funds.is_empty(), &["C17"], "service-registration") {
        let mut j = body.clone();
        let n = j.as_object_mut().unwrap().remove("service_name").unwrap();
        j["name"] = n;
        s.svcs.insert(
            name,
            Svc {
                json: j,
                denom: denom.into(),
                min,
                days,
            },
        );
        moved(s, &sender, &funds, false);
    }
    ep.settle()
}

fn authorise(ep: &mut Ep, s: &mut S) -> R {
    let sender = if ep.chance(80) || s.aim.is_some() { s.gov.clone() } else { ep.pick(&s.accounts).clone() };
    let svc = svc_name(ep, s);
    let mut list: Vec<String> = vec![];
    let size = if s.flavour == 1 { ep.below(s.accounts.len() as u64 + 20) } else { ep.below(4) };
    for _ in 0..size {
        list.push(ep.pick(&s.accounts).to_string());
    }
    if s.flavour == 1 && (ep.chance(40) || s.aim.is_some()) {
        list = s.accounts.iter().map(|a| a.to_string()).collect();
        ep.shuffle(&mut list);
    }
    let invalid = s.aim.is_none() && ep.chance(4);
    if invalid {
        let at = ep.below(list.len() as u64 + 1) as usize;
        list.insert(at, ep.pick(&["X", "Wk1"]).to_string());
    }
    let on = s.aim.is_some() || ep.chance(62);
    let op = if on { "authorize_workers" } else { "unauthorize_workers" };
    let funds = stray(ep);
    ep.step(format!("{op} {list:?} for {svc} by {sender}"));
    let mut m = serde_json::Map::new();
    m.insert(op.into(), json!({"workers": list, "service_name": svc}));
    let o = s.w.exec(&sender, &s.reg, &Value::Object(m), &funds);
    let ok = sender == s.gov && s.svcs.contains_key(&svc) && !invalid;
    ep.count(if ok {
        "authorise.ok"
    } else if sender != s.gov {
        "authorise.unauthorised"
    } else {
        "authorise.invalid"
    });
    if decide(ep, &o, ok, !funds.is_empty(), &["C17", "C16"], "authorisation-change") {
        for a in &list {
            s.wk.entry((svc.clone(), a.clone()))
                .or_insert(Wk {
                    bond: Bond::None,
                    auth: on,
                })
                .auth = on;
        }
        moved(s, &sender, &funds, false);
    }
    ep.settle()
}

fn declare(ep: &mut Ep, s: &mut S) -> R {
    let sender = s.aim.as_ref().map_or_else(|| ep.pick(&s.accounts).clone(), |a| a.0.clone());
    let svc = svc_name(ep, s);
    let mut chains: Vec<String> = s.aim.iter().map(|a| a.2.clone()).collect();
    let size = if s.flavour == 3 { ep.below(s.chains.len() as u64 * 2) } else { ep.below(4) };
    for _ in 0..size {
        chains.push(ep.pick(&s.chains).clone());
    }
    let spelled: Vec<String> = chains
        .iter()
        .map(|c| if ep.chance(20) { recase(ep, c) } else { c.clone() })
        .collect();
    let funds = stray(ep);
    ep.step(format!("declare {spelled:?} for {svc} by {sender}"));
    let o = s.w.exec(
        &sender,
        &s.reg,
        &json!({"declare_chain_support": {"service_name": svc, "chains": spelled}}),
        &funds,
    );
    let ok = s.svcs.contains_key(&svc) && s.wk.contains_key(&(svc.clone(), sender.to_string()));
    ep.count(if ok { "declare.ok" } else { "declare.refused" });
    if decide(ep, &o, ok, !funds.is_empty(), &["C16"], "chain-support") {
        for c in chains {
            s.sup.insert((svc.clone(), c, sender.to_string()));
        }
        moved(s, &sender, &funds, false);
    }
    ep.settle()
}

fn bond(ep: &mut Ep, s: &mut S) -> R {
    let sender = s.aim.as_ref().map_or_else(|| ep.pick(&s.accounts).clone(), |a| a.0.clone());
    let svc = svc_name(ep, s);
    let sv = s.svcs.get(&svc).cloned();
    let denom = sv.as_ref().map(|x| x.denom.clone()).unwrap_or("uaxl".into());
    let other = DENOMS.iter().find(|d| **d != denom).unwrap().to_string();
    let min = sv.as_ref().map(|x| x.min).unwrap_or(5);
    let have = s
        .wk
        .get(&(svc.clone(), sender.to_string()))
        .map(|k| k.bond.amount())
        .unwrap_or(0);
    let amt: u128 = match ep.below(6) {
        _ if s.aim.is_some() => min.max(1),
        0 => min.saturating_sub(have).max(1),
        1 => min.saturating_sub(have + 1).max(1),
        2 => (min + 1).saturating_sub(have).max(1),
        3 => 1,
        _ => ep.range(1, 300) as u128,
    };
    let avail = s.bal[&(sender.to_string(), denom.clone())];
    let amt = if amt > avail { 1 } else { amt };
    let (kind, funds) = match ep.below(20) {
        _ if s.aim.is_some() => ("one", vec![coin(amt, denom.clone())]),
        0..=3 => ("none", vec![]),
        4 => ("wrong", vec![coin(amt.min(1000), other)]),
        5 => (
            "two",
            if ep.chance(50) {
                vec![coin(amt, denom.clone()), coin(1, other)]
            } else {
                vec![coin(1, other), coin(amt, denom.clone())]
            },
        ),
        _ => ("one", vec![coin(amt, denom.clone())]),
    };
    ep.step(format!("bond {funds:?} in {svc} by {sender}"));
    let o = s.w.exec(&sender, &s.reg, &json!({"bond_worker": {"service_name": svc}}), &funds);
    let ok = sv.is_some()
        && match kind {
            "one" => true,
            "none" => have > 0,
            _ => false,
        };
    let key = (svc.clone(), sender.to_string());
    let was = s.wk.get(&key).cloned();
    ep.count(match (kind, ok) {
        ("none", true) => "bond.rebond",
        ("none", false) => "bond.refused_zero",
        ("one", true) => "bond.ok",
        ("wrong" | "two", _) => "bond.refused_funds",
        _ => "bond.refused_service",
    });
    if ok && matches!(was.as_ref().map(|w| &w.bond), Some(Bond::Unbonding(..))) {
        ep.count("bond.while_unbonding");
    }
    if decide(ep, &o, ok, false, &["C14", "C15", "C16"], "bond") {
        let e = s.wk.entry(key).or_insert(Wk {
            bond: Bond::None,
            auth: false,
        });
        let add = if kind == "one" { amt } else { 0 };
        e.bond = Bond::Bonded(e.bond.amount() + add);
        moved(s, &sender, &funds, true);
    }
    ep.settle()
}

fn unbond(ep: &mut Ep, s: &mut S) -> R {
    let (svc, sender) = holder(ep, s);
    let funds = stray(ep);
    let key = (svc.clone(), sender.to_string());
    ep.step(format!("unbond in {svc} by {sender}"));
    let o = s.w.exec(&sender, &s.reg, &json!({"unbond_worker": {"service_name": svc}}), &funds);
    let ok = s.svcs.contains_key(&svc)
        && matches!(s.wk.get(&key).map(|k| &k.bond), Some(Bond::Bonded(_)));
    ep.count(match (ok, s.wk.get(&key).map(|k| &k.bond)) {
        (true, _) => "unbond.ok",
        (false, Some(Bond::Unbonding(..))) => "unbond.refused_again",
        _ => "unbond.refused_nothing",
    });
    if decide(ep, &o, ok, !funds.is_empty(), &["C15"], "unbond") {
        let now = s.now();
        let e = s.wk.get_mut(&key).unwrap();
        e.bond = Bond::Unbonding(e.bond.amount(), now);
        moved(s, &sender, &funds, false);
    }
    ep.settle()
}

/// usually someone with something at stake
fn holder(ep: &mut Ep, s: &S) -> (String, Addr) {
    if ep.chance(80) {
        let c: Vec<(String, String)> = s
            .wk
            .iter()
            .filter(|(_, k)| k.bond != Bond::None)
            .map(|(k, _)| k.clone())
            .collect();
        if !c.is_empty() {
            let (a, b) = ep.pick(&c).clone();
            return (a, addr(&b));
        }
    }
    (svc_name(ep, s), ep.pick(&s.accounts).clone())
}

fn claim(ep: &mut Ep, s: &mut S) -> R {
    let (svc, sender) = {
        let c: Vec<(String, String)> = s
            .wk
            .iter()
            .filter(|(_, k)| matches!(k.bond, Bond::Unbonding(..)))
            .map(|(k, _)| k.clone())
            .collect();
        if !c.is_empty() && ep.chance(75) {
            let (a, b) = ep.pick(&c).clone();
            (a, addr(&b))
        } else {
            holder(ep, s)
        }
    };
    let funds = stray(ep);
    let key = (svc.clone(), sender.to_string());
    ep.step(format!("claim in {svc} by {sender}"));
    let o = s.w.exec(&sender, &s.reg, &json!({"claim_stake": {"service_name": svc}}), &funds);
    let now = s.now();
    let due = match (s.svcs.get(&svc), s.wk.get(&key).map(|k| &k.bond)) {
        (Some(v), Some(Bond::Unbonding(a, t))) => {
            let end = t + v.days * 86_400_000_000_000;
            if end == now {
                ep.count("claim.at_deadline");
            }
            if end == now + 1 {
                ep.count("claim.just_before_deadline");
            }
            if end <= now {
                Some((*a, v.denom.clone()))
            } else {
                ep.count("claim.refused_early");
                None
            }
        }
        _ => {
            ep.count("claim.refused_nothing");
            None
        }
    };
    ep.seen(
        &["C15"],
        &(
            s.wk.get(&key).map(|k| (std::mem::discriminant(&k.bond), k.auth)),
            due.is_some(),
            s.svcs.len(),
            s.wk.values().map(|k| std::mem::discriminant(&k.bond)).collect::<Vec<_>>(),
        ),
    );
    if decide(ep, &o, due.is_some(), !funds.is_empty(), &["C15", "C14"], "claim") {
        let (a, d) = due.unwrap();
        ep.count("claim.paid");
        let r = o.as_ref().unwrap();
        let paid: Vec<_> = transfers(r).into_iter().filter(|t| t.0 == s.reg.as_str()).collect();
        ep.check(
            paid == vec![(s.reg.to_string(), sender.to_string(), format!("{a}{d}"))],
            &["C15", "C14"],
            "claim-payout-wrong",
            || format!("paid {paid:?}, due {a}{d} to {sender}"),
        );
        s.wk.get_mut(&key).unwrap().bond = Bond::None;
        moved(s, &sender, &funds, false);
        *s.bal.get_mut(&(sender.to_string(), d)).unwrap() += a;
    }
    ep.settle()
}

fn donate(ep: &mut Ep, s: &mut S) -> R {
    let sender = ep.pick(&s.accounts).clone();
    if ep.chance(70) {
        return Ok(());
    }
    let c = vec![coin(ep.range(1, 9) as u128, *ep.pick(DENOMS))];
    ep.step(format!("plain transfer {c:?} from {sender}"));
    let to = s.reg.clone();
    if s.w.send(&sender, &to, c.clone()).is_ok() {
        moved(s, &sender, &c, false);
    }
    Ok(())
}

fn expect_json(s: &S, svc: &str, a: &str) -> Option<Value> {
    let k = s.wk.get(&(svc.to_string(), a.to_string()))?;
    let b = match &k.bond {
        Bond::Bonded(x) => json!({"Bonded": {"amount": x.to_string()}}),
        Bond::Unbonding(x, t) => {
            json!({"Unbonding": {"amount": x.to_string(), "unbonded_at": t.to_string()}})
        }
        Bond::None => json!("Unbonded"),
    };
    Some(json!({
        "address": a, "bonding_state": b,
        "authorization_state": if k.auth { "Authorized" } else { "NotAuthorized" },
        "service_name": svc,
    }))
}

fn observe(ep: &mut Ep, s: &mut S) -> R {
    // balances
    for d in DENOMS {
        let stake: u128 = s
            .wk
            .iter()
            .filter(|((svc, _), _)| s.svcs[svc].denom == **d)
            .map(|(_, k)| k.bond.amount())
            .sum();
        let given = s.donated.get(*d).copied().unwrap_or(0);
        let held = s.w.balance(&s.reg, d);
        ep.check(
            held == stake + given,
            &["C14"],
            "registry-balance-differs-from-stakes",
            || format!("holds {held}{d}, at stake {stake}, sent outside of bonds {given}"),
        );
        for a in &s.accounts {
            let want = s.bal[&(a.to_string(), d.to_string())];
            let got = s.w.balance(a, d);
            ep.check(got == want, &["C14", "C15"], "account-balance", || {
                format!("{a} holds {got}{d}, should hold {want}")
            });
        }
    }
    let code: Vec<_> = s
        .wk
        .iter()
        .map(|(k, v)| (k.clone(), std::mem::discriminant(&v.bond), v.auth))
        .collect();
    ep.seen(&["C14"], &(s.wk.values().cloned().collect::<Vec<_>>()));
    ep.seen(&["C17"], &(code.clone(), s.names()));
    ep.seen(&["C16"], &(code, s.sup.clone()));

    // records
    let names = s.names.clone();
    let chains = s.chains.clone();
    for n in &names {
        if !(s.svcs.contains_key(n) || ep.chance(20)) || s.flavour > 1 && !s.full && ep.chance(60) {
            continue;
        }
        let got: Result<Value, String> =
            s.w.query(&s.reg, &json!({"get_service": {"service_name": n}}));
        let want = s.svcs.get(n).map(|x| x.json.clone());
        ep.check(got.as_ref().ok() == want.as_ref(), &["C17"], "service-record", || {
            format!("{n}: reported {got:?}, history implies {want:?}")
        });
        ep.count("query.service");
        for a in s.accounts.clone() {
            if !s.full && !ep.chance(30) && ep.focus != "C17" && ep.focus != "C14" {
                continue;
            }
            let got: Result<Value, String> = s.w.query(
                &s.reg,
                &json!({"get_worker": {"service_name": n, "worker": a}}),
            );
            let want = expect_json(s, n, a.as_str());
            ep.count(if want.is_some() { "query.worker" } else { "query.worker_missing" });
            if let (Ok(g), Some(w)) = (&got, &want) {
                ep.check(
                    g["bonding_state"] == w["bonding_state"],
                    &["C14", "C15", "C17"],
                    "recorded-stake",
                    || format!("{n}/{a}: reported {g}, history implies {w}"),
                );
                ep.check(g == w, &["C17"], "worker-record", || {
                    format!("{n}/{a}: reported {g}, history implies {w}")
                });
            } else {
                ep.check(got.is_err() && want.is_none(), &["C17", "C14"], "worker-record", || {
                    format!("{n}/{a}: reported {got:?}, history implies {want:?}")
                });
            }
        }
        for c in &chains {
            if !s.full && !ep.chance(35) && !ep.is("C16") {
                continue;
            }
            let sp = if ep.chance(20) { recase(ep, c) } else { c.to_string() };
            let got: Result<Vec<Value>, String> = s.w.query(
                &s.reg,
                &json!({"get_active_workers": {"service_name": n, "chain_name": sp}}),
            );
            match (s.svcs.get(n), got) {
                (None, Err(_)) => {}
                (None, Ok(g)) => ep.fail(&["C16"], "active-workers-of-unknown-service", format!("{n}: {g:?}")),
                (Some(_), Err(e)) => ep.fail(&["C16"], "active-workers-unavailable", format!("{n}/{c}: {e}")),
                (Some(sv), Ok(mut g)) => {
                    let mut want: Vec<Value> = s
                        .wk
                        .iter()
                        .filter(|((x, a), k)| {
                            x == n
                                && k.auth
                                && matches!(k.bond, Bond::Bonded(b) if b >= sv.min)
                                && s.sup.contains(&(n.clone(), c.to_string(), a.clone()))
                        })
                        .map(|((_, a), _)| expect_json(s, n, a).unwrap())
                        .collect();
                    ep.count("query.active");
                    if !want.is_empty() {
                        ep.count("query.active_some");
                    }
                    g.sort_by_key(|v| v["address"].to_string());
                    want.sort_by_key(|v| v["address"].to_string());
                    ep.check(g == want, &["C16"], "active-workers", || {
                        format!("{n}/{c}: reported {g:?}, history implies {want:?}")
                    });
                }
            }
        }
    }
    ep.settle()
}
