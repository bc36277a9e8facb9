//! C18-C22: the real rewards contract with real balances, against a reference of epochs, tallies and pools.
//! Nothing can be queried, so every history ends by paying out all that is due, which makes each tally observable.
use crate::core::*;
use crate::gen::{near, text};
use crate::world::*;
use ::rewards::{contract, msg as rmsg};
use cosmwasm_std::{coin, Addr, Coin};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const D: &str = "uaxl";
const ALL: &[&str] = &["C19", "C20", "C21", "C22", "C18"];
const TALLY: &[&str] = &["C19", "C20", "C21", "C22"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Params {
    dur: u64,
    per: u128,
    thr: (u64, u64),
}
impl Params {
    fn json(&self) -> Value {
        json!({
            "epoch_duration": self.dur.to_string(),
            "rewards_per_epoch": self.per.to_string(),
            "participation_threshold": [self.thr.0.to_string(), self.thr.1.to_string()],
        })
    }
}

#[derive(Clone, Debug)]
struct Tally {
    params: Params,
    events: u64,
    part: BTreeMap<String, u64>,
}
impl Tally {
    fn winners(&self) -> Vec<&String> {
        self.part
            .iter()
            .filter(|(_, n)| {
                **n as u128 * self.params.thr.1 as u128
                    >= self.params.thr.0 as u128 * self.events as u128
            })
            .map(|(a, _)| a)
            .collect()
    }
}

struct S {
    w: W,
    rw: Addr,
    params: Params,
    epoch: (u64, u64),
    pools: BTreeMap<String, u128>,
    tallies: BTreeMap<(String, u64), Tally>,
    events: BTreeMap<(String, String), u64>,
    seen: BTreeSet<(String, String, String)>,
    mark: BTreeMap<String, u64>,
    stray: u128,
    bal: BTreeMap<String, u128>,
    contracts: Vec<String>,
    workers: Vec<String>,
    next_event: u64,
}

impl S {
    fn now(&self) -> (u64, u64) {
        let h = self.w.height();
        let k = (h - self.epoch.1) / self.params.dur;
        (self.epoch.0 + k, self.epoch.1 + k * self.params.dur)
    }
    /// what a distribution for `c` limited to `count` epochs should pay, and the last epoch it processes
    fn due(&self, c: &str, count: Option<u64>) -> Option<(u64, BTreeMap<String, u128>)> {
        let from = self.mark.get(c).map_or(0, |m| m + 1);
        let (cur, _) = self.now();
        if cur < 2 || from > cur - 2 {
            return None;
        }
        let n = count.unwrap_or(10).min(cur - 2 - from + 1);
        if n == 0 {
            return None;
        }
        let to = from + n - 1;
        let mut out: BTreeMap<String, u128> = BTreeMap::new();
        for e in from..=to {
            if let Some(t) = self.tallies.get(&(c.to_string(), e)) {
                let w = t.winners();
                if w.is_empty() {
                    continue;
                }
                let each = t.params.per / w.len() as u128;
                if each > 0 {
                    for a in w {
                        *out.entry(a.clone()).or_insert(0) += each;
                    }
                }
            }
        }
        Some((to, out))
    }
}

fn params(ep: &mut Ep) -> Params {
    let dur = match ep.below(12) {
        0 => 1,
        1 => 2,
        2 => 1 << 40,
        _ => ep.range(3, 20),
    };
    let per = match ep.below(8) {
        0 => ep.range(1, 4) as u128,
        1 => 10u128.pow(28) + ep.below(100) as u128,
        2 => 1,
        _ => ep.range(5, 1000) as u128,
    };
    let thr = match ep.below(10) {
        0 => (1, 1),
        1 => (1, 2),
        2 => (2, 3),
        3 => (1, u64::MAX),
        4 => (u64::MAX - 1, u64::MAX),
        5 => (u64::MAX / 2 + 1, u64::MAX),
        6 => (9, 10),
        _ => {
            let d = ep.range(1, 12);
            (ep.range(1, d), d)
        }
    };
    Params { dur, per, thr }
}

pub fn run(ep: &mut Ep) -> R {
    let fund = 10u128.pow(34);
    let donors = ["gov", "donor", "oldgov"];
    let mut w = W::with_funds(
        donors
            .iter()
            .map(|a| (addr(a), vec![coin(fund, D), coin(fund, "uother")]))
            .collect(),
    );
    let mut p = params(ep);
    if p.dur > 1000 && ep.chance(80) {
        p.dur = 7;
    }
    // large histories: many workers per event / many epochs between payouts / many events and contracts
    let flavour = match ep.idx % 40 {
        17 => 1 + (ep.idx / 40) % 3,
        37 => 4,
        _ => 0,
    };
    if flavour == 4 {
        let k = ep.range(2, 300);
        p.dur = ep.range(5, 50);
        p.thr = *ep.pick(&[p.thr, (1, 1), (99, 100), (199, 200), (999, 1000), (k - 1, k), (1, 2)]);
    }
    if flavour == 2 {
        p.dur = ep.range(1, 4);
    } else if flavour == 3 {
        p.dur = ep.range(20, 400);
    }
    let rw = w
        .install(
            Box::new(ContractWrapper::new(
                contract::execute,
                contract::instantiate,
                |_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: cosmwasm_std::Empty| {
                    cosmwasm_std::StdResult::Err(cosmwasm_std::StdError::generic_err("no queries"))
                },
            )),
            &rmsg::InstantiateMsg {
                governance_address: "gov".into(),
                rewards_denom: D.into(),
                params: serde_json::from_value(p.json()).expect("params"),
            },
        )
        .expect("rewards");
    let start = w.height();
    let nw = match flavour {
        1 => ep.big_size() as usize,
        _ => ep.range(1, 8) as usize,
    };
    let mut contracts: Vec<String> =
        vec!["contract100".into(), "contract10".into(), "verifier".into()];
    if flavour == 3 {
        let k = ep.big_size();
        contracts.extend((0..k).map(|i| format!("verifier{i}")));
    }
    let mut s = S {
        w,
        rw,
        params: p,
        epoch: (0, start),
        pools: BTreeMap::new(),
        tallies: BTreeMap::new(),
        events: BTreeMap::new(),
        seen: BTreeSet::new(),
        mark: BTreeMap::new(),
        stray: 0,
        bal: BTreeMap::new(),
        contracts,
        workers: (0..nw).map(|i| format!("worker{i}")).collect(),
        next_event: 0,
    };
    // nearly every epoch has something to pay, and payouts are rare
    let dense = flavour == 2 && ep.chance(60);
    if dense {
        s.contracts.truncate(ep.range(1, 2) as usize);
    }
    let n = match flavour {
        1 | 4 => 14,
        2 | 3 => 400,
        _ if ep.thorough => 300,
        _ => 120,
    };
    let weights: [u64; 5] = match ep.focus {
        "C18" => [50, 20, 22, 3, 5],
        "C19" => [55, 8, 30, 3, 4],
        "C21" => [55, 6, 15, 12, 12],
        "C22" => [72, 5, 12, 3, 8],
        _ => [70, 5, 14, 4, 7],
    };
    if flavour == 4 {
        attendance(ep, &mut s)?;
    }
    for _ in 0..n {
        let kind = match flavour {
            // seldom pay, so that much is due at once
            2 if dense && ep.chance(99) => 0,
            2 | 3 if ep.chance(85) => 0,
            _ => ep.weighted(&weights),
        };
        match kind {
            0 => record(ep, &mut s)?,
            1 => deposit(ep, &mut s)?,
            2 => distribute(ep, &mut s)?,
            3 => update(ep, &mut s)?,
            _ => stray(ep, &mut s),
        }
        time(ep, &mut s);
        if dense && ep.chance(70) {
            s.w.advance(s.params.dur.min(30), 10);
        }
        conserve(ep, &mut s)?;
    }
    // pay out everything, so that every tally is seen
    if s.params.dur < 1000 {
        let d = s.params.dur;
        s.w.advance(2 * d, 10);
        for c in s.contracts.clone() {
            for _ in 0..60 {
                let Some((_, pay)) = s.due(&c, Some(200)) else {
                    break;
                };
                let need: u128 = pay.values().sum();
                let have = s.pools.get(&c).copied().unwrap_or(0);
                if need > have {
                    put(ep, &mut s, &c, need - have)?;
                }
                pay_out(ep, &mut s, &c, Some(200))?;
                conserve(ep, &mut s)?;
            }
            // nothing more
            pay_out(ep, &mut s, &c, None)?;
        }
    }
    Ok(())
}

fn time(ep: &mut Ep, s: &mut S) {
    let d = s.params.dur.min(30);
    let next = s.now().1.saturating_add(s.params.dur);
    let h = s.w.height();
    let to = match ep.below(20) {
        0..=9 => h,
        10..=13 => h + 1,
        14 => h + ep.range(0, d),
        15 => h + d,
        16 if next - h < 100 => next,
        17 if next - h < 100 => next - 1,
        18 => h + ep.range(0, 3 * d),
        _ => h + ep.range(0, 2),
    };
    if to > h {
        s.w.advance(to - h, (to - h) * 5);
        ep.trace.push(format!("height {to}, epoch {}", s.now().0));
    }
}

fn record(ep: &mut Ep, s: &mut S) -> R {
    let c = ep.pick(&s.contracts).clone();
    let old: Vec<String> = s
        .events
        .keys()
        .filter(|k| k.1 == c)
        .map(|k| k.0.clone())
        .rev()
        .collect();
    let id = match ep.below(10) {
        0..=2 => {
            s.next_event += 1;
            format!("{}", s.next_event)
        }
        3 => {
            // another contract's event id
            let o: Vec<String> = s.events.keys().map(|k| k.0.clone()).collect();
            if o.is_empty() {
                text(ep)
            } else {
                ep.pick(&o).clone()
            }
        }
        4 if ep.chance(50) => text(ep),
        4 => {
            // nearly the id of an event already reported
            let o: Vec<String> = s.events.keys().map(|k| k.0.clone()).collect();
            if o.is_empty() {
                "1".into()
            } else {
                let x = ep.pick(&o).clone();
                near(ep, &x)
            }
        }
        _ if !old.is_empty() => {
            if ep.chance(70) {
                let k = old.len().min(3);
                ep.pick(&old[..k]).clone()
            } else {
                ep.pick(&old).clone()
            }
        }
        _ => "0".into(),
    };
    // one event, several workers
    let k = match ep.below(4) {
        0 => s.workers.len() as u64,
        _ => ep.range(1, s.workers.len() as u64),
    };
    let mut ws = s.workers.clone();
    ep.shuffle(&mut ws);
    for wk in ws.into_iter().take(k as usize) {
        one(ep, s, &c, &id, wk);
    }
    if ep.chance(3) {
        // not a worker address, or no event id: nothing is recorded
        let bad = if ep.chance(50) {
            json!({"record_participation": {"event_id": "bad", "worker_address": "X"}})
        } else {
            json!({"record_participation": {"event_id": "", "worker_address": "worker0"}})
        };
        ep.step("invalid participation");
        let o = s.w.exec(&addr(&c), &s.rw, &bad, &[]);
        ep.check(
            o.is_err(),
            &["C22"],
            "invalid-participation-accepted",
            || short(&o),
        );
    }
    ep.settle()
}

fn one(ep: &mut Ep, s: &mut S, c: &str, id: &str, wk: String) {
    if !s.seen.insert((c.to_string(), id.to_string(), wk.clone())) {
        return;
    }
    let (cur, _) = s.now();
    ep.step(format!(
        "{c} records {wk} in event {id} at {} (epoch {cur})",
        s.w.height()
    ));
    let o = s.w.exec(
        &addr(c),
        &s.rw,
        &json!({"record_participation": {"event_id": id, "worker_address": wk}}),
        &[],
    );
    ep.check(o.is_ok(), &["C22"], "participation-refused", || short(&o));
    let key = (c.to_string(), id.to_string());
    let fresh = !s.events.contains_key(&key);
    let e = *s.events.entry(key).or_insert(cur);
    if e != cur {
        ep.count("record.late");
    }
    if fresh {
        ep.count("record.events");
    }
    ep.count("record.participations");
    let p = s.params.clone();
    let t = s.tallies.entry((c.to_string(), e)).or_insert(Tally {
        params: p,
        events: 0,
        part: BTreeMap::new(),
    });
    if fresh {
        t.events += 1;
    }
    *t.part.entry(wk).or_insert(0) += 1;
}

/// many events in one epoch, from which each worker is absent a few times
fn attendance(ep: &mut Ep, s: &mut S) -> R {
    let c = s.contracts[0].clone();
    let n = match ep.below(3) {
        0 => *ep.pick(&[50u64, 64, 99, 100, 101, 128, 200, 255, 256, 257]),
        _ => ep.range(40, 260),
    };
    let (a, b) = s.params.thr;
    // absences that the threshold allows
    let spare = n - (((n as u128 * a as u128 + b as u128 - 1) / b as u128) as u64).min(n);
    let mut absent: Vec<Vec<u64>> = vec![];
    for _ in 0..s.workers.len() {
        let k = match ep.below(6) {
            0 => 0,
            1 => 1,
            2 | 3 => spare,
            4 => spare + 1,
            _ => ep.range(0, n),
        };
        let mut all: Vec<u64> = (0..n).collect();
        ep.shuffle(&mut all);
        all.truncate(k as usize);
        absent.push(all);
    }
    for e in 0..n {
        s.next_event += 1;
        let id = format!("{}", s.next_event);
        for (w, wk) in s.workers.clone().into_iter().enumerate() {
            if !absent[w].contains(&e) {
                one(ep, s, &c, &id, wk);
            }
        }
    }
    ep.count("epochs.long_attendance");
    ep.settle()
}

fn put(ep: &mut Ep, s: &mut S, c: &str, amt: u128) -> R {
    ep.step(format!("add {amt} to {c}"));
    let o = s.w.exec(
        &addr("donor"),
        &s.rw,
        &json!({"add_rewards": {"contract_address": c}}),
        &[coin(amt, D)],
    );
    ep.count("deposit.ok");
    if ep.check(o.is_ok(), &["C18"], "deposit-refused", || short(&o)) {
        *s.pools.entry(c.to_string()).or_insert(0) += amt;
    }
    ep.settle()
}

fn deposit(ep: &mut Ep, s: &mut S) -> R {
    let c = ep.pick(&s.contracts).clone();
    if ep.chance(65) {
        let amt = match ep.below(4) {
            0 => 1,
            1 => 10u128.pow(29),
            _ => ep.range(1, 2000) as u128,
        };
        return put(ep, s, &c, amt);
    }
    let funds: Vec<Coin> = match ep.below(5) {
        0 => vec![],
        1 => vec![coin(5, "uother")],
        2 => vec![coin(5, D), coin(5, "uother")],
        3 => vec![coin(5, "uother"), coin(5, D)],
        _ => vec![coin(5, D)],
    };
    let to = if funds.len() == 1 && funds[0].denom == D {
        "X".to_string()
    } else {
        c
    };
    ep.step(format!("bad deposit {funds:?} for {to}"));
    let o = s.w.exec(
        &addr("donor"),
        &s.rw,
        &json!({"add_rewards": {"contract_address": to}}),
        &funds,
    );
    ep.count("deposit.refused");
    ep.check(o.is_err(), &["C18"], "bad-deposit-accepted", || {
        format!("{funds:?} {}", short(&o))
    });
    ep.settle()
}

fn distribute(ep: &mut Ep, s: &mut S) -> R {
    let c = match ep.below(20) {
        0 => "nobody".to_string(),
        _ => ep.pick(&s.contracts).clone(),
    };
    let count = match ep.below(12) {
        0 => Some(0),
        1 => Some(u64::MAX),
        2 => Some(u64::MAX - ep.below(5)),
        3..=5 => None,
        6 => Some(11),
        7 => Some(ep.range(12, 400)),
        _ => Some(ep.range(1, 4)),
    };
    // bring the pool to just enough, or just short of it
    if let Some((_, pay)) = s.due(&c, count) {
        let need: u128 = pay.values().sum();
        let have = s.pools.get(&c).copied().unwrap_or(0);
        if need > have && c != "nobody" {
            match ep.below(3) {
                0 => put(ep, s, &c, need - have)?,
                1 if need - have > 1 => put(ep, s, &c, need - have - 1)?,
                _ => {}
            }
        }
    }
    pay_out(ep, s, &c, count)
}

fn pay_out(ep: &mut Ep, s: &mut S, c: &str, count: Option<u64>) -> R {
    let due = s.due(c, count);
    let have = s.pools.get(c).copied().unwrap_or(0);
    let (cur, _) = s.now();
    let from = s.mark.get(c).map_or(0, |m| m + 1);
    ep.step(format!(
        "distribute {c} count={count:?} (epoch {cur}, from {from}, pool {have}) due {due:?}"
    ));
    let sender = addr(["relayer", "gov", "worker0"][ep.below(3) as usize]);
    let o = s.w.exec(
        &sender,
        &s.rw,
        &json!({"distribute_rewards": {"contract_address": c, "epoch_count": count}}),
        &[],
    );
    ep.note(short(&o));
    let shape: Vec<_> = (from..=due.as_ref().map_or(from, |d| d.0).min(from + 12))
        .filter_map(|e| s.tallies.get(&(c.to_string(), e)))
        .map(|t| {
            (
                t.events.min(5),
                t.part.values().map(|x| (*x).min(5)).collect::<Vec<_>>(),
                t.params.thr,
            )
        })
        .collect();
    ep.seen(
        ALL,
        &(shape, due.is_some(), count.map(|c| c.min(12)), o.is_ok()),
    );
    match (&due, &o) {
        (None, Err(_)) => {
            ep.count("pay.nothing_left");
            if count == Some(0) {
                ep.count("pay.zero_epochs");
            }
        }
        (None, Ok(_)) => ep.fail(
            &["C19"],
            "distribution-of-nothing-accepted",
            format!(
                "{c} count={count:?} epoch={cur} last={:?}: {:?}",
                s.mark.get(c),
                transfers(o.as_ref().unwrap())
            ),
        ),
        (Some((to, pay)), _) => {
            let need: u128 = pay.values().sum();
            if need > have {
                ep.count("pay.insufficient");
                ep.check(o.is_err(), &["C18"], "pool-overdrawn", || {
                    format!(
                        "{c} has {have}, {need} due, paid {:?}",
                        transfers(o.as_ref().unwrap())
                    )
                });
                return ep.settle();
            }
            match &o {
                Err(e) => ep.fail(
                    ALL,
                    "distribution-refused",
                    format!("{c} due {pay:?} with {have} in the pool: {e}"),
                ),
                Ok(r) => {
                    ep.count("pay.ok");
                    ep.count_n("pay.epochs", to - from + 1);
                    if !pay.is_empty() {
                        ep.count("pay.rewarded");
                    }
                    for e in from..=*to {
                        if let Some(t) = s.tallies.get(&(c.to_string(), e)) {
                            let w = t.winners().len();
                            if w < t.part.len() {
                                ep.count("pay.below_threshold");
                            }
                            if w > 0 && t.params.per % w as u128 != 0 {
                                ep.count("pay.rounded_down");
                            }
                            if t.params != s.params {
                                ep.count("pay.old_params");
                            }
                        }
                    }
                    let mut got: BTreeMap<String, u128> = BTreeMap::new();
                    let mut odd = vec![];
                    for (f, t, a) in transfers(r) {
                        match a.strip_suffix(D).and_then(|x| x.parse::<u128>().ok()) {
                            Some(n) if f == s.rw.as_str() => *got.entry(t).or_insert(0) += n,
                            _ => odd.push((f, t, a)),
                        }
                    }
                    ep.check(odd.is_empty(), ALL, "unexpected-transfer", || {
                        format!("{odd:?}")
                    });
                    ep.check(&got == pay, TALLY, "payout-differs", || {
                        let ts: Vec<_> = (from..=*to)
                            .filter_map(|e| s.tallies.get(&(c.to_string(), e)).map(|t| (e, t)))
                            .collect();
                        format!(
                            "{c} epochs {from}..={to}: paid {got:?}, due {pay:?}; tallies {ts:?}"
                        )
                    });
                    for (a, n) in got {
                        *s.bal.entry(a).or_insert(0) += n;
                    }
                    s.pools.insert(c.to_string(), have - need);
                    s.mark.insert(c.to_string(), *to);
                }
            }
        }
    }
    ep.settle()
}

fn update(ep: &mut Ep, s: &mut S) -> R {
    let mut p = params(ep);
    if p.dur > 1000 && ep.chance(70) {
        p.dur = ep.range(1, 9);
    }
    let gov = ep.chance(75);
    let sender = if gov {
        addr("gov")
    } else {
        addr(["oldgov", "verifier", "worker0", "deployer"][ep.below(4) as usize])
    };
    let (num, start) = s.now();
    let h = s.w.height();
    ep.step(format!(
        "update {p:?} by {sender} at {h} (epoch {num} since {start})"
    ));
    let o = s.w.exec(
        &sender,
        &s.rw,
        &json!({"update_params": {"params": p.json()}}),
        &[],
    );
    if gov {
        if ep.check(o.is_ok(), &["C21"], "update-refused", || short(&o)) {
            ep.count("update.ok");
            if start + p.dur <= h {
                s.epoch = (num + 1, h);
                ep.count("update.ends_epoch");
            } else {
                s.epoch = (num, start);
            }
            s.params = p;
        }
    } else {
        ep.count("update.unauthorised");
        ep.check(o.is_err(), &["C21"], "unauthorised-update-accepted", || {
            short(&o)
        });
    }
    ep.settle()
}

/// tokens that are no deposit belong to no pool
fn stray(ep: &mut Ep, s: &mut S) {
    if ep.chance(50) {
        let n = ep.range(1, 500) as u128;
        let to = s.rw.clone();
        ep.step(format!("plain transfer of {n}"));
        if s.w.send(&addr("donor"), &to, vec![coin(n, D)]).is_ok() {
            s.stray += n;
        }
    }
}

fn conserve(ep: &mut Ep, s: &mut S) -> R {
    let pools: u128 = s.pools.values().sum();
    let held = s.w.balance(&s.rw, D);
    ep.check(
        held == pools + s.stray,
        &["C18"],
        "pool-conservation",
        || format!("holds {held}, pools {:?}, stray {}", s.pools, s.stray),
    );
    for a in s.workers.iter().chain(s.contracts.iter()) {
        let got = s.w.balance(&addr(a), D);
        let want = s.bal.get(a).copied().unwrap_or(0);
        ep.check(got == want, &["C18", "C20"], "account-balance", || {
            format!("{a} holds {got}, was paid {want}")
        });
    }
    ep.settle()
}
