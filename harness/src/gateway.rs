//! C05, C06, C07: the real gateway between a stub router and a stub verifier whose answers change over time.
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use ::gateway::{contract, msg as gmsg};
use cosmwasm_std::Addr;
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Default)]
struct Verifier {
    verified: HashSet<Msg>,
    permute: bool,
    omit_false: bool,
    extra: bool,
    down: bool,
    /// message content seen by status queries
    asked: u64,
}

struct S {
    w: W,
    gw: Addr,
    router: Addr,
    verifier: Addr,
    rstub: Stub,
    vstub: Stub,
    v: Rc<RefCell<Verifier>>,
    pool: Vec<Msg>,
    store: BTreeMap<(String, String), Msg>,
}

const CH: &[&str] = &["ethereum", "sui", "axelar", "e"];

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (router, rstub) = w.stub();
    let (verifier, vstub) = w.stub();
    let gw = w
        .install(
            Box::new(ContractWrapper::new(contract::execute, contract::instantiate, contract::query)),
            &gmsg::InstantiateMsg {
                verifier_address: verifier.to_string(),
                router_address: router.to_string(),
            },
        )
        .expect("gateway");
    let v = Rc::new(RefCell::new(Verifier::default()));
    let v2 = v.clone();
    vstub.on_query(move |q| {
        let mut v = v2.borrow_mut();
        if v.down {
            return Err("verifier down".into());
        }
        let arr = q
            .get("is_verified")
            .and_then(|x| x.get("messages"))
            .and_then(Msg::parse_all)
            .ok_or("bad query")?;
        v.asked += arr.len() as u64;
        let mut out: Vec<Value> = vec![];
        for m in &arr {
            let ok = v.verified.contains(m);
            if ok || !v.omit_false {
                out.push(json!([m.cc(), ok]));
            }
        }
        if v.extra {
            out.push(json!([{"chain": "ethereum", "id": "unrelated"}, true]));
        }
        if v.permute {
            out.reverse();
        }
        Ok(json!(out))
    });
    let mut s = S {
        w,
        gw,
        router,
        verifier,
        rstub,
        vstub,
        v,
        pool: vec![],
        store: BTreeMap::new(),
    };
    let big = ep.big();
    let k = if big { ep.big_size() } else { ep.range(3, 9) };
    for _ in 0..k {
        let src = *ep.pick(CH);
        let dst = *ep.pick(CH);
        let mut m = msg(ep, src, dst);
        if big {
            // ids of the pool hardly ever collide here
            m.id = format!("{}:{}", tx_id(ep), ep.below(1 << 20));
        }
        let known = big && ep.chance(60);
        if known {
            s.v.borrow_mut().verified.insert(m.clone());
        }
        s.pool.push(m);
    }
    // same id on another chain, and same id with different content
    for _ in 0..2 {
        let m = ep.pick(&s.pool).clone();
        let mut o = m.clone();
        o.src = ep.pick(CH).to_string();
        s.pool.push(o);
        let t = mutate(ep, &m);
        s.pool.push(t);
    }
    let n = if big {
        12
    } else if ep.thorough {
        120
    } else {
        50
    };
    let weights = match ep.focus {
        "C06" => [20, 20, 40, 20],
        "C07" => [20, 55, 15, 10],
        _ => [55, 20, 15, 10],
    };
    for _ in 0..n {
        // the world changes between calls
        {
            let flips = ep.below(3);
            for _ in 0..flips {
                let m = ep.pick(&s.pool).clone();
                let mut v = s.v.borrow_mut();
                if !v.verified.remove(&m) {
                    v.verified.insert(m);
                }
            }
            let (a, b, c, d) = (ep.chance(30), ep.chance(20), ep.chance(10), ep.chance(4));
            let mut v = s.v.borrow_mut();
            v.permute = a;
            v.omit_false = b;
            v.extra = c;
            v.down = d;
        }
        if ep.chance(20) {
            let src = *ep.pick(CH);
            let dst = *ep.pick(CH);
            let m = msg(ep, src, dst);
            let i = ep.below(s.pool.len() as u64) as usize;
            s.pool[i] = m;
        }
        match ep.weighted(&weights) {
            0 => incoming(ep, &mut s)?,
            1 => verify(ep, &mut s)?,
            2 => outgoing(ep, &mut s)?,
            _ => read(ep, &mut s)?,
        }
        if ep.chance(35) {
            read(ep, &mut s)?;
        }
        let (b, t) = (ep.range(0, 2), ep.range(0, 10));
        s.w.advance(b, t);
    }
    Ok(())
}

fn batch(ep: &mut Ep, s: &S) -> Vec<Msg> {
    if ep.big() {
        // (nearly) the whole pool at once, mostly with distinct ids
        let mut all = s.pool.clone();
        ep.shuffle(&mut all);
        let only = ep.below(4);
        let keep = if ep.chance(60) { all.len() } else { ep.range(1, all.len() as u64) as usize };
        let mut used = BTreeSet::new();
        let dup = ep.chance(8);
        let mut out: Vec<Msg> = vec![];
        for m in all.into_iter().take(keep) {
            let v = s.v.borrow().verified.contains(&m);
            if (used.insert(m.key()) || dup) && !(only == 0 && v) && !(only == 1 && !v) {
                out.push(m);
            }
        }
        return out;
    }
    let n = match ep.below(10) {
        0 => 0,
        1 | 2 => 1,
        _ => ep.range(2, 7),
    };
    let mut out: Vec<Msg> = vec![];
    let allow_dups = ep.chance(15);
    let mut used = BTreeSet::new();
    for _ in 0..n {
        let m = ep.pick(&s.pool).clone();
        if used.insert(m.key()) || allow_dups {
            out.push(m);
        }
    }
    out
}

fn dups(ms: &[Msg]) -> bool {
    let mut u = BTreeSet::new();
    !ms.iter().all(|m| u.insert(m.key()))
}

fn anyone(ep: &mut Ep, s: &S) -> Addr {
    match ep.below(4) {
        0 => s.verifier.clone(),
        1 => s.gw.clone(),
        2 => addr("governance"),
        _ => addr("relayer"),
    }
}

fn parse_calls(r: &cw_multi_test::AppResponse) -> Vec<Rec> {
    recs(r)
}

fn incoming(ep: &mut Ep, s: &mut S) -> R {
    let ms = batch(ep, s);
    let who = anyone(ep, s);
    let router_down = ep.chance(6);
    if router_down {
        s.rstub.on_exec(|_, _, _| Err("router refuses".into()));
    }
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let out = s.w.exec(&who, &s.gw.clone(), &json!({"route_messages": arr}), &[]);
    s.rstub.cfg.borrow_mut().exec = None;
    let v = s.v.borrow();
    let verified: Vec<Msg> = ms.iter().filter(|m| v.verified.contains(m)).cloned().collect();
    let failed: Vec<Msg> = ms.iter().filter(|m| !v.verified.contains(m)).cloned().collect();
    let down = v.down;
    drop(v);
    ep.step(format!(
        "{who} route [{}] verified={} verifier_down={down} router_down={router_down}: {}",
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        verified.len(),
        short(&out)
    ));
    // nothing a non-router says may end up readable on the gateway
    if out.is_ok() && ep.any(&["C06", "C39"]) {
        for m in &ms {
            let got: Result<Value, String> =
                s.w.query(&s.gw, &json!({"get_messages": {"message_ids": [m.cc()]}}));
            let got = got.ok().as_ref().and_then(Msg::parse_all);
            let want = s.store.get(&m.key()).map(|o| vec![o.clone()]);
            ep.check(got == want, &["C06", "C39"], "placed-by-a-stranger", || {
                format!("after a call by {who}: {} reads {got:?}, the router placed {want:?}", m.brief())
            });
        }
    }
    let pat: Vec<bool> = ms.iter().map(|m| verified.contains(m)).collect();
    ep.seen(&["C05"], &("in", pat, dups(&ms), down, router_down, out.is_ok()));
    match out {
        Err(e) => {
            ep.count("incoming.refused");
            let legit = dups(&ms) || down || (router_down && !verified.is_empty());
            ep.check(legit, &["C05"], "valid-request-refused", || e.clone());
        }
        Ok(r) => {
            ep.count("incoming.accepted");
            ep.check(!dups(&ms), &["C05"], "duplicate-ids-accepted", || format!("{ms:?}"));
            ep.check(!down || ms.is_empty(), &["C05"], "accepted-without-verifier", || {
                format!("{ms:?}")
            });
            ep.check(
                !(router_down && !verified.is_empty()),
                &["C05"],
                "router-failure-swallowed",
                || format!("{ms:?}"),
            );
            let mut fwd: Vec<Msg> = vec![];
            for c in parse_calls(&r) {
                let ok = c.to == s.router.as_str() && c.sender == s.gw.as_str() && c.funds == "[]";
                match c.msg.get("route_messages").and_then(Msg::parse_all) {
                    Some(x) if ok => fwd.extend(x),
                    _ => ep.fail(&["C05", "C07"], "unexpected-call", format!("{c:?}")),
                }
            }
            ep.check(fwd == verified, &["C05"], "forwarded-differs-from-verified", || {
                format!("forwarded {fwd:?}\n verified {verified:?}\n of {ms:?}")
            });
            ep.count_n("incoming.forwarded", fwd.len() as u64);
            ep.count_n("incoming.held_back", failed.len() as u64);
            let l = verified
                .iter()
                .map(|m| ("message_routed", m.told()))
                .chain(failed.iter().map(|m| ("message_routing_failed", m.told())))
                .collect();
            tells(ep, &r, &s.gw.clone(), "incoming", l);
            let mut got: Vec<_> = evs(&r, "message_routing_failed", &s.gw).into_iter().map(attrs).collect();
            let mut want: Vec<_> = failed.iter().map(Msg::event_attrs).collect();
            got.sort();
            want.sort();
            ep.check(got == want, &["C05"], "failed-reports-differ", || {
                format!("reported {got:?}\n expected {want:?}")
            });
            let mut got: Vec<_> = evs(&r, "message_routed", &s.gw).into_iter().map(attrs).collect();
            let mut want: Vec<_> = verified.iter().map(Msg::event_attrs).collect();
            got.sort();
            want.sort();
            ep.check(got == want, &["C05"], "routed-reports-differ", || {
                format!("reported {got:?}\n expected {want:?}")
            });
        }
    }
    ep.settle()
}

fn verify(ep: &mut Ep, s: &mut S) -> R {
    let ms = batch(ep, s);
    let who = if ep.chance(10) { s.router.clone() } else { anyone(ep, s) };
    let vdown = ep.chance(6);
    if vdown {
        s.vstub.on_exec(|_, _, _| Err("verifier refuses".into()));
    }
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let out = s.w.exec(&who, &s.gw.clone(), &json!({"verify_messages": arr}), &[]);
    s.vstub.cfg.borrow_mut().exec = None;
    let v = s.v.borrow();
    let unverified: Vec<Msg> = ms.iter().filter(|m| !v.verified.contains(m)).cloned().collect();
    let down = v.down;
    drop(v);
    ep.step(format!(
        "{who} verify [{}] unverified={}: {}",
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        unverified.len(),
        short(&out)
    ));
    let pat: Vec<bool> = ms.iter().map(|m| unverified.contains(m)).collect();
    ep.seen(&["C07"], &("ver", pat, dups(&ms), down, vdown, out.is_ok()));
    match out {
        Err(e) => {
            ep.count("verify.refused");
            let legit = dups(&ms) || (down && !ms.is_empty()) || (vdown && !unverified.is_empty());
            ep.check(legit, &["C07"], "valid-request-refused", || e.clone());
        }
        Ok(r) => {
            ep.count("verify.accepted");
            ep.check(!dups(&ms), &["C07"], "duplicate-ids-accepted", || format!("{ms:?}"));
            ep.check(!down || ms.is_empty(), &["C07"], "accepted-without-verifier", || format!("{ms:?}"));
            ep.check(
                !(vdown && !unverified.is_empty()),
                &["C07"],
                "verifier-failure-swallowed",
                || format!("{ms:?}"),
            );
            tells(ep, &r, &s.gw.clone(), "verify", vec![]);
            let mut fwd: Vec<Msg> = vec![];
            let mut calls = 0;
            for c in parse_calls(&r) {
                calls += 1;
                let ok = c.to == s.verifier.as_str() && c.sender == s.gw.as_str() && c.funds == "[]";
                match c.msg.get("verify_messages").and_then(|x| x.get("messages")).and_then(Msg::parse_all) {
                    Some(x) if ok => fwd.extend(x),
                    _ => ep.fail(&["C07", "C05"], "unexpected-call", format!("{c:?}")),
                }
            }
            ep.check(fwd == unverified, &["C07"], "forwarded-differs-from-unverified", || {
                format!("forwarded {fwd:?}\n unverified {unverified:?}\n of {ms:?}")
            });
            ep.check(!(unverified.is_empty() && calls > 0), &["C07"], "sent-nothing-to-verify", || {
                format!("{calls} calls")
            });
            ep.count_n("verify.forwarded", fwd.len() as u64);
        }
    }
    ep.settle()
}

fn outgoing(ep: &mut Ep, s: &mut S) -> R {
    let ms = batch(ep, s);
    let arr: Vec<Value> = ms.iter().map(|m| m.json_cased(ep)).collect();
    let out = s.w.exec(&s.router.clone(), &s.gw.clone(), &json!({"route_messages": arr}), &[]);
    ep.step(format!(
        "router delivers [{}]: {}",
        ms.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        short(&out)
    ));
    let overwrite = ms.iter().any(|m| s.store.get(&m.key()).map(|o| o != m).unwrap_or(false));
    ep.seen(&["C06"], &("out", ms.len(), dups(&ms), overwrite, out.is_ok()));
    match out {
        Err(e) => {
            ep.count("outgoing.refused");
            ep.check(dups(&ms), &["C06", "C05"], "router-delivery-refused", || e);
        }
        Ok(r) => {
            ep.count("outgoing.accepted");
            if overwrite {
                ep.count("outgoing.redelivered");
            }
            let l = ms.iter().map(|m| ("message_routed", m.told())).collect();
            tells(ep, &r, &s.gw.clone(), "outgoing", l);
            ep.check(!dups(&ms), &["C05", "C06"], "duplicate-ids-accepted", || format!("{ms:?}"));
            ep.check(recs(&r).is_empty(), &["C05", "C06", "C07"], "unexpected-call", || {
                format!("{:?}", recs(&r))
            });
            for m in &ms {
                s.store.insert(m.key(), m.clone());
            }
        }
    }
    ep.settle()
}

fn read(ep: &mut Ep, s: &mut S) -> R {
    let n = if ep.big() { ep.range(0, 1 + s.store.len() as u64) } else { ep.range(0, 5) };
    let keys: Vec<(String, String)> = s.store.keys().cloned().collect();
    let mut ids = vec![];
    let strangers = !ep.big() && ep.chance(40);
    for _ in 0..n {
        if strangers && ep.chance(40) || keys.is_empty() {
            let m = ep.pick(&s.pool).clone();
            ids.push(m.key());
        } else {
            ids.push(ep.pick(&keys).clone());
        }
    }
    let arr: Vec<Value> = ids
        .iter()
        .map(|k| {
            let c = if ep.chance(15) { recase(ep, &k.0) } else { k.0.clone() };
            json!({"chain": c, "id": k.1})
        })
        .collect();
    let got: Result<Value, String> = s.w.query(&s.gw, &json!({"get_messages": {"message_ids": arr}}));
    let want: Option<Vec<Msg>> = ids.iter().map(|k| s.store.get(k).cloned()).collect();
    ep.step(format!("read {ids:?}: {}", if got.is_ok() { "ok" } else { "err" }));
    ep.seen(
        &["C06"],
        &("read", ids.iter().map(|k| s.store.contains_key(k)).collect::<Vec<_>>(), got.is_ok()),
    );
    match (want, got) {
        (None, Err(_)) => ep.count("read.missing"),
        (None, Ok(v)) => ep.fail(
            &["C06", "C39"],
            "undelivered-message-returned",
            format!("{ids:?} -> {v}"),
        ),
        (Some(_), Err(e)) => ep.fail(&["C06"], "delivered-message-not-returned", format!("{ids:?}: {e}")),
        (Some(w), Ok(v)) => {
            ep.count("read.found");
            let g = Msg::parse_all(&v);
            ep.check(g.as_ref() == Some(&w), &["C06"], "returned-message-differs", || {
                format!("got {v}\n want {w:?}")
            });
        }
    }
    ep.settle()
}
