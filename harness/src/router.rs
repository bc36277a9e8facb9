//! C02, C03, C04 (and the router part of C39): the real router with stub gateways and a stub nexus
//! gateway, against a reference registry.
use crate::core::*;
use crate::gen::*;
use crate::world::*;
use connection_router::state::{ChainEndpoint, GatewayDirection};
use connection_router::{contract, msg as rmsg};
use cosmwasm_std::Addr;
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Chain {
    gw: Addr,
    inc: bool,
    out: bool,
}

struct S {
    w: W,
    router: Addr,
    gov: Addr,
    admin: Addr,
    nexus: Addr,
    gws: Vec<Addr>,
    stubs: Vec<(Addr, Stub)>,
    chains: BTreeMap<String, Chain>,
    past_gws: Vec<Addr>,
    names: Vec<String>,
}

const NAMES: &[&str] = &["ethereum", "sui", "axelar-2", "e", "ethereum2", "avalanche", "unknown"];

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (nexus, nexus_stub) = w.stub();
    let mut stubs = vec![(nexus.clone(), nexus_stub)];
    let mut gws = vec![];
    let big = ep.big();
    let ngw = if big { ep.range(7, 60) } else { 7 };
    let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    if big {
        names.extend((0..ngw).map(|i| format!("chain{i}")));
    }
    for _ in 0..ngw {
        let (a, s) = w.stub();
        gws.push(a.clone());
        stubs.push((a, s));
    }
    let gov = addr("governance");
    let admin = if ep.chance(10) { addr("governance") } else { addr("admin") };
    let router = w
        .install(
            Box::new(ContractWrapper::new(
                contract::execute,
                contract::instantiate,
                contract::query,
            )),
            &rmsg::InstantiateMsg {
                admin_address: admin.to_string(),
                governance_address: gov.to_string(),
                nexus_gateway: nexus.to_string(),
            },
        )
        .expect("router");
    let mut s = S {
        w,
        router,
        gov,
        admin,
        nexus,
        gws,
        stubs,
        chains: BTreeMap::new(),
        past_gws: vec![],
        names,
    };
    // usually start from a populated registry
    if ep.chance(80) {
        let n = if big { ep.range(4, ngw) } else { ep.range(1, 4) } as usize;
        for i in 0..n {
            let g = s.gws[i].clone();
            let sender = s.gov.clone();
            let name = s.names[i].clone();
            register(ep, &mut s, &sender, name, &g)?;
        }
    }
    let n = if ep.thorough { 140 } else { 60 };
    let w = if ep.any(&["C04", "C39"]) {
        [20, 15, 20, 20, 25]
    } else {
        [6, 8, 10, 8, 68]
    };
    for _ in 0..n {
        let who = sender(ep, &s);
        match ep.weighted(&w) {
            0 => {
                let name = ep.pick(&s.names).clone();
                let g = any_gateway(ep, &s);
                register(ep, &mut s, &who, name, &g)?;
            }
            1 => {
                let name = ep.pick(&s.names).clone();
                let g = any_gateway(ep, &s);
                upgrade(ep, &mut s, &who, name, &g)?;
            }
            2 => freeze(ep, &mut s, &who, true)?,
            3 => freeze(ep, &mut s, &who, false)?,
            _ => route(ep, &mut s)?,
        }
        let h = s.w.state_hash(&s.router);
        ep.seen(&["C04"], &h);
        let (b, t) = (ep.range(0, 2), ep.range(0, 10));
        s.w.advance(b, t);
    }
    Ok(())
}

fn sender(ep: &mut Ep, s: &S) -> Addr {
    match ep.below(12) {
        0..=3 => s.gov.clone(),
        4..=7 => s.admin.clone(),
        8 => s.nexus.clone(),
        9 => ep.pick(&s.gws).clone(),
        10 => s.router.clone(),
        _ => addr("stranger"),
    }
}

fn any_gateway(ep: &mut Ep, s: &S) -> Addr {
    match ep.below(20) {
        0 => s.nexus.clone(),
        1 => addr("outsider"),
        2 | 3 if !s.past_gws.is_empty() => ep.pick(&s.past_gws).clone(),
        _ => ep.pick(&s.gws).clone(),
    }
}

fn info(s: &S, name: &str) -> Result<ChainEndpoint, String> {
    s.w.query(&s.router, &json!({"get_chain_info": name}))
}

/// queries for every chain name agree with the reference registry
fn observe(ep: &mut Ep, s: &S) -> R {
    let all: Vec<&String> = if ep.big() && !ep.chance(20) {
        (0..6).map(|_| ep.pick(&s.names)).collect()
    } else {
        s.names.iter().collect()
    };
    for n in all {
        let asked = if ep.chance(10) { recase(ep, n) } else { n.to_string() };
        let got = info(s, &asked);
        ep.count("C04.queries");
        match (s.chains.get(n), got) {
            (None, Err(_)) => {}
            (None, Ok(c)) => ep.fail(
                &["C04", "C39"],
                "chain-reported-but-never-registered",
                format!("{n}: {c:?}"),
            ),
            (Some(m), Err(e)) => {
                ep.fail(&["C04"], "registered-chain-not-reported", format!("{n}: {m:?}: {e}"))
            }
            (Some(m), Ok(c)) => {
                let inc = c.frozen_status.contains(GatewayDirection::Incoming);
                let out = c.frozen_status.contains(GatewayDirection::Outgoing);
                let name: String = c.name.clone().into();
                ep.check(
                    name == *n && c.gateway.address == m.gw && inc == m.inc && out == m.out,
                    &["C04", "C39"],
                    "chain-info-wrong",
                    || format!("{n}: reported {c:?}, history implies {m:?}"),
                );
                ep.check(
                    c.incoming_frozen() == m.inc && c.outgoing_frozen() == m.out,
                    &["C04"],
                    "frozen-helper-wrong",
                    || format!("{n}: {c:?} vs {m:?}"),
                );
            }
        }
    }
    ep.settle()
}

fn owner<'a>(s: &'a S, g: &Addr) -> Option<&'a String> {
    s.chains.iter().find(|(_, c)| c.gw == *g).map(|(n, _)| n)
}

fn register(ep: &mut Ep, s: &mut S, who: &Addr, name: String, g: &Addr) -> R {
    let spelled = if ep.chance(20) { recase(ep, &name) } else { name.clone() };
    let msg = json!({"register_chain": {"chain": spelled, "gateway_address": g.as_str()}});
    let out = s.w.exec(who, &s.router.clone(), &msg, &[]);
    ep.step(format!("{who} register {spelled} gw={g}: {}", short(&out)));
    let authorised = *who == s.gov;
    let free = !s.chains.contains_key(&name) && owner(s, g).is_none();
    judge_admin(ep, s, &out, authorised, free, "register");
    if authorised && free {
        if let Ok(r) = &out {
            let e = evs(r, "chain_registered", &s.router);
            let want = vec![
                ("name".to_string(), name.clone()),
                ("gateway".to_string(), g.to_string()),
            ];
            ep.check(
                e.len() == 1 && attrs(e[0]) == want,
                &["C04"],
                "register-announcement-wrong",
                || format!("{:?} want {want:?}", r.events),
            );
            none_of(ep, r, s, &["gateway_upgraded", "chain_frozen", "chain_unfrozen"]);
            let l = vec![("name", name.clone()), ("gateway", g.to_string())];
            tells(ep, r, &s.router, "registration", vec![("chain_registered", l)]);
            s.chains.insert(
                name,
                Chain {
                    gw: g.clone(),
                    inc: false,
                    out: false,
                },
            );
        }
    }
    ep.settle()?;
    observe(ep, s)
}

fn none_of(ep: &mut Ep, r: &cw_multi_test::AppResponse, s: &S, tys: &[&str]) {
    for t in tys {
        ep.check(evs(r, t, &s.router).is_empty(), &["C04"], "announces-a-change-not-made", || {
            format!("unexpected {t} in {:?}", r.events)
        });
    }
}

fn judge_admin(ep: &mut Ep, _s: &S, out: &Out, authorised: bool, ok: bool, what: &'static str) {
    ep.seen(&["C04", "C39"], &(what, authorised, ok, out.is_ok()));
    if !authorised {
        ep.count("router.unauthorised");
        ep.check(out.is_err(), &["C04", "C39"], "unauthorised-accepted", || what.to_string());
    } else if ok {
        ep.count("router.admin_ok");
        ep.check(out.is_ok(), &["C04", "C39"], "authority-refused", || {
            format!("{what}: {}", short(out))
        });
    } else {
        ep.count("router.admin_invalid");
        ep.check(out.is_err(), &["C04"], "invalid-change-accepted", || what.to_string());
    }
}

fn upgrade(ep: &mut Ep, s: &mut S, who: &Addr, name: String, g: &Addr) -> R {
    let spelled = if ep.chance(20) { recase(ep, &name) } else { name.clone() };
    let msg = json!({"upgrade_gateway": {"chain": spelled, "contract_address": g.as_str()}});
    let out = s.w.exec(who, &s.router.clone(), &msg, &[]);
    ep.step(format!("{who} upgrade {spelled} gw={g}: {}", short(&out)));
    let authorised = *who == s.gov;
    let ok = s.chains.contains_key(&name) && owner(s, g).is_none();
    // upgrading a chain to the gateway it already has may be refused or be a no-op
    if authorised && owner(s, g) == Some(&name) {
        ep.settle()?;
        return observe(ep, s);
    }
    judge_admin(ep, s, &out, authorised, ok, "upgrade");
    if authorised && ok {
        if let Ok(r) = &out {
            let l = vec![("chain", name.clone()), ("gateway_address", g.to_string())];
            tells(ep, r, &s.router, "upgrade", vec![("gateway_upgraded", l)]);
            let e = evs(r, "gateway_upgraded", &s.router);
            let want = vec![
                ("chain".to_string(), name.clone()),
                ("gateway_address".to_string(), g.to_string()),
            ];
            ep.check(
                e.len() == 1 && attrs(e[0]) == want,
                &["C04"],
                "upgrade-announcement-wrong",
                || format!("{:?} want {want:?}", r.events),
            );
            none_of(ep, r, s, &["chain_registered", "chain_frozen", "chain_unfrozen"]);
            let c = s.chains.get_mut(&name).unwrap();
            s.past_gws.push(c.gw.clone());
            c.gw = g.clone();
        }
    }
    ep.settle()?;
    observe(ep, s)
}

fn freeze(ep: &mut Ep, s: &mut S, who: &Addr, on: bool) -> R {
    let name = ep.pick(&s.names).clone();
    let spelled = if ep.chance(20) { recase(ep, &name) } else { name.clone() };
    let (dir, inc, outg) = match ep.below(7) {
        0 => (GatewayDirection::None, false, false),
        1 | 2 => (GatewayDirection::Incoming, true, false),
        3 | 4 => (GatewayDirection::Outgoing, false, true),
        _ => (GatewayDirection::Bidirectional, true, true),
    };
    let chain = serde_json::from_value(json!(spelled)).expect("chain name");
    let msg = if on {
        rmsg::ExecuteMsg::FreezeChain { chain, direction: dir }
    } else {
        rmsg::ExecuteMsg::UnfreezeChain { chain, direction: dir }
    };
    let out = s.w.exec(who, &s.router.clone(), &msg, &[]);
    let what = if on { "freeze" } else { "unfreeze" };
    ep.step(format!("{who} {what} {name} {dir:?}: {}", short(&out)));
    let authorised = *who == s.admin;
    let ok = s.chains.contains_key(&name);
    judge_admin(ep, s, &out, authorised, ok, what);
    if authorised && ok {
        if let Ok(r) = &out {
            let (yes, no) = if on {
                ("chain_frozen", "chain_unfrozen")
            } else {
                ("chain_unfrozen", "chain_frozen")
            };
            let e = evs(r, yes, &s.router);
            let named = e.len() == 1 && attr(e[0], "name") == Some(name.as_str());
            let other = evs(r, no, &s.router);
            ep.check(
                named && other.is_empty(),
                &["C04"],
                &format!("{what}-announcement-wrong"),
                || format!("{what} of {name} announced as {:?}", r.events),
            );
            none_of(ep, r, s, &["chain_registered", "gateway_upgraded"]);
            tells(ep, r, &s.router, what, vec![(yes, vec![("name", name.clone())])]);
            let c = s.chains.get_mut(&name).unwrap();
            if inc {
                c.inc = on;
            }
            if outg {
                c.out = on;
            }
            ep.count(if on { "C04.freezes" } else { "C04.unfreezes" });
        }
    }
    ep.settle()?;
    observe(ep, s)
}

fn route(ep: &mut Ep, s: &mut S) -> R {
    // sender: mostly a registered gateway or nexus
    let regs: Vec<(String, Addr)> = s.chains.iter().map(|(n, c)| (n.clone(), c.gw.clone())).collect();
    let who = match ep.below(20) {
        0..=11 if !regs.is_empty() => ep.pick(&regs).1.clone(),
        12..=14 => s.nexus.clone(),
        15 if !s.past_gws.is_empty() => ep.pick(&s.past_gws).clone(),
        16 => s.gov.clone(),
        17 => s.admin.clone(),
        18 => addr("stranger"),
        _ => any_gateway(ep, s),
    };
    let own = owner(s, &who).cloned();
    let n = match ep.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=7 => ep.range(2, 5),
        _ => ep.range(6, 12),
    };
    let n = if ep.big() && ep.chance(60) { ep.big_size() } else { n };
    let dests: Vec<String> = {
        let k = if ep.big() && ep.chance(40) { ep.range(1, 40) } else { ep.range(1, 3) };
        (0..k)
            .map(|_| {
                if !regs.is_empty() && ep.chance(75) {
                    ep.pick(&regs).0.clone()
                } else {
                    ep.pick(&s.names).clone()
                }
            })
            .collect()
    };
    let mut msgs: Vec<Msg> = vec![];
    // a long batch is either clean or has one stray message somewhere
    let one_off = if ep.chance(25) { Some(ep.below(n.max(1)) as usize) } else { None };
    for _ in 0..n {
        let src = match &own {
            Some(o) if n > 12 && one_off != Some(msgs.len()) => o.clone(),
            Some(o) if ep.chance(96) => o.clone(),
            _ => ep.pick(&s.names).clone(),
        };
        let dst = ep.pick(&dests).clone();
        let m = if !msgs.is_empty() && ep.chance(12) {
            let k = ep.pick(&msgs).clone();
            if ep.chance(50) {
                k
            } else {
                let mut m = mutate(ep, &k);
                m.dst = k.dst;
                m
            }
        } else {
            msg(ep, &src, &dst)
        };
        msgs.push(m);
    }
    // sometimes one counterparty refuses deliveries
    let failing = if ep.chance(12) {
        let (a, st) = ep.pick(&s.stubs).clone();
        st.on_exec(|_, _, _| Err("gateway down".into()));
        Some((a, st))
    } else {
        None
    };
    let arr: Vec<Value> = msgs.iter().map(|m| m.json_cased(ep)).collect();
    let out = s.w.exec(&who, &s.router.clone(), &json!({"route_messages": arr}), &[]);
    if let Some((_, st)) = &failing {
        st.cfg.borrow_mut().exec = None;
    }
    ep.step(format!(
        "{who} route [{}] failing={:?}: {}",
        msgs.iter().map(Msg::brief).collect::<Vec<_>>().join("; "),
        failing.as_ref().map(|f| f.0.to_string()),
        short(&out)
    ));

    // reference admission decision
    let is_nexus = who == s.nexus;
    let mut why = "ok";
    if !is_nexus {
        match &own {
            None => why = "unregistered-sender",
            Some(o) => {
                if s.chains[o].inc {
                    why = "source-frozen";
                } else if msgs.iter().any(|m| m.src != *o) {
                    why = "wrong-source";
                }
            }
        }
    }
    let mut want: BTreeMap<String, Vec<Msg>> = BTreeMap::new();
    if why == "ok" {
        for m in &msgs {
            let to = match s.chains.get(&m.dst) {
                Some(c) if c.out => {
                    why = "destination-frozen";
                    break;
                }
                Some(c) => c.gw.clone(),
                None if !is_nexus => s.nexus.clone(),
                None => {
                    why = "nexus-unknown-destination";
                    break;
                }
            };
            want.entry(to.to_string()).or_default().push(m.clone());
        }
    }
    if why == "ok" {
        if let Some((a, _)) = &failing {
            if want.contains_key(a.as_str()) {
                why = "gateway-failed";
            }
        }
        // deliveries to plain accounts fail
        if want.keys().any(|k| k == "outsider") {
            why = "gateway-missing";
        }
    }
    let kinds: Vec<(bool, bool, bool)> = msgs
        .iter()
        .map(|m| {
            let c = s.chains.get(&m.dst);
            (
                c.is_some(),
                c.map(|c| c.out).unwrap_or(false),
                Some(&m.src) == own.as_ref(),
            )
        })
        .collect();
    ep.seen(&["C02", "C03"], &(is_nexus, own.is_some(), why, kinds, want.len()));
    match (&out, why) {
        (Ok(r), "ok") => {
            ep.count("route.accepted");
            ep.count_n("route.messages", msgs.len() as u64);
            ep.count_n("route.large_batches", (msgs.len() > 40) as u64);
            if want.len() > 1 {
                ep.count("route.multi_dest");
            }
            deliveries(ep, s, r, &msgs, want);
        }
        (Err(e), "ok") => ep.fail(
            &["C02", "C03", "C39"],
            "admissible-batch-refused",
            format!("{who}: {e}"),
        ),
        (Err(_), _) => {
            ep.count("route.refused");
            match why {
                "destination-frozen" => ep.count("refused.destination_frozen"),
                "source-frozen" => ep.count("refused.source_frozen"),
                "wrong-source" => ep.count("refused.wrong_source"),
                "unregistered-sender" => ep.count("refused.unregistered"),
                "nexus-unknown-destination" => ep.count("refused.nexus_unknown"),
                _ => ep.count("refused.counterparty"),
            }
        }
        (Ok(_), "gateway-failed") | (Ok(_), "gateway-missing") => ep.fail(
            &["C03", "C02"],
            "accepted-without-delivery",
            format!("counterparty failed but the batch was accepted ({why})"),
        ),
        (Ok(r), _) => {
            let tags: &[&str] = if why == "unregistered-sender" {
                &["C02", "C39"]
            } else {
                &["C02"]
            };
            ep.fail(
                tags,
                &format!("inadmissible-batch-accepted:{why}"),
                format!("sender {who}; delivered {:?}", recs(r)),
            );
        }
    }
    ep.settle()?;
    if ep.any(&["C04", "C39"]) || ep.chance(10) {
        observe(ep, s)?;
    }
    Ok(())
}

fn deliveries(
    ep: &mut Ep,
    s: &S,
    r: &cw_multi_test::AppResponse,
    msgs: &[Msg],
    want: BTreeMap<String, Vec<Msg>>,
) {
    let mut got: BTreeMap<String, Vec<Msg>> = BTreeMap::new();
    for d in recs(r) {
        ep.check(
            d.sender == s.router.as_str() && d.funds == "[]",
            &["C03"],
            "delivery-not-from-router",
            || format!("{d:?}"),
        );
        match d.msg.get("route_messages").and_then(Msg::parse_all) {
            Some(ms) => got.entry(d.to).or_default().extend(ms),
            None => ep.fail(&["C03"], "unexpected-call", format!("{d:?}")),
        }
    }
    got.retain(|_, v| !v.is_empty());
    ep.check(got == want, &["C03", "C02"], "deliveries-differ", || {
        format!("delivered {got:?}\n expected {want:?}")
    });
    tells(ep, r, &s.router, "routing", msgs.iter().map(|m| ("message_routed", m.told())).collect());
    let mut announced: Vec<_> = evs(r, "message_routed", &s.router)
        .into_iter()
        .map(attrs)
        .collect();
    let mut expected: Vec<_> = msgs.iter().map(Msg::event_attrs).collect();
    announced.sort();
    expected.sort();
    ep.check(announced == expected, &["C03"], "routing-events-differ", || {
        format!("announced {announced:?}\n expected {expected:?}")
    });
}
