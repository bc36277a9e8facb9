//! C08: the real aggregate verifier, over a stub that answers anything in either reply form, and over the real
//! voting verifier compared with a twin of it that lives through the same history without the aggregator.
use crate::core::*;
use crate::gen::*;
use crate::voting::{majority, stub_registry, Reg};
use crate::world::*;
use ::aggregate_verifier::{contract, msg as amsg};
use axelar_wasm_std::Threshold;
use cosmwasm_std::{Addr, Binary};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use voting_verifier::{contract as vcontract, msg as vmsg};

const T: &[&str] = &["C08"];

fn aggregator(w: &mut W, verifier: &Addr) -> Addr {
    w.install(
        Box::new(
            ContractWrapper::new(contract::execute, contract::instantiate, contract::query)
                .with_reply(contract::reply),
        ),
        &amsg::InstantiateMsg {
            verifier_address: verifier.to_string(),
        },
    )
    .expect("aggregate verifier")
}

/// the statuses a reply carries, whichever of the two known forms it has
fn statuses(d: &[u8]) -> Option<Vec<(Value, bool)>> {
    let v: Value = serde_json::from_slice(d).ok()?;
    let a = match v.get("verification_statuses") {
        Some(x) => x.clone(),
        None => v,
    };
    serde_json::from_value(a).ok()
}

pub fn run(ep: &mut Ep) -> R {
    if ep.idx % 2 == 0 {
        over_stub(ep)
    } else {
        over_voting(ep)
    }
}

#[derive(Clone, Debug)]
enum Answer {
    List(Vec<(Value, bool)>),
    Wrapped(Vec<(Value, bool)>),
    Garbage(Vec<u8>),
    None,
    Fail,
}

fn arbitrary(ep: &mut Ep, msgs: &[Msg]) -> Vec<(Value, bool)> {
    let mut out: Vec<(Value, bool)> = vec![];
    for m in msgs {
        if ep.chance(90) {
            out.push((m.cc(), ep.chance(50)));
        }
        if ep.chance(8) {
            out.push((m.cc(), ep.chance(50)));
        }
    }
    if ep.chance(15) {
        out.push((json!({"chain": "other", "id": any_id(ep)}), ep.chance(50)));
    }
    if ep.chance(30) {
        ep.shuffle(&mut out);
    }
    out
}

fn over_stub(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (verifier, stub) = w.stub();
    let ans = Rc::new(RefCell::new(Answer::None));
    let a2 = ans.clone();
    stub.on_exec(move |_, _, _| {
        let mut r = StubReply::rec();
        match &*a2.borrow() {
            Answer::List(l) => r.data = Some(Binary(serde_json::to_vec(l).unwrap())),
            Answer::Wrapped(l) => {
                r.data = Some(Binary(
                    serde_json::to_vec(&json!({ "verification_statuses": l })).unwrap(),
                ))
            }
            Answer::Garbage(b) => r.data = Some(Binary(b.clone())),
            Answer::None => {}
            Answer::Fail => return Err("verifier fails".into()),
        }
        Ok(r)
    });
    let a3 = ans.clone();
    stub.on_query(move |q| {
        if q.get("is_verified").is_none() {
            return Err("unexpected query".into());
        }
        match &*a3.borrow() {
            Answer::List(l) | Answer::Wrapped(l) => Ok(json!(l)),
            Answer::Garbage(_) => Ok(json!("garbage")),
            Answer::None => Ok(Value::Null),
            Answer::Fail => Err("verifier fails".into()),
        }
    });
    let agg = aggregator(&mut w, &verifier);
    let n = if ep.thorough { 60 } else { 25 };
    for _ in 0..n {
        let k = match ep.below(12) {
            0 => 0,
            _ if ep.idx % 40 == 18 && ep.chance(30) => ep.big_size(),
            1 => ep.range(20, 40),
            _ => ep.range(1, 5),
        };
        let mut msgs: Vec<Msg> = vec![];
        for _ in 0..k {
            let m = if !msgs.is_empty() && ep.chance(10) {
                let p = ep.pick(&msgs).clone();
                if ep.chance(50) {
                    p
                } else {
                    mutate(ep, &p)
                }
            } else {
                let (s, d) = (*ep.pick(&["ethereum", "sui"]), *ep.pick(&["axelar", "sui"]));
                msg(ep, s, d)
            };
            msgs.push(m);
        }
        let a = match ep.below(12) {
            0 => Answer::Fail,
            1 => Answer::None,
            2 => Answer::Garbage(match ep.below(3) {
                0 => b"{}".to_vec(),
                1 => b"[1]".to_vec(),
                _ => ep.bytes::<9>().to_vec(),
            }),
            3..=6 => Answer::List(arbitrary(ep, &msgs)),
            _ => Answer::Wrapped(arbitrary(ep, &msgs)),
        };
        *ans.borrow_mut() = a.clone();
        let list: Vec<Value> = msgs.iter().map(|m| m.json()).collect();
        let sender = addr(["alice", "router", "gateway"][ep.below(3) as usize]);
        if ep.chance(35) {
            ep.step(format!("query is_verified x{k} answer={a:?}"));
            let before = stub.cfg.borrow().queries.len();
            let r: Result<Vec<(Value, bool)>, String> =
                w.query(&agg, &json!({"is_verified": {"messages": list}}));
            let asked = stub.cfg.borrow().queries[before..].to_vec();
            ep.check(
                asked.iter().any(|q| {
                    Msg::parse_all(&q["is_verified"]["messages"]).as_deref() == Some(&msgs[..])
                }),
                T,
                "query-not-passed-on",
                || format!("asked {asked:?}"),
            );
            match (&a, &r) {
                (Answer::List(l) | Answer::Wrapped(l), Ok(g)) => {
                    ep.count("query.answered");
                    ep.check(g == l, T, "query-answer-altered", || format!("{l:?} became {g:?}"));
                }
                (Answer::List(_) | Answer::Wrapped(_), Err(e)) => {
                    ep.fail(T, "query-answer-lost", e.clone())
                }
                (_, Ok(g)) => ep.fail(T, "query-answer-invented", format!("{a:?} became {g:?}")),
                _ => ep.count("query.failed"),
            }
            ep.settle()?;
            continue;
        }
        ep.step(format!("verify x{k} answer={a:?}"));
        let o = w.exec(
            &sender,
            &agg,
            &json!({"verify_messages": {"messages": list}}),
            &[],
        );
        ep.note(short(&o));
        ep.seen(
            T,
            &(
                std::mem::discriminant(&a),
                k.min(6),
                match &a {
                    Answer::List(l) | Answer::Wrapped(l) => l.iter().map(|x| x.1).collect(),
                    _ => vec![],
                },
                o.is_ok(),
            ),
        );
        match (&a, &o) {
            (Answer::List(l) | Answer::Wrapped(l), Ok(r)) => {
                ep.count("verify.answered");
                let rs = recs(r);
                ep.check(
                    rs.len() == 1
                        && rs[0].to == verifier.as_str()
                        && rs[0].sender == agg.as_str()
                        && rs[0].funds == "[]"
                        && rs[0].msg.as_object().map(|o| o.len()) == Some(1)
                        && Msg::parse_all(&rs[0].msg["verify_messages"]["messages"]).as_deref()
                            == Some(&msgs[..]),
                    T,
                    "request-not-forwarded-unaltered",
                    || format!("{rs:?} for {msgs:?}"),
                );
                let got = data_of(r).and_then(|d| statuses(&d));
                ep.check(got.as_ref() == Some(l), T, "statuses-altered", || {
                    format!("{l:?} became {got:?}")
                });
            }
            (Answer::List(_) | Answer::Wrapped(_), Err(e)) => {
                ep.fail(T, "answered-request-fails", e.clone())
            }
            (Answer::Fail, Ok(r)) => ep.fail(T, "verifier-failure-hidden", format!("{r:?}")),
            (_, Ok(r)) => {
                // no statuses came back: succeeding with any would be inventing them
                let got = data_of(r).and_then(|d| statuses(&d));
                ep.check(got.is_none(), T, "statuses-invented", || format!("{a:?} became {got:?}"));
            }
            (_, Err(_)) => ep.count("verify.failed"),
        }
        ep.settle()?;
    }
    Ok(())
}

fn over_voting(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (regaddr, regstub) = w.stub();
    let (rewards, _r) = w.stub();
    let chain = "ethereum".to_string();
    let reg = Rc::new(RefCell::new(Reg {
        active: (0..5).map(|i| format!("worker{i}")).collect(),
        down: false,
        chain: chain.clone(),
        service: "validators".into(),
    }));
    stub_registry(&regstub, &reg);
    let thr: Threshold = majority(ep).try_into().expect("threshold");
    let expiry = ep.range(1, 8);
    let mut vvs: Vec<Addr> = vec![];
    for _ in 0..2 {
        vvs.push(
            w.install(
                Box::new(ContractWrapper::new(
                    vcontract::execute,
                    vcontract::instantiate,
                    vcontract::query,
                )),
                &vmsg::InstantiateMsg {
                    service_registry_address: regaddr.to_string().try_into().unwrap(),
                    service_name: "validators".try_into().unwrap(),
                    source_gateway_address: "gw".try_into().unwrap(),
                    voting_threshold: thr.try_into().expect("majority"),
                    block_expiry: expiry,
                    confirmation_height: 3,
                    source_chain: chain.parse().unwrap(),
                    rewards_address: rewards.to_string(),
                },
            )
            .expect("voting verifier"),
        );
    }
    let (vv, twin) = (vvs[0].clone(), vvs[1].clone());
    let agg = aggregator(&mut w, &vv);
    let mut pool: Vec<Msg> = vec![];
    for _ in 0..if ep.big() { ep.big_size() } else { ep.range(2, 7) } {
        let mut m = msg(ep, &chain, "sui");
        m.id = format!("{}:{}", tx_id(ep), ep.below(9));
        pool.push(m);
    }
    if ep.chance(30) {
        pool.push(msg(ep, "sui", "axelar"));
    }
    let n = if ep.thorough { 80 } else { 40 };
    let mut polls: Vec<(String, usize)> = vec![];
    for _ in 0..n {
        match ep.below(10) {
            0..=3 => {
                let mut msgs: Vec<Msg> = pool.iter().filter(|_| ep.chance(45)).cloned().collect();
                ep.shuffle(&mut msgs);
                let list: Vec<Value> = msgs.iter().map(|m| m.json()).collect();
                reg.borrow_mut().down = ep.chance(5);
                let m = json!({"verify_messages": {"messages": list}});
                let a = w.exec(&addr("relayer"), &agg, &m, &[]);
                let t = w.exec(&addr("relayer"), &twin, &m, &[]);
                reg.borrow_mut().down = false;
                ep.step(format!("verify x{}: through {} direct {}", msgs.len(), short(&a), short(&t)));
                match (&a, &t) {
                    (Ok(a), Ok(t)) => {
                        let (x, y) = (
                            data_of(a).and_then(|d| statuses(&d)),
                            data_of(t).and_then(|d| statuses(&d)),
                        );
                        ep.count("voting.answered");
                        ep.check(x.is_some() && x == y, T, "voting-statuses-altered", || {
                            format!("direct {y:?}, through the aggregator {x:?}")
                        });
                        ep.seen(T, &y.map(|y| y.iter().map(|z| z.1).collect::<Vec<_>>()));
                        let strip = |e: &cosmwasm_std::Event| {
                            e.attributes
                                .iter()
                                // participants are listed in no particular order
                                .filter(|a| a.key != "_contract_addr" && a.key != "participants")
                                .map(|a| (a.key.clone(), a.value.clone()))
                                .collect::<Vec<_>>()
                        };
                        let pa: Vec<_> = evs(a, "messages_poll_started", &vv).into_iter().map(strip).collect();
                        let pt: Vec<_> = evs(t, "messages_poll_started", &twin).into_iter().map(strip).collect();
                        ep.check(pa == pt, T, "voting-request-altered", || format!("{pa:?} vs {pt:?}"));
                        for e in evs(a, "messages_poll_started", &vv) {
                            let id: String = serde_json::from_str(attr(e, "poll_id").unwrap_or("null"))
                                .unwrap_or_default();
                            let k = serde_json::from_str::<Vec<Value>>(attr(e, "messages").unwrap_or("[]"))
                                .unwrap_or_default()
                                .len();
                            polls.push((id, k));
                            ep.count("voting.polls");
                        }
                    }
                    (Err(_), Err(_)) => ep.count("voting.refused"),
                    (Ok(r), Err(e)) => ep.fail(T, "voting-failure-hidden", format!("{e} / {r:?}")),
                    (Err(e), Ok(_)) => ep.fail(T, "voting-request-refused", e.clone()),
                }
            }
            4..=7 if !polls.is_empty() => {
                let (id, k) = polls[polls.len() - 1 - ep.below(polls.len().min(3) as u64) as usize].clone();
                let v = addr(&format!("worker{}", ep.below(5)));
                let votes: Vec<&str> = (0..k)
                    .map(|_| if ep.chance(85) { "succeeded_on_chain" } else { "failed_on_chain" })
                    .collect();
                let m = json!({"vote": {"poll_id": id, "votes": votes}});
                let a = w.exec(&v, &vv, &m, &[]);
                let t = w.exec(&v, &twin, &m, &[]);
                ep.step(format!("vote {id} by {v}: {}", short(&a)));
                // the twins live through the same history; a divergence here is not the aggregator's
                ep.check(a.is_ok() == t.is_ok(), &[], "twins-diverged", || format!("{a:?} {t:?}"));
            }
            8 if !polls.is_empty() => {
                let (id, _) = ep.pick(&polls).clone();
                let m = json!({"end_poll": {"poll_id": id}});
                let a = w.exec(&addr("relayer"), &vv, &m, &[]);
                let t = w.exec(&addr("relayer"), &twin, &m, &[]);
                ep.step(format!("end {id}: {}", short(&a)));
                ep.check(a.is_ok() == t.is_ok(), &[], "twins-diverged", || format!("{a:?} {t:?}"));
            }
            _ => w.advance(ep.range(0, 2), 5),
        }
        let mut msgs: Vec<Msg> = pool.iter().filter(|_| ep.chance(60)).cloned().collect();
        ep.shuffle(&mut msgs);
        let q = json!({"is_verified": {"messages": msgs.iter().map(|m| m.json()).collect::<Vec<_>>()}});
        let a: Result<Vec<(Value, bool)>, String> = w.query(&agg, &q);
        let t: Result<Vec<(Value, bool)>, String> = w.query(&vv, &q);
        match (&a, &t) {
            (Ok(x), Ok(y)) => {
                ep.count("voting.queries");
                if y.iter().any(|z| z.1) {
                    ep.count("voting.queries_verified");
                }
                ep.check(x == y, T, "voting-query-altered", || format!("{y:?} became {x:?}"));
            }
            (Err(_), Err(_)) => {}
            _ => ep.fail(T, "voting-query-altered", format!("{t:?} became {a:?}")),
        }
        ep.settle()?;
    }
    Ok(())
}
