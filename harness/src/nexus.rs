//! C31, C32: the real nexus gateway entry points on its own storage; what it hands over is read off its responses.
use crate::core::*;
use crate::gen::{self, Msg};
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{CosmosMsg, Empty, OwnedDeps, Response, Storage, WasmMsg};
use ::nexus_gateway::contract::{execute, instantiate};
use ::nexus_gateway::msg::ExecuteMsg;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Deps = OwnedDeps<MockStorage, MockApi, MockQuerier, Empty>;

struct S {
    d: Deps,
    done: BTreeSet<(String, String)>,
    pool: Vec<Msg>,
    /// canonical messages as nexus got them
    handed: Vec<(Msg, Value)>,
}

fn dump(d: &Deps) -> Vec<(Vec<u8>, Vec<u8>)> {
    d.storage.range(None, None, cosmwasm_std::Order::Ascending).collect()
}

/// bytes of a transaction id
fn length(ep: &mut Ep) -> usize {
    match ep.below(12) {
        0 => ep.range(41, 130) as usize,
        1 => *ep.pick(&[64usize, 128, 200]),
        2 | 3 => 32,
        _ => ep.range(1, 40) as usize,
    }
}

fn one_id(ep: &mut Ep) -> String {
    let n = length(ep);
    let b: Vec<u8> = (0..n).map(|_| ep.below(256) as u8).collect();
    let h = hex::encode(&b);
    let idx = match ep.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << 63,
        3 => u32::MAX as u64 + 1,
        _ => ep.below(1000),
    };
    match ep.below(22) {
        0..=4 => format!("{h}:{idx}"),
        5..=8 => format!("0x{h}:{idx}"),
        9 => format!("0x{}:{idx}", h.to_ascii_uppercase()),
        10 => format!("{h}:{idx}:1"),
        11 => format!("{h}"),
        12 => format!("0x{h}0:{idx}"),
        13 => format!("0x{h}:18446744073709551616"),
        14 => format!("0x{h}:-1"),
        15 => format!("0x{h}:"),
        16 => format!(":{idx}"),
        17 => format!("0x:{idx}"),
        18 => format!("{h}zz:{idx}"),
        19 => format!("{h}:{idx}x"),
        20 => gen::text(ep),
        _ => format!("id{}", ep.below(5)),
    }
}

/// the parts of an id of the form <hex tx id>:<index>; None: any other id; Err: spelled in a way left open
fn parts(id: &str) -> Result<Option<(Vec<u8>, u64)>, ()> {
    let p: Vec<&str> = id.split(':').collect();
    if p.len() != 2 {
        return Ok(None);
    }
    let h = p[0].strip_prefix("0x").unwrap_or(p[0]);
    if h.starts_with("0x") || p[1].starts_with('+') {
        return Err(());
    }
    let (Ok(b), Ok(i)) = (hex::decode(h), p[1].parse::<u64>()) else {
        return Ok(None);
    };
    if b.is_empty() {
        return Ok(None);
    }
    Ok(Some((b, i)))
}

fn call(s: &mut S, sender: &str, v: &Value) -> Result<Response<Value>, String> {
    let msg: ExecuteMsg = cosmwasm_std::from_slice(&serde_json::to_vec(v).unwrap()).map_err(|e| format!("parse: {e}"))?;
    let before = dump(&s.d);
    let d = &mut s.d;
    let r = catch_unwind(AssertUnwindSafe(|| execute(d.as_mut(), mock_env(), mock_info(sender, &[]), msg)));
    let r = match r {
        Ok(Ok(r)) => {
            // responses leave the contract as json
            let j = serde_json::to_vec(&r).map_err(|e| e.to_string())?;
            serde_json::from_slice::<Response<Value>>(&j).map_err(|e| e.to_string())
        }
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("PANIC".into()),
    };
    if r.is_err() {
        // as on chain
        let keys: Vec<Vec<u8>> = dump(&s.d).into_iter().map(|x| x.0).collect();
        for k in keys {
            s.d.storage.remove(&k);
        }
        for (k, v) in before {
            s.d.storage.set(&k, &v);
        }
    }
    r
}

pub fn run(ep: &mut Ep) -> R {
    let mut s = S {
        d: OwnedDeps {
            storage: MockStorage::default(),
            api: MockApi::default(),
            querier: MockQuerier::default(),
            custom_query_type: PhantomData,
        },
        done: BTreeSet::new(),
        pool: vec![],
        handed: vec![],
    };
    instantiate(
        s.d.as_mut(),
        mock_env(),
        mock_info("deployer", &[]),
        serde_json::from_value(json!({"nexus": "nexus", "router": "router"})).unwrap(),
    )
    .expect("instantiate");
    let n = if ep.big() {
        12
    } else if ep.thorough {
        60
    } else {
        30
    };
    for _ in 0..n {
        if ep.chance(65) {
            to_nexus(ep, &mut s)?;
        } else {
            from_nexus(ep, &mut s)?;
        }
    }
    Ok(())
}

fn sender(ep: &mut Ep, right: &'static str) -> &'static str {
    if ep.chance(80) {
        right
    } else {
        *ep.pick(&["router", "nexus", "deployer", "router2", "", "Router"])
    }
}

fn to_nexus(ep: &mut Ep, s: &mut S) -> R {
    let mut batch: Vec<Msg> = vec![];
    let size = if ep.big() { ep.big_size() } else { ep.below(6) };
    for _ in 0..size {
        let again = !s.pool.is_empty() && ep.chance(35);
        let inside = !batch.is_empty() && ep.chance(20);
        let mut m = if inside {
            ep.pick(&batch).clone()
        } else if again {
            ep.pick(&s.pool).clone()
        } else {
            let src = ep.pick(&["ethereum", "a", "x-1"]).to_string();
            let dst = *ep.pick(&["axelarnet", "axelarnet", "osmosis", "ethereum", "a"]);
            let mut m = gen::msg(ep, &src, dst);
            m.id = one_id(ep);
            m
        };
        if (inside || again) && ep.chance(25) {
            // the id again with other content
            m.daddr.push('y');
        }
        if (inside || again) && ep.chance(10) {
            // the same id of another chain
            m.src = format!("{}b", m.src);
        }
        if (inside || again) && ep.chance(15) {
            // nearly the same id
            m.id = gen::near(ep, &m.id);
        }
        if m.id.is_empty() || m.saddr.is_empty() {
            continue;
        }
        batch.push(m);
    }
    let by = sender(ep, "router");
    ep.step(format!("{by} delivers {:?}", batch.iter().map(|m| m.brief()).collect::<Vec<_>>()));
    let j: Vec<Value> = batch.iter().map(|m| m.json_cased(ep)).collect();
    let o = call(s, by, &json!({"route_messages": j}));
    if by != "router" {
        ep.count("deliver.unauthorised");
        ep.check(o.is_err(), &["C31", "C39"], "delivery-from-stranger-accepted", || by.to_string());
        return ep.settle();
    }
    let r = match o {
        Ok(r) => r,
        Err(e) => {
            ep.fail(&["C31", "C32"], "delivery-refused", e);
            return ep.settle();
        }
    };
    ep.count("deliver.ok");
    // what goes to nexus
    let mut got: Vec<Value> = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Custom(v) => got.push(v.clone()),
            x => ep.fail(&["C31"], "unexpected-message", format!("{x:?}")),
        }
    }
    let mut want: BTreeMap<(String, String), Vec<Msg>> = BTreeMap::new();
    for m in &batch {
        if s.done.contains(&m.key()) {
            ep.count("deliver.repeated");
            continue;
        }
        let w = want.entry(m.key()).or_default();
        if !w.is_empty() {
            ep.count("deliver.repeated_in_batch");
        }
        w.push(m.clone());
    }
    ep.seen(
        &["C31", "C32"],
        &(batch.iter().map(|m| (s.done.contains(&m.key()), m.key())).collect::<Vec<_>>(), got.len()),
    );
    ep.check(got.len() == want.len(), &["C31"], "handed-over-once", || {
        format!("{} messages handed to nexus for {} new ids", got.len(), want.len())
    });
    ep.settle()?;
    // each of them stands for one of the new messages
    for v in &got {
        // (an id that may be read either way only takes what no other one explains)
        let find = |open: bool| {
            want.iter().find_map(|(k, ms)| {
                ms.iter()
                    .find(|m| parts(&m.id).is_err() == open && stands_for(v, m))
                    .map(|m| (k.clone(), m.clone()))
            })
        };
        let found = find(false).or_else(|| find(true));
        match found {
            None => {
                let id = want.values().flatten().find(|m| v["source_address"] == json!(m.saddr)).cloned();
                ep.fail(&["C32", "C31"], "content-to-nexus", format!("{v} for {id:?}"));
                return ep.settle();
            }
            Some((k, m)) => {
                want.remove(&k);
                match parts(&m.id) {
                    Ok(Some((b, i))) => {
                        ep.count("convert.parsed");
                        if m.id == format!("{}:{i}", hex::encode(b)) {
                            s.handed.push((m.clone(), v.clone()));
                        }
                    }
                    Ok(None) => ep.count("convert.fallback"),
                    Err(()) => ep.count("convert.open"),
                }
            }
        }
    }
    for m in batch {
        s.done.insert(m.key());
        s.pool.push(m);
    }
    ep.settle()
}

fn stands_for(v: &Value, m: &Msg) -> bool {
    let bytes = |x: &Value| -> Option<Vec<u8>> { x.as_array()?.iter().map(|b| b.as_u64().map(|b| b as u8)).collect() };
    if v["source_chain"] != json!(m.src)
        || v["source_address"] != json!(m.saddr)
        || v["destination_chain"] != json!(m.dst)
        || v["destination_address"] != json!(m.daddr)
        || bytes(&v["payload_hash"]) != Some(m.hash.to_vec())
    {
        return false;
    }
    let tx = bytes(&v["source_tx_id"]);
    let whole = tx.as_deref() == Some(m.id.as_bytes());
    match parts(&m.id) {
        Ok(Some((b, i))) => tx == Some(b) && v["source_tx_index"] == json!(i),
        Ok(None) => whole,
        Err(()) => true,
    }
}

fn from_nexus(ep: &mut Ep, s: &mut S) -> R {
    let mut batch: Vec<(Value, Msg)> = vec![];
    let size = if ep.big() { ep.big_size() } else { ep.below(6) };
    for _ in 0..size {
        if !s.handed.is_empty() && ep.chance(40) {
            // there and back again
            let (m, v) = ep.pick(&s.handed).clone();
            batch.push((v, m));
            ep.count("return.round_trip");
            continue;
        }
        if !batch.is_empty() && ep.chance(15) {
            let x = ep.pick(&batch).clone();
            batch.push(x);
            continue;
        }
        let n = length(ep);
        let tx: Vec<u8> = (0..n).map(|_| ep.below(256) as u8).collect();
        let idx = *ep.pick(&[0u64, 1, 9, 10, 255, 1 << 40, u64::MAX - 1, u64::MAX]);
        let dst = *ep.pick(&["ethereum", "ethereum", "axelarnet", "cosmos-2", "nexus"]);
        let mut m = gen::msg(ep, "axelarnet", dst);
        m.src = ep.pick(&["axelarnet", "cosmos-2"]).to_string();
        m.id = format!("{}:{idx}", hex::encode(&tx));
        if m.saddr.is_empty() || m.daddr.is_empty() {
            continue;
        }
        let src = if ep.chance(20) { gen::recase(ep, &m.src) } else { m.src.clone() };
        let v = json!({
            "source_chain": src,
            "source_address": m.saddr,
            "destination_chain": m.dst,
            "destination_address": m.daddr,
            "payload_hash": m.hash.to_vec(),
            "source_tx_id": tx,
            "source_tx_index": idx,
        });
        batch.push((v, m));
    }
    let by = sender(ep, "nexus");
    ep.step(format!("{by} sends from nexus {:?}", batch.iter().map(|m| m.1.brief()).collect::<Vec<_>>()));
    let o = call(s, by, &json!({"route_messages_from_nexus": batch.iter().map(|b| b.0.clone()).collect::<Vec<_>>()}));
    if by != "nexus" {
        ep.count("from.unauthorised");
        ep.check(o.is_err(), &["C31", "C39"], "nexus-impersonated", || by.to_string());
        return ep.settle();
    }
    let r = match o {
        Ok(r) => r,
        Err(e) => {
            ep.fail(&["C31", "C32"], "nexus-message-refused", e);
            return ep.settle();
        }
    };
    ep.count("from.ok");
    let mut got: Vec<Msg> = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) if contract_addr == "router" && funds.is_empty() => {
                let v: Value = serde_json::from_slice(msg).unwrap_or(Value::Null);
                match v.get("route_messages").and_then(Msg::parse_all) {
                    Some(l) => got.extend(l),
                    None => ep.fail(&["C31", "C32"], "unexpected-message", v.to_string()),
                }
            }
            x => ep.fail(&["C31"], "unexpected-message", format!("{x:?}")),
        }
    }
    let want: Vec<Msg> = batch.iter().map(|b| b.1.clone()).collect();
    ep.count_n("from.messages", want.len() as u64);
    ep.seen(&["C31", "C32"], &want);
    ep.check(got.len() == want.len(), &["C31"], "passed-on-completely", || format!("{} of {}", got.len(), want.len()));
    ep.check(got == want, &["C31", "C32"], "content-from-nexus", || format!("{got:?} instead of {want:?}"));
    ep.settle()
}
