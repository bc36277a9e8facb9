//! C34-C38: the value types everything else is built from, through their constructors, both JSON
//! decoders, storage keys and the message types of every contract, against independent definitions.
use crate::core::*;
use crate::gen::*;
use crate::voting::{quorum, stub_registry, Reg};
use crate::world::*;
use axelar_wasm_std::voting::{PollId, Vote, WeightedPoll};
use axelar_wasm_std::{nonempty, MajorityThreshold, Participant, Snapshot, Threshold};
use connection_router::state as rs;
use connection_router_api as ra;
use cosmwasm_std::{Addr, HexBinary, Uint128, Uint256, Uint64};
use cw_multi_test::ContractWrapper;
use cw_storage_plus::{Key, KeyDeserialize, Map, PrimaryKey};
use multisig::key::{KeyType, PublicKey};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use voting_verifier::{contract as vcontract, msg as vmsg};

/// what an independent reading of the type says about a raw JSON value
#[derive(Clone, Debug, PartialEq)]
enum Say {
    /// must be accepted, and then denotes this canonical value
    Yes(Value),
    /// must be refused
    No,
    /// not decided; whatever is accepted must still survive serialisation
    Open,
}

fn guard<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    // a panic is a refusal too: the message does not get in
    catch_unwind(AssertUnwindSafe(f)).ok().flatten()
}

/// put one raw value through both decoders of type T
fn decode<T: DeserializeOwned + Serialize + PartialEq + Debug>(ep: &mut Ep, name: &'static str, raw: &Value, say: &Say) {
    let text = raw.to_string();
    let a: Option<T> = guard(|| serde_json::from_str::<T>(&text).ok());
    let b: Option<T> = guard(|| cosmwasm_std::from_slice::<T>(text.as_bytes()).ok());
    ep.step(format!("decode {name} from {}: {:?}/{:?} ({say:?})", cut(&text), a.is_some(), b.is_some()));
    ep.seen(&["C34"], &(name, shape(raw), a.is_some()));
    for (dec, v) in [("serde_json", a), ("cosmwasm", b)] {
        match (say, v) {
            (Say::No, Some(v)) => ep.fail(&["C34"], &format!("forbidden-accepted:{name}"), format!("{dec}: {} became {v:?}", cut(&text))),
            (Say::No, None) => ep.count("decode.refused"),
            (Say::Yes(_), None) => ep.fail(&["C34"], &format!("permitted-refused:{name}"), format!("{dec}: {}", cut(&text))),
            (Say::Open, None) => {}
            (s, Some(v)) => {
                if let Say::Yes(want) = s {
                    ep.count("decode.accepted");
                    let got = serde_json::to_value(&v).unwrap_or(Value::Null);
                    ep.check(&got == want, &["C34"], &format!("value-changed:{name}"), || {
                        format!("{dec}: {} reads back as {} (expected {})", cut(&text), cut(&got.to_string()), cut(&want.to_string()))
                    });
                }
                stable(ep, name, &v);
            }
        }
    }
}

/// a value survives both serialisers
fn stable<T: DeserializeOwned + Serialize + PartialEq + Debug>(ep: &mut Ep, name: &'static str, v: &T) {
    let j: Option<T> = serde_json::to_vec(v).ok().and_then(|t| serde_json::from_slice(&t).ok());
    let c: Option<T> = cosmwasm_std::to_vec(v).ok().and_then(|t| cosmwasm_std::from_slice(&t).ok());
    ep.check(j.as_ref() == Some(v) && c.as_ref() == Some(v), &["C34", "C37"], &format!("not-stable:{name}"), || {
        format!("{v:?} came back as {j:?} / {c:?}")
    });
}

fn cut(s: &str) -> String {
    s.chars().take(160).collect()
}

fn shape(v: &Value) -> String {
    match v {
        Value::String(s) => format!(
            "s{}{}{}{}",
            s.len().min(12),
            s.chars().all(|c| c.is_ascii_digit()),
            s.contains(':'),
            s.chars().any(|c| c.is_uppercase())
        ),
        Value::Array(a) => format!("[{}]", a.iter().map(shape).collect::<Vec<_>>().join(",")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}{}", shape(v))).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}

// ---------------------------------------------------------------- generators with verdicts

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    NeString,
    Addr,
    Chain,
    ApiChain,
    NzU64,
    NzU128,
    NzU256,
    NzTime,
    Thr,
    Maj,
    Hash,
    ApiHash,
    Pk,
    NeList,
}

fn number(ep: &mut Ep, max: &str) -> (Value, Say) {
    let zeros = ["0", "00", "000000"];
    match ep.below(14) {
        0..=2 => (json!(*ep.pick(&zeros)), Say::No),
        3 => (json!(max), Say::Yes(json!(max))),
        4 => {
            // one past the end
            let v = bump(max);
            (json!(v), Say::No)
        }
        5 => (json!(*ep.pick(&["-1", "-0", "", "abc", "1.5", "0x1", "1e3"])), Say::No),
        6 => (json!(*ep.pick(&["+1", " 1", "+0"])), Say::Open),
        7 => (json!(0), Say::No),
        8 => (json!(5), Say::Open),
        9 => (Value::Null, Say::No),
        10 => (json!("1"), Say::Yes(json!("1"))),
        11 => (json!("007"), Say::Open),
        _ => {
            let len = ep.range(1, max.len() as u64 - 1) as usize;
            let mut s = String::new();
            for i in 0..len {
                let d = if i == 0 { ep.range(1, 9) } else { ep.below(10) };
                s.push((b'0' + d as u8) as char);
            }
            (json!(s.clone()), Say::Yes(json!(s)))
        }
    }
}

fn bump(s: &str) -> String {
    let mut d: Vec<u8> = s.bytes().collect();
    for i in (0..d.len()).rev() {
        if d[i] < b'9' {
            d[i] += 1;
            return String::from_utf8(d).unwrap();
        }
        d[i] = b'0';
    }
    format!("1{}", String::from_utf8(d).unwrap())
}

const MAX64: &str = "18446744073709551615";
const MAX128: &str = "340282366920938463463374607431768211455";
const MAX256: &str = "115792089237316195423570985008687907853269984665640564039457584007913129639935";

fn any_text(ep: &mut Ep) -> String {
    match ep.below(9) {
        0 => String::new(),
        1 => " ".into(),
        2 => "\u{0}".into(),
        3 => ":".into(),
        4 => "é".repeat(ep.range(1, 40) as usize),
        5 => "x".repeat(ep.range(1, 3000) as usize),
        6 => "\u{1F600}\u{202E}".into(),
        _ => text(ep),
    }
}

fn fraction(ep: &mut Ep) -> (u64, u64) {
    match ep.below(12) {
        0 => (0, ep.below(4)),
        1 => (ep.below(4), 0),
        2 => {
            let d = ep.range(1, 50);
            (d / 2, d)
        }
        3 => {
            let d = ep.range(1, 50);
            (d / 2 + 1, d)
        }
        4 => {
            let d = ep.range(1, 50);
            (d + 1, d)
        }
        5 => {
            let d = u64::MAX - ep.below(3);
            (d / 2 + ep.below(3), d)
        }
        6 => {
            let d = u64::MAX - ep.below(3);
            (u64::MAX - ep.below(3), d)
        }
        7 => {
            let d = ep.range(1, 50);
            (d, d)
        }
        8 => {
            let d: u64 = u64::from_le_bytes(ep.bytes::<8>());
            (d / 2 + ep.below(2), d)
        }
        _ => (ep.range(1, 12), ep.range(1, 12)),
    }
}

fn thr_ok(n: u64, d: u64) -> bool {
    n > 0 && d > 0 && n <= d
}
fn maj_ok(n: u64, d: u64) -> bool {
    thr_ok(n, d) && (n as u128) * 2 > d as u128
}

fn api_chain_ok(s: &str) -> bool {
    // one optional capital, at least one small letter, optionally a number, optionally after a dash
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i].is_ascii_uppercase() {
        i += 1;
    }
    let st = i;
    while i < b.len() && b[i].is_ascii_lowercase() {
        i += 1;
    }
    if i == st {
        return false;
    }
    if i == b.len() {
        return true;
    }
    if b[i] == b'-' {
        i += 1;
    }
    let st = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    i == b.len() && i > st
}

fn chain_text(ep: &mut Ep) -> String {
    let base = *ep.pick(&["ethereum", "sui", "axelar", "a", "terra-2", "polygon0", "binance smart", "x.y_z", "0", "-", "{", "é"]);
    match ep.below(15) {
        12..=14 => {
            // another character before, behind or within
            let c = if ep.chance(60) {
                *ep.pick(&['.', '_', '-', ' ', '/', '\t', '\n', '\'', '"', '0', '+', '\\', '\u{0}', '\u{a0}', '\u{200b}'])
            } else {
                (32 + ep.below(95) as u8) as char
            };
            let n = ep.range(1, 2) as usize;
            let c = c.to_string().repeat(n);
            match ep.below(4) {
                0 => format!("{c}{base}"),
                1 => format!("{base}{c}"),
                2 => format!("{c}{base}{c}"),
                _ => format!("{base}{c}{base}"),
            }
        }
        0 => String::new(),
        1 => ":".into(),
        2 => format!("{base}:"),
        3 => format!(":{base}"),
        4 => format!("{base}:{base}"),
        5 | 6 => recase(ep, base),
        7 => "Long".repeat(ep.range(1, 60) as usize),
        8 => "ÀÉÎ".into(),
        _ => base.into(),
    }
}

fn value_for(ep: &mut Ep, k: Kind) -> (Value, Say) {
    // now and then something of the wrong JSON type altogether
    if ep.chance(4) {
        let v = ep.pick(&[Value::Null, json!(true), json!({}), json!(-1)]).clone();
        return (v, Say::No);
    }
    match k {
        Kind::NeString | Kind::Addr => {
            let s = any_text(ep);
            let say = if s.is_empty() { Say::No } else { Say::Yes(json!(s)) };
            (json!(s), say)
        }
        Kind::Chain => {
            let s = chain_text(ep);
            let say = if s.is_empty() || s.contains(':') {
                Say::No
            } else if s.is_ascii() {
                Say::Yes(json!(s.to_ascii_lowercase()))
            } else {
                Say::Open
            };
            (json!(s), say)
        }
        Kind::ApiChain => {
            let s = if ep.chance(50) {
                ep.pick(&["Ethereum", "ETH", "eth1", "eth-1", "eth-", "eth1-2", "1eth", "-1", "E", "e", "Eth 1", "eth\n", "sui-007", "aB"]).to_string()
            } else {
                chain_text(ep)
            };
            let say = if api_chain_ok(&s) { Say::Yes(json!(s)) } else { Say::No };
            (json!(s), say)
        }
        Kind::NzU64 => number(ep, MAX64),
        Kind::NzTime => number(ep, MAX64),
        Kind::NzU128 => number(ep, MAX128),
        Kind::NzU256 => number(ep, MAX256),
        Kind::Thr | Kind::Maj => {
            if ep.chance(8) {
                let v = ep
                    .pick(&[json!(["1"]), json!(["1", "1", "1"]), json!([]), json!("1"), json!([1, 1]), json!({"numerator": "1", "denominator": "1"}), json!(["0", "0"])])
                    .clone();
                // numbers instead of strings are not decided
                let say = if v == json!([1, 1]) { Say::Open } else { Say::No };
                return (v, say);
            }
            let (n, d) = fraction(ep);
            let ok = if k == Kind::Thr { thr_ok(n, d) } else { maj_ok(n, d) };
            let v = json!([n.to_string(), d.to_string()]);
            (v.clone(), if ok { Say::Yes(v) } else { Say::No })
        }
        Kind::Hash => {
            let n = match ep.below(6) {
                0 => ep.below(70) as usize,
                1 => 31,
                2 => 33,
                _ => 32,
            };
            let mut b = vec![0u8; n];
            for x in b.iter_mut() {
                *x = ep.below(256) as u8;
            }
            let mut t = hex::encode(&b);
            match ep.below(10) {
                0 => t = t.to_uppercase(),
                1 => {
                    t.pop();
                    return (json!(t), Say::No);
                }
                2 => return (json!(format!("0x{t}")), Say::No),
                3 if n > 0 => {
                    t.replace_range(0..1, "g");
                    return (json!(t), Say::No);
                }
                _ => {}
            }
            let say = if n == 32 { Say::Yes(json!(t.to_lowercase())) } else { Say::No };
            (json!(t), say)
        }
        Kind::ApiHash => {
            // written as a list of numbers
            let n = match ep.below(4) {
                0 => ep.below(70),
                1 => 31,
                _ => 32,
            };
            let mut l: Vec<u64> = (0..n).map(|_| ep.below(256)).collect();
            let mut ok = n == 32;
            if ep.chance(15) && n > 0 {
                let i = ep.below(n) as usize;
                l[i] = 256 + ep.below(10);
                ok = false;
            }
            (json!(l), if ok { Say::Yes(json!(l)) } else { Say::No })
        }
        Kind::Pk => {
            let ty = *ep.pick(&["ecdsa", "ed25519"]);
            let n = *ep.pick(&[0usize, 1, 20, 31, 32, 32, 32, 33, 33, 33, 34, 63, 64, 65, 65, 65, 66, 130]);
            let b: Vec<u8> = (0..n).map(|_| ep.below(256) as u8).collect();
            let v = json!({ty: hex::encode(&b)});
            let ok = (ty == "ecdsa" && (n == 33 || n == 65)) || (ty == "ed25519" && n == 32);
            if ok && ep.chance(10) {
                return (json!({"rsa": hex::encode(&b)}), Say::No);
            }
            (v.clone(), if ok { Say::Yes(v) } else { Say::No })
        }
        Kind::NeList => {
            let n = *ep.pick(&[0usize, 0, 1, 2, 5, 100]);
            let l: Vec<u64> = (0..n).map(|_| ep.below(256)).collect();
            (json!(l), if n == 0 { Say::No } else { Say::Yes(json!(l)) })
        }
    }
}

// ---------------------------------------------------------------- C34

pub fn run_values(ep: &mut Ep) -> R {
    for _ in 0..40 {
        let k = *ep.pick(&[
            Kind::NeString,
            Kind::Addr,
            Kind::Chain,
            Kind::ApiChain,
            Kind::NzU64,
            Kind::NzU128,
            Kind::NzU256,
            Kind::NzTime,
            Kind::Thr,
            Kind::Maj,
            Kind::Hash,
            Kind::ApiHash,
            Kind::Pk,
            Kind::NeList,
        ]);
        let (raw, say) = value_for(ep, k);
        match k {
            Kind::NeString => decode::<nonempty::String>(ep, "nonempty::String", &raw, &say),
            Kind::Addr => {
                decode::<rs::Address>(ep, "router Address", &raw, &say);
                decode::<ra::primitives::Address>(ep, "api Address", &raw, &say);
            }
            Kind::Chain => decode::<rs::ChainName>(ep, "ChainName", &raw, &say),
            Kind::ApiChain => {
                decode::<ra::primitives::ChainName>(ep, "api ChainName", &raw, &say);
            }
            Kind::NzU64 => decode::<nonempty::Uint64>(ep, "nonempty::Uint64", &raw, &say),
            Kind::NzU128 => decode::<nonempty::Uint128>(ep, "nonempty::Uint128", &raw, &say),
            Kind::NzU256 => decode::<nonempty::Uint256>(ep, "nonempty::Uint256", &raw, &say),
            Kind::NzTime => decode::<nonempty::Timestamp>(ep, "nonempty::Timestamp", &raw, &say),
            Kind::Thr => decode::<Threshold>(ep, "Threshold", &raw, &say),
            Kind::Maj => decode::<MajorityThreshold>(ep, "MajorityThreshold", &raw, &say),
            Kind::Hash | Kind::ApiHash => {}
            Kind::Pk => decode::<PublicKey>(ep, "PublicKey", &raw, &say),
            Kind::NeList => decode::<nonempty::Vec<u64>>(ep, "nonempty::Vec", &raw, &say),
        }
        ep.settle()?;
    }
    for _ in 0..3 {
        // a set of flags is read as it was written (undefined bits are the flagset crate's own matter)
        let n = *ep.pick(&[0u64, 1, 2, 3, 256, 259, u64::MAX]);
        let say = if n < 4 { Say::Yes(json!(n)) } else { Say::No };
        decode::<axelar_wasm_std::flagset::FlagSet<rs::GatewayDirection>>(ep, "FlagSet", &json!(n), &say);
        ep.settle()?;
    }
    for _ in 0..20 {
        constructors(ep)?;
    }
    for _ in 0..20 {
        contract_message(ep)?;
    }
    // the prover takes its chain as text and must apply the same rule
    let (raw, say) = value_for(ep, Kind::Chain);
    if let Value::String(c) = &raw {
        let mut w = W::new();
        let m = json!({"admin_address": "admin", "gateway_address": "gateway", "multisig_address": "multisig", "service_registry_address": "registry",
            "voting_verifier_address": "verifier", "destination_chain_id": "1", "signing_threshold": ["2", "3"], "service_name": "n",
            "chain_name": c, "worker_set_diff_threshold": 0, "encoder": "abi", "key_type": "ecdsa"});
        let r = w.install(
            Box::new(
                ContractWrapper::new(
                    multisig_prover::contract::execute,
                    multisig_prover::contract::instantiate,
                    multisig_prover::contract::query,
                )
                .with_reply(multisig_prover::contract::reply),
            ),
            &m,
        );
        ep.step(format!("instantiate prover for {c:?}: {}", r.is_ok()));
        match say {
            Say::No => {
                ep.check(r.is_err(), &["C34"], "prover-accepts-forbidden-chain", || c.clone());
            }
            Say::Yes(_) => {
                ep.check(r.is_ok(), &["C34"], "prover-refuses-permitted-chain", || format!("{c} {r:?}"));
            }
            Say::Open => {}
        }
    }
    ep.settle()
}

fn built<T: Serialize + DeserializeOwned + PartialEq + Debug>(ep: &mut Ep, name: &'static str, got: Option<T>, want: Option<Value>, from: &str) {
    ep.step(format!("construct {name} from {}: {}", cut(from), got.is_some()));
    match (got, want) {
        (Some(v), None) => ep.fail(&["C34"], &format!("forbidden-constructed:{name}"), format!("{v:?} from {}", cut(from))),
        (None, Some(_)) => ep.fail(&["C34"], &format!("permitted-not-constructed:{name}"), cut(from)),
        (None, None) => ep.count("construct.refused"),
        (Some(v), Some(w)) => {
            ep.count("construct.accepted");
            let j = serde_json::to_value(&v).unwrap_or(Value::Null);
            ep.check(j == w, &["C34"], &format!("constructed-value-changed:{name}"), || {
                format!("{} became {}", cut(from), cut(&j.to_string()))
            });
            stable(ep, name, &v);
        }
    }
}

fn constructors(ep: &mut Ep) -> R {
    match ep.below(12) {
        0 => {
            let s = any_text(ep);
            let w = (!s.is_empty()).then(|| json!(s));
            built(ep, "nonempty::String", nonempty::String::try_from(s.clone()).ok(), w.clone(), &s);
            built(ep, "nonempty::String", nonempty::String::try_from(s.as_str()).ok(), w.clone(), &s);
            built(ep, "nonempty::String", s.parse::<nonempty::String>().ok(), w.clone(), &s);
            built(ep, "router Address", rs::Address::try_from(s.clone()).ok(), w.clone(), &s);
            built(ep, "router Address", s.parse::<rs::Address>().ok(), w.clone(), &s);
            built(ep, "api Address", ra::primitives::Address::try_from(s.clone()).ok(), w.clone(), &s);
            built(ep, "api Address", s.parse::<ra::primitives::Address>().ok(), w, &s);
            if let Ok(v) = nonempty::String::try_from(s.clone()) {
                let l: Vec<u8> = nonempty::Vec::<u8>::from(v.clone()).into();
                let back: String = v.clone().into();
                ep.check(l == s.as_bytes() && back == s && *v == s, &["C34"], "string-conversion-changed", || cut(&s));
            }
        }
        1 => {
            let n = [0u64, 1, 2, u64::MAX, u64::MAX - 1][ep.below(5) as usize];
            let w = (n != 0).then(|| json!(n.to_string()));
            built(ep, "nonempty::Uint64", nonempty::Uint64::try_from(n).ok(), w.clone(), &n.to_string());
            built(ep, "nonempty::Uint64", nonempty::Uint64::try_from(Uint64::from(n)).ok(), w.clone(), &n.to_string());
            built(ep, "nonempty::Timestamp", nonempty::Timestamp::try_from(cosmwasm_std::Timestamp::from_nanos(n)).ok(), w, &n.to_string());
            if let Ok(v) = nonempty::Uint64::try_from(n) {
                let a: u64 = v.into();
                let b: Uint64 = v.into();
                ep.check(a == n && b.u64() == n && v.to_string() == n.to_string(), &["C34"], "uint64-conversion-changed", || n.to_string());
            }
        }
        2 => {
            let n = [0u128, 1, 1 << 64, u128::MAX][ep.below(4) as usize];
            let w = (n != 0).then(|| json!(n.to_string()));
            built(ep, "nonempty::Uint128", nonempty::Uint128::try_from(Uint128::new(n)).ok(), w.clone(), &n.to_string());
            built(ep, "nonempty::Uint256", nonempty::Uint256::try_from(Uint128::new(n)).ok(), w.clone(), &n.to_string());
            built(ep, "nonempty::Uint256", nonempty::Uint256::try_from(Uint256::from(n)).ok(), w, &n.to_string());
            let mut be = [0u8; 32];
            // only one limb set: a test of single limbs for zero would be fooled
            let at = ep.below(32) as usize;
            be[at] = 1 << ep.below(8);
            let big = Uint256::from_be_bytes(be);
            built(ep, "nonempty::Uint256", nonempty::Uint256::try_from(big).ok(), Some(json!(big.to_string())), &big.to_string());
            let mut b16 = [0u8; 16];
            b16[at % 16] = 1 << ep.below(8);
            let mid = Uint128::new(u128::from_be_bytes(b16));
            built(ep, "nonempty::Uint128", nonempty::Uint128::try_from(mid).ok(), Some(json!(mid.to_string())), &mid.to_string());
        }
        3 => {
            let n = *ep.pick(&[0usize, 1, 2, 50]);
            let b: Vec<u8> = (0..n).map(|_| ep.below(256) as u8).collect();
            let w = (n > 0).then(|| json!(b));
            built(ep, "nonempty::Vec", nonempty::Vec::try_from(b.clone()).ok(), w.clone(), &format!("{b:?}"));
            built(ep, "nonempty::Vec", nonempty::Vec::try_from(&HexBinary::from(b.clone())).ok(), w, &format!("{b:?}"));
            if let Ok(v) = nonempty::Vec::try_from(b.clone()) {
                ep.check(v.as_ref() == &b, &["C34"], "list-conversion-changed", || format!("{b:?}"));
            }
        }
        4..=7 => {
            let (n, d) = fraction(ep);
            let f = format!("{n}/{d}");
            let v = json!([n.to_string(), d.to_string()]);
            let tw = thr_ok(n, d).then(|| v.clone());
            let mw = maj_ok(n, d).then(|| v.clone());
            let t = Threshold::try_from((n, d)).ok();
            built(ep, "Threshold", t, tw.clone(), &f);
            built(ep, "Threshold", Threshold::try_from((Uint64::from(n), Uint64::from(d))).ok(), tw.clone(), &f);
            if let (Ok(a), Ok(b)) = (nonempty::Uint64::try_from(n), nonempty::Uint64::try_from(d)) {
                built(ep, "Threshold", Threshold::try_from((a, b)).ok(), tw, &f);
            }
            if let Some(t) = t {
                built(ep, "MajorityThreshold", MajorityThreshold::try_from(t).ok(), mw, &f);
                if let Ok(m) = MajorityThreshold::try_from(t) {
                    ep.check(Threshold::from(m) == t, &["C34"], "threshold-conversion-changed", || f.clone());
                }
                let p: (Uint64, Uint64) = t.into();
                ep.check(p.0.u64() == n && p.1.u64() == d, &["C34"], "threshold-conversion-changed", || f.clone());
            }
        }
        8 | 9 => {
            let s = chain_text(ep);
            let ok = !s.is_empty() && !s.contains(':');
            let w = ok.then(|| json!(s.to_lowercase()));
            built(ep, "ChainName", rs::ChainName::try_from(s.clone()).ok(), w.clone(), &s);
            built(ep, "ChainName", s.parse::<rs::ChainName>().ok(), w, &s);
            let w = api_chain_ok(&s).then(|| json!(s));
            built(ep, "api ChainName", ra::primitives::ChainName::try_from(s.clone()).ok(), w.clone(), &s);
            built(ep, "api ChainName", s.parse::<ra::primitives::ChainName>().ok(), w, &s);
        }
        _ => {
            let n = *ep.pick(&[0usize, 20, 31, 32, 33, 34, 64, 65, 66]);
            let b: Vec<u8> = (0..n).map(|_| ep.below(256) as u8).collect();
            let h = HexBinary::from(b.clone());
            let ec = (n == 33 || n == 65).then(|| json!({"ecdsa": hex::encode(&b)}));
            let ed = (n == 32).then(|| json!({"ed25519": hex::encode(&b)}));
            built(ep, "PublicKey", PublicKey::try_from((KeyType::Ecdsa, h.clone())).ok(), ec, &format!("ecdsa {n}"));
            built(ep, "PublicKey", PublicKey::try_from((KeyType::Ed25519, h.clone())).ok(), ed, &format!("ed25519 {n}"));
            for k in [KeyType::Ecdsa, KeyType::Ed25519] {
                if let Ok(p) = PublicKey::try_from((k, h.clone())) {
                    let raw: HexBinary = p.clone().into();
                    ep.check(raw == h && p.as_ref() == b.as_slice(), &["C34"], "key-conversion-changed", || hex::encode(&b));
                }
            }
        }
    }
    ep.settle()
}

fn sample_message() -> Value {
    json!({"cc_id": {"chain": "ethereum", "id": "0xab:1"}, "source_address": "0x1", "destination_chain": "sui",
        "destination_address": "0x2", "payload_hash": hex::encode([7u8; 32])})
}

type Parse = fn(&[u8]) -> [Option<Value>; 2];

fn parse<T: DeserializeOwned + Serialize>(b: &[u8]) -> [Option<Value>; 2] {
    let f = |v: Option<T>| v.and_then(|v| serde_json::to_value(&v).ok());
    [
        f(guard(|| serde_json::from_slice::<T>(b).ok())),
        f(guard(|| cosmwasm_std::from_slice::<T>(b).ok())),
    ]
}

/// every contract message with constrained fields: decoder, a valid instance, constrained places in it
fn contract_table() -> Vec<(&'static str, Parse, Value, Vec<(&'static str, Kind)>)> {
    let m = sample_message();
    let msgk = |p: &'static [&'static str; 5]| {
        vec![
            (p[0], Kind::Chain),
            (p[1], Kind::NeString),
            (p[2], Kind::Addr),
            (p[3], Kind::Chain),
            (p[4], Kind::Hash),
        ]
    };
    const A: [&str; 5] = [
        "/verify_messages/messages/0/cc_id/chain",
        "/verify_messages/messages/0/cc_id/id",
        "/verify_messages/messages/0/source_address",
        "/verify_messages/messages/0/destination_chain",
        "/verify_messages/messages/0/payload_hash",
    ];
    const B: [&str; 5] = [
        "/route_messages/0/cc_id/chain",
        "/route_messages/0/cc_id/id",
        "/route_messages/0/destination_address",
        "/route_messages/0/destination_chain",
        "/route_messages/0/payload_hash",
    ];
    const C: [&str; 5] = [
        "/verify_messages/0/cc_id/chain",
        "/verify_messages/0/cc_id/id",
        "/verify_messages/0/source_address",
        "/verify_messages/0/destination_chain",
        "/verify_messages/0/payload_hash",
    ];
    const D: [&str; 5] = [
        "/is_verified/messages/0/cc_id/chain",
        "/is_verified/messages/0/cc_id/id",
        "/is_verified/messages/0/destination_address",
        "/is_verified/messages/0/destination_chain",
        "/is_verified/messages/0/payload_hash",
    ];
    let dir = serde_json::to_value(rs::GatewayDirection::Incoming).unwrap();
    let worker_set = json!({"signers": {"w": {"address": "w", "weight": "1", "pub_key": {"ecdsa": hex::encode([2u8; 33])}}},
        "threshold": "1", "created_at": 3});
    vec![
        ("aggregate verifier VerifyMessages", parse::<aggregate_verifier::msg::ExecuteMsg>, json!({"verify_messages": {"messages": [m]}}), msgk(&A)),
        ("aggregate verifier IsVerified", parse::<aggregate_verifier::msg::QueryMsg>, json!({"is_verified": {"messages": [m]}}), msgk(&D)),
        ("router RouteMessages", parse::<connection_router::msg::ExecuteMsg>, json!({"route_messages": [m]}), msgk(&B)),
        ("router RegisterChain", parse::<connection_router::msg::ExecuteMsg>, json!({"register_chain": {"chain": "sui", "gateway_address": "g"}}), vec![("/register_chain/chain", Kind::Chain)]),
        ("router UpgradeGateway", parse::<connection_router::msg::ExecuteMsg>, json!({"upgrade_gateway": {"chain": "sui", "contract_address": "g"}}), vec![("/upgrade_gateway/chain", Kind::Chain)]),
        ("router FreezeChain", parse::<connection_router::msg::ExecuteMsg>, json!({"freeze_chain": {"chain": "sui", "direction": dir}}), vec![("/freeze_chain/chain", Kind::Chain)]),
        ("router UnfreezeChain", parse::<connection_router::msg::ExecuteMsg>, json!({"unfreeze_chain": {"chain": "sui", "direction": dir}}), vec![("/unfreeze_chain/chain", Kind::Chain)]),
        ("router GetChainInfo", parse::<connection_router::msg::QueryMsg>, json!({"get_chain_info": "sui"}), vec![("/get_chain_info", Kind::Chain)]),
        ("gateway VerifyMessages", parse::<gateway::msg::ExecuteMsg>, json!({"verify_messages": [m]}), msgk(&C)),
        ("gateway RouteMessages", parse::<gateway::msg::ExecuteMsg>, json!({"route_messages": [m]}), msgk(&B)),
        ("gateway GetMessages", parse::<gateway::msg::QueryMsg>, json!({"get_messages": {"message_ids": [{"chain": "sui", "id": "x"}]}}),
            vec![("/get_messages/message_ids/0/chain", Kind::Chain), ("/get_messages/message_ids/0/id", Kind::NeString)]),
        ("nexus gateway RouteMessages", parse::<nexus_gateway::msg::ExecuteMsg>, json!({"route_messages": [m]}), msgk(&B)),
        ("multisig StartSigningSession", parse::<multisig::msg::ExecuteMsg>, json!({"start_signing_session": {"worker_set_id": "a", "msg": "00", "chain_name": "sui", "sig_verifier": null}}),
            vec![("/start_signing_session/chain_name", Kind::Chain)]),
        ("multisig RegisterPublicKey", parse::<multisig::msg::ExecuteMsg>, json!({"register_public_key": {"public_key": {"ecdsa": hex::encode([2u8; 33])}}}),
            vec![("/register_public_key/public_key", Kind::Pk)]),
        ("multisig RegisterWorkerSet", parse::<multisig::msg::ExecuteMsg>, json!({"register_worker_set": {"worker_set": worker_set}}),
            vec![("/register_worker_set/worker_set/signers/w/pub_key", Kind::Pk)]),
        ("prover ConstructProof", parse::<multisig_prover::msg::ExecuteMsg>, json!({"construct_proof": {"message_ids": [{"chain": "sui", "id": "x"}]}}),
            vec![("/construct_proof/message_ids/0/chain", Kind::Chain), ("/construct_proof/message_ids/0/id", Kind::NeString)]),
        ("prover instantiate", parse::<multisig_prover::msg::InstantiateMsg>, json!({"admin_address": "a", "gateway_address": "g", "multisig_address": "m",
            "service_registry_address": "s", "voting_verifier_address": "v", "destination_chain_id": "1", "signing_threshold": ["2", "3"],
            "service_name": "n", "chain_name": "c", "worker_set_diff_threshold": 0, "encoder": "abi", "key_type": "ecdsa"}),
            vec![("/signing_threshold", Kind::Maj)]),
        ("rewards instantiate", parse::<rewards::msg::InstantiateMsg>, json!({"governance_address": "g", "rewards_denom": "d",
            "params": {"epoch_duration": "10", "rewards_per_epoch": "10", "participation_threshold": ["1", "2"]}}),
            vec![("/params/epoch_duration", Kind::NzU64), ("/params/rewards_per_epoch", Kind::NzU128), ("/params/participation_threshold", Kind::Thr)]),
        ("rewards UpdateParams", parse::<rewards::msg::ExecuteMsg>, json!({"update_params": {"params": {"epoch_duration": "10", "rewards_per_epoch": "10", "participation_threshold": ["1", "2"]}}}),
            vec![("/update_params/params/epoch_duration", Kind::NzU64), ("/update_params/params/rewards_per_epoch", Kind::NzU128), ("/update_params/params/participation_threshold", Kind::Thr)]),
        ("rewards RecordParticipation", parse::<rewards::msg::ExecuteMsg>, json!({"record_participation": {"event_id": "e", "worker_address": "w"}}),
            vec![("/record_participation/event_id", Kind::NeString)]),
        ("registry DeclareChainSupport", parse::<service_registry::msg::ExecuteMsg>, json!({"declare_chain_support": {"service_name": "s", "chains": ["sui", "ethereum"]}}),
            vec![("/declare_chain_support/chains/1", Kind::Chain)]),
        ("registry GetActiveWorkers", parse::<service_registry::msg::QueryMsg>, json!({"get_active_workers": {"service_name": "s", "chain_name": "sui"}}),
            vec![("/get_active_workers/chain_name", Kind::Chain)]),
        ("verifier instantiate", parse::<vmsg::InstantiateMsg>, json!({"service_registry_address": "a", "service_name": "n", "source_gateway_address": "g",
            "voting_threshold": ["2", "3"], "block_expiry": 5, "confirmation_height": 5, "source_chain": "sui", "rewards_address": "r"}),
            vec![("/service_registry_address", Kind::NeString), ("/service_name", Kind::NeString), ("/source_gateway_address", Kind::NeString),
                ("/voting_threshold", Kind::Maj), ("/source_chain", Kind::Chain)]),
        ("verifier VerifyMessages", parse::<vmsg::ExecuteMsg>, json!({"verify_messages": {"messages": [m]}}), msgk(&A)),
        ("verifier IsVerified", parse::<vmsg::QueryMsg>, json!({"is_verified": {"messages": [m]}}), msgk(&D)),
        ("verifier VerifyWorkerSet", parse::<vmsg::ExecuteMsg>, json!({"verify_worker_set": {"message_id": "a:1", "new_operators": {"weights_by_addresses": [["00", "1"]], "threshold": "1"}}}),
            vec![("/verify_worker_set/message_id", Kind::NeString)]),
        ("api router RegisterChain", parse::<ra::msg::ExecuteMsg>, json!({"register_chain": {"chain": "sui", "gateway_address": "g"}}),
            vec![("/register_chain/chain", Kind::ApiChain), ("/register_chain/gateway_address", Kind::Addr)]),
        ("api router RouteMessages", parse::<ra::msg::ExecuteMsg>, json!({"route_messages": [{"id": "x", "source_chain": "sui", "source_address": "a",
            "destination_chain": "eth", "destination_address": "b", "payload_hash": vec![7; 32]}]}),
            vec![("/route_messages/0/source_chain", Kind::ApiChain), ("/route_messages/0/source_address", Kind::Addr), ("/route_messages/0/destination_address", Kind::Addr),
                ("/route_messages/0/payload_hash", Kind::ApiHash)]),
        ("gateway api VerifyMessages", parse::<gateway_api::msg::ExecuteMsg>, json!({"verify_messages": [{"id": "x", "source_chain": "sui", "source_address": "a",
            "destination_chain": "eth", "destination_address": "b", "payload_hash": vec![7; 32]}]}),
            vec![("/verify_messages/0/destination_chain", Kind::ApiChain), ("/verify_messages/0/source_address", Kind::Addr), ("/verify_messages/0/payload_hash", Kind::ApiHash)]),
    ]
}

thread_local! {
    static TABLE: Vec<(&'static str, Parse, Value, Vec<(&'static str, Kind)>)> = contract_table();
}

fn contract_message(ep: &mut Ep) -> R {
    let n = TABLE.with(|t| t.len()) as u64;
    let i = ep.below(n) as usize;
    let (name, f, base, places) = TABLE.with(|t| t[i].clone());
    let mut v = base.clone();
    let mut want = base.clone();
    let (mut no, mut open) = (false, false);
    let mut what = vec![];
    for (p, k) in &places {
        if !(places.len() == 1 || ep.chance(40)) {
            continue;
        }
        let (raw, say) = value_for(ep, *k);
        what.push(format!("{p}={}", cut(&raw.to_string())));
        *v.pointer_mut(p).expect("place") = raw;
        match say {
            Say::Yes(c) => *want.pointer_mut(p).expect("place") = c,
            Say::No => no = true,
            Say::Open => open = true,
        }
    }
    // a forbidden value must be refused wherever it is written: as a new field it must be unknown
    let b = v.to_string().into_bytes();
    let got = f(&b);
    ep.step(format!("{name} with {what:?}: {:?}", got.iter().map(|g| g.is_some()).collect::<Vec<_>>()));
    ep.seen(&["C34"], &(name, shape(&v), no, open));
    for (dec, g) in ["serde_json", "cosmwasm"].iter().zip(got) {
        match g {
            Some(g) if no => ep.fail(&["C34"], &format!("contract-accepts-forbidden:{name}"), format!("{dec}: {v} read as {g}")),
            None if no => ep.count("contract.refused"),
            _ if open => {}
            None => ep.fail(&["C34"], &format!("contract-refuses-permitted:{name}"), format!("{dec}: {v}")),
            Some(g) => {
                ep.count("contract.accepted");
                ep.check(g == want, &["C34"], &format!("contract-value-changed:{name}"), || format!("{dec}: {v} read as {g}, expected {want}"));
            }
        }
    }
    ep.settle()
}

// ---------------------------------------------------------------- C35

fn weight(ep: &mut Ep) -> Uint256 {
    match ep.below(8) {
        0 => Uint256::from(u64::MAX),
        1 => Uint256::from(u128::MAX),
        2 => Uint256::from(u64::from_le_bytes(ep.bytes::<8>()).max(1)),
        3 => Uint256::from(1u128 << ep.range(60, 127)),
        4 => {
            // very large, but the total and quorum still fit
            let mut b = ep.bytes::<32>();
            b[0] = 0;
            b[1] = 0;
            Uint256::from_be_bytes(b).max(Uint256::one())
        }
        _ => Uint256::from(ep.range(1, 30)),
    }
}

fn big(u: &Uint256) -> ethabi::ethereum_types::U512 {
    ethabi::ethereum_types::U512::from_big_endian(&u.to_be_bytes())
}

fn thr(ep: &mut Ep) -> (u64, u64) {
    loop {
        let f = fraction(ep);
        if thr_ok(f.0, f.1) {
            return f;
        }
    }
}
fn maj(ep: &mut Ep) -> (u64, u64) {
    loop {
        let f = fraction(ep);
        if maj_ok(f.0, f.1) {
            return f;
        }
    }
}

/// a snapshot of random participants, with its parameters
fn snapshot(ep: &mut Ep, max: u64) -> (Snapshot, Vec<(String, Uint256)>, (u64, u64)) {
    let n = ep.range(1, max);
    let same = ep.chance(40);
    let mut ps: Vec<(String, Uint256)> = (0..n)
        .map(|i| {
            let w = if same { Uint256::one() } else { weight(ep) };
            let a = match ep.below(6) {
                0 => format!("Addr{i}"),
                1 => format!("addr-{}-{}", i, "z".repeat(ep.below(60) as usize)),
                _ => format!("addr{i}"),
            };
            (a, w)
        })
        .collect();
    if n > 1 && ep.chance(20) {
        // a name that is almost another's
        let a = near(ep, &ps[0].0);
        if ps.iter().all(|p| p.0 != a) {
            ps[1].0 = a;
        }
    }
    let t = maj(ep);
    let mt: MajorityThreshold = Threshold::try_from(t).expect("threshold").try_into().expect("majority");
    let list: Vec<Participant> = ps
        .iter()
        .map(|(a, w)| Participant {
            address: Addr::unchecked(a.clone()),
            weight: (*w).try_into().expect("weight"),
        })
        .collect();
    let s = Snapshot::new(mt, list.try_into().expect("participants"));
    (s, ps, t)
}

pub fn run_threshold(ep: &mut Ep) -> R {
    use ethabi::ethereum_types::U512;
    for _ in 0..40 {
        // comparison of thresholds as rationals
        let a = thr(ep);
        let b = match ep.below(5) {
            0 => {
                // the same number written differently
                let k = ep.range(1, 9);
                match (a.0.checked_mul(k), a.1.checked_mul(k)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => a,
                }
            }
            1 => (a.0.saturating_sub(1).max(1), a.1),
            2 => (a.0, a.1.saturating_add(1)),
            _ => thr(ep),
        };
        let (ta, tb) = (Threshold::try_from(a).unwrap(), Threshold::try_from(b).unwrap());
        let want = (a.0 as u128 * b.1 as u128).cmp(&(b.0 as u128 * a.1 as u128));
        let got = guard(|| ta.partial_cmp(&tb));
        ep.step(format!("compare {a:?} {b:?}: {got:?}"));
        ep.count("threshold.compared");
        if want == std::cmp::Ordering::Equal && a != b {
            ep.count("threshold.equal_differently_written");
        }
        ep.seen(&["C35"], &("cmp", want, a.0 > 1 << 40, b.1 > 1 << 40));
        ep.check(got == Some(want), &["C35"], "comparison-wrong", || format!("{a:?} vs {b:?}: {got:?} instead of {want:?}"));
        let ops = (ta < tb, ta <= tb, ta > tb, ta >= tb);
        let wops = (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
        ep.check(ops == wops, &["C35"], "comparison-wrong", || format!("{a:?} vs {b:?}: {ops:?} instead of {wops:?}"));
        ep.settle()?;
    }
    for i in 0..20 {
        let most = if ep.big() && i < 4 { ep.big_size() } else { 12 };
        let (s, ps, t) = snapshot(ep, most);
        let total = ps.iter().fold(U512::zero(), |x, p| x + big(&p.1));
        let q = big(s.quorum.as_ref());
        ep.step(format!("snapshot of {ps:?} at {t:?}: quorum {q}"));
        ep.count("quorum.computed");
        ep.seen(&["C35"], &("q", ps.len(), t, total.bits()));
        let (n, d) = (U512::from(t.0), U512::from(t.1));
        ep.check(
            q * d >= total * n && (q - U512::one()) * d < total * n,
            &["C35"],
            "quorum-not-exact",
            || format!("total {total} threshold {t:?} quorum {q}"),
        );
        ep.check(q >= U512::one() && q <= total, &["C35"], "quorum-out-of-range", || format!("total {total} quorum {q}"));
        ep.check(q + q > total, &["C35"], "two-disjoint-quorums", || format!("total {total} quorum {q}"));
        // exactly the given participants, with their weights
        let mut got: Vec<String> = s.get_participants().iter().map(|a| a.to_string()).collect();
        got.sort();
        let mut want: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
        want.sort();
        ep.check(got == want, &["C35"], "participants-changed", || format!("{got:?} for {want:?}"));
        for (a, w) in &ps {
            let ad = Addr::unchecked(a.clone());
            let p = s.get_participant(&ad).map(|p| (p.address.clone(), Uint256::from(p.weight)));
            let ok = s.get_participant_weight(&ad) == Some(w) && p == Some((ad.clone(), *w));
            ep.check(ok, &["C35"], "participant-weight-changed", || format!("{a} given {w} got {p:?}"));
        }
        for a in ["addr", "ADDR0", "addr00", ""] {
            if want.iter().any(|w| w == a) {
                continue;
            }
            let ad = Addr::unchecked(a);
            ep.check(
                s.get_participant(&ad).is_none() && s.get_participant_weight(&ad).is_none(),
                &["C35"],
                "stranger-is-participant",
                || a.to_string(),
            );
        }
        // the snapshot survives storage
        let back: Option<Snapshot> = cosmwasm_std::to_vec(&s).ok().and_then(|b| cosmwasm_std::from_slice(&b).ok());
        ep.check(back.as_ref() == Some(&s), &["C35"], "snapshot-changed-by-storage", || format!("{back:?}"));
        ep.settle()?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C36

const VOTE: [Vote; 3] = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];

pub fn run_poll(ep: &mut Ep) -> R {
    use ethabi::ethereum_types::U512;
    let big_size = ep.big();
    let many = big_size && ep.chance(40);
    let (s, ps, t) = snapshot(ep, if many { 70 } else { 9 });
    let size = match ep.below(8) {
        _ if big_size && !many => ep.big_size(),
        0 => 1,
        1 => 0,
        _ => ep.range(1, 6),
    } as usize;
    let id = u64::from_le_bytes(ep.bytes::<8>());
    let expiry = match ep.below(20) {
        0 => 0,
        1 | 2 => u64::MAX,
        _ => ep.range(1, 30),
    };
    let total = ps.iter().fold(U512::zero(), |x, p| x + big(&p.1));
    let mut quorum = total * U512::from(t.0) / U512::from(t.1);
    if quorum * U512::from(t.1) < total * U512::from(t.0) {
        quorum += U512::one();
    }
    let mut poll = WeightedPoll::new(PollId::from(id), s, expiry, size);
    let mut ballots: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut finished = false;
    let mut height = 0u64;
    let truth: Vec<usize> = (0..size).map(|_| ep.below(3) as usize).collect();
    let honest = ep.range(30, 95);
    let weights: HashMap<String, U512> = ps.iter().map(|(a, w)| (a.clone(), big(w))).collect();
    ep.step(format!("poll {id} over {ps:?} quorum {quorum} of {size} items until {expiry}"));
    let check_state = |ep: &mut Ep, poll: &WeightedPoll, ballots: &BTreeMap<String, Vec<usize>>, finished: bool| {
        let st = poll.state();
        let mut results = vec![];
        for i in 0..size {
            let winners: Vec<usize> = (0..3)
                .filter(|v| {
                    let w = ballots.iter().filter(|(_, b)| b[i] == *v).fold(U512::zero(), |x, (a, _)| x + weights[a]);
                    w >= quorum
                })
                .collect();
            ep.check(winners.len() <= 1, &["C36"], "harness: two winners", || format!("{winners:?}"));
            results.push(winners.first().map(|v| VOTE[*v].clone()));
            // the running tally answers any other quorum like the recount does
            let best = (0..3)
                .map(|v| ballots.iter().filter(|(_, b)| b[i] == v).fold(U512::zero(), |x, (a, _)| x + weights[a]))
                .max()
                .unwrap_or_default();
            let to256 = |x: U512| -> Uint256 { x.to_string().parse().expect("fits") };
            if best > U512::zero() {
                let hit = guard(|| poll.tallies.get(i).and_then(|t| t.consensus(to256(best))));
                ep.check(hit.is_some(), &["C36"], "tally-below-recount", || format!("item {i}: recount {best} {:?}", poll.tallies.get(i)));
            }
            if best + U512::one() < U512::from(2u64).pow(U512::from(256u64)) {
                let over = guard(|| poll.tallies.get(i).and_then(|t| t.consensus(to256(best + U512::one()))));
                ep.check(over.is_none(), &["C36"], "tally-above-recount", || format!("item {i}: recount {best} {:?}", poll.tallies.get(i)));
            }
        }
        let decided = results.iter().filter(|r| r.is_some()).count();
        ep.check(st.results == results, &["C36"], "results-not-recount", || format!("{:?} recount {results:?} ballots {ballots:?}", st.results));
        for (i, r) in results.iter().enumerate() {
            let c = guard(|| poll.consensus(i as u32).ok());
            ep.check(c.as_ref() == Some(r), &["C36"], "consensus-not-recount", || format!("item {i}: {c:?} recount {r:?}"));
        }
        ep.check(guard(|| poll.consensus(size as u32).ok()).is_none(), &["C36"], "result-beyond-size", || format!("{size}"));
        let mut agree: Vec<String> = ballots
            .iter()
            .filter(|(_, b)| b.iter().zip(&results).all(|(v, r)| r.as_ref().map(|r| *r == VOTE[*v]).unwrap_or(true)))
            .map(|(a, _)| a.clone())
            .collect();
        agree.sort();
        let mut got = st.consensus_participants.clone();
        got.sort();
        ep.check(got == agree, &["C36"], "agreeing-participants-wrong", || format!("{got:?} expected {agree:?} ballots {ballots:?}"));
        ep.check(st.poll_id == PollId::from(id), &["C36"], "poll-id-changed", || format!("{:?}", st.poll_id));
        ep.count("poll.recounted");
        if decided > 0 && decided < size {
            ep.count("poll.partly_decided");
        }
        if agree.len() < ballots.len() {
            ep.count("poll.some_disagree");
        }
        ep.seen(&["C36"], &(results, agree.len(), ballots.len(), finished));
    };
    check_state(ep, &poll, &ballots, finished);
    ep.settle()?;
    for _ in 0..ps.len() * 2 + 6 {
        if ep.chance(12) {
            height = match ep.below(9) {
                0 => expiry,
                1 => expiry.saturating_sub(1),
                2 => expiry.saturating_add(1),
                _ => height.saturating_add(ep.below(4)),
            };
        }
        // polls are stored between calls
        if ep.chance(30) {
            let b = cosmwasm_std::to_vec(&poll).expect("serialise");
            let p: Option<WeightedPoll> = cosmwasm_std::from_slice(&b).ok();
            if !ep.check(p.as_ref() == Some(&poll), &["C36"], "poll-changed-by-storage", || format!("{p:?}")) {
                return ep.settle();
            }
            poll = p.unwrap();
        }
        let before = poll.clone();
        if ep.chance(10) {
            let h = if ep.chance(50) { height } else { ep.below(40) };
            let r = guard(|| Some(poll.clone().finish(h))).and_then(|r| r.ok());
            let ok = !finished && h >= expiry;
            ep.step(format!("finish at {h}: {}", r.is_some()));
            ep.check(r.is_some() == ok, &["C36"], "finish-decision-wrong", || format!("finished={finished} height {h} expiry {expiry}: {}", r.is_some()));
            if let Some(p) = r {
                poll = p;
                finished = true;
                ep.count("poll.finished");
                ep.check(
                    guard(|| Some(poll.clone().finish(h.saturating_add(1)))).map(|r| r.is_err()).unwrap_or(true),
                    &["C36"],
                    "finished-twice",
                    String::new,
                );
            }
        } else {
            let stranger = ep.chance(10);
            let who = if stranger {
                ep.pick(&["addr", "ADDR0", "nobody", "", "addr00"]).to_string()
            } else {
                ep.pick(&ps).0.clone()
            };
            let len = if ep.chance(12) { ep.below(size as u64 + 3) as usize } else { size };
            // nearly or fully agreeing ballots, or independent ones
            let one_off = ep.chance(if big_size { 70 } else { 15 });
            let ballot: Vec<usize> = (0..len)
                .map(|i| if i < size && (one_off || ep.chance(honest)) { truth[i] } else { ep.below(3) as usize })
                .collect();
            let mut ballot = ballot;
            if one_off && !ballot.is_empty() && ep.chance(70) {
                let i = ep.below(ballot.len() as u64) as usize;
                ballot[i] = (ballot[i] + 1 + ep.below(2) as usize) % 3;
            }
            let real: Vec<Vote> = ballot.iter().map(|v| VOTE[*v].clone()).collect();
            let h = height;
            let r = guard(|| Some(poll.clone().cast_vote(h, &Addr::unchecked(who.clone()), real))).and_then(|r| r.ok());
            let ok = weights.contains_key(&who) && h < expiry && len == size && !ballots.contains_key(&who);
            ep.step(format!("{who} votes {ballot:?} at {h}: {}", r.is_some()));
            ep.check(r.is_some() == ok || finished, &["C36"], "vote-decision-wrong", || {
                format!("{who} {ballot:?} at {h} (expiry {expiry}, size {size}, voted before {}): accepted={}", ballots.contains_key(&who), r.is_some())
            });
            match r {
                Some(p) => {
                    poll = p;
                    ballots.insert(who, ballot);
                    ep.count("poll.voted");
                }
                None => {
                    ep.count("poll.vote_refused");
                    ep.check(poll == before, &["C36"], "refused-vote-changed-poll", String::new);
                }
            }
        }
        check_state(ep, &poll, &ballots, finished);
        ep.settle()?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C37

fn chain_name(ep: &mut Ep) -> (String, rs::ChainName) {
    loop {
        let s = match ep.below(4) {
            0 => (*ep.pick(&["a", "ab", "abc", "b", "bc", "c", "A", "AB", "aB"])).to_string(),
            1 => {
                let n = ep.range(1, 300);
                (0..n).map(|_| *b"abAB-09 ".get(ep.below(8) as usize).unwrap() as char).collect()
            }
            _ => chain_text(ep),
        };
        if let Ok(c) = s.parse() {
            return (s, c);
        }
    }
}

fn id_text(ep: &mut Ep) -> String {
    loop {
        let s = match ep.below(6) {
            0 => (*ep.pick(&["a", "ab", "abc", "b", "bc", "c", ":", "::", "a:b", ":a", "b:", "A", "AB"])).to_string(),
            1 => format!("{}:{}", tx_id(ep), ep.below(4)),
            _ => any_text(ep),
        };
        if !s.is_empty() {
            return s;
        }
    }
}

fn raw_key(k: Vec<Key>) -> Vec<Vec<u8>> {
    k.iter().map(|k| k.as_ref().to_vec()).collect()
}

pub fn run_keys(ep: &mut Ep) -> R {
    let t = &["C37"];
    let map: Map<rs::CrossChainId, String> = Map::new("m");
    let cmap: Map<rs::ChainName, String> = Map::new("c");
    let pmap: Map<PollId, String> = Map::new("p");
    let kmap: Map<(Addr, KeyType), String> = Map::new("k");
    let bmap: Map<multisig_prover::types::BatchId, String> = Map::new("b");
    let mut store = cosmwasm_std::testing::MockStorage::new();
    let (mut ids, mut chains, mut polls): (BTreeMap<(String, String), String>, BTreeMap<String, String>, BTreeMap<u64, String>) = Default::default();
    let mut keys: BTreeMap<(String, u8), String> = BTreeMap::new();
    let mut batches: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut by_print: HashMap<String, (String, String)> = HashMap::new();
    for i in 0..30 {
        let tag = format!("{i}");
        // chain names
        let (s, c) = chain_name(ep);
        let canon = c.to_string();
        ep.step(format!("chain name {}", cut(&s)));
        ep.count("chain.parsed");
        ep.check(!canon.contains(':') && !canon.is_empty(), t, "chain-name-with-separator", || canon.clone());
        ep.check(!canon.chars().any(|c| c.is_ascii_uppercase()), t, "chain-name-not-lower-case", || canon.clone());
        if s.is_ascii() {
            ep.check(canon == s.to_ascii_lowercase(), t, "chain-name-changed", || format!("{s} became {canon}"));
        }
        let again: Option<rs::ChainName> = canon.parse().ok();
        ep.check(again.as_ref() == Some(&c), t, "chain-name-print-parse", || format!("{canon} -> {again:?}"));
        ep.check(c.as_ref() == canon && String::from(c.clone()) == canon, t, "chain-name-forms-differ", || canon.clone());
        stable(ep, "ChainName", &c);
        let re = recase(ep, &s);
        if s.is_ascii() {
            let other: Option<rs::ChainName> = re.parse().ok();
            ep.check(other.as_ref() == Some(&c), t, "chain-name-case-sensitive", || format!("{s} vs {re}"));
            ep.check(c == re, t, "chain-name-case-sensitive", || format!("{s} vs {re}"));
            let other: Option<rs::ChainName> = serde_json::from_value(json!(re)).ok();
            ep.check(other.as_ref() == Some(&c), t, "chain-name-case-sensitive", || format!("{s} vs {re} as JSON"));
            if let Some(o) = &other {
                ep.check(raw_key(o.key()) == raw_key(c.key()) && h64(o) == h64(&c), t, "equal-chain-names-differ-as-keys", || format!("{s} vs {re}"));
            }
        }
        let kb = raw_key(c.key());
        let kd = kb.first().cloned().and_then(|b| guard(|| rs::ChainName::from_vec(b).ok()));
        ep.check(kb.len() == 1 && kd.as_ref() == Some(&c), t, "chain-name-key-lossy", || format!("{canon}: {kb:?} -> {kd:?}"));
        cmap.save(&mut store, c.clone(), &tag).expect("save");
        chains.insert(canon.clone(), tag.clone());
        // the other chain name type keeps its spelling but compares without case
        if let Ok(a) = s.parse::<ra::primitives::ChainName>() {
            stable(ep, "api ChainName", &a);
            ep.check(a.to_string() == s, t, "api-chain-name-changed", || s.clone());
            if let Ok(b) = re.parse::<ra::primitives::ChainName>() {
                ep.check(a == b && h64(&a) == h64(&b), t, "api-chain-name-case-sensitive", || format!("{s} vs {re}"));
            }
            let longer = format!("{s}1");
            if let Ok(b) = longer.parse::<ra::primitives::ChainName>() {
                ep.check(a != b, t, "distinct-api-chain-names-equal", || format!("{s} vs {longer}"));
            }
        }
        // cross-chain ids
        let id = id_text(ep);
        let cc = rs::CrossChainId { chain: c.clone(), id: id.parse().expect("id") };
        let printed = cc.to_string();
        let back = guard(|| printed.parse::<rs::CrossChainId>().ok());
        ep.count("cc_id.round_trip");
        ep.check(back.as_ref() == Some(&cc), t, "cross-chain-id-print-parse", || format!("{} -> {back:?}", cut(&printed)));
        if let Some(prev) = by_print.insert(printed.clone(), (canon.clone(), id.clone())) {
            ep.check(prev == (canon.clone(), id.clone()), t, "cross-chain-ids-print-alike", || format!("{prev:?} and {canon}/{id}"));
        }
        stable(ep, "CrossChainId", &cc);
        // the storage key of an id can be at most 64 KiB per part
        map.save(&mut store, cc.clone(), &tag).expect("save");
        ids.insert((canon.clone(), id.clone()), tag.clone());
        ep.seen(t, &(shape(&json!(s)), shape(&json!(id))));
        // parsing of arbitrary text
        let raw = match ep.below(4) {
            0 => format!("{s}:{id}"),
            1 => any_text(ep),
            2 => format!("{}:", s),
            _ => format!(":{id}"),
        };
        let got = guard(|| raw.parse::<rs::CrossChainId>().ok());
        let want = raw.split_once(':').filter(|(a, b)| !a.is_empty() && !b.is_empty());
        ep.check(got.is_some() == want.is_some(), t, "cross-chain-id-parse-decision", || format!("{} -> {got:?}", cut(&raw)));
        if let (Some(g), Some((a, b))) = (&got, want) {
            ep.count("cc_id.parsed");
            let ok = *g.id == b && g.chain == a.to_string();
            ep.check(ok, t, "cross-chain-id-parsed-wrong", || format!("{} -> {g:?}", cut(&raw)));
        } else {
            ep.count("cc_id.parse_refused");
        }
        // poll ids
        let n = match ep.below(5) {
            0 => 0,
            1 => u64::MAX - ep.below(3),
            2 => ep.below(1000),
            3 => 1 << ep.below(64),
            _ => u64::from_le_bytes(ep.bytes::<8>()),
        };
        let p = PollId::from(n);
        let pr: Option<PollId> = p.to_string().parse().ok();
        ep.check(pr == Some(p) && p.to_string() == n.to_string() && String::from(p) == n.to_string() && PollId::from(Uint64::from(n)) == p, t, "poll-id-print-parse", || format!("{n}"));
        stable(ep, "PollId", &p);
        let kb = raw_key(p.key());
        let kd = kb.first().cloned().and_then(|b| guard(|| PollId::from_vec(b).ok()));
        ep.check(kd == Some(p), t, "poll-id-key-lossy", || format!("{n}: {kb:?}"));
        pmap.save(&mut store, p, &tag).expect("save");
        polls.insert(n, tag.clone());
        // addresses
        let a = id_text(ep);
        let ad: rs::Address = a.parse().expect("address");
        stable(ep, "router Address", &ad);
        ep.check(*ad == a, t, "address-changed", || cut(&a));
        let ad: ra::primitives::Address = a.parse().expect("address");
        stable(ep, "api Address", &ad);
        ep.check(*ad == *a, t, "address-changed", || cut(&a));
        // keys by key type, and by batch
        let kt = ep.below(2) as u8;
        let k = if kt == 0 { KeyType::Ecdsa } else { KeyType::Ed25519 };
        let who = (*ep.pick(&["a", "ab", "b", "worker"])).to_string();
        kmap.save(&mut store, (Addr::unchecked(who.clone()), k), &tag).expect("save");
        keys.insert((who, kt), tag.clone());
        let bid: Vec<u8> = ep.bytes::<32>()[..*ep.pick(&[1usize, 31, 32])].to_vec();
        bmap.save(&mut store, bid.as_slice().into(), &tag).expect("save");
        batches.insert(bid, tag.clone());
        ep.settle()?;
    }
    // the maps hold exactly what was stored, under the keys it was stored under
    type Res<K> = Option<Vec<(K, String)>>;
    let asc = cosmwasm_std::Order::Ascending;
    let got: Res<rs::CrossChainId> = guard(|| map.range(&store, None, None, asc).collect::<Result<_, _>>().ok());
    let got: Option<BTreeMap<_, _>> = got.map(|v| v.into_iter().map(|(k, v)| ((k.chain.to_string(), k.id.to_string()), v)).collect());
    ep.check(got.as_ref() == Some(&ids), t, "cross-chain-id-storage-lossy", || format!("{got:?}\n{ids:?}"));
    let got: Res<rs::ChainName> = guard(|| cmap.range(&store, None, None, asc).collect::<Result<_, _>>().ok());
    let got: Option<BTreeMap<_, _>> = got.map(|v| v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    ep.check(got.as_ref() == Some(&chains), t, "chain-name-storage-lossy", || format!("{got:?}\n{chains:?}"));
    let got: Res<PollId> = guard(|| pmap.range(&store, None, None, asc).collect::<Result<_, _>>().ok());
    let order: Option<Vec<String>> = got.as_ref().map(|v| v.iter().map(|x| x.0.to_string()).collect());
    let want: Vec<String> = polls.keys().map(|k| k.to_string()).collect();
    ep.check(order.as_ref() == Some(&want), t, "poll-id-storage-lossy", || format!("{order:?}\n{want:?}"));
    let got: Res<(Addr, KeyType)> = guard(|| kmap.range(&store, None, None, asc).collect::<Result<_, _>>().ok());
    let got: Option<BTreeMap<_, _>> = got.map(|v| v.into_iter().map(|((a, k), v)| ((a.to_string(), k as u8), v)).collect());
    ep.check(got.as_ref() == Some(&keys), t, "key-type-storage-lossy", || format!("{got:?}\n{keys:?}"));
    let got: Res<multisig_prover::types::BatchId> = guard(|| bmap.range(&store, None, None, asc).collect::<Result<_, _>>().ok());
    let got: Option<BTreeMap<_, _>> = got.map(|v| {
        v.into_iter()
            .map(|(k, v)| (hex::decode(serde_json::to_value(&k).unwrap().as_str().unwrap_or("")).unwrap_or_default(), v))
            .collect()
    });
    ep.check(got.as_ref() == Some(&batches), t, "batch-id-storage-lossy", || format!("{got:?}\n{batches:?}"));
    // reading by id and by chain prefix
    for ((c, i), v) in &ids {
        let cc = rs::CrossChainId { chain: c.parse().unwrap(), id: i.parse().unwrap() };
        let g = map.may_load(&store, cc).ok().flatten();
        ep.check(g.as_ref() == Some(v), t, "cross-chain-id-storage-lossy", || format!("{c}/{i}: {g:?}"));
    }
    for c in ids.keys().map(|k| k.0.clone()).collect::<BTreeSet<_>>() {
        let cn: rs::ChainName = c.parse().unwrap();
        let mut g: Vec<String> = map
            .prefix(cn)
            .range_raw(&store, None, None, asc)
            .filter_map(|r| r.ok())
            .filter_map(|r| String::from_utf8(r.0).ok())
            .collect();
        g.sort();
        let mut want: Vec<String> = ids.keys().filter(|k| k.0 == c).map(|k| k.1.clone()).collect();
        want.sort();
        ep.check(g == want, t, "chain-prefix-mixes-chains", || format!("{c}: {g:?} instead of {want:?}"));
        ep.count("prefix.read");
    }
    ep.count("maps.read_back");
    ep.settle()
}

// ---------------------------------------------------------------- C38

fn concat(m: &Msg) -> Vec<u8> {
    let mut v = format!("{}:{}{}{}{}", m.src, m.id, m.saddr, m.dst, m.daddr).into_bytes();
    v.extend(m.hash);
    v
}

/// another letter or digit at one place
fn one_char(ep: &mut Ep, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at: Vec<usize> = (0..c.len()).filter(|i| c[*i] != ':').collect();
    if !at.is_empty() {
        let i = *ep.pick(&at);
        c[i] = if c[i] == '7' { '8' } else { '7' };
    }
    c.into_iter().collect()
}

/// a message that differs from `m` in one field, or at a field boundary
fn twin(ep: &mut Ep, m: &Msg) -> Msg {
    let mut t = m.clone();
    match ep.below(19) {
        16 => t.saddr = one_char(ep, &m.saddr),
        17 => t.daddr = one_char(ep, &m.daddr),
        18 => t.id = one_char(ep, &m.id),
        0 => t.id = format!("{}0", m.id),
        1 => t.id = recase(ep, &m.id),
        2 => t.saddr = recase(ep, &m.saddr),
        3 => t.daddr = recase(ep, &m.daddr),
        4 => t.saddr = format!("{} ", m.saddr),
        5 => t.daddr = format!("{}0", m.daddr),
        6 => t.dst = format!("{}x", m.dst),
        7 => t.src = format!("{}x", m.src),
        8 => t.hash[ep.below(32) as usize] ^= 1 << ep.below(8),
        9 => std::mem::swap(&mut t.saddr, &mut t.daddr),
        10 => std::mem::swap(&mut t.src, &mut t.dst),
        11 => t.hash.reverse(),
        12 => t.daddr = m.daddr.trim_start_matches("0x").to_string(),
        13 => t.id = m.id.replace("0x", "0X"),
        14 => t.dst = "axelar".into(),
        _ => t.saddr = "other".into(),
    }
    if t.daddr.is_empty() {
        t.daddr = "0".into();
    }
    t
}

/// the same bytes, cut into fields elsewhere
fn shifted(ep: &mut Ep, m: &Msg) -> Option<Msg> {
    let mut t = m.clone();
    match ep.below(4) {
        0 => {
            // from the source address to the id
            let c = t.saddr.chars().next()?;
            t.saddr = t.saddr[c.len_utf8()..].to_string();
            t.id.push(c);
        }
        1 => {
            let c = t.id.pop()?;
            t.saddr = format!("{c}{}", t.saddr);
        }
        2 => {
            // between the destination chain and the destination address
            let c = t.dst.pop()?;
            t.daddr = format!("{c}{}", t.daddr);
        }
        _ => {
            let c = t.daddr.chars().next()?;
            if c == ':' || c.is_uppercase() || !c.is_ascii() {
                return None;
            }
            t.daddr = t.daddr[1..].to_string();
            t.dst.push(c);
        }
    }
    if t.id.is_empty() || t.saddr.is_empty() || t.dst.is_empty() || t.daddr.is_empty() || t == *m {
        return None;
    }
    Some(t)
}

fn base_msg(ep: &mut Ep) -> Msg {
    let src = *ep.pick(&["ethereum", "sui", "a"]);
    let dst = *ep.pick(&["polygon", "sui", "b", "ethereum"]);
    let mut m = msg(ep, src, dst);
    if ep.chance(70) {
        m.id = format!("{}:{}", tx_id(ep), ep.below(4));
    }
    if ep.chance(15) {
        // long fields
        let long = hex::encode(ep.bytes::<20>()).repeat(ep.range(1, 16) as usize);
        match ep.below(3) {
            0 => m.saddr = long,
            1 => m.daddr = long,
            _ => m.id = format!("{long}:{}", ep.below(4)),
        }
    }
    m
}

pub fn run_hash(ep: &mut Ep) -> R {
    let t = &["C38"];
    let mut seen: HashMap<[u8; 32], Msg> = HashMap::new();
    for _ in 0..12 {
        let m = base_msg(ep);
        let mut group = vec![m.clone()];
        for _ in 0..10 {
            let of = ep.pick(&group).clone();
            let x = twin(ep, &of);
            group.push(x);
        }
        if ep.idx % 40 == 0 {
            for _ in 0..4 {
                group.extend(shifted(ep, &m));
            }
        }
        for x in group {
            let h = typed(&x).hash();
            // equal messages, however they were spelled, have one identity
            let again: Option<rs::Message> = serde_json::from_value(x.json_cased(ep)).ok();
            ep.check(again.map(|a| a.hash()) == Some(h), t, "equal-messages-differ", || x.brief());
            ep.count("hash.computed");
            if let Some(o) = seen.insert(h, x.clone()) {
                if o != x {
                    if concat(&o) == concat(&x) {
                        ep.count("hash.boundary_collision");
                        ep.fail(t, "field-boundary-collision", format!("{o:?}\n{x:?}"));
                        // go on: others matter too
                        seen.insert(h, o);
                    } else {
                        ep.fail(t, "distinct-messages-share-identity", format!("{o:?}\n{x:?}"));
                    }
                } else {
                    ep.count("hash.equal");
                }
            }
        }
        ep.seen(t, &(m.src.clone(), m.dst.clone(), shape(&json!(m.saddr)), shape(&json!(m.daddr)), shape(&json!(m.id))));
    }
    ep.settle()
}

/// near-identical messages through the real verifier: every one has a verification of its own
pub fn run_twins(ep: &mut Ep) -> R {
    let t = &["C38"];
    let mut w = W::new();
    let (regaddr, regstub) = w.stub();
    let (rewards, _r) = w.stub();
    let chain = "ethereum".to_string();
    let n = ep.range(1, 5);
    let voters: Vec<String> = (0..n).map(|i| format!("worker{i}")).collect();
    let reg = Rc::new(RefCell::new(Reg { active: voters.clone(), down: false, chain: chain.clone(), service: "validators".into() }));
    stub_registry(&regstub, &reg);
    let th: Threshold = (2u64, 3u64).try_into().unwrap();
    let vv = w
        .install(
            Box::new(ContractWrapper::new(vcontract::execute, vcontract::instantiate, vcontract::query)),
            &vmsg::InstantiateMsg {
                service_registry_address: regaddr.to_string().try_into().unwrap(),
                service_name: "validators".try_into().unwrap(),
                source_gateway_address: "gw".to_string().try_into().unwrap(),
                voting_threshold: th.try_into().unwrap(),
                block_expiry: 10,
                confirmation_height: 5,
                source_chain: chain.parse().unwrap(),
                rewards_address: rewards.to_string(),
            },
        )
        .expect("verifier");
    let mut m = base_msg(ep);
    m.src = chain.clone();
    m.id = format!("{}:{}", tx_id(ep), ep.below(4));
    let mut pool = vec![m.clone()];
    let want = ep.range(2, 6) as usize;
    for _ in 0..20 {
        if pool.len() >= want {
            break;
        }
        let of = ep.pick(&pool).clone();
        let x = twin(ep, &of);
        // only what a poll can carry
        let ok = x.src == chain && x.id.split(':').count() == 2 && x.id.split(':').nth(1).map(|i| i.parse::<u64>().is_ok_and(|n| n.to_string() == i)).unwrap_or(false);
        if ok && !pool.contains(&x) {
            pool.push(x);
        }
    }
    let collide = ep.idx % 40 == 0;
    if collide {
        for _ in 0..6 {
            if let Some(x) = shifted(ep, &m).filter(|x| {
                x.src == chain && x.id.split(':').nth(1).map(|i| i.parse::<u64>().is_ok_and(|n| n.to_string() == i)).unwrap_or(false)
            }) {
                if !pool.contains(&x) {
                    pool.push(x);
                    break;
                }
            }
        }
    }
    // reference: what is polled where, and how it went, keyed by the whole message
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St {
        Unknown,
        Open,
        Good,
        Bad,
    }
    let mut st: BTreeMap<Msg, St> = pool.iter().map(|m| (m.clone(), St::Unknown)).collect();
    let q = quorum(n, (2, 3)) as usize;
    let clash = |a: &Msg, st: &BTreeMap<Msg, St>| st.iter().any(|(b, s)| b != a && *s != St::Unknown && concat(a) == concat(b));
    for _ in 0..10 {
        let k = ep.range(1, 3) as usize;
        let mut ms = pool.clone();
        ep.shuffle(&mut ms);
        ms.truncate(k);
        let polled: Vec<Msg> = ms.iter().filter(|m| matches!(st[*m], St::Unknown | St::Bad)).cloned().collect();
        let arr: Vec<Value> = ms.iter().map(Msg::json).collect();
        let out = w.exec(&addr("relayer"), &vv, &json!({"verify_messages": {"messages": arr}}), &[]);
        ep.step(format!("verify {:?}: {}", ms.iter().map(Msg::brief).collect::<Vec<_>>(), short(&out)));
        // the known defect concerns messages whose fields concatenate to the same bytes, nothing else
        let twice = ms.iter().any(|a| ms.iter().any(|b| a != b && concat(a) == concat(b)));
        if let Err(e) = &out {
            let known = twice || ms.iter().any(|m| clash(m, &st));
            ep.fail(t, if known { "field-boundary-collision" } else { "verification-blocked-by-other-message" }, e.clone());
            if known {
                return ep.settle();
            }
            return ep.settle();
        }
        let r = out.unwrap();
        if !polled.is_empty() {
            let id: u64 = evs(&r, "messages_poll_started", &vv)
                .first()
                .and_then(|e| attr(e, "poll_id"))
                .and_then(|t| serde_json::from_str::<String>(t).ok())
                .and_then(|t| t.parse().ok())
                .unwrap_or(u64::MAX);
            if twice {
                return Ok(());
            }
            for m in &polled {
                st.insert(m.clone(), St::Open);
            }
            statuses(ep, &w, &vv, &pool, &|m: &Msg| st[m] == St::Good, &|m: &Msg| clash(m, &st))?;
            let good: Vec<bool> = polled.iter().map(|_| ep.chance(60)).collect();
            let votes: Vec<&str> = good.iter().map(|g| if *g { "succeeded_on_chain" } else { "failed_on_chain" }).collect();
            for v in voters.iter().take(q) {
                let o = w.exec(&addr(v), &vv, &json!({"vote": {"poll_id": id.to_string(), "votes": votes}}), &[]);
                ep.step(format!("{v} votes {votes:?} in {id}: {}", short(&o)));
            }
            w.advance(11, 11);
            let o = w.exec(&addr("anyone"), &vv, &json!({"end_poll": {"poll_id": id.to_string()}}), &[]);
            ep.step(format!("end {id}: {}", short(&o)));
            for (m, g) in polled.iter().zip(&good) {
                st.insert(m.clone(), if *g { St::Good } else { St::Bad });
                ep.count(if *g { "twins.verified" } else { "twins.failed" });
            }
        }
        let pat: Vec<u8> = pool.iter().map(|m| st[m] as u8).collect();
        ep.seen(t, &pat);
        statuses(ep, &w, &vv, &pool, &|m: &Msg| st[m] == St::Good, &|m: &Msg| clash(m, &st))?;
    }
    Ok(())
}

fn statuses(ep: &mut Ep, w: &W, vv: &Addr, pool: &[Msg], good: &dyn Fn(&Msg) -> bool, clash: &dyn Fn(&Msg) -> bool) -> R {
    for m in pool {
        let r: Result<Value, String> = w.query(vv, &json!({"is_verified": {"messages": [m.json()]}}));
        let want = json!([[m.cc(), good(m)]]);
        ep.count("twins.asked");
        let ok = r.as_ref() == Ok(&want);
        ep.check(
            ok,
            &["C38"],
            if clash(m) { "field-boundary-collision" } else { "verification-shared-with-other-message" },
            || format!("{} -> {r:?} expected {want}", m.brief()),
        );
    }
    ep.settle()
}
