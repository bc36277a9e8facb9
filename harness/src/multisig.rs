//! C23-C26: the real multisig contract with real keys and signatures, a stub rewards contract, and a reference of
//! keys, worker sets, authorised callers and sessions.
use crate::core::*;
use crate::keys::*;
use crate::world::*;
use ::multisig::worker_set::WorkerSet;
use ::multisig::{contract, msg as mmsg};
use cosmwasm_std::{Addr, Uint256};
use cw_multi_test::ContractWrapper;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone)]
struct Set {
    id: String,
    json: Value,
    /// address -> (key, weight)
    signers: BTreeMap<String, (Key, Uint256)>,
    thr: Uint256,
}

#[derive(Clone)]
struct Session {
    id: u64,
    set: usize,
    msg: [u8; 32],
    sigs: BTreeMap<String, Vec<u8>>,
    done: Option<u64>,
}

struct S {
    w: W,
    ms: Addr,
    rewards: Addr,
    grace: u64,
    auth: BTreeSet<String>,
    keys: BTreeMap<(String, &'static str), Vec<u8>>,
    workers: Vec<String>,
    /// every key a worker ever held
    wallet: BTreeMap<String, Vec<Key>>,
    sets: Vec<Set>,
    sessions: Vec<Session>,
    ids: HashSet<u64>,
    accounts: Vec<Addr>,
    flavour: u64,
    /// observe everything
    full: bool,
}

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (rewards, _stub) = w.stub();
    let grace = match ep.below(5) {
        0 => 0,
        1 => 1,
        _ => ep.range(2, 12),
    };
    let ms = w
        .install(
            Box::new(ContractWrapper::new(
                contract::execute,
                contract::instantiate,
                contract::query,
            )),
            &mmsg::InstantiateMsg {
                governance_address: "gov".into(),
                rewards_address: rewards.to_string(),
                grace_period: grace,
            },
        )
        .expect("multisig");
    // large histories: many signers / many sessions / many sets
    let flavour = if ep.big() { 1 + (ep.idx / 40) % 3 } else { 0 };
    let nw = match flavour {
        1 => ep.big_size() as usize,
        _ => ep.range(2, 7) as usize,
    };
    let workers: Vec<String> = (0..nw).map(|i| format!("worker{i}")).collect();
    let mut wallet = BTreeMap::new();
    for a in &workers {
        let unc = ep.chance(20);
        let mut v = vec![Key::ec(ep, unc)];
        if ep.chance(40) {
            v.push(Key::ed(ep));
        }
        if ep.chance(40) {
            v.push(Key::ec(ep, false));
        }
        wallet.insert(a.clone(), v);
    }
    let mut accounts: Vec<Addr> = workers.iter().map(|a| addr(a)).collect();
    for a in ["gov", "prover1", "prover2", "intruder"] {
        accounts.push(addr(a));
    }
    accounts.push(rewards.clone());
    let mut s = S {
        w,
        ms,
        rewards,
        grace,
        auth: BTreeSet::new(),
        keys: BTreeMap::new(),
        workers,
        wallet,
        sets: vec![],
        sessions: vec![],
        ids: HashSet::new(),
        accounts,
        flavour,
        full: false,
    };
    register_set(ep, &mut s)?;
    if ep.chance(80) {
        authorise(ep, &mut s, Some(("gov", "prover1", true)))?;
        start(ep, &mut s)?;
    }
    let n = match flavour {
        1 => 2 * nw + 20,
        2 | 3 => ep.range(100, 700) as usize,
        _ if ep.thorough => 140,
        _ => 70,
    };
    let weights: [u64; 5] = match ep.focus {
        "C25" => [14, 12, 26, 28, 20],
        "C26" => [60, 4, 4, 12, 20],
        _ => [5, 4, 12, 74, 5],
    };
    let weights: [u64; 5] = match flavour {
        1 => [1, 1, 2, 95, 1],
        2 => [2, 2, 55, 40, 1],
        3 => [2, 60, 18, 19, 1],
        _ => weights,
    };
    for _ in 0..n {
        match ep.weighted(&weights) {
            0 => register_key(ep, &mut s)?,
            1 => register_set(ep, &mut s)?,
            2 => start(ep, &mut s)?,
            3 => submit(ep, &mut s)?,
            _ => authorise(ep, &mut s, None)?,
        }
        time(ep, &mut s);
        observe(ep, &mut s)?;
    }
    s.full = true;
    observe(ep, &mut s)
}

/// a power of two
fn one_bit(ep: &mut Ep) -> Uint256 {
    let b = match ep.below(3) {
        0 => 0,
        1 => ep.below(128),
        _ => ep.below(240),
    };
    let mut x = [0u8; 32];
    x[31 - (b / 8) as usize] = 1 << (b % 8);
    Uint256::from_be_bytes(x)
}

fn time(ep: &mut Ep, s: &mut S) {
    let h = s.w.height();
    let to = match ep.below(12) {
        0..=7 => h,
        8 => h + 1,
        _ => {
            let ends: Vec<u64> = s
                .sessions
                .iter()
                .filter_map(|x| x.done.map(|d| d + s.grace))
                .filter(|e| *e >= h)
                .collect();
            if ends.is_empty() {
                h + ep.below(3)
            } else {
                // the last block of a grace period, or the first one after it
                *ep.pick(&ends) + ep.below(2)
            }
        }
    };
    if to > h {
        s.w.advance(to - h, 5);
        ep.trace.push(format!("height {to}"));
    }
}

/// nothing but an accepted signature may credit participation
fn quiet(ep: &mut Ep, r: &cw_multi_test::AppResponse, what: &str) {
    let k = recs(r);
    ep.check(k.is_empty(), &["C24"], "credit-without-signature", || {
        format!("{what}: {k:?}")
    });
    ep.check(
        !r.events
            .iter()
            .any(|e| e.ty == "wasm-signing_completed" || e.ty == "wasm-signature_submitted"),
        &["C24"],
        "announcement-without-signature",
        || what.to_string(),
    );
}

fn register_key(ep: &mut Ep, s: &mut S) -> R {
    let a = ep.pick(&s.workers).clone();
    let (valid, ty, pk) = match ep.below(10) {
        0..=2 => {
            let len = *ep.pick(&[0usize, 1, 31, 32, 33, 34, 64, 65, 66]);
            let ec = ep.chance(50);
            let bytes: Vec<u8> = (0..len).map(|_| ep.below(256) as u8).collect();
            if ec && (len == 33 || len == 65) || !ec && len == 32 {
                return Ok(());
            }
            (false, if ec { "ecdsa" } else { "ed25519" }, bytes)
        }
        3 => {
            // someone else's key: registering it is not forbidden
            let o = ep.pick(&s.workers).clone();
            let k = ep.pick(&s.wallet[&o]).clone();
            (true, k.ty(), k.pk().to_vec())
        }
        4 => {
            let k = if ep.chance(50) {
                Key::ec(ep, false)
            } else {
                Key::ed(ep)
            };
            s.wallet.get_mut(&a).unwrap().push(k.clone());
            (true, k.ty(), k.pk().to_vec())
        }
        _ => {
            let k = ep.pick(&s.wallet[&a]).clone();
            (true, k.ty(), k.pk().to_vec())
        }
    };
    let mut m = serde_json::Map::new();
    m.insert(ty.into(), json!(hex::encode(&pk)));
    ep.step(format!("register key {m:?} by {a}"));
    let o = s.w.exec(
        &addr(&a),
        &s.ms,
        &json!({"register_public_key": {"public_key": m}}),
        &[],
    );
    match &o {
        Ok(r) if valid => {
            ep.count("key.registered");
            quiet(ep, r, "key registration");
            let l = vec![("worker", format!("\"{a}\"")), ("public_key", serde_json::to_string(&m).unwrap())];
            tells(ep, r, &s.ms.clone(), "key", vec![("public_key_registered", l)]);
            s.keys.insert((a, ty), pk);
        }
        Ok(_) => ep.fail(
            &["C26"],
            "key-of-wrong-length-accepted",
            format!("{ty} {} bytes", pk.len()),
        ),
        Err(e) if valid => ep.fail(&["C26"], "key-refused", e.clone()),
        Err(_) => ep.count("key.refused"),
    }
    ep.settle()
}

fn register_set(ep: &mut Ep, s: &mut S) -> R {
    if !s.sets.is_empty() && ep.chance(15) {
        // again the same set: changes nothing
        let x = ep.pick(&s.sets).clone();
        ep.step(format!("register set {} again", &x.id[..8]));
        let o = s.w.exec(
            &addr("anyone"),
            &s.ms,
            &json!({"register_worker_set": {"worker_set": x.json}}),
            &[],
        );
        ep.check(o.is_ok(), &["C25"], "worker-set-refused", || short(&o));
        return ep.settle();
    }
    let base = if !s.sets.is_empty() && ep.chance(35) {
        Some(ep.pick(&s.sets).clone())
    } else {
        None
    };
    let mut signers: BTreeMap<String, (Key, Uint256)> = BTreeMap::new();
    let mut created = if ep.chance(85) {
        ep.below(3)
    } else {
        u64::from_be_bytes(ep.bytes::<8>())
    };
    let mut thr;
    match base {
        Some(b) => {
            // the same but for one detail
            signers = b.signers.clone();
            thr = b.thr;
            created = b.json["created_at"].as_u64().unwrap();
            let a = ep
                .pick(&signers.keys().cloned().collect::<Vec<_>>())
                .clone();
            match ep.below(4) {
                0 => {
                    let k = ep.pick(&s.wallet[&a]).clone();
                    signers.get_mut(&a).unwrap().0 = k;
                }
                1 => {
                    let one = one_bit(ep);
                    let x = signers.get_mut(&a).unwrap();
                    x.1 = x.1 + one;
                }
                2 => thr = thr + one_bit(ep),
                _ => {
                    created =
                        created.wrapping_add(if ep.chance(60) { 7 } else { 1 << ep.below(63) })
                }
            }
        }
        None => {
            let mut ws = s.workers.clone();
            ep.shuffle(&mut ws);
            let n = if s.flavour == 1 && ep.chance(70) {
                ws.len()
            } else {
                ep.range(1, ws.len() as u64) as usize
            };
            // weights of any magnitude, sums on either side of the threshold by one unit
            let scale = match ep.below(4) {
                0 => Uint256::from(u64::MAX),
                1 => Uint256::from(u128::MAX) + Uint256::from(ep.below(3)),
                2 => one_bit(ep),
                _ => Uint256::one(),
            };
            let plain = ep.chance(65);
            for a in ws.into_iter().take(n) {
                let k = ep.pick(&s.wallet[&a]).clone();
                let wt = if plain {
                    Uint256::from(if ep.chance(60) { 1 } else { ep.range(1, 6) })
                } else {
                    scale * Uint256::from(ep.range(1, 3)) + Uint256::from(ep.below(2))
                };
                signers.insert(a, (k, wt));
            }
            let tot: Uint256 = signers.values().map(|x| x.1).sum();
            let one = Uint256::one();
            thr = match ep.below(7) {
                0 => tot,
                1 => one,
                2 => tot / Uint256::from(2u64) + one,
                3 => tot + one,
                _ => {
                    // what some of them weigh, or a little more or less
                    let m = ep.range(1, n as u64) as usize;
                    let part: Uint256 = signers.values().take(m).map(|x| x.1).sum();
                    match ep.below(3) {
                        0 if part > one => part - one,
                        1 => part + one,
                        _ => part,
                    }
                }
            };
        }
    }
    let j = json!({
        "signers": signers.iter().map(|(a, (k, w))| (a.clone(), json!({
            "address": a, "weight": w.to_string(), "pub_key": k.json(),
        }))).collect::<serde_json::Map<_, _>>(),
        "threshold": thr.to_string(),
        "created_at": created,
    });
    let typed: WorkerSet = serde_json::from_value(j.clone()).expect("worker set");
    let id = typed.id();
    ep.step(format!("register set {} = {j}", &id[..8]));
    let o = s.w.exec(
        &addr("anyone"),
        &s.ms,
        &json!({"register_worker_set": {"worker_set": j}}),
        &[],
    );
    match &o {
        Ok(r) => {
            ep.count("set.registered");
            quiet(ep, r, "worker set registration");
            if let Some(x) = s.sets.iter().find(|x| x.id == id) {
                ep.check(x.json == j, &["C25"], "worker-set-id-shared", || {
                    format!("{} and {j}", x.json)
                });
            } else {
                s.sets.push(Set {
                    id,
                    json: j,
                    signers,
                    thr,
                });
            }
        }
        Err(e) => ep.fail(&["C25"], "worker-set-refused", e.clone()),
    }
    ep.settle()
}

fn authorise(ep: &mut Ep, s: &mut S, fixed: Option<(&str, &str, bool)>) -> R {
    let (sender, who, on) = match fixed {
        Some((a, b, c)) => (addr(a), b.to_string(), c),
        None => (
            if ep.chance(65) {
                addr("gov")
            } else {
                ep.pick(&s.accounts).clone()
            },
            ep.pick(&["prover1", "prover2", "worker0", "intruder"])
                .to_string(),
            ep.chance(60),
        ),
    };
    let op = if on {
        "authorize_caller"
    } else {
        "unauthorize_caller"
    };
    ep.step(format!("{op} {who} by {sender}"));
    let mut m = serde_json::Map::new();
    m.insert(op.into(), json!({"contract_address": who}));
    let o = s.w.exec(&sender, &s.ms, &Value::Object(m), &[]);
    match (&o, sender.as_str() == "gov") {
        (Ok(r), true) => {
            ep.count("auth.changed");
            quiet(ep, r, "authorisation");
            let t = if on { "caller_authorized" } else { "caller_unauthorized" };
            tells(ep, r, &s.ms.clone(), "authorisation", vec![(t, vec![("contract_address", who.clone())])]);
            if on {
                s.auth.insert(who);
            } else {
                s.auth.remove(&who);
            }
        }
        (Err(_), false) => ep.count("auth.refused"),
        (Ok(_), false) => ep.fail(
            &["C25"],
            "unauthorised-authorisation",
            format!("{op} by {sender}"),
        ),
        (Err(e), true) => ep.fail(&["C25"], "governance-refused", e.clone()),
    }
    ep.settle()
}

fn start(ep: &mut Ep, s: &mut S) -> R {
    let auth: Vec<String> = s.auth.iter().cloned().collect();
    let sender = if !auth.is_empty() && ep.chance(75) {
        addr(&ep.pick(&auth[..]).clone())
    } else {
        ep.pick(&s.accounts).clone()
    };
    let si = ep.below(s.sets.len() as u64) as usize;
    let known = ep.chance(92);
    let id = if known {
        s.sets[si].id.clone()
    } else {
        let mut x = s.sets[si].id.clone();
        match ep.below(3) {
            0 => x = x.to_uppercase(),
            1 => x.push('0'),
            _ => x = hex::encode(ep.bytes::<32>()),
        }
        x
    };
    let known = s.sets.iter().any(|x| x.id == id);
    let len = if ep.chance(90) {
        32
    } else {
        *ep.pick(&[0usize, 1, 31, 33, 64])
    };
    let msg: Vec<u8> = if len == 32 && !s.sessions.is_empty() && ep.chance(20) {
        ep.pick(&s.sessions).msg.to_vec()
    } else {
        (0..len).map(|_| ep.below(256) as u8).collect()
    };
    let chain = ep.pick(&["ethereum", "sui"]).to_string();
    let verifier = if ep.chance(10) {
        json!("verifier")
    } else {
        Value::Null
    };
    ep.step(format!(
        "start session set={} msg={} by {sender}",
        &id[..8.min(id.len())],
        hex::encode(&msg)
    ));
    let o = s.w.exec(
        &sender,
        &s.ms,
        &json!({"start_signing_session": {"worker_set_id": id, "msg": hex::encode(&msg), "chain_name": chain, "sig_verifier": verifier}}),
        &[],
    );
    ep.note(short(&o));
    let may = s.auth.contains(sender.as_str());
    let ok = may && known && len == 32;
    ep.seen(
        &["C25"],
        &(
            may,
            known,
            len,
            s.auth.len(),
            s.sets.len(),
            s.sessions.len(),
        ),
    );
    ep.count(match (ok, may) {
        (true, _) => "start.ok",
        (_, false) => "start.unauthorised",
        _ => "start.invalid",
    });
    match (&o, ok) {
        (Ok(r), true) => {
            quiet(ep, r, "session start");
            let sid: Option<u64> = data_of(r)
                .and_then(|d| serde_json::from_slice::<String>(&d).ok())
                .and_then(|x| x.parse().ok());
            let Some(sid) = sid else {
                ep.fail(&["C25"], "no-session-id", format!("{r:?}"));
                return ep.settle();
            };
            ep.check(s.ids.insert(sid), &["C25"], "session-id-reused", || {
                format!("{sid}")
            });
            let e = evs(r, "signing_started", &s.ms);
            let good = e.len() == 1 && {
                let pk: Value = serde_json::from_str(attr(e[0], "pub_keys").unwrap_or(""))
                    .unwrap_or(Value::Null);
                let want: serde_json::Map<String, Value> = s.sets[si]
                    .signers
                    .iter()
                    .map(|(a, (k, _))| (a.clone(), k.json()))
                    .collect();
                attr(e[0], "session_id") == Some(sid.to_string().as_str())
                    && attr(e[0], "worker_set_id") == Some(id.as_str())
                    && attr(e[0], "msg") == Some(hex::encode(&msg).as_str())
                    && attr(e[0], "chain") == Some(chain.as_str())
                    && pk == Value::Object(want)
            };
            ep.check(good, &["C50", "C25"], "session-announcement", || format!("{e:?}"));
            s.sessions.push(Session {
                id: sid,
                set: si,
                msg: msg.try_into().unwrap(),
                sigs: BTreeMap::new(),
                done: None,
            });
        }
        (Err(_), false) => {}
        (Ok(_), false) => ep.fail(
            &["C25"],
            "session-start-accepted",
            format!("authorised {may}, known set {known}, message of {len} bytes"),
        ),
        (Err(e), true) => ep.fail(&["C25"], "session-start-refused", e.clone()),
    }
    ep.settle()
}

fn submit(ep: &mut Ep, s: &mut S) -> R {
    if s.sessions.is_empty() {
        return Ok(());
    }
    // favour sessions that are open or within their grace period
    let h = s.w.height();
    let live: Vec<usize> = (0..s.sessions.len())
        .filter(|i| s.sessions[*i].done.map_or(true, |d| d + s.grace + 1 >= h))
        .collect();
    let xi = if !live.is_empty() && ep.chance(80) {
        *ep.pick(&live)
    } else {
        ep.below(s.sessions.len() as u64) as usize
    };
    let x = s.sessions[xi].clone();
    let set = s.sets[x.set].clone();
    let members: Vec<String> = set.signers.keys().cloned().collect();
    let fresh: Vec<String> = members
        .iter()
        .filter(|a| !x.sigs.contains_key(*a))
        .cloned()
        .collect();
    let sender = if !fresh.is_empty() && ep.chance(72) {
        ep.pick(&fresh).clone()
    } else if ep.chance(75) {
        ep.pick(&members).clone()
    } else {
        ep.pick(&s.accounts).to_string()
    };
    let key = set.signers.get(&sender).map(|k| k.0.clone());
    let own = key.clone().unwrap_or_else(|| {
        s.wallet
            .get(&sender)
            .map(|v| v[0].clone())
            .unwrap_or_else(|| set.signers[&members[0]].0.clone())
    });
    let (kind, sig): (&str, Vec<u8>) = match ep.below(24) {
        0 => {
            let o = ep.pick(&s.sessions).clone();
            ("other message", own.sign(&o.msg))
        }
        1 => {
            let o = ep.pick(&members).clone();
            ("other signer's", set.signers[&o].0.sign(&x.msg))
        }
        2 => {
            let mut v = own.sign(&x.msg);
            v[ep.below(64) as usize] ^= 1 << ep.below(8);
            ("bit flipped", v)
        }
        3 => {
            let mut v = own.sign(&x.msg);
            let len = *ep.pick(&[0usize, 1, 32, 63, 65, 66, 128]);
            v.resize(len, ep.below(3) as u8);
            ("wrong length", v)
        }
        4 => ("zeros", vec![0; 64]),
        5 => {
            let all: Vec<Key> = s.wallet.get(&sender).cloned().unwrap_or(vec![own.clone()]);
            ("key not in the set", ep.pick(&all).sign(&x.msg))
        }
        6 | 7 if matches!(own, Key::Ec(_)) => ("high s", flip_s(&own.sign(&x.msg))),
        8 => (
            "recorded already",
            x.sigs.values().next().cloned().unwrap_or(own.sign(&x.msg)),
        ),
        _ => ("proper", own.sign(&x.msg)),
    };
    let missing = ep.chance(2);
    let sid = if missing {
        *ep.pick(&[0u64, u64::MAX, 1 << 40])
    } else {
        x.id
    };
    let missing = !s.ids.contains(&sid);
    ep.step(format!(
        "submit to {sid} by {sender}: {kind} ({} bytes) at {h}",
        sig.len()
    ));
    let o = s.w.exec(
        &addr(&sender),
        &s.ms,
        &json!({"submit_signature": {"session_id": sid.to_string(), "signature": hex::encode(&sig)}}),
        &[],
    );
    ep.note(short(&o));
    let member = key.is_some();
    let good = key.as_ref().is_some_and(|k| k.verifies(&x.msg, &sig));
    let dup = x.sigs.contains_key(&sender);
    let late = x.done.is_some_and(|d| h > d + s.grace);
    let ok = !missing && member && good && !dup && !late;
    ep.seen(
        &["C23", "C24"],
        &(
            kind,
            member,
            good,
            dup,
            x.done.map(|d| (h - d).min(s.grace + 2)),
            set.signers
                .values()
                .map(|v| v.1.to_be_bytes())
                .take(8)
                .collect::<Vec<_>>(),
            set.thr.to_be_bytes(),
            x.sigs.len(),
        ),
    );
    ep.count(if ok {
        if x.done.is_some() {
            "sig.accepted_in_grace"
        } else {
            "sig.accepted"
        }
    } else if missing {
        "sig.no_session"
    } else if !member {
        "sig.outsider"
    } else if late && good && !dup {
        "sig.too_late"
    } else if dup {
        "sig.duplicate"
    } else {
        "sig.invalid"
    });
    if ok && kind == "high s" {
        ep.count("sig.high_s");
    }
    if x.done.is_some_and(|d| h == d + s.grace) && good && !dup {
        ep.count("sig.last_block_of_grace");
    }
    match (&o, ok) {
        (Err(_), false) => {}
        (Ok(_), false) => {
            let (t, g): (&[&str], &str) = if late && good && member && !dup {
                (&["C24", "C23"], "signature-accepted-after-grace")
            } else {
                (&["C23"], "improper-signature-accepted")
            };
            ep.fail(
                t,
                g,
                format!("{kind}: member {member}, verifies {good}, duplicate {dup}, late {late}"),
            );
        }
        (Err(e), true) => {
            if x.done.is_some() {
                ep.fail(&["C24", "C23"], "signature-refused-within-grace", e.clone());
            } else {
                ep.fail(&["C23", "C24"], "proper-signature-refused", e.clone());
            }
        }
        (Ok(r), true) => {
            let want = vec![Rec {
                to: s.rewards.to_string(),
                sender: s.ms.to_string(),
                funds: "[]".into(),
                msg: json!({"record_participation": {"event_id": sid.to_string(), "worker_address": sender}}),
            }];
            let got = recs(r);
            ep.check(got == want, &["C24"], "signature-credit", || {
                format!("{got:?} instead of {want:?}")
            });
            let e = evs(r, "signature_submitted", &s.ms);
            ep.check(
                e.len() == 1
                    && attr(e[0], "session_id") == Some(sid.to_string().as_str())
                    && attr(e[0], "participant") == Some(sender.as_str())
                    && attr(e[0], "signature") == Some(hex::encode(&sig).as_str()),
                &["C50", "C23"],
                "signature-announcement",
                || format!("{e:?}"),
            );
            let y = &mut s.sessions[xi];
            y.sigs.insert(sender.clone(), sig);
            let weight: Uint256 = y.sigs.keys().map(|a| set.signers[a].1).sum();
            let completes = y.done.is_none() && weight >= set.thr;
            if completes {
                y.done = Some(h);
                ep.count("session.completed");
            }
            let e = evs(r, "signing_completed", &s.ms);
            let good = if completes {
                e.len() == 1
                    && attr(e[0], "session_id") == Some(sid.to_string().as_str())
                    && attr(e[0], "completed_at") == Some(h.to_string().as_str())
            } else {
                e.is_empty()
            };
            ep.check(good, &["C50", "C24"], "completion-announcement", || {
                format!(
                    "completes {completes} (weight {weight} of {}), announced {e:?}",
                    set.thr
                )
            });
        }
    }
    ep.settle()
}

fn observe(ep: &mut Ep, s: &mut S) -> R {
    for x in &s.sessions {
        if s.full {
        } else if s.sessions.len() > 6 && ep.rng_skip()
            || s.flavour > 0 && !ep.chance(300 / (s.sessions.len() * s.workers.len()).max(3) as u64)
        {
            continue;
        }
        let set = &s.sets[x.set];
        let got: Result<Value, String> = s.w.query(
            &s.ms,
            &json!({"get_multisig": {"session_id": x.id.to_string()}}),
        );
        ep.count("query.session");
        let Ok(got) = got else {
            ep.fail(&["C25"], "session-lost", format!("{got:?}"));
            continue;
        };
        let state = match x.done {
            Some(d) => json!({"completed": {"completed_at": d}}),
            None => json!("pending"),
        };
        ep.check(got["state"] == state, &["C24"], "session-state", || {
            format!(
                "session {}: reported {}, should be {state}",
                x.id, got["state"]
            )
        });
        ep.check(
            got["quorum"] == json!(set.thr.to_string()),
            &["C25", "C24"],
            "session-quorum",
            || format!("{} instead of {}", got["quorum"], set.thr),
        );
        let mut list = got["signers"].as_array().cloned().unwrap_or_default();
        list.sort_by_key(|v| v[0]["address"].to_string());
        let signers: Vec<Value> = list.iter().map(|v| v[0].clone()).collect();
        let want: Vec<Value> = set
            .signers
            .iter()
            .map(|(a, (k, w))| json!({"address": a, "weight": w.to_string(), "pub_key": k.json()}))
            .collect();
        ep.check(signers == want, &["C25"], "session-signers", || {
            format!("session {}: {signers:?} instead of {want:?}", x.id)
        });
        for v in &list {
            let a = v[0]["address"].as_str().unwrap_or("").to_string();
            let rec = match &v[1] {
                Value::Null => None,
                o => o
                    .as_object()
                    .and_then(|o| o.values().next())
                    .and_then(|h| h.as_str())
                    .map(String::from),
            };
            let want = x.sigs.get(&a).map(hex::encode);
            if let (Some(r), Some((k, _))) = (&rec, set.signers.get(&a)) {
                ep.check(
                    want.as_ref() == Some(r)
                        || k.verifies(&x.msg, &hex::decode(r).unwrap_or_default()),
                    &["C23"],
                    "reported-signature-does-not-verify",
                    || format!("session {} {a}: {r}", x.id),
                );
            }
            ep.check(rec == want, &["C23", "C25"], "reported-signatures", || {
                format!("session {} {a}: reported {rec:?}, recorded {want:?}", x.id)
            });
        }
    }
    for x in &s.sets {
        if s.full {
        } else if s.sets.len() > 5 && ep.rng_skip()
            || s.flavour > 0 && !ep.chance(300 / (s.sets.len() * s.workers.len()).max(3) as u64)
        {
            continue;
        }
        let got: Result<Value, String> =
            s.w.query(&s.ms, &json!({"get_worker_set": {"worker_set_id": x.id}}));
        ep.count("query.set");
        ep.check(
            got.as_ref().ok() == Some(&x.json),
            &["C25"],
            "worker-set-changed",
            || format!("{}: {got:?} instead of {}", x.id, x.json),
        );
    }
    if ep.is("C26") || ep.chance(10) {
        for a in s.accounts.iter() {
            for ty in ["ecdsa", "ed25519"] {
                let got: Result<Value, String> = s.w.query(
                    &s.ms,
                    &json!({"get_public_key": {"worker_address": a, "key_type": ty}}),
                );
                let want = s.keys.get(&(a.to_string(), ty)).map(|k| {
                    let mut m = serde_json::Map::new();
                    m.insert(ty.into(), json!(hex::encode(k)));
                    Value::Object(m)
                });
                ep.count(if want.is_some() {
                    "query.key"
                } else {
                    "query.no_key"
                });
                ep.check(
                    got.as_ref().ok() == want.as_ref(),
                    &["C26"],
                    "public-key",
                    || format!("{a} {ty}: reported {got:?}, registered {want:?}"),
                );
            }
        }
        let k: Vec<_> = s
            .keys
            .iter()
            .map(|((a, t), k)| (a.clone(), *t, k.clone()))
            .collect();
        ep.seen(&["C26"], &k);
    }
    ep.settle()
}
