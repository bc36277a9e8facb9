//! C27-C30: the real multisig prover over the real gateway and the real multisig contract with real keys; the service
//! registry and the voting verifier are stubs. What a destination gateway would see is decoded independently.
use crate::core::*;
use crate::gen::{self, Msg};
use crate::keys::*;
use crate::voting::{majority, quorum, stub_registry, Reg};
use crate::world::*;
use cosmwasm_std::{Addr, HexBinary, Uint256};
use cw_multi_test::ContractWrapper;
use ethabi::{ParamType, Token};
use k256::ecdsa::VerifyingKey;
use multisig::worker_set::WorkerSet;
use multisig_prover::encoding::{CommandBatchBuilder, Data, Encoder};
use multisig_prover::msg::{GetProofResponse, ProofStatus};
use multisig_prover::types::{BatchId, Command, CommandBatch, CommandType};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

// ---------------------------------------------------------------- what the destination chain would decode

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Abi,
    Bcs,
}
impl Enc {
    pub fn name(&self) -> &'static str {
        match self {
            Enc::Abi => "abi",
            Enc::Bcs => "bcs",
        }
    }
    pub fn real(&self) -> Encoder {
        match self {
            Enc::Abi => Encoder::Abi,
            Enc::Bcs => Encoder::Bcs,
        }
    }
}

pub type Cmd = (Vec<u8>, String, Vec<u8>);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Plain {
    pub chain: [u8; 32],
    pub cmds: Vec<Cmd>,
}

fn be(n: u128) -> [u8; 32] {
    let mut b = [0; 32];
    b[16..].copy_from_slice(&n.to_be_bytes());
    b
}
fn u256(t: &Token) -> Option<[u8; 32]> {
    let mut b = [0; 32];
    t.clone().into_uint()?.to_big_endian(&mut b);
    Some(b)
}

pub fn decode_data(e: Enc, b: &[u8]) -> Option<Plain> {
    match e {
        Enc::Abi => {
            let t = ethabi::decode(
                &[
                    ParamType::Uint(256),
                    ParamType::Array(Box::new(ParamType::FixedBytes(32))),
                    ParamType::Array(Box::new(ParamType::String)),
                    ParamType::Array(Box::new(ParamType::Bytes)),
                ],
                b,
            )
            .ok()?;
            let ids: Vec<Vec<u8>> = t[1].clone().into_array()?.into_iter().map(|x| x.into_fixed_bytes()).collect::<Option<_>>()?;
            let tys: Vec<String> = t[2].clone().into_array()?.into_iter().map(|x| x.into_string()).collect::<Option<_>>()?;
            let ps: Vec<Vec<u8>> = t[3].clone().into_array()?.into_iter().map(|x| x.into_bytes()).collect::<Option<_>>()?;
            if ids.len() != tys.len() || ids.len() != ps.len() {
                return None;
            }
            Some(Plain {
                chain: u256(&t[0])?,
                cmds: ids.into_iter().zip(tys).zip(ps).map(|((a, b), c)| (a, b, c)).collect(),
            })
        }
        Enc::Bcs => {
            let (c, ids, tys, ps): (u64, Vec<[u8; 32]>, Vec<String>, Vec<Vec<u8>>) = bcs::from_bytes(b).ok()?;
            if ids.len() != tys.len() || ids.len() != ps.len() {
                return None;
            }
            Some(Plain {
                chain: be(c as u128),
                cmds: ids.into_iter().zip(tys).zip(ps).map(|((a, b), c)| (a.to_vec(), b, c)).collect(),
            })
        }
    }
}

pub fn encode_data(e: Enc, p: &Plain) -> Vec<u8> {
    match e {
        Enc::Abi => ethabi::encode(&[
            Token::Uint(ethabi::ethereum_types::U256::from_big_endian(&p.chain)),
            Token::Array(p.cmds.iter().map(|c| Token::FixedBytes(c.0.clone())).collect()),
            Token::Array(p.cmds.iter().map(|c| Token::String(c.1.clone())).collect()),
            Token::Array(p.cmds.iter().map(|c| Token::Bytes(c.2.clone())).collect()),
        ]),
        Enc::Bcs => {
            let ids: Vec<[u8; 32]> = p.cmds.iter().map(|c| c.0.clone().try_into().expect("32 bytes")).collect();
            let tys: Vec<&str> = p.cmds.iter().map(|c| c.1.as_str()).collect();
            let ps: Vec<&[u8]> = p.cmds.iter().map(|c| c.2.as_slice()).collect();
            let chain = u64::from_be_bytes(p.chain[24..].try_into().unwrap());
            bcs::to_bytes(&(chain, ids, tys, ps)).expect("bcs")
        }
    }
}

pub fn digest(e: Enc, data: &[u8]) -> [u8; 32] {
    match e {
        Enc::Abi => {
            let mut m = b"\x19Ethereum Signed Message:\n32".to_vec();
            m.extend(keccak(data));
            keccak(&m)
        }
        Enc::Bcs => {
            let mut m = b"\x19Sui Signed Message:\n".to_vec();
            m.extend(data);
            keccak(&m)
        }
    }
}

/// (source chain, source address, destination address, payload hash)
pub fn decode_approval(e: Enc, b: &[u8]) -> Option<(String, String, Vec<u8>, Vec<u8>)> {
    match e {
        Enc::Abi => {
            let t = ethabi::decode(
                &[ParamType::String, ParamType::String, ParamType::Address, ParamType::FixedBytes(32)],
                b,
            )
            .ok()?;
            Some((
                t[0].clone().into_string()?,
                t[1].clone().into_string()?,
                t[2].clone().into_address()?.as_bytes().to_vec(),
                t[3].clone().into_fixed_bytes()?,
            ))
        }
        Enc::Bcs => {
            let (a, b, c, d): (String, String, [u8; 32], Vec<u8>) = bcs::from_bytes(b).ok()?;
            Some((a, b, c.to_vec(), d))
        }
    }
}

type OpList = (Vec<(Vec<u8>, [u8; 32])>, [u8; 32]);
fn decode_ops(a: Vec<Token>) -> Option<OpList> {
    let ads: Vec<Vec<u8>> = a[0].clone().into_array()?.into_iter().map(|x| x.into_address().map(|a| a.as_bytes().to_vec())).collect::<Option<_>>()?;
    let ws: Vec<[u8; 32]> = a[1].clone().into_array()?.iter().map(u256).collect::<Option<_>>()?;
    if ads.len() != ws.len() {
        return None;
    }
    Some((ads.into_iter().zip(ws).collect(), u256(&a[2])?))
}

pub fn decode_transfer(e: Enc, b: &[u8]) -> Option<OpList> {
    match e {
        Enc::Abi => decode_ops(
            ethabi::decode(
                &[
                    ParamType::Array(Box::new(ParamType::Address)),
                    ParamType::Array(Box::new(ParamType::Uint(256))),
                    ParamType::Uint(256),
                ],
                b,
            )
            .ok()?,
        ),
        Enc::Bcs => {
            let (k, w, q): (Vec<Vec<u8>>, Vec<u128>, u128) = bcs::from_bytes(b).ok()?;
            if k.len() != w.len() {
                return None;
            }
            Some((k.into_iter().zip(w.into_iter().map(be)).collect(), be(q)))
        }
    }
}

pub struct Proof {
    pub data: Vec<u8>,
    pub ops: OpList,
    pub sigs: Vec<Vec<u8>>,
}
pub fn decode_execute(e: Enc, b: &[u8]) -> Option<Proof> {
    match e {
        Enc::Abi => {
            if b.len() < 4 || b[..4] != keccak(b"execute(bytes)")[..4] {
                return None;
            }
            let input = ethabi::decode(&[ParamType::Bytes], &b[4..]).ok()?[0].clone().into_bytes()?;
            let t = ethabi::decode(&[ParamType::Bytes, ParamType::Bytes], &input).ok()?;
            let proof = t[1].clone().into_bytes()?;
            let p = ethabi::decode(
                &[
                    ParamType::Array(Box::new(ParamType::Address)),
                    ParamType::Array(Box::new(ParamType::Uint(256))),
                    ParamType::Uint(256),
                    ParamType::Array(Box::new(ParamType::Bytes)),
                ],
                &proof,
            )
            .ok()?;
            let sigs = p[3].clone().into_array()?.into_iter().map(|x| x.into_bytes()).collect::<Option<_>>()?;
            Some(Proof {
                data: t[0].clone().into_bytes()?,
                ops: decode_ops(p[..3].to_vec())?,
                sigs,
            })
        }
        Enc::Bcs => {
            let (data, proof): (Vec<u8>, Vec<u8>) = bcs::from_bytes(b).ok()?;
            let (k, w, q, sigs): (Vec<Vec<u8>>, Vec<u128>, u128, Vec<Vec<u8>>) = bcs::from_bytes(&proof).ok()?;
            if k.len() != w.len() {
                return None;
            }
            Some(Proof {
                data,
                ops: (k.into_iter().zip(w.into_iter().map(be)).collect(), be(q)),
                sigs,
            })
        }
    }
}

/// one member of a worker set as the harness knows it
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Member {
    pub ty: &'static str,
    pub pk: Vec<u8>,
    pub w: u128,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Set {
    pub m: BTreeMap<String, Member>,
    pub thr: u128,
    pub at: u64,
}
impl Set {
    pub fn json(&self) -> Value {
        json!({
            "signers": self.m.iter().map(|(a, x)| (a.clone(), json!({
                "address": a, "weight": x.w.to_string(), "pub_key": {x.ty: hex::encode(&x.pk)},
            }))).collect::<serde_json::Map<_, _>>(),
            "threshold": self.thr.to_string(),
            "created_at": self.at,
        })
    }
    pub fn real(&self) -> WorkerSet {
        serde_json::from_value(self.json()).expect("worker set")
    }
    /// what the destination chain knows the set as, in increasing order
    pub fn ops(&self, e: Enc) -> Vec<(Vec<u8>, u128)> {
        let mut v: Vec<(Vec<u8>, u128)> = self
            .m
            .values()
            .map(|x| {
                (
                    match e {
                        Enc::Abi => evm_address(&x.pk).map(|a| a.to_vec()).unwrap_or_default(),
                        Enc::Bcs => x.pk.clone(),
                    },
                    x.w,
                )
            })
            .collect();
        v.sort();
        v
    }
    pub fn canon(&self, e: Enc) -> (Vec<(Vec<u8>, u128)>, u128) {
        (self.ops(e), self.thr)
    }
    fn shared_key(&self) -> bool {
        let pts: BTreeSet<Vec<u8>> = self
            .m
            .values()
            .map(|x| {
                if x.ty == "ecdsa" {
                    evm_address(&x.pk).map(|a| a.to_vec()).unwrap_or_default()
                } else {
                    x.pk.clone()
                }
            })
            .collect();
        pts.len() < self.m.len()
    }
    fn diff(&self, o: &Set) -> usize {
        let same = self.m.iter().filter(|(a, x)| o.m.get(*a) == Some(x)).count();
        self.m.len() + o.m.len() - 2 * same
    }
    fn alike(&self, o: &Set) -> bool {
        self.m == o.m && self.thr == o.thr
    }
}

fn same_ops(got: &OpList, want: &(Vec<(Vec<u8>, u128)>, u128)) -> bool {
    got.1 == be(want.1)
        && got.0.len() == want.0.len()
        && got.0.iter().zip(&want.0).all(|(g, w)| g.0 == w.0 && g.1 == be(w.1))
}

/// what the destination gateway checks; says what is wrong with the proof
pub fn judge(e: Enc, set: &Set, p: &Proof) -> Result<usize, (&'static str, String)> {
    let want = set.canon(e);
    if !p.ops.0.windows(2).all(|x| x[0].0 < x[1].0) {
        return Err(("operators-not-in-order", format!("{:?}", p.ops.0.iter().map(|o| hex::encode(&o.0)).collect::<Vec<_>>())));
    }
    if !same_ops(&p.ops, &want) {
        return Err(("operators-of-proof", format!("{:?} instead of {want:?}", p.ops)));
    }
    let d = digest(e, &p.data);
    let ty = set.m.values().next().map(|x| x.ty).unwrap_or("ecdsa");
    let mut next = 0;
    let mut sum: u128 = 0;
    for (i, sig) in p.sigs.iter().enumerate() {
        let found = if ty == "ecdsa" {
            if sig.len() != 65 {
                return Err(("signature-of-proof", format!("signature {i} has {} bytes", sig.len())));
            }
            let v = match e {
                Enc::Abi => sig[64].wrapping_sub(27),
                Enc::Bcs => sig[64],
            };
            let Some(k) = recover(&d, &sig[..64], v) else {
                return Err(("signature-of-proof", format!("signature {i} recovers no key")));
            };
            (next..want.0.len()).find(|j| match e {
                Enc::Abi => evm_address(k.to_encoded_point(true).as_bytes()).is_some_and(|a| a[..] == want.0[*j].0[..]),
                Enc::Bcs => VerifyingKey::from_sec1_bytes(&want.0[*j].0).is_ok_and(|x| x == k),
            })
        } else {
            (next..want.0.len()).find(|j| verifies("ed25519", &want.0[*j].0, &d, sig))
        };
        let Some(j) = found else {
            return Err(("signature-of-proof", format!("signature {i} belongs to no operator at or after position {next}")));
        };
        next = j + 1;
        sum = sum.saturating_add(want.0[j].1);
    }
    if sum < want.1 {
        return Err(("proof-below-quorum", format!("{} signatures of total weight {sum}, quorum {}", p.sigs.len(), want.1)));
    }
    Ok(p.sigs.len())
}

/// the 20 or 32 bytes a destination address stands for
pub fn dest_bytes(e: Enc, a: &str) -> Option<Vec<u8>> {
    let h = a.strip_prefix("0x").unwrap_or(a);
    let want = match e {
        Enc::Abi => 20,
        Enc::Bcs => 32,
    };
    if h.len() != 2 * want || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    hex::decode(h.to_ascii_lowercase()).ok()
}

fn dest(ep: &mut Ep, e: Enc) -> String {
    let n = match e {
        Enc::Abi => 20,
        Enc::Bcs => 32,
    };
    let b = ep.bytes::<32>();
    let mut s = hex::encode(&b[..n]);
    match ep.below(4) {
        0 => s = s.to_ascii_uppercase(),
        1 => s = gen::recase(ep, &s),
        _ => {}
    }
    if ep.chance(60) {
        s = format!("0x{s}");
    }
    s
}
fn bad_dest(ep: &mut Ep, e: Enc) -> String {
    let g = dest(ep, e);
    let x = match ep.below(8) {
        0 => format!("{g}00"),
        1 => g[..g.len() - 2].to_string(),
        2 => g[..g.len() - 1].to_string(),
        3 => format!("{}zz", &g[..g.len() - 2]),
        4 => format!("0X{}", g.trim_start_matches("0x")),
        5 => dest(ep, if e == Enc::Abi { Enc::Bcs } else { Enc::Abi }),
        6 => format!("0x0x{}", g.trim_start_matches("0x")),
        _ => "x".into(),
    };
    if dest_bytes(e, &x).is_some() {
        "nowhere".into()
    } else {
        x
    }
}

// ---------------------------------------------------------------- histories over the real contracts

struct Session {
    id: u64,
    /// acceptable orders of the approvals
    orders: Vec<Vec<usize>>,
    rotate: Option<Set>,
    set: Set,
    digest: Vec<u8>,
    sigs: BTreeMap<String, Vec<u8>>,
    done: bool,
}

struct S {
    w: W,
    e: Enc,
    ty: &'static str,
    chain: String,
    chain_id: [u8; 32],
    pr: Addr,
    ms: Addr,
    gw: Addr,
    router: Addr,
    reg: Rc<RefCell<Reg>>,
    confirmed: Rc<RefCell<Vec<(Vec<(Vec<u8>, u128)>, u128)>>>,
    thr: (u64, u64),
    max_diff: usize,
    grace: u64,
    authorised: bool,
    /// messages, indexed; whether the gateway holds them
    msgs: Vec<Msg>,
    held: Vec<bool>,
    pool: Vec<String>,
    wallet: Vec<Key>,
    keys: BTreeMap<String, usize>,
    cur: Option<Set>,
    next: Option<Set>,
    /// stored message-only batches: (sorted indices) -> orders asked for
    stored: HashMap<Vec<usize>, Vec<Vec<usize>>>,
    /// the same for batches that rotate
    stored_rot: HashMap<(Vec<usize>, Set), Vec<Vec<usize>>>,
    sessions: Vec<Session>,
    batch_ids: HashMap<String, (Vec<usize>, Option<Set>)>,
    digests: HashMap<Vec<u8>, Plain>,
}

fn chain_id(ep: &mut Ep, e: Enc) -> [u8; 32] {
    match (e, ep.below(5)) {
        (Enc::Abi, 0) => ep.bytes(),
        (Enc::Abi, 1) => [0xff; 32],
        (_, 2) => be(u64::MAX as u128),
        (_, 3) => be(0),
        _ => be(ep.range(1, 100_000) as u128),
    }
}

pub fn run(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (rewards, _) = w.stub();
    let (ver, vstub) = w.stub();
    let (sr, rstub) = w.stub();
    let router = addr("router");
    let e = if ep.chance(55) { Enc::Abi } else { Enc::Bcs };
    let ty = if e == Enc::Bcs && ep.chance(15) { "ed25519" } else { "ecdsa" };
    let chain = "dest-1".to_string();
    let grace = ep.below(4);
    let gw = w
        .install(
            Box::new(ContractWrapper::new(gateway::contract::execute, gateway::contract::instantiate, gateway::contract::query)),
            &json!({"verifier_address": ver, "router_address": router}),
        )
        .expect("gateway");
    let ms = w
        .install(
            Box::new(ContractWrapper::new(multisig::contract::execute, multisig::contract::instantiate, multisig::contract::query)),
            &json!({"governance_address": "gov", "rewards_address": rewards, "grace_period": grace}),
        )
        .expect("multisig");
    let thr = majority(ep);
    let max_diff = *ep.pick(&[0usize, 0, 1, 1, 2, 3, 5]);
    let cid = chain_id(ep, e);
    let spelled = if ep.chance(30) { gen::recase(ep, &chain) } else { chain.clone() };
    let pr = w
        .install(
            Box::new(
                ContractWrapper::new(
                    multisig_prover::contract::execute,
                    multisig_prover::contract::instantiate,
                    multisig_prover::contract::query,
                )
                .with_reply(multisig_prover::contract::reply),
            ),
            &json!({
                "admin_address": "admin",
                "gateway_address": gw,
                "multisig_address": ms,
                "service_registry_address": sr,
                "voting_verifier_address": ver,
                "destination_chain_id": Uint256::from_be_bytes(cid),
                "signing_threshold": [thr.0.to_string(), thr.1.to_string()],
                "service_name": "service",
                "chain_name": spelled,
                "worker_set_diff_threshold": max_diff,
                "encoder": e.name(),
                "key_type": ty,
            }),
        )
        .expect("prover");
    let reg = Rc::new(RefCell::new(Reg {
        service: "service".into(),
        chain: chain.clone(),
        active: vec![],
        down: false,
    }));
    stub_registry(&rstub, &reg);
    let confirmed: Rc<RefCell<Vec<(Vec<(Vec<u8>, u128)>, u128)>>> = Rc::new(RefCell::new(vec![]));
    let c = confirmed.clone();
    vstub.on_query(move |q| {
        let o = &q.get("is_worker_set_verified").ok_or("unexpected query")?["new_operators"];
        let mut l: Vec<(Vec<u8>, u128)> = vec![];
        for x in o["weights_by_addresses"].as_array().ok_or("operators")? {
            l.push((
                hex::decode(x[0].as_str().unwrap_or("zz")).map_err(|e| e.to_string())?,
                x[1].as_str().unwrap_or("").parse().map_err(|_| "weight")?,
            ));
        }
        l.sort();
        let t: u128 = o["threshold"].as_str().unwrap_or("").parse().map_err(|_| "threshold")?;
        Ok(json!(c.borrow().contains(&(l, t))))
    });
    // large episodes: many workers, many messages per batch, or many sessions
    let big = if ep.big() { 1 + (ep.idx / 40) % 3 } else { 0 };
    let nw = if big == 1 {
        if ep.thorough && ep.chance(10) { ep.range(256, 270) as usize } else { ep.range(24, 70) as usize }
    } else {
        ep.range(2, 8) as usize
    };
    let pool: Vec<String> = (0..nw).map(|i| format!("worker{i}")).collect();
    let mut s = S {
        w,
        e,
        ty,
        chain,
        chain_id: cid,
        pr,
        ms,
        gw,
        router,
        reg,
        confirmed,
        thr,
        max_diff,
        grace,
        authorised: false,
        msgs: vec![],
        held: vec![],
        pool,
        wallet: vec![],
        keys: BTreeMap::new(),
        cur: None,
        next: None,
        stored: HashMap::new(),
        stored_rot: HashMap::new(),
        sessions: vec![],
        batch_ids: HashMap::new(),
        digests: HashMap::new(),
    };
    ep.trace.push(format!(
        "encoder {} key type {ty} threshold {thr:?} diff {max_diff} grace {grace} workers {nw}",
        e.name()
    ));
    for i in 0..nw {
        if big == 1 || ep.chance(90) {
            register_key(ep, &mut s, i, true)?;
        }
    }
    {
        let n = ep.range(if big == 1 { nw as u64 * 3 / 4 } else { 1 }, nw as u64) as usize;
        let mut v: Vec<String> = s.pool[..n].to_vec();
        ep.shuffle(&mut v);
        s.reg.borrow_mut().active = v;
    }
    if ep.chance(95) {
        authorise(ep, &mut s)?;
    }
    for _ in 0..if big == 2 { ep.range(20, 150) } else { ep.range(2, 6) } {
        add_message(ep, &mut s)?;
    }
    if ep.chance(85) {
        update(ep, &mut s)?;
    }
    let n = match big {
        0 => if ep.thorough { 80 } else { 40 },
        1 => 14,
        2 => 16,
        _ => ep.range(260, 290),
    };
    let weights: [u64; 8] = match ep.focus {
        _ if big == 3 => [2, 88, 2, 2, 1, 1, 3, 1],
        "C28" => [4, 30, 4, 4, 4, 6, 44, 4],
        "C29" => [4, 14, 20, 22, 12, 16, 8, 4],
        _ => [12, 40, 6, 8, 6, 8, 16, 4],
    };
    for _ in 0..n {
        match ep.weighted(&weights) {
            0 => add_message(ep, &mut s)?,
            1 => construct(ep, &mut s)?,
            2 => update(ep, &mut s)?,
            3 => confirm(ep, &mut s)?,
            4 => {
                let i = ep.below(nw as u64) as usize;
                register_key(ep, &mut s, i, false)?;
            }
            5 => churn(ep, &mut s),
            6 => sign(ep, &mut s)?,
            _ => {
                let b = ep.range(1, 5);
                s.w.advance(b, 5 * b);
                ep.trace.push(format!("height {}", s.w.height()));
                if !s.authorised {
                    authorise(ep, &mut s)?;
                }
            }
        }
        current(ep, &mut s)?;
    }
    if big > 0 {
        ep.count("episode.large");
    }
    for i in 0..s.sessions.len() {
        proof(ep, &mut s, i)?;
    }
    Ok(())
}

fn authorise(ep: &mut Ep, s: &mut S) -> R {
    let (gov, ms) = (addr("gov"), s.ms.clone());
    ep.step("authorise the prover");
    let o = s.w.exec(&gov, &ms, &json!({"authorize_caller": {"contract_address": s.pr}}), &[]);
    if o.is_err() {
        ep.fail(&["C25"], "authorise", short(&o));
    }
    s.authorised = true;
    ep.settle()
}

fn churn(ep: &mut Ep, s: &mut S) {
    let mut r = s.reg.borrow_mut();
    let p = ep.pick(&s.pool).clone();
    match ep.below(12) {
        0 => r.active = vec![],
        1 => r.active = s.pool.clone(),
        2 => {
            if let Some(c) = &s.cur {
                r.active = c.m.keys().cloned().collect();
            }
        }
        3 => {
            if let Some(c) = &s.next {
                r.active = c.m.keys().cloned().collect();
            }
        }
        _ => {
            if let Some(i) = r.active.iter().position(|x| *x == p) {
                r.active.remove(i);
            } else {
                r.active.push(p);
            }
        }
    }
    ep.shuffle(&mut r.active);
    ep.trace.push(format!("active {:?}", r.active));
}

fn register_key(ep: &mut Ep, s: &mut S, i: usize, first: bool) -> R {
    let a = s.pool[i].clone();
    let old: Vec<usize> = s.keys.values().copied().collect();
    let copy = if first { i == 1 && ep.idx % 96 == 0 } else { ep.chance(4) };
    let k = if copy && !old.is_empty() {
        // a copy of somebody's key, possibly in the other spelling
        let k = s.wallet[*ep.pick(&old)].clone();
        match k {
            Key::Ec(mut x) => {
                let unc = x.pk.len() == 33 && ep.chance(50);
                x.pk = x.sk.verifying_key().to_encoded_point(!unc).as_bytes().to_vec();
                Key::Ec(x)
            }
            k => k,
        }
    } else if s.ty == "ecdsa" {
        let unc = ep.chance(20);
        Key::ec(ep, unc)
    } else {
        Key::ed(ep)
    };
    ep.step(format!("{a} registers key {}", hex::encode(k.pk())));
    let o = s.w.exec(&addr(&a), &s.ms, &json!({"register_public_key": {"public_key": k.json()}}), &[]);
    if o.is_err() {
        // refusing a key that somebody else holds would be fine; anything else is not
        if s.wallet.iter().all(|x| x.pk() != k.pk()) && first {
            ep.fail(&["C26"], "key-refused", short(&o));
        }
        return ep.settle();
    }
    s.wallet.push(k);
    s.keys.insert(a, s.wallet.len() - 1);
    Ok(())
}

fn add_message(ep: &mut Ep, s: &mut S) -> R {
    let d = if ep.chance(93) { dest(ep, s.e) } else { bad_dest(ep, s.e) };
    let src = ep.pick(&["ethereum", "src-2", "x"]).to_string();
    let mut m = gen::msg(ep, &src, &s.chain.clone());
    m.daddr = d;
    if ep.chance(20) {
        m.saddr = gen::near(ep, &m.saddr);
    }
    if ep.chance(4) {
        m.dst = "elsewhere".into();
    }
    // ids that look like several ids
    if ep.chance(12) && !s.msgs.is_empty() {
        let mut o: Vec<(String, String)> = s.msgs.iter().map(|m| m.key()).collect();
        ep.shuffle(&mut o);
        o.truncate(2);
        o.sort();
        let mut it = o.into_iter();
        let (c, i) = it.next().unwrap();
        m.src = c;
        m.id = i;
        for (c, i) in it {
            m.id = format!("{},{c}:{i}", m.id);
        }
        if s.msgs.iter().any(|x| x.key() == m.key()) {
            m.id = format!("{},x:1", m.id);
        }
    }
    if ep.chance(8) && !s.msgs.is_empty() {
        // almost the id of another message
        let o = ep.pick(&s.msgs).clone();
        m.src = o.src;
        m.id = gen::near(ep, &o.id);
    }
    if m.saddr.trim().is_empty() || m.id.trim().is_empty() || s.msgs.iter().any(|x| x.key() == m.key()) {
        return Ok(());
    }
    let mut held = ep.chance(90);
    if held {
        ep.step(format!("gateway holds {}", m.brief()));
        let o = s.w.exec(&s.router, &s.gw, &json!({"route_messages": [m.json()]}), &[]);
        if o.is_err() {
            ep.note(short(&o));
            held = false;
        }
    }
    s.msgs.push(m);
    s.held.push(held);
    Ok(())
}

/// the set that would be current if made now
fn fresh(s: &S) -> Option<Set> {
    let r = s.reg.borrow();
    if r.active.is_empty() {
        return None;
    }
    let mut m = BTreeMap::new();
    for a in &r.active {
        let k = &s.wallet[*s.keys.get(a)?];
        m.insert(
            a.clone(),
            Member {
                ty: s.ty,
                pk: k.pk().to_vec(),
                w: 1,
            },
        );
    }
    Some(Set {
        thr: quorum(m.len() as u64, s.thr) as u128,
        m,
        at: s.w.height(),
    })
}

/// what a rotation attempted now would lead to: no rotation, this set, or failure
fn rotation(s: &S) -> Result<Option<Set>, &'static str> {
    let f = fresh(s).ok_or("no set can be made")?;
    let cur = s.cur.as_ref().ok_or("no current set")?;
    if f.diff(cur) <= s.max_diff {
        return Ok(None);
    }
    if s.next.as_ref().is_some_and(|n| !n.alike(&f)) {
        return Err("another set is pending");
    }
    Ok(Some(f))
}

fn started(ep: &mut Ep, s: &mut S, r: &cw_multi_test::AppResponse, orders: Vec<Vec<usize>>, rotate: Option<Set>) -> R {
    let p = evs(r, "proof_under_construction", &s.pr);
    let st = evs(r, "signing_started", &s.ms);
    if p.len() != 1 || st.len() != 1 {
        ep.fail(&["C50", "C27", "C28", "C29"], "session-announcement", format!("{p:?} {st:?}"));
        return ep.settle();
    }
    let unq = |x: Option<&str>| x.unwrap_or("").trim_matches('"').to_string();
    let id: u64 = unq(attr(p[0], "multisig_session_id")).parse().unwrap_or(0);
    let bid = unq(attr(p[0], "command_batch_id"));
    let d = hex::decode(unq(attr(st[0], "msg"))).unwrap_or_default();
    let set = s.cur.clone().expect("current set");
    ep.check(
        unq(attr(st[0], "session_id")) == id.to_string(),
        &["C50", "C28", "C27"],
        "session-of-proof",
        || format!("{:?} {:?}", p[0], st[0]),
    );
    let sid = unq(attr(st[0], "worker_set_id"));
    if !sid.is_empty() {
        ep.check(sid == set.real().id(), &["C50", "C28", "C29"], "session-worker-set", || {
            format!("session over worker set {sid}, the current one is {}", set.real().id())
        });
    }
    // batch identifiers name one batch
    let mut key = orders[0].clone();
    key.sort();
    let prev = s.batch_ids.entry(bid.clone()).or_insert_with(|| (key.clone(), rotate.clone())).clone();
    ep.check(prev == (key.clone(), rotate.clone()), &["C50", "C30", "C27"], "batch-id-shared", || {
        format!("batch id {bid} stands for {prev:?} and for {:?}", (&key, &rotate))
    });
    let dup = s.batch_ids.iter().find(|(b, c)| **b != bid && **c == (key.clone(), rotate.clone())).map(|x| x.0.clone());
    ep.check(dup.is_none(), &["C30"], "batch-id-differs", || format!("{bid} and {dup:?} for one request"));
    ep.count("session.started");
    if rotate.is_some() {
        ep.count("session.rotating");
    }
    s.sessions.push(Session {
        id,
        orders,
        rotate,
        set,
        digest: d,
        sigs: BTreeMap::new(),
        done: false,
    });
    ep.settle()?;
    let i = s.sessions.len() - 1;
    proof(ep, s, i)
}

fn construct(ep: &mut Ep, s: &mut S) -> R {
    if s.msgs.is_empty() {
        return Ok(());
    }
    let mut ids: Vec<usize>;
    if ep.chance(30) && !s.stored.is_empty() {
        // again, perhaps in another order
        let mut v: Vec<&Vec<usize>> = s.stored.keys().collect();
        v.sort();
        ids = ep.pick(&v).to_vec();
    } else {
        let ok = |i: &usize| s.held[*i] && s.msgs[*i].dst == s.chain && dest_bytes(s.e, &s.msgs[*i].daddr).is_some();
        let mut all: Vec<usize> = (0..s.msgs.len()).collect();
        if ep.chance(85) {
            all.retain(ok);
        }
        if all.is_empty() {
            return Ok(());
        }
        ep.shuffle(&mut all);
        let most = if all.len() > 12 && ep.chance(60) { all.len() } else { 5 };
        let n = ep.range(1, all.len().min(most) as u64) as usize;
        ids = all[..n].to_vec();
    }
    if ep.chance(60) {
        ep.shuffle(&mut ids);
    }
    let mut key = ids.clone();
    key.sort();
    let held = ids.iter().all(|i| s.held[*i]);
    let here = ids.iter().all(|i| s.msgs[*i].dst == s.chain);
    let valid = ids.iter().all(|i| dest_bytes(s.e, &s.msgs[*i].daddr).is_some());
    let cached = s.stored.contains_key(&key);
    let rot = if cached { Ok(None) } else { rotation(s) };
    let want: Result<Option<Set>, &'static str> = if !held {
        Err("not held")
    } else if !here {
        Err("other chain")
    } else if !cached && rot.is_err() {
        Err(rot.clone().unwrap_err())
    } else if !valid {
        Err("address")
    } else if s.cur.is_none() {
        Err("no current set")
    } else if !s.authorised {
        Err("not authorised")
    } else {
        rot
    };
    let req: Vec<Value> = ids
        .iter()
        .map(|i| {
            let mut v = s.msgs[*i].cc();
            if ep.chance(10) {
                v["chain"] = json!(gen::recase(ep, &s.msgs[*i].src));
            }
            v
        })
        .collect();
    ep.step(format!("construct proof of messages {ids:?} (expect {:?})", want.as_ref().map(|x| x.is_some())));
    let by = addr(*ep.pick(&["relayer", "admin", "worker0"]));
    let o = s.w.exec(&by, &s.pr, &json!({"construct_proof": {"message_ids": req}}), &[]);
    ep.note(short(&o));
    ep.count(match &want {
        Err("not held") => "construct.not_held",
        Err("other chain") => "construct.other_chain",
        Err("address") => "construct.bad_address",
        Err("another set is pending") => "construct.pending_set",
        Err(_) => "construct.no_set",
        Ok(Some(_)) => "construct.rotating",
        Ok(None) if cached => "construct.again",
        Ok(None) => "construct.ok",
    });
    ep.seen(&["C27", "C29"], &(&want.as_ref().map(|x| x.is_some()), cached, ids.len(), s.e.name(), s.cur.as_ref().map(|c| c.m.len()), s.next.is_some(), fresh(s).map(|f| s.cur.as_ref().map(|c| f.diff(c)))));
    match (&o, &want) {
        (Err(_), Err(_)) => {}
        (Ok(_), Err(why)) => {
            let t: &[&str] = match *why {
                "not held" | "other chain" | "address" => &["C27"],
                "another set is pending" | "no current set" | "no set can be made" => &["C29"],
                _ => &["C25"],
            };
            ep.fail(t, "proof-not-refused", why.to_string());
        }
        (Err(e), Ok(_)) => ep.fail(&["C27", "C29"], "proof-refused", e.clone()),
        (Ok(r), Ok(rot)) => {
            if let Some(n) = rot {
                s.next = Some(n.clone());
                let st = s.stored_rot.entry((key, n.clone())).or_default();
                if !st.contains(&ids) {
                    st.push(ids);
                }
                if st.len() > 1 {
                    ep.count("construct.rotating_permuted");
                }
                let mut orders = st.clone();
                orders.reverse();
                started(ep, s, r, orders, rot.clone())?;
            } else {
                let st = s.stored.entry(key).or_default();
                if !st.contains(&ids) {
                    st.push(ids);
                }
                let mut orders = st.clone();
                orders.reverse();
                started(ep, s, r, orders, None)?;
            }
        }
    }
    ep.settle()
}

fn update(ep: &mut Ep, s: &mut S) -> R {
    let want: Result<Option<Set>, &'static str> = if s.cur.is_none() {
        fresh(s).map(Some).ok_or("no set can be made")
    } else {
        match rotation(s) {
            Ok(None) => Err("unchanged"),
            Ok(Some(_)) if !s.authorised => Err("not authorised"),
            x => x,
        }
    };
    ep.step(format!("update worker set (expect {:?})", want.as_ref().map(|_| "ok")));
    let by = addr(*ep.pick(&["relayer", "admin", "worker0"]));
    let o = s.w.exec(&by, &s.pr, &json!("update_worker_set"), &[]);
    ep.note(short(&o));
    ep.count(match &want {
        Ok(_) if s.cur.is_none() => "update.first",
        Ok(_) => "update.ok",
        Err("unchanged") => "update.unchanged",
        Err("another set is pending") => "update.pending_set",
        Err(_) => "update.no_set",
    });
    ep.seen(&["C29"], &(want.as_ref().map(|_| ()), s.cur.as_ref().map(|c| c.m.len()), s.next.as_ref().map(|c| c.m.len()), s.max_diff, fresh(s).map(|f| s.cur.as_ref().map(|c| f.diff(c)))));
    match (&o, &want) {
        (Err(_), Err(_)) => {}
        (Ok(_), Err(why)) => ep.fail(if *why == "not authorised" { &["C25"] } else { &["C29"] }, "update-not-refused", why.to_string()),
        (Err(e), Ok(_)) => ep.fail(&["C29"], "update-refused", e.clone()),
        (Ok(r), Ok(set)) => {
            let set = set.clone().unwrap();
            if s.cur.is_none() {
                s.cur = Some(set.clone());
                registered(ep, s, &set)?;
            } else {
                s.next = Some(set.clone());
                started(ep, s, r, vec![vec![]], Some(set))?;
            }
        }
    }
    ep.settle()
}

fn registered(ep: &mut Ep, s: &mut S, set: &Set) -> R {
    let id = set.real().id();
    let q: Result<Value, String> = s.w.query(&s.ms, &json!({"get_worker_set": {"worker_set_id": id}}));
    ep.check(q.as_ref() == Ok(&set.json()), &["C29"], "set-not-registered", || format!("{q:?} instead of {}", set.json()));
    ep.settle()
}

fn confirm(ep: &mut Ep, s: &mut S) -> R {
    // let the verifier confirm something
    if ep.chance(60) {
        if let Some(base) = s.next.clone().or(s.cur.clone()) {
            let mut c = base.canon(s.e);
            match ep.below(8) {
                0 => c.1 += 1,
                1 => {
                    let i = ep.below(c.0.len() as u64) as usize;
                    c.0[i].1 += 1;
                }
                2 => {
                    c.0.pop();
                }
                3 => {
                    if let Some(x) = &s.cur {
                        c = x.canon(s.e);
                    }
                }
                _ => {}
            }
            if ep.chance(15) {
                s.confirmed.borrow_mut().clear();
            }
            s.confirmed.borrow_mut().push(c);
        }
    } else if ep.chance(15) {
        s.confirmed.borrow_mut().clear();
    }
    let ok = s.next.as_ref().is_some_and(|n| s.confirmed.borrow().contains(&n.canon(s.e)));
    ep.step(format!("confirm worker set (pending {} expect {ok})", s.next.is_some()));
    let by = addr(*ep.pick(&["relayer", "admin", "worker0"]));
    let o = s.w.exec(&by, &s.pr, &json!("confirm_worker_set"), &[]);
    ep.note(short(&o));
    ep.count(match (ok, s.next.is_some()) {
        (true, _) => "confirm.ok",
        (_, true) => "confirm.unconfirmed",
        _ => "confirm.nothing_pending",
    });
    match (&o, ok) {
        (Err(_), false) => {}
        (Ok(_), false) => ep.fail(&["C29"], "set-confirmed-improperly", format!("pending {:?}", s.next)),
        (Err(e), true) => ep.fail(&["C29"], "confirmation-refused", e.clone()),
        (Ok(_), true) => {
            let n = s.next.take().unwrap();
            registered(ep, s, &n)?;
            s.cur = Some(n);
        }
    }
    ep.settle()
}

fn current(ep: &mut Ep, s: &mut S) -> R {
    let q: Result<Value, String> = s.w.query(&s.pr, &json!("get_worker_set"));
    match (&s.cur, &q) {
        (None, Err(_)) => {}
        (Some(c), Ok(v)) if *v == c.json() => {}
        _ => ep.fail(&["C29"], "current-set", format!("{q:?} instead of {:?}", s.cur.as_ref().map(|c| c.json()))),
    }
    ep.settle()
}

fn sign(ep: &mut Ep, s: &mut S) -> R {
    let mut open: Vec<usize> = (0..s.sessions.len()).filter(|i| !s.sessions[*i].done).collect();
    if open.is_empty() || ep.chance(15) {
        open = (0..s.sessions.len()).collect();
    }
    if open.is_empty() {
        return Ok(());
    }
    let i = *ep.pick(&open);
    let x = &s.sessions[i];
    let mut who: Vec<String> = x.set.m.keys().filter(|a| !x.sigs.contains_key(*a)).cloned().collect();
    ep.shuffle(&mut who);
    let n = ep.range(1, who.len().max(1) as u64) as usize;
    for a in who.into_iter().take(n) {
        let x = &s.sessions[i];
        let Some(k) = s.wallet.iter().find(|k| k.pk() == x.set.m[&a].pk).cloned() else {
            continue;
        };
        let mut sig = k.sign(&x.digest);
        let mut kind = "";
        if s.ty == "ecdsa" && ep.chance(20) {
            sig = flip_s(&sig);
            kind = " (high s)";
        }
        let id = x.id;
        ep.step(format!("{a} signs session {id}{kind}"));
        let o = s.w.exec(
            &addr(&a),
            &s.ms,
            &json!({"submit_signature": {"session_id": id.to_string(), "signature": hex::encode(&sig)}}),
            &[],
        );
        ep.note(short(&o));
        if o.is_ok() {
            if !kind.is_empty() {
                ep.count("sign.high_s");
            }
            ep.count("sign.accepted");
            s.sessions[i].sigs.insert(a, sig);
        } else if !s.sessions[i].done {
            ep.fail(&["C23"], "signature-refused", short(&o));
            ep.settle()?;
        }
        if s.sessions[i].set.m.len() < 10 || ep.chance(12) {
            proof(ep, s, i)?;
        }
    }
    proof(ep, s, i)
}

fn proof(ep: &mut Ep, s: &mut S, i: usize) -> R {
    let x = &s.sessions[i];
    let sid = x.id.to_string();
    let q: Result<GetProofResponse, String> = s.w.query(&s.pr, &json!({"get_proof": {"multisig_session_id": sid}}));
    let p = match q {
        Ok(p) => p,
        Err(e) => {
            ep.fail(&["C27", "C28"], "proof-query-fails", e);
            return ep.settle();
        }
    };
    let ms: Result<Value, String> = s.w.query(&s.ms, &json!({"get_multisig": {"session_id": sid}}));
    let complete = ms.as_ref().is_ok_and(|m| m["state"].get("completed").is_some());
    // the data
    let plain = Plain {
        chain: p.data.destination_chain_id.to_be_bytes(),
        cmds: p.data.commands.iter().map(|c| (c.id.to_vec(), c.ty.to_string(), c.params.to_vec())).collect(),
    };
    ep.check(plain.chain == s.chain_id, &["C27"], "destination-chain-id", || format!("{:?}", p.data.destination_chain_id));
    let approvals: Vec<&Cmd> = plain.cmds.iter().filter(|c| c.1 == "approveContractCall").collect();
    let transfers: Vec<&Cmd> = plain.cmds.iter().filter(|c| c.1 == "transferOperatorship").collect();
    let n = x.orders[0].len();
    ep.check(
        approvals.len() == n && plain.cmds.len() == n + transfers.len() && transfers.len() == x.rotate.is_some() as usize,
        &["C27"],
        "commands-of-batch",
        || format!("{:?} for {n} messages, rotating {}", plain.cmds.iter().map(|c| &c.1).collect::<Vec<_>>(), x.rotate.is_some()),
    );
    if let (Some(r), Some(t)) = (&x.rotate, transfers.first()) {
        let want = r.canon(s.e);
        let got = decode_transfer(s.e, &t.2);
        ep.check(got.as_ref().is_some_and(|g| same_ops(g, &want)), &["C27", "C29"], "transfer-parameters", || {
            format!("{got:?} instead of {want:?}")
        });
    }
    let matches = |o: &Vec<usize>| -> Result<(), String> {
        let ids: Vec<Value> = p.message_ids.iter().map(|c| serde_json::to_value(c).unwrap()).collect();
        let want: Vec<Value> = o.iter().map(|i| s.msgs[*i].cc()).collect();
        if ids != want {
            return Err(format!("message ids {ids:?} instead of {want:?}"));
        }
        for (c, i) in approvals.iter().zip(o) {
            let m = &s.msgs[*i];
            if c.0 != keccak(format!("{}:{}", m.src, m.id).as_bytes()) {
                return Err(format!("command id {} for {}", hex::encode(&c.0), m.brief()));
            }
            let got = decode_approval(s.e, &c.2);
            let want = (m.src.clone(), m.saddr.clone(), dest_bytes(s.e, &m.daddr).unwrap_or_default(), m.hash.to_vec());
            if got.as_ref() != Some(&want) {
                return Err(format!("{got:?} instead of {want:?}"));
            }
        }
        Ok(())
    };
    let mut why = String::new();
    let good = x.orders.iter().any(|o| match matches(o) {
        Ok(()) => true,
        Err(e) => {
            why = e;
            false
        }
    });
    ep.check(good, &["C27"], "approvals-of-batch", || why);
    ep.count_n("commands.checked", n as u64);
    // the digest that is being signed
    let own = encode_data(s.e, &plain);
    ep.check(digest(s.e, &own)[..] == x.digest[..], &["C28", "C27", "C30"], "digest-of-data", || {
        format!("session signs {}", hex::encode(&x.digest))
    });
    let prev = s.digests.entry(x.digest.clone()).or_insert_with(|| plain.clone()).clone();
    ep.check(prev == plain, &["C30"], "digest-shared", || hex::encode(&x.digest));
    // the proof
    match &p.status {
        ProofStatus::Pending => {
            ep.count("proof.pending");
            ep.check(!complete, &["C28"], "proof-withheld", || format!("session {sid} is complete"));
        }
        ProofStatus::Completed { execute_data } => {
            if !complete {
                ep.fail(&["C28"], "proof-of-pending-session", sid.clone());
                return ep.settle();
            }
            let set = &x.set;
            let weight = x.sigs.len() as u128;
            ep.seen(&["C28"], &(s.e.name(), s.ty, set.m.len(), set.thr, x.sigs.keys().collect::<Vec<_>>(), n, x.rotate.is_some()));
            if set.shared_key() {
                ep.count("proof.shared_key");
                ep.fail(&["C28"], "operators-share-a-key", format!("workers {:?} share a key; the gateway cannot accept the set", set.m.keys()));
                return ep.settle();
            }
            match decode_execute(s.e, execute_data) {
                None => ep.fail(&["C28"], "execute-data-malformed", hex::encode(execute_data)),
                Some(pr) => {
                    let d = decode_data(s.e, &pr.data);
                    ep.check(d.as_ref() == Some(&plain), &["C27", "C28"], "data-of-proof", || format!("{d:?} instead of {plain:?}"));
                    match judge(s.e, set, &pr) {
                        Ok(k) => {
                            ep.count("proof.accepted");
                            if (k as u128) < weight {
                                ep.count("proof.trimmed");
                            }
                        }
                        Err((sig, m)) => ep.fail(&["C28"], sig, m),
                    }
                }
            }
        }
    }
    s.sessions[i].done = complete;
    let _ = s.grace;
    ep.settle()
}

// ---------------------------------------------------------------- unequal weights: the real prover over a stub multisig

pub fn run_weighted(ep: &mut Ep) -> R {
    let mut w = W::new();
    let (gw, gstub) = w.stub();
    let (ms, mstub) = w.stub();
    let (sr, rstub) = w.stub();
    let (ver, _) = w.stub();
    let e = if ep.chance(50) { Enc::Abi } else { Enc::Bcs };
    let cid = chain_id(ep, e);
    let nw = match ep.below(10) {
        0 => 1,
        1 => ep.range(10, 30),
        _ => ep.range(2, 9),
    } as usize;
    let big = ep.chance(15);
    let mut keys: BTreeMap<String, Key> = BTreeMap::new();
    let mut set = Set {
        m: BTreeMap::new(),
        thr: 0,
        at: 1,
    };
    for i in 0..nw {
        let unc = ep.chance(20);
        let k = Key::ec(ep, unc);
        let wt: u128 = if big {
            (ep.range(1, u64::MAX) as u128) << ep.below(40)
        } else {
            match ep.below(3) {
                0 => 1,
                1 => ep.range(1, 5) as u128,
                _ => ep.range(1, 1000) as u128,
            }
        };
        let a = format!("worker{i}");
        set.m.insert(
            a.clone(),
            Member {
                ty: "ecdsa",
                pk: k.pk().to_vec(),
                w: wt,
            },
        );
        keys.insert(a, k);
    }
    let total: u128 = set.m.values().map(|m| m.w).sum();
    set.thr = match ep.below(5) {
        0 => total,
        1 => 1,
        _ => total * ep.range(50, 100) as u128 / 100,
    }
    .max(1);
    let m = {
        let mut m = gen::msg(ep, "ethereum", "dest");
        m.daddr = dest(ep, e);
        m
    };
    let mj = m.json();
    gstub.on_query(move |q| {
        let ids = q.get("get_messages").ok_or("query")?["message_ids"].as_array().ok_or("ids")?.len();
        Ok(Value::Array(vec![mj.clone(); ids]))
    });
    // one signer is enough for the prover itself: the session's signers are those the multisig reports
    let reg = Rc::new(RefCell::new(Reg {
        service: "s".into(),
        chain: "dest".into(),
        active: vec!["worker0".into()],
        down: false,
    }));
    stub_registry(&rstub, &reg);
    let report: Rc<RefCell<Value>> = Rc::new(RefCell::new(Value::Null));
    let asked: Rc<RefCell<Option<Vec<u8>>>> = Rc::new(RefCell::new(None));
    let (r2, a2) = (report.clone(), asked.clone());
    let k0 = keys["worker0"].json();
    mstub.on_query(move |q| {
        if q.get("get_public_key").is_some() {
            return Ok(k0.clone());
        }
        q.get("get_multisig").ok_or("unexpected query")?;
        Ok(r2.borrow().clone())
    });
    mstub.on_exec(move |_, _, m| {
        let mut r = StubReply::default();
        if let Some(x) = m.get("start_signing_session") {
            *a2.borrow_mut() = hex::decode(x["msg"].as_str().unwrap_or("")).ok();
            r.data = Some(cosmwasm_std::Binary(b"\"7\"".to_vec()));
        }
        Ok(r)
    });
    let pr = w
        .install(
            Box::new(
                ContractWrapper::new(
                    multisig_prover::contract::execute,
                    multisig_prover::contract::instantiate,
                    multisig_prover::contract::query,
                )
                .with_reply(multisig_prover::contract::reply),
            ),
            &json!({
                "admin_address": "admin", "gateway_address": gw, "multisig_address": ms,
                "service_registry_address": sr, "voting_verifier_address": ver,
                "destination_chain_id": Uint256::from_be_bytes(cid), "signing_threshold": ["2", "3"],
                "service_name": "s", "chain_name": "dest", "worker_set_diff_threshold": 0,
                "encoder": e.name(), "key_type": "ecdsa",
            }),
        )
        .expect("prover");
    let by = addr("relayer");
    ep.step("update and construct");
    let o = s_ok(w.exec(&by, &pr, &json!("update_worker_set"), &[]))
        .and_then(|_| s_ok(w.exec(&by, &pr, &json!({"construct_proof": {"message_ids": [m.cc()]}}), &[])));
    let Some(d) = asked.borrow().clone() else {
        ep.fail(&["C27"], "weighted-setup", format!("{o:?}"));
        return ep.settle();
    };
    // sessions in every stage
    for _ in 0..if ep.thorough { 8 } else { 4 } {
        let mut who: Vec<String> = set.m.keys().cloned().collect();
        ep.shuffle(&mut who);
        let mut signed: BTreeSet<String> = BTreeSet::new();
        let mut sum = 0;
        let target = match ep.below(3) {
            0 => set.thr,
            1 => total,
            _ => set.thr / 2 + ep.below(1 + set.thr.min(1 << 60) as u64) as u128,
        };
        for a in who {
            if sum >= target {
                break;
            }
            sum += set.m[&a].w;
            signed.insert(a);
        }
        let complete = sum >= set.thr;
        let mut list: Vec<Value> = set
            .m
            .iter()
            .map(|(a, x)| {
                let sig = if signed.contains(a) {
                    let mut g = keys[a].sign(&d);
                    if ep.chance(25) {
                        g = flip_s(&g);
                    }
                    json!({"ecdsa": hex::encode(g)})
                } else {
                    Value::Null
                };
                json!([{"address": a, "weight": x.w.to_string(), "pub_key": {"ecdsa": hex::encode(&x.pk)}}, sig])
            })
            .collect();
        ep.shuffle(&mut list);
        *report.borrow_mut() = json!({
            "state": if complete { json!({"completed": {"completed_at": 5}}) } else { json!("pending") },
            "quorum": set.thr.to_string(),
            "signers": list,
        });
        ep.step(format!("proof with {} of {nw} signatures, weight {sum} of {} (total {total})", signed.len(), set.thr));
        let q: Result<GetProofResponse, String> = w.query(&pr, &json!({"get_proof": {"multisig_session_id": "7"}}));
        match q {
            Err(x) => ep.fail(&["C28"], "proof-query-fails", x),
            Ok(p) => match (p.status, complete) {
                (ProofStatus::Pending, false) => ep.count("weighted.pending"),
                (ProofStatus::Completed { execute_data }, true) => {
                    ep.seen(&["C28"], &(e.name(), nw, set.thr, set.m.values().map(|x| x.w).collect::<Vec<_>>(), &signed));
                    match decode_execute(e, &execute_data) {
                        None => ep.fail(&["C28"], "execute-data-malformed", hex::encode(&execute_data)),
                        Some(x) => {
                            ep.check(digest(e, &x.data)[..] == d[..], &["C28"], "digest-of-data", || hex::encode(&d));
                            match judge(e, &set, &x) {
                                Ok(k) => {
                                    ep.count("weighted.accepted");
                                    if k < signed.len() {
                                        ep.count("weighted.trimmed");
                                    }
                                }
                                Err((g, m)) => ep.fail(&["C28"], g, m),
                            }
                        }
                    }
                }
                (_, c) => ep.fail(&["C28"], "proof-status", format!("session complete: {c}")),
            },
        }
        ep.settle()?;
    }
    Ok(())
}

fn s_ok(o: Out) -> Result<(), String> {
    o.map(|_| ())
}

// ---------------------------------------------------------------- C30: identifiers of near-identical things

pub fn run_ids(ep: &mut Ep) -> R {
    let e = if ep.chance(50) { Enc::Abi } else { Enc::Bcs };
    batches(ep, e)?;
    requests(ep)?;
    sets(ep)?;
    operators(ep)
}

fn plain_batch(p: &Plain, e: Enc) -> CommandBatch {
    CommandBatch {
        id: BatchId::from(HexBinary::from(vec![1u8; 32])),
        message_ids: vec![],
        data: Data {
            destination_chain_id: Uint256::from_be_bytes(p.chain),
            commands: p
                .cmds
                .iter()
                .map(|c| Command {
                    id: HexBinary::from(c.0.clone()),
                    ty: if c.1 == "approveContractCall" {
                        CommandType::ApproveContractCall
                    } else {
                        CommandType::TransferOperatorship
                    },
                    params: HexBinary::from(c.2.clone()),
                })
                .collect(),
        },
        encoder: e.real(),
    }
}

fn ty(ep: &mut Ep) -> String {
    if ep.chance(80) { "approveContractCall" } else { "transferOperatorship" }.to_string()
}

fn batches(ep: &mut Ep, e: Enc) -> R {
    let mut base = Plain {
        chain: chain_id(ep, e),
        cmds: vec![],
    };
    let wide = ep.big();
    let many = if wide && ep.chance(50) { ep.big_size() } else { ep.below(4) };
    for _ in 0..many {
        let n = *ep.pick(&[0usize, 1, 31, 32, 33, 64, 100]);
        let n = if wide && many < 4 { n + *ep.pick(&[127usize, 255, 256, 300, 1000, 16_384, 65_536]) } else { n };
        let p: Vec<u8> = (0..n).map(|_| ep.below(3) as u8).collect();
        let t = ty(ep);
        base.cmds.push((ep.bytes::<32>().to_vec(), t, p));
    }
    let mut all = vec![base.clone(), base.clone()];
    for _ in 0..12 {
        let mut p = ep.pick(&all).clone();
        let n = p.cmds.len() as u64;
        match ep.below(9) {
            0 => p.chain[31 - ep.below(8) as usize] ^= 1 << ep.below(8),
            1 if n > 0 => {
                let i = ep.below(n) as usize;
                p.cmds[i].0[ep.below(32) as usize] ^= 1 << ep.below(8);
            }
            2 if n > 0 => {
                let i = ep.below(n) as usize;
                p.cmds[i].1 = ty(ep);
            }
            2 => p.chain[ep.below(32) as usize] ^= if e == Enc::Abi { 1 << ep.below(8) } else { 0 },
            3 if n > 0 => {
                let i = ep.below(n) as usize;
                p.cmds[i].2.push(0);
            }
            4 if n > 0 => {
                let i = ep.below(n) as usize;
                p.cmds[i].2.pop();
            }
            5 if n > 1 => {
                let i = ep.below(n - 1) as usize;
                p.cmds.swap(i, i + 1);
            }
            6 if n > 1 => {
                // move a byte from one command to the next
                let i = ep.below(n - 1) as usize;
                if let Some(b) = p.cmds[i].2.pop() {
                    p.cmds[i + 1].2.insert(0, b);
                }
            }
            7 if n > 0 => {
                p.cmds.pop();
            }
            _ => {
                let c = if n > 0 { p.cmds[0].clone() } else { (vec![0; 32], "approveContractCall".into(), vec![]) };
                p.cmds.push(c);
            }
        }
        all.push(p);
    }
    let ds: Vec<Vec<u8>> = all.iter().map(|p| plain_batch(p, e).msg_digest().to_vec()).collect();
    for i in 0..all.len() {
        for j in 0..i {
            let same = all[i] == all[j];
            ep.count(if same { "digest.equal" } else { "digest.different" });
            ep.check((ds[i] == ds[j]) == same, &["C30"], "digest-binds-content", || {
                format!("{:?} and {:?}: digests {} and {}", all[i], all[j], hex::encode(&ds[i]), hex::encode(&ds[j]))
            });
        }
    }
    ep.seen(&["C30"], &(&ds[0], &ds[5]));
    ep.step("digests of 14 near-identical batches");
    ep.settle()
}

/// a number of any size
fn wide(ep: &mut Ep) -> u128 {
    match ep.below(4) {
        0 => ep.range(1, 4) as u128,
        1 => ep.range(1, 1000) as u128,
        2 => (1u128 << ep.below(120)) + ep.below(3) as u128,
        _ => (ep.range(1, u64::MAX) as u128) << ep.below(56),
    }
}
/// another number, close in some notation
fn near_num(ep: &mut Ep, n: u128) -> u128 {
    let x = match ep.below(6) {
        0 | 1 => n ^ (1 << ep.below(120)),
        2 => n.checked_mul(10).unwrap_or(n / 10),
        3 => n / 10,
        4 => n + 256,
        _ => n + 1,
    };
    if x == 0 || x == n {
        n + 1
    } else {
        x
    }
}

fn one_set(ep: &mut Ep) -> Set {
    let n = if ep.big() && ep.chance(60) { ep.range(5, 40) } else { ep.range(1, 4) };
    let mut m = BTreeMap::new();
    for i in 0..n {
        let k = if ep.chance(80) { Key::ec(ep, false) } else { Key::ed(ep) };
        m.insert(
            format!("w{i}"),
            Member {
                ty: k.ty(),
                pk: k.pk().to_vec(),
                w: wide(ep),
            },
        );
    }
    Set {
        m,
        thr: wide(ep),
        at: if ep.chance(50) { ep.below(100) } else { ep.range(0, u64::MAX) },
    }
}

fn vary_set(ep: &mut Ep, s: &Set) -> Set {
    let mut s = s.clone();
    let ks: Vec<String> = s.m.keys().cloned().collect();
    let k = ep.pick(&ks).clone();
    match ep.below(7) {
        0 => s.thr = near_num(ep, s.thr),
        1 => s.at ^= if ep.chance(30) { 1 } else { 1 << ep.below(64) },
        2 => {
            let x = s.m.get_mut(&k).unwrap();
            x.w = near_num(ep, x.w);
        }
        3 => {
            let n = Key::ec(ep, false);
            let x = s.m.get_mut(&k).unwrap();
            x.ty = "ecdsa";
            x.pk = n.pk().to_vec();
        }
        4 => {
            let x = s.m.remove(&k).unwrap();
            let mut n = gen::near(ep, &k);
            if s.m.contains_key(&n) || n.len() < 2 {
                n = format!("{k}0");
            }
            s.m.insert(n, x);
        }
        5 if ks.len() > 1 => {
            // two signers swap keys
            let a = s.m[&ks[0]].clone();
            let b = s.m[&ks[1]].clone();
            s.m.insert(ks[0].clone(), Member { w: a.w, ..b.clone() });
            s.m.insert(ks[1].clone(), Member { w: b.w, ..a });
        }
        _ => {
            s.m.remove(&k);
        }
    }
    s
}

fn sets(ep: &mut Ep) -> R {
    let base = one_set(ep);
    let mut all = vec![base.clone(), base];
    for _ in 0..8 {
        let b = ep.pick(&all).clone();
        if b.m.is_empty() {
            continue;
        }
        all.push(vary_set(ep, &b));
    }
    let ids: Vec<String> = all.iter().map(|s| s.real().id()).collect();
    for i in 0..all.len() {
        for j in 0..i {
            let same = all[i] == all[j];
            ep.count(if same { "set_id.equal" } else { "set_id.different" });
            ep.check((ids[i] == ids[j]) == same, &["C30"], "set-id-binds-content", || {
                format!("{:?} and {:?}", all[i], all[j])
            });
        }
    }
    ep.step("identifiers of near-identical worker sets");
    ep.settle()
}

fn operators(ep: &mut Ep) -> R {
    let n = if ep.big() && ep.chance(60) { ep.big_size() } else { ep.range(0, 5) };
    let mut base: Vec<(Vec<u8>, u128)> = vec![];
    for _ in 0..n {
        let len = *ep.pick(&[1usize, 2, 20, 20, 32, 33]);
        let a: Vec<u8> = (0..len).map(|_| ep.below(4) as u8).collect();
        if base.iter().all(|x| x.0 != a) {
            let w = if ep.chance(60) { ep.range(0, 12) as u128 } else { wide(ep) };
            base.push((a, w));
        }
    }
    let thr = if ep.chance(60) { ep.range(0, 20) as u128 } else { wide(ep) };
    let mut all = vec![(base.clone(), thr), (base, thr)];
    for _ in 0..10 {
        let (mut b, mut t) = ep.pick(&all).clone();
        let n = b.len() as u64;
        match ep.below(6) {
            0 => t = near_num(ep, t),
            1 if n > 0 => {
                let i = ep.below(n) as usize;
                b[i].1 = near_num(ep, b[i].1);
            }
            2 if n > 0 => {
                let i = ep.below(n) as usize;
                b[i].0.push(ep.below(2) as u8);
            }
            3 if n > 1 => {
                let w = b[0].1;
                b[0].1 = b[1].1;
                b[1].1 = w;
            }
            4 if n > 0 => {
                b.pop();
            }
            _ => ep.shuffle(&mut b),
        }
        let mut a: Vec<&Vec<u8>> = b.iter().map(|x| &x.0).collect();
        a.sort();
        a.dedup();
        if a.len() == b.len() {
            all.push((b, t));
        }
    }
    let hs: Vec<[u8; 32]> = all
        .iter()
        .map(|(b, t)| {
            axelar_wasm_std::operators::Operators::new(
                b.iter().map(|(a, w)| (HexBinary::from(a.clone()), Uint256::from(*w))).collect(),
                Uint256::from(*t),
            )
            .hash()
        })
        .collect();
    let canon: Vec<_> = all
        .iter()
        .map(|(b, t)| {
            let mut b = b.clone();
            b.sort();
            (b, *t)
        })
        .collect();
    for i in 0..all.len() {
        for j in 0..i {
            let same = canon[i] == canon[j];
            ep.count(if same { "operators.equal" } else { "operators.different" });
            ep.check((hs[i] == hs[j]) == same, &["C30"], "operators-hash", || format!("{:?} and {:?}", all[i], all[j]));
        }
    }
    ep.step("hashes of near-identical operator sets");
    ep.settle()
}

fn requests(ep: &mut Ep) -> R {
    // ids made of few pieces, so that boundaries can move
    let piece = |ep: &mut Ep| ep.pick(&["a", "b", "a:b", ",", "a,b:c", "b:a", "x", ",a:x", "1", "A", "B:A", " "]).to_string();
    let wide = ep.big();
    let long = if ep.chance(12) { "q".repeat(*ep.pick(&[60usize, 120, 127, 250, 255, 256, 300, 1000])) } else { String::new() };
    let sets: Vec<Set> = {
        let a = one_set(ep);
        let b = vary_set(ep, &a);
        vec![a, b]
    };
    let h0 = sets[0].real().hash().to_hex();
    let hp = sets[0].real().hash().to_string();
    type Req = (Vec<(String, String)>, Option<Set>);
    let mut all: Vec<Req> = vec![];
    for _ in 0..4 {
        let n = if wide && ep.chance(40) { ep.big_size() } else { ep.range(1, 4) };
        let ids = (0..n)
            .map(|i| {
                let c = ep.pick(&["a", "b", "ab"]).to_string();
                let k = ep.range(1, 3);
                let mut t = format!("{long}{}", (0..k).map(|_| piece(ep)).collect::<String>());
                if t.trim().is_empty() || n > 4 {
                    t = format!("{t}{i}");
                }
                (c, t)
            })
            .collect();
        let st = match ep.below(4) {
            0 => Some(sets[0].clone()),
            1 => Some(sets[1].clone()),
            _ => None,
        };
        all.push((ids, st));
    }
    for _ in 0..12 {
        let (mut ids, mut st) = ep.pick(&all).clone();
        match ep.below(8) {
            0 => ep.shuffle(&mut ids),
            6 => {
                let i = ep.below(ids.len() as u64) as usize;
                ids[i].1 = gen::near(ep, &ids[i].1);
            }
            7 => {
                // an id more, or one less
                if ids.len() > 1 && ep.chance(50) {
                    let i = ep.below(ids.len() as u64) as usize;
                    ids.remove(i);
                } else {
                    let (c, i) = ep.pick(&ids).clone();
                    ids.push((c, gen::near(ep, &i)));
                }
            }
            1 if ids.len() > 1 => {
                // two ids become one
                ids.sort_by_key(|(c, i)| format!("{c}:{i}"));
                let (c, i) = ids.remove(1);
                ids[0].1 = format!("{},{c}:{i}", ids[0].1);
            }
            2 => {
                // a set's hash inside an id
                if st.take().is_some() {
                    ids.sort_by_key(|(c, i)| format!("{c}:{i}"));
                    let l = ids.len() - 1;
                    ids[l].1 = format!("{},{}", ids[l].1, if ep.chance(50) { &h0 } else { &hp });
                }
            }
            3 => {
                st = match st {
                    None => Some(sets[ep.below(2) as usize].clone()),
                    Some(_) => None,
                }
            }
            4 => {
                let i = ep.below(ids.len() as u64) as usize;
                ids[i].1.push('x');
            }
            _ => {}
        }
        all.push((ids, st));
    }
    // no message twice in one request
    all.retain(|(ids, _)| ids.iter().collect::<BTreeSet<_>>().len() == ids.len());
    let bid = |r: &Req, viab: bool| -> Result<BatchId, String> {
        if !viab {
            let ids: Vec<_> = r
                .0
                .iter()
                .map(|(c, i)| serde_json::from_value::<connection_router::state::CrossChainId>(json!({"chain": c, "id": i})).map_err(|e| e.to_string()))
                .collect::<Result<_, _>>()?;
            return Ok(BatchId::new(&ids, r.1.as_ref().map(|s| s.real())));
        }
        let mut b = CommandBatchBuilder::new(Uint256::from(1u128), Encoder::Abi);
        for (c, i) in &r.0 {
            let m = Msg {
                id: i.clone(),
                src: c.clone(),
                saddr: "s".into(),
                dst: "d".into(),
                daddr: "11".repeat(20),
                hash: [1; 32],
            };
            b.add_message(gen::typed(&m)).map_err(|e| e.to_string())?;
        }
        if let Some(s) = &r.1 {
            let all_ec = s.m.values().all(|x| x.ty == "ecdsa");
            if !all_ec {
                return Err("not for this encoder".into());
            }
            b.add_new_worker_set(s.real()).map_err(|e| e.to_string())?;
        }
        Ok(b.build().map_err(|e| e.to_string())?.id)
    };
    let canon: Vec<Req> = all
        .iter()
        .map(|(i, s)| {
            let mut i = i.clone();
            i.sort();
            (i, s.clone())
        })
        .collect();
    let ids: Vec<Result<BatchId, String>> = all.iter().map(|r| bid(r, false)).collect();
    for i in 0..all.len() {
        let Ok(x) = &ids[i] else { continue };
        if let Ok(b) = bid(&all[i], true) {
            ep.check(b == *x, &["C30"], "batch-id-of-builder", || format!("{:?}: {b:?} and {x:?}", all[i]));
        }
        for j in 0..i {
            let Ok(y) = &ids[j] else { continue };
            let same = canon[i] == canon[j];
            ep.count(if same { "batch_id.equal" } else { "batch_id.different" });
            ep.check((x == y) == same, &["C30"], "batch-id-binds-request", || {
                format!("{:?} and {:?}: {x:?} and {y:?}", all[i], all[j])
            });
        }
    }
    ep.step("identifiers of near-identical requests");
    ep.settle()
}
