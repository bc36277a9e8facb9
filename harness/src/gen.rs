//! Input generators shared by the drivers.
use crate::core::Ep;
use serde_json::{json, Value};

/// harness-side representation of a routed message; chain names are kept canonical (lower case)
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Msg {
    pub id: String,
    pub src: String,
    pub saddr: String,
    pub dst: String,
    pub daddr: String,
    pub hash: [u8; 32],
}

impl Msg {
    pub fn json(&self) -> Value {
        json!({
            "cc_id": {"chain": self.src, "id": self.id},
            "source_address": self.saddr,
            "destination_chain": self.dst,
            "destination_address": self.daddr,
            "payload_hash": hex::encode(self.hash),
        })
    }
    /// same message, with chain names spelled in random case
    pub fn json_cased(&self, ep: &mut Ep) -> Value {
        let mut v = self.json();
        if ep.chance(15) {
            v["cc_id"]["chain"] = Value::String(recase(ep, &self.src));
        }
        if ep.chance(15) {
            v["destination_chain"] = Value::String(recase(ep, &self.dst));
        }
        v
    }
    pub fn parse(v: &Value) -> Option<Msg> {
        let o = v.as_object()?;
        if o.len() != 5 {
            return None;
        }
        let cc = v.get("cc_id")?;
        let h = hex::decode(v.get("payload_hash")?.as_str()?).ok()?;
        Some(Msg {
            id: cc.get("id")?.as_str()?.to_string(),
            src: cc.get("chain")?.as_str()?.to_string(),
            saddr: v.get("source_address")?.as_str()?.to_string(),
            dst: v.get("destination_chain")?.as_str()?.to_string(),
            daddr: v.get("destination_address")?.as_str()?.to_string(),
            hash: h.try_into().ok()?,
        })
    }
    pub fn parse_all(v: &Value) -> Option<Vec<Msg>> {
        v.as_array()?.iter().map(Msg::parse).collect()
    }
    pub fn event_attrs(&self) -> Vec<(String, String)> {
        vec![
            ("id".into(), self.id.clone()),
            ("source_chain".into(), self.src.clone()),
            ("source_addresses".into(), self.saddr.clone()),
            ("destination_chain".into(), self.dst.clone()),
            ("destination_addresses".into(), self.daddr.clone()),
            ("payload_hash".into(), hex::encode(self.hash)),
        ]
    }
    /// its attributes when a contract tells of it
    pub fn told(&self) -> Vec<(&'static str, String)> {
        vec![
            ("id", self.id.clone()),
            ("source_chain", self.src.clone()),
            ("source_addresses", self.saddr.clone()),
            ("destination_chain", self.dst.clone()),
            ("destination_addresses", self.daddr.clone()),
            ("payload_hash", hex::encode(self.hash)),
        ]
    }
    pub fn cc(&self) -> Value {
        json!({"chain": self.src, "id": self.id})
    }
    pub fn key(&self) -> (String, String) {
        (self.src.clone(), self.id.clone())
    }
    pub fn brief(&self) -> String {
        format!(
            "{}:{} {}->{}:{} #{}",
            self.src,
            self.id,
            self.saddr,
            self.dst,
            self.daddr,
            hex::encode(&self.hash[..4])
        )
    }
}

/// typed conversion (for APIs that take Rust values)
pub fn typed(m: &Msg) -> connection_router::Message {
    serde_json::from_value(m.json()).expect("valid message")
}

pub fn recase(ep: &mut Ep, s: &str) -> String {
    s.chars()
        .map(|c| if ep.chance(50) { c.to_ascii_uppercase() } else { c })
        .collect()
}

/// a different string that careless handling might take for the same: case, blanks, zeros, prefixes, one character
pub fn near(ep: &mut Ep, s: &str) -> String {
    let n = match ep.below(12) {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => format!("0{s}"),
        5 => format!("0x{s}"),
        6 => s.trim_start_matches("0x").to_string(),
        7 => format!("{s}\u{0}"),
        8 => {
            // another case for one letter
            let mut c: Vec<char> = s.chars().collect();
            let at: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphabetic()).collect();
            if !at.is_empty() {
                let i = *ep.pick(&at);
                c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            }
            c.into_iter().collect()
        }
        9 => {
            // one character less
            let mut c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                let i = ep.below(c.len() as u64) as usize;
                c.remove(i);
            }
            c.into_iter().collect()
        }
        10 => {
            // two neighbours swapped
            let mut c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                let i = ep.below(c.len() as u64 - 1) as usize;
                c.swap(i, i + 1);
            }
            c.into_iter().collect()
        }
        _ => format!("{s}x"),
    };
    if n == s || n.trim().is_empty() {
        format!("{s}x")
    } else {
        n
    }
}

pub fn text(ep: &mut Ep) -> String {
    match ep.below(12) {
        0 => "0x".to_string() + &hex::encode(ep.bytes::<20>()),
        1 => hex::encode(ep.bytes::<20>()),
        2 => "addr:with:colons".into(),
        3 => "a,b,c".into(),
        4 => "żółw-ß-Ünï".into(),
        5 => "\"quoted\\\"\n\tx".into(),
        6 => "x".repeat(ep.range(1, 90) as usize),
        7 => "0XABCDEFabcdef".into(),
        8 => "{\"json\":1}".into(),
        9 => "A".into(),
        _ => format!("addr{}", ep.below(6)),
    }
}

pub fn tx_id(ep: &mut Ep) -> String {
    "0x".to_string() + &hex::encode(ep.bytes::<32>())
}

pub fn hash32(ep: &mut Ep) -> [u8; 32] {
    match ep.below(8) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => {
            let mut h = [0; 32];
            h[31] = ep.below(3) as u8;
            h
        }
        _ => ep.bytes(),
    }
}

/// ids of many shapes, with a small pool so that collisions happen
pub fn any_id(ep: &mut Ep) -> String {
    match ep.below(8) {
        0 if ep.chance(40) => {
            let x = format!("id{}", ep.below(4));
            near(ep, &x)
        }
        0 => format!("id{}", ep.below(4)),
        1 => format!("{}:{}", tx_id(ep), ep.below(4)),
        2 => format!("{}:{}", hex::encode(ep.bytes::<4>()), ep.below(100)),
        3 => "a:b:c".into(),
        4 => text(ep),
        5 => format!("{}", ep.below(1000)),
        _ => format!("{}:{}", tx_id(ep), ep.below(1 << 40)),
    }
}

pub fn msg(ep: &mut Ep, src: &str, dst: &str) -> Msg {
    Msg {
        id: any_id(ep),
        src: src.into(),
        saddr: text(ep),
        dst: dst.into(),
        daddr: text(ep),
        hash: hash32(ep),
    }
}

/// messages whose fields run together to the same text (the recorded finding of C38: other drivers keep clear of it)
pub fn alike(a: &Msg, b: &Msg) -> bool {
    let c = |m: &Msg| format!("{}{}{}{}{}", m.src, m.id, m.saddr, m.dst, m.daddr);
    c(a).replace(':', "") == c(b).replace(':', "") && a.hash == b.hash
}

/// a copy of `m` that differs in exactly one content field (not the id)
pub fn mutate(ep: &mut Ep, m: &Msg) -> Msg {
    let mut n = m.clone();
    match ep.below(4) {
        0 => n.saddr = near(ep, &m.saddr),
        1 => n.daddr = near(ep, &m.daddr),
        2 => n.hash[ep.below(32) as usize] ^= 1 << ep.below(8),
        _ => n.dst = format!("{}z", n.dst),
    }
    n
}

pub fn addrs(prefix: &str, n: usize) -> Vec<cosmwasm_std::Addr> {
    (0..n)
        .map(|i| cosmwasm_std::Addr::unchecked(format!("{prefix}{i}")))
        .collect()
}
