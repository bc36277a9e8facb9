//! Episode context, verdict discipline and parallel runner.
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

/// An episode ends early: a divergence was observed (whether or not it concerns the checked property).
#[derive(Debug)]
pub struct Stop;
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

pub struct Ep {
    /// the property being decided; observations that concern only other properties do not count
    pub focus: &'static str,
    pub rng: ChaCha8Rng,
    pub idx: u64,
    pub thorough: bool,
    pub steps: u64,
    pub trace: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub viol: Vec<Violation>,
    pub foreign: BTreeMap<String, u64>,
    pub known: &'static [KnownFinding],
    pub known_hits: BTreeMap<String, String>,
    pending: bool,
}

#[derive(Clone, Debug)]
pub struct KnownFinding {
    pub property: String,
    pub sig: String,
    pub what: String,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ep {
    pub fn new(
        focus: &'static str,
        seed: u64,
        driver: &str,
        idx: u64,
        thorough: bool,
        known: &'static [KnownFinding],
    ) -> Ep {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&idx.to_le_bytes());
        let k = fnv(focus) ^ fnv(driver).rotate_left(17);
        s[16..24].copy_from_slice(&k.to_le_bytes());
        Ep {
            focus,
            rng: ChaCha8Rng::from_seed(s),
            idx,
            thorough,
            steps: 0,
            trace: vec![],
            counts: BTreeMap::new(),
            states: HashSet::new(),
            viol: vec![],
            foreign: BTreeMap::new(),
            known,
            known_hits: BTreeMap::new(),
            pending: false,
        }
    }

    pub fn is(&self, p: &str) -> bool {
        self.focus == p
    }
    pub fn any(&self, ps: &[&str]) -> bool {
        ps.contains(&self.focus)
    }
    /// one real operation was run against the code under test
    pub fn step(&mut self, what: impl Into<String>) {
        self.steps += 1;
        if self.trace.len() < 4000 {
            self.trace.push(what.into());
        }
    }
    pub fn note(&mut self, what: impl Into<String>) {
        if self.trace.len() < 4000 {
            self.trace.push(format!("    -> {}", what.into()));
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    /// record a distinct non-trivial situation that was observed for one of `tags`
    pub fn seen<T: Hash>(&mut self, tags: &[&str], t: &T) {
        if tags.contains(&self.focus) {
            let h = h64(t);
            self.states.insert(h);
        }
    }
    /// monitor assertion
    pub fn check(&mut self, ok: bool, tags: &[&str], sig: &str, msg: impl FnOnce() -> String) -> bool {
        if ok {
            return true;
        }
        self.fail(tags, sig, msg());
        false
    }
    pub fn fail(&mut self, tags: &[&str], sig: &str, msg: String) {
        self.pending = true;
        if tags.contains(&self.focus) {
            if let Some(k) = self
                .known
                .iter()
                .find(|k| k.property == self.focus && k.sig == sig)
            {
                self.known_hits.insert(k.sig.clone(), k.what.clone());
                return;
            }
            self.trace.push(format!("!! {sig}: {msg}"));
            self.viol.push(Violation {
                sig: sig.to_string(),
                msg,
            });
        } else {
            self.trace
                .push(format!("(divergence for {tags:?}) {sig}: {msg}"));
            *self.foreign.entry(format!("{tags:?} {sig}")).or_insert(0) += 1;
        }
    }
    /// end of an observation point: stop the episode if anything diverged
    pub fn settle(&mut self) -> R {
        if self.pending {
            Err(Stop)
        } else {
            Ok(())
        }
    }

    /// one episode in 40 works with large collections (the rest favour depth over size)
    pub fn big(&self) -> bool {
        self.idx % 40 == 17
    }
    /// size of a large collection
    pub fn big_size(&mut self) -> u64 {
        match self.below(10) {
            0..=4 => self.range(9, 40),
            5..=8 => self.range(41, 140),
            _ => self.range(250, 300),
        }
    }

    // random helpers
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.rng.gen_range(0..n)
        }
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        self.rng.gen_range(lo..=hi_incl)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.rng.gen_range(0..100u64) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.rng.gen_range(0..v.len());
        &v[i]
    }
    pub fn rng_skip(&mut self) -> bool {
        self.rng.gen_range(0..100u64) < 50
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        self.rng.fill_bytes(&mut b);
        b
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.rng.gen_range(0..=i);
            v.swap(i, j);
        }
    }
    /// weighted choice: returns the index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.rng.gen_range(0..total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
