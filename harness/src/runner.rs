//! Property table, parallel runner, evidence and verdicts.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Driver = fn(&mut Ep) -> R;

pub struct Prop {
    pub id: &'static str,
    /// (driver name, driver, relative weight)
    pub drivers: &'static [(&'static str, Driver, u64)],
    /// episodes in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// minimum observations for a verdict (quick tier)
    pub mins: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub assumes: &'static [&'static str],
}

pub fn known() -> &'static [KnownFinding] {
    let path = root().join("known_findings.json");
    let v: Value = std::fs::read(&path)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_else(|| json!({}));
    let out: Vec<KnownFinding> = v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|f| KnownFinding {
            property: f["property"].as_str().unwrap_or("").into(),
            sig: f["signature"].as_str().unwrap_or("").into(),
            what: f["what"].as_str().unwrap_or("").into(),
        })
        .collect();
    Box::leak(out.into_boxed_slice())
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT")
        .map(Into::into)
        .unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

#[derive(Default)]
struct Agg {
    episodes: u64,
    steps: u64,
    counts: BTreeMap<&'static str, u64>,
    states: HashSet<u64>,
    foreign: BTreeMap<String, u64>,
    known: BTreeMap<String, String>,
    /// lowest episode index with a violation
    viol: Option<(u64, Vec<Violation>, Vec<String>)>,
    samples: Vec<Value>,
    crashed: Option<String>,
}

fn episode(
    p: &'static Prop,
    seed: u64,
    idx: u64,
    thorough: bool,
    known: &'static [KnownFinding],
) -> (Ep, &'static str, Option<String>) {
    let total: u64 = p.drivers.iter().map(|d| d.2).sum();
    let mut x = idx % total;
    let mut d = &p.drivers[0];
    for c in p.drivers {
        if x < c.2 {
            d = c;
            break;
        }
        x -= c.2;
    }
    let mut ep = Ep::new(p.id, seed, d.0, idx, thorough, known);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _ = (d.1)(&mut ep);
    }));
    let crash = r.err().map(|e| crate::world::panic_text(e));
    (ep, d.0, crash)
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string());
        if std::env::var("AMPMON_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let props = crate::props::table();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
        }
        Some("replay") => replay(&args),
        Some(id) => {
            let p = match props.iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {id}");
                    std::process::exit(3);
                }
            };
            std::process::exit(check(p));
        }
        None => {
            eprintln!("usage: ampmon <property>|replay <file>|list");
            std::process::exit(3);
        }
    }
}

fn replay(args: &[String]) {
    let v: Value =
        serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let p = crate::props::table().iter().find(|p| p.id == id).expect("property");
    let (ep, d, crash) = episode(
        p,
        v["seed"].as_u64().unwrap(),
        v["episode"].as_u64().unwrap(),
        v["tier"] == "thorough",
        known(),
    );
    println!("driver {d}");
    for t in &ep.trace {
        println!("{t}");
    }
    println!("violations: {:?} foreign: {:?} crash: {crash:?}", ep.viol, ep.foreign);
    std::process::exit(if ep.viol.is_empty() { 0 } else { 1 });
}

fn check(p: &'static Prop) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let scale: f64 = std::env::var("AMPMON_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let n = ((if thorough { p.thorough } else { p.quick }) as f64 * scale).max(1.0) as u64;
    let cap = if thorough { 5400 } else { 240 };
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let kf = known();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() > cap {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        return;
                    }
                    let (ep, driver, crash) = episode(p, seed, i, thorough, kf);
                    let mut a = agg.lock().unwrap();
                    a.episodes += 1;
                    a.steps += ep.steps;
                    for (k, v) in ep.counts {
                        *a.counts.entry(k).or_insert(0) += v;
                    }
                    if a.states.len() < 4_000_000 {
                        a.states.extend(ep.states);
                    }
                    for (k, v) in ep.foreign {
                        *a.foreign.entry(k).or_insert(0) += v;
                    }
                    a.known.extend(ep.known_hits);
                    if a.samples.len() < 3 && !ep.trace.is_empty() {
                        a.samples.push(json!({"episode": i, "driver": driver,
                            "operations": ep.trace.iter().take(12).map(|t| t.chars().take(400).collect::<String>()).collect::<Vec<_>>()}));
                    }
                    if let Some(c) = crash {
                        let at = LAST_PANIC.with(|l| l.borrow().clone());
                        if a.crashed.is_none() {
                            a.crashed = Some(format!("episode {i}: {c} ({at}); last: {:?}", ep.trace.last()));
                        }
                    }
                    if !ep.viol.is_empty() {
                        if a.viol.as_ref().map(|v| v.0 > i).unwrap_or(true) {
                            a.viol = Some((i, ep.viol, ep.trace));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let a = agg.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut counts = serde_json::Map::new();
    for (k, v) in &a.counts {
        counts.insert(k.to_string(), json!(v));
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.steps,
            "distinct_nontrivial": a.states.len(),
            "rule": p.rule,
            "samples": a.samples,
            "episodes": a.episodes,
            "observed": counts,
            "divergences_of_other_properties": a.foreign,
            "known_findings_seen": a.known.keys().collect::<Vec<_>>(),
        },
        "assumptions": p.assumes,
        "wall_s": wall,
        "violations": if a.viol.is_some() { 1 } else { 0 },
    });
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    for (sig, what) in &a.known {
        println!("KNOWN-FINDING: property={} {what} [{sig}]", p.id);
    }
    println!(
        "{} {tier} seed={seed}: {} episodes, {} operations, {} distinct situations, {:.1}s",
        p.id,
        a.episodes,
        a.steps,
        a.states.len(),
        wall
    );
    for (k, v) in &a.counts {
        println!("  {k} = {v}");
    }
    if !a.foreign.is_empty() {
        println!("  divergences belonging to other properties: {:?}", a.foreign);
    }
    if let Some((i, viol, trace)) = a.viol {
        let dir = evdir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{seed}-{i}.json", p.id));
        let body = json!({"property": p.id, "seed": seed, "tier": tier, "episode": i,
            "violations": viol.iter().map(|v| json!({"signature": v.sig, "what": v.msg})).collect::<Vec<_>>(),
            "trace": trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        for v in &viol {
            println!("  {}: {}", v.sig, v.msg.chars().take(2000).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(c) = a.crashed {
        println!("HARNESS-ERROR {c}");
        return 3;
    }
    let frac = if thorough || scale >= 1.0 { 1.0 } else { scale };
    for (k, min) in p.mins {
        let got = if *k == "distinct" {
            a.states.len() as u64
        } else {
            a.counts.get(k).copied().unwrap_or(0)
        };
        if (got as f64) < *min as f64 * frac {
            println!("INCONCLUSIVE: observed only {got} of the required {min} {k}");
            return 2;
        }
    }
    0
}
