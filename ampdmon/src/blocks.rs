//! The way of events from the chain to the handlers: the real event subscription, event processor, end-of-block notifier
//! and state keeper, put together as the daemon does, over a played node, through shutdowns, failures and restarts.
use crate::core::*;
use crate::rig::*;
use ampd::access::{
    skip_to_block, with_block_height_notifier, EventHandler, EventProcessor, EventSub, PublicKey, StateUpdater,
};
use ampd::state::{flush, load, State};
use async_trait::async_trait;
use error_stack::Report;
use events::Event;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tendermint::abci;
use tendermint_rpc::endpoint::{block, block_results};
use tendermint_rpc::server::{register, unregister, Node};
use tendermint_rpc::HttpClient;
use tokio::task::JoinSet;
use tokio::time::{sleep, timeout, Instant};
use tokio_util::sync::CancellationToken;

const P: &[&str] = &["C48"];
static NEXT: AtomicU64 = AtomicU64::new(0);

/// a file of the monitor's own, gone with it
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("ampdmon-{}-{n}", std::process::id()));
        std::fs::create_dir(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn url() -> String {
    format!("http://node-{}.test/", NEXT.fetch_add(1, Ordering::Relaxed))
}

#[derive(Clone, Debug, Default)]
struct Block {
    begin: Option<Vec<u64>>,
    txs: Option<Vec<Vec<u64>>>,
    end: Option<Vec<u64>>,
}
impl Block {
    fn ids(&self) -> Vec<u64> {
        let f = |o: &Option<Vec<u64>>| o.clone().unwrap_or_default();
        f(&self.begin).into_iter().chain(self.txs.clone().unwrap_or_default().into_iter().flatten()).chain(f(&self.end)).collect()
    }
}
fn event(id: u64) -> abci::Event {
    node_event("e", &[("n".into(), format!("\"{id}\""))])
}
#[derive(Default)]
struct Seen {
    /// the heights the node gave as its latest, and when
    latest: Vec<(u64, u64)>,
    failed: bool,
}
/// a chain that grows with time, seen through nodes some of which lag behind
struct Sim {
    blocks: Vec<Block>,
    first: u64,
    base: u64,
    block_time: u64,
    /// of the requests, in order: how far the node lags, and whether it fails
    moods: Mutex<Box<dyn FnMut() -> (u64, bool) + Send>>,
    seen: Mutex<Seen>,
    t0: Mutex<Option<Instant>>,
}
impl Sim {
    fn now(&self) -> u64 {
        self.t0.lock().unwrap().map_or(0, |t| (Instant::now() - t).as_millis() as u64)
    }
    fn tip(&self, at: u64) -> u64 {
        (self.base + at / self.block_time).min(self.first + self.blocks.len() as u64 - 1)
    }
    fn mood(&self) -> Result<u64, tendermint_rpc::Error> {
        let (lag, fail) = (self.moods.lock().unwrap())();
        if fail {
            self.seen.lock().unwrap().failed = true;
            return Err(tendermint_rpc::Error("unavailable".into()));
        }
        Ok(lag)
    }
}
impl Node for Sim {
    fn latest_block(&self) -> Result<block::Response, tendermint_rpc::Error> {
        let lag = self.mood()?;
        let now = self.now();
        let h = self.tip(now).saturating_sub(lag).max(self.first);
        self.seen.lock().unwrap().latest.push((now, h));
        let mut r = block::Response::default();
        r.block.header.height = h.try_into().unwrap();
        Ok(r)
    }
    fn block_results(&self, height: u64) -> Result<block_results::Response, tendermint_rpc::Error> {
        self.mood()?;
        if height > self.tip(self.now()) || height < self.first {
            self.seen.lock().unwrap().failed = true;
            return Err(tendermint_rpc::Error("no such block".into()));
        }
        let b = &self.blocks[(height - self.first) as usize];
        let evs = |v: &Vec<u64>| v.iter().map(|i| event(*i)).collect::<Vec<_>>();
        Ok(block_results::Response {
            height: height.try_into().unwrap(),
            begin_block_events: b.begin.as_ref().map(evs),
            txs_results: b.txs.as_ref().map(|t| {
                t.iter().map(|v| block_results::DeliverTx { code: 0, events: evs(v) }).collect()
            }),
            end_block_events: b.end.as_ref().map(evs),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Begin(u64),
    Ev(u64),
    End(u64),
    Odd,
}
#[derive(Default)]
struct Record {
    got: Vec<Got>,
    failed_at: Option<u64>,
}
#[derive(Debug)]
struct Broken;
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "broken handler")
    }
}
impl std::error::Error for Broken {}
struct Handler {
    log: Arc<Mutex<Record>>,
    fail_at: Option<Got>,
    slow: u64,
    t0: Instant,
}
#[async_trait]
impl EventHandler for Handler {
    type Err = Broken;
    async fn handle(&self, e: &Event) -> error_stack::Result<(), Broken> {
        if self.slow > 0 {
            sleep(Duration::from_millis(self.slow)).await;
        }
        let g = match e {
            Event::BlockBegin(h) => Got::Begin(h.value()),
            Event::BlockEnd(h) => Got::End(h.value()),
            Event::Abci { event_type, attributes } if event_type == "e" => attributes
                .get("n")
                .and_then(|v| v.as_str())
                .and_then(|s| s.parse().ok())
                .map_or(Got::Odd, Got::Ev),
            _ => Got::Odd,
        };
        if Some(&g) == self.fail_at.as_ref() {
            self.log.lock().unwrap().failed_at = Some((Instant::now() - self.t0).as_millis() as u64);
            return Err(Report::new(Broken));
        }
        self.log.lock().unwrap().got.push(g);
        Ok(())
    }
}

fn state_of(heights: &BTreeMap<String, u64>, key: Option<PublicKey>) -> State {
    let mut s = State::default();
    for (l, h) in heights {
        let h: tendermint::block::Height = (*h).try_into().unwrap();
        s.set_handler_block_height(l.clone(), h);
    }
    s.pub_key = key;
    s
}

pub fn drive(ep: &mut Ep) -> R {
    // the chain
    let first = *ep.pick(&[1u64, 2, 1000, u32::MAX as u64 - 3]);
    let n = if ep.big() { ep.big_size() } else { ep.range(3, 40) };
    let mut next = 0;
    let mut blocks = vec![];
    let mut at: BTreeMap<u64, u64> = BTreeMap::new();
    for h in 0..n {
        let mut ids = |ep: &mut Ep| {
            let k = if ep.chance(50) { 0 } else { ep.range(0, 4) };
            (0..k)
                .map(|_| {
                    next += 1;
                    at.insert(next, first + h);
                    next
                })
                .collect::<Vec<u64>>()
        };
        let begin = if ep.chance(70) { Some(ids(ep)) } else { None };
        let txs = if ep.chance(70) { Some((0..ep.range(0, 3)).map(|_| ids(ep)).collect()) } else { None };
        let end = if ep.chance(70) { Some(ids(ep)) } else { None };
        blocks.push(Block { begin, txs, end });
    }
    let block_time = *ep.pick(&[500u64, 1000, 5000, 20_000]);
    let mut base = first + ep.below(n.min(10));
    let labels: Vec<String> = (0..ep.range(1, 4)).map(|i| format!("handler-{i}")).collect();
    let key: Option<PublicKey> = ep.chance(70).then(|| {
        loop {
            if let Ok(k) = k256::ecdsa::SigningKey::from_slice(&ep.bytes::<32>()) {
                return (*k.verifying_key()).into();
            }
        }
    });
    let dir = Scratch::new();
    let file = dir.0.join(if ep.chance(50) { "state.json" } else { "a/b/state.json" });
    let mut saved: BTreeMap<String, u64> = BTreeMap::new();
    let start = load(&file);
    ep.check(start.as_ref().is_ok_and(|s| *s == State::default()), P, "state-of-nothing", || format!("{start:?}"));
    if let Some(k) = key {
        flush(&state_of(&saved, Some(k)), &file).expect("flush");
    }
    let lagging = ep.chance(40);
    let faulty = ep.chance(30);

    for session in 0..ep.range(1, 6) {
        let rt = rt();
        let state = match load(&file) {
            Ok(s) => s,
            Err(e) => {
                ep.fail(P, "state-lost", format!("{e:?}"));
                return ep.settle();
            }
        };
        ep.check(state == state_of(&saved, key), P, "state-changed", || {
            format!("read {state:?}, was {:?}", state_of(&saved, key))
        });
        ep.settle()?;
        let u = url();
        let seed = u64::from_le_bytes(ep.bytes::<8>());
        let mut dice = <rand_chacha::ChaCha8Rng as rand::SeedableRng>::seed_from_u64(seed);
        let sim = Arc::new(Sim {
            blocks: blocks.clone(),
            first,
            base,
            block_time,
            moods: Mutex::new(Box::new(move || {
                use rand::Rng;
                let lag = if lagging && dice.gen_range(0..100) < 30 { dice.gen_range(1..5) } else { 0 };
                (lag, faulty && dice.gen_range(0..100) < 2)
            })),
            seen: Default::default(),
            t0: Mutex::new(None),
        });
        register(&u, sim.clone());
        let here: Vec<String> = {
            let mut v: Vec<String> = labels.iter().filter(|_| ep.chance(80)).cloned().collect();
            if v.is_empty() {
                v.push(labels[0].clone());
            }
            ep.shuffle(&mut v);
            v
        };
        let stop = ep.range(0, block_time * 12);
        let crash = ep.chance(15);
        let ample = ep.chance(80);
        let cap = if ample { 100_000 } else { ep.range(1, 12) as usize };
        let plan: Vec<(String, Option<Got>, u64)> = here
            .iter()
            .map(|l| {
                let f = ep.chance(8).then(|| match ep.below(5) {
                    0 => Got::Begin(first + ep.below(n)),
                    1 => Got::End(first + ep.below(n)),
                    _ => Got::Ev(ep.range(1, next.max(1))),
                });
                let s = if ep.chance(25) { ep.range(1, 300) } else { 0 };
                (l.clone(), f, s)
            })
            .collect();
        ep.step(format!(
            "session {session}: tip {base}, a block per {block_time} ms, state {saved:?}, handlers {plan:?}, buffer {cap}, stopped at {stop}{}",
            if crash { " without notice" } else { "" }
        ));
        let logs: Vec<Arc<Mutex<Record>>> = plan.iter().map(|_| Default::default()).collect();
        let (out, ended) = rt.block_on(async {
            let t0 = Instant::now();
            *sim.t0.lock().unwrap() = Some(t0);
            let token = CancellationToken::new();
            let client = HttpClient::new(&u).expect("client");
            let mut sub = EventSub::new(client, cap, token.child_token());
            let mut updater = StateUpdater::new(state.clone());
            if let Some(h) = updater.state().min_handler_block_height() {
                sub = sub.start_from(h.increment());
            }
            let mut proc = EventProcessor::new(token.child_token());
            for ((label, fail_at, slow), log) in plan.iter().zip(&logs) {
                let h = Handler { log: log.clone(), fail_at: fail_at.clone(), slow: *slow, t0 };
                let (h, rx) = with_block_height_notifier(h);
                updater.register_event(label.as_str(), rx);
                match updater.state().handler_block_height(label) {
                    None => {
                        let s = sub.sub();
                        proc.add_handler(h, s);
                    }
                    Some(done) => {
                        let s = skip_to_block(sub.sub(), done.increment());
                        proc.add_handler(h, Box::pin(s));
                    }
                }
            }
            let main = async {
                let mut set = JoinSet::new();
                set.spawn(async move { sub.run().await.map_err(|e| format!("subscription: {e:?}")) });
                set.spawn(async move { proc.run().await.map_err(|e| format!("processor: {e:?}")) });
                let keeper = tokio::spawn(updater.run());
                let t2 = token.clone();
                let canceller = tokio::spawn(async move {
                    sleep(Duration::from_millis(stop)).await;
                    t2.cancel();
                });
                let first = set.join_next().await.unwrap();
                let at = (Instant::now() - t0).as_millis() as u64;
                let by_request = token.is_cancelled();
                token.cancel();
                let mut r = first.unwrap_or_else(|e| Err(format!("panic: {e}")));
                while let Some(x) = set.join_next().await {
                    let x = x.unwrap_or_else(|e| Err(format!("panic: {e}")));
                    if by_request {
                        r = r.and(x);
                    }
                }
                let s = keeper.await.expect("keeper");
                canceller.abort();
                (Some((s, r)), at)
            };
            if crash {
                match timeout(Duration::from_millis(stop), main).await {
                    Ok(x) => x,
                    Err(_) => (None, stop),
                }
            } else {
                match timeout(Duration::from_secs(3600 * 24), main).await {
                    Ok(x) => x,
                    Err(_) => (None, u64::MAX),
                }
            }
        });
        drop(rt);
        unregister(&u);
        ep.check(ended != u64::MAX, P, "shutdown-hangs", || format!("asked at {stop}"));
        ep.settle()?;
        let seen = sim.seen.lock().unwrap();
        let failed = logs.iter().filter_map(|l| l.lock().unwrap().failed_at).min();

        // what each handler was given
        let floor = saved.values().min().copied();
        let mut after = saved.clone();
        for ((label, _, slow), log) in plan.iter().zip(&logs) {
            let log = log.lock().unwrap();
            let from = match saved.get(label) {
                Some(h) => Some(h + 1),
                None => floor.map(|h| h + 1).or(seen.latest.first().map(|l| l.1)),
            };
            let mut want = vec![];
            if let Some(from) = from {
                for h in from..first + n {
                    want.push(Got::Begin(h));
                    want.extend(blocks[(h - first) as usize].ids().into_iter().map(Got::Ev));
                    want.push(Got::End(h));
                    if want.len() > log.got.len() {
                        break;
                    }
                }
            }
            let same = log.got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ep.check(same == log.got.len(), P, "events-differ", || {
                format!(
                    "{label} from {from:?}: at position {same} got {:?}, expected {:?}",
                    &log.got[same..log.got.len().min(same + 4)],
                    &want[same.min(want.len())..want.len().min(same + 4)]
                )
            });
            let done = log.got.iter().rev().find_map(|g| if let Got::End(h) = g { Some(*h) } else { None });
            if let Some(h) = done {
                after.insert(label.clone(), h);
            }
            ep.count_n("events", log.got.len() as u64);
            // a shutdown waits for the end of a block, a working daemon keeps up
            if let (Some((_, Ok(()))), None, false) = (&out, failed, seen.failed) {
                ep.check(matches!(log.got.last(), None | Some(Got::End(_))), P, "stopped-within-block", || {
                    format!("{label} ended with {:?}", log.got.last())
                });
                let settled = stop.checked_sub(6000);
                if let (Some(t), Some(from), true, false) = (settled, from, *slow == 0 && ample, lagging) {
                    let tip = sim.tip(t);
                    ep.check(from > tip || done >= Some(tip), P, "fell-behind", || {
                        format!("{label}: the chain was at {tip} at {t}, done {done:?} at {ended}")
                    });
                    ep.count("kept up");
                }
            }
            ep.seen(
                P,
                &(
                    "handler",
                    saved.get(label).map(|h| (h - floor.unwrap_or(*h)).min(5)),
                    done.map(|d| (d + 1 - from.unwrap_or(d)).min(8)),
                    *slow > 0,
                    log.failed_at.is_some(),
                    matches!(log.got.last(), Some(Got::End(_))),
                    crash,
                ),
            );
        }
        // how it ended, and what is remembered
        match out {
            Some((state, r)) => {
                ep.check(state == state_of(&after, key), P, "state-differs", || {
                    format!("{state:?}, handlers completed {after:?}")
                });
                let cause = failed.is_some() || seen.failed;
                match &r {
                    Ok(()) => {
                        ep.count("orderly ends");
                        // an error met while shutting down may be passed over
                        ep.check(failed.map_or(true, |f| f + 5 > stop), P, "failure-hidden", || {
                            format!("a handler failed at {failed:?}, the end was asked for at {stop}")
                        });
                    }
                    Err(e) => {
                        ep.count(if failed.is_some() { "handler failures" } else { "node failures" });
                        ep.check(cause || !ample, P, "ended-by-itself", || e.chars().take(300).collect());
                    }
                }
                if let Some(f) = failed {
                    ep.check(ended <= f + 15_000 || stop <= f + 15_000, P, "failed-handler-left-behind", || {
                        format!("a handler failed at {f}, the others went on until {ended} (asked to end at {stop})")
                    });
                }
                flush(&state, &file).expect("flush");
                saved = after;
            }
            None => ep.count("crashes"),
        }
        let lagged: BTreeSet<bool> = seen.latest.windows(2).map(|w| w[1].1 < w[0].1).collect();
        ep.seen(P, &("session", plan.len(), crash, cap.min(20), lagged, seen.failed, failed.is_some()));
        drop(seen);
        ep.settle()?;
        base = sim.tip(ended) + ep.below(4);
        base = base.min(first + n - 1);
    }
    // a damaged file is not taken for a new start
    if ep.chance(30) {
        let junk: &[u8] = *ep.pick(&[b"".as_slice(), b"{", b"[]", b"\xff\xfe\x00", b"{\"handlers\":{\"a\":\"x\"}}", b"{\"handlers\":{}"]);
        flush(&state_of(&saved, key), &file).expect("flush");
        std::fs::write(&file, junk).expect("write");
        let r = load(&file);
        ep.count("damaged files");
        ep.check(r.is_err(), P, "damaged-state-accepted", || format!("{junk:?} was read as {r:?}"));
    }
    ep.settle()
}
