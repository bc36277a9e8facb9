//! The queue of outgoing messages: the real queued broadcaster, fed by several clients on a virtual clock, over a played
//! broadcaster whose estimates and broadcasts succeed, fail and take their time.
use crate::core::*;
use crate::rig::*;
use ampd::access::{BroadcastError, Broadcaster, BroadcasterClient, QueuedBroadcaster};
use async_trait::async_trait;
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxResponse;
use cosmrs::cosmwasm::MsgExecuteContract;
use cosmrs::tx::Fee;
use cosmrs::Any;
use error_stack::Report;
use futures::FutureExt;
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::{sleep, timeout, Instant};

const P: &[&str] = &["C46"];

/// what is known of a message beforehand
#[derive(Clone, Debug)]
struct Plan {
    gas: u64,
    /// its fee cannot be estimated
    bad: bool,
    slow: u64,
}
#[derive(Clone, Debug)]
enum Log {
    Accepted { client: usize, id: u64, at: u64 },
    Refused { id: u64, at: u64 },
    Estimated { ids: Vec<u64>, from: u64, to: u64 },
    Sent { ids: Vec<u64>, from: u64, to: u64, ok: bool },
    Forced { at: u64 },
}
#[derive(Clone)]
struct World {
    plans: Arc<BTreeMap<u64, Plan>>,
    log: Arc<Mutex<Vec<Log>>>,
    /// the how-manieth broadcast fails
    fails: Option<usize>,
    delays: Arc<Vec<u64>>,
    t0: Instant,
}
impl World {
    fn now(&self) -> u64 {
        (Instant::now() - self.t0).as_millis() as u64
    }
    fn put(&self, l: Log) {
        self.log.lock().unwrap().push(l)
    }
    fn sends(&self) -> usize {
        self.log.lock().unwrap().iter().filter(|l| matches!(l, Log::Sent { .. })).count()
    }
}
fn id_of(a: &Any) -> u64 {
    exec_of(a).and_then(|(_, _, v, _)| v.as_u64()).unwrap_or(u64::MAX)
}
#[async_trait]
impl Broadcaster for World {
    async fn broadcast(&mut self, msgs: Vec<Any>) -> error_stack::Result<TxResponse, BroadcastError> {
        let ids: Vec<u64> = msgs.iter().map(id_of).collect();
        let n = self.sends();
        let ok = self.fails != Some(n);
        let from = self.now();
        let d = self.delays.get(n).copied().unwrap_or(0);
        self.put(Log::Sent { ids, from, to: from + d, ok });
        if d > 0 {
            sleep(Duration::from_millis(d)).await;
        }
        if ok {
            Ok(TxResponse::default())
        } else {
            Err(Report::new(BroadcastError::Broadcast))
        }
    }
    async fn estimate_fee(&mut self, msgs: Vec<Any>) -> error_stack::Result<Fee, BroadcastError> {
        let ids: Vec<u64> = msgs.iter().map(id_of).collect();
        let from = self.now();
        let ps: Vec<Plan> = ids.iter().map(|i| self.plans[i].clone()).collect();
        let d: u64 = ps.iter().map(|p| p.slow).sum();
        self.put(Log::Estimated { ids, from, to: from + d });
        if d > 0 {
            sleep(Duration::from_millis(d)).await;
        }
        if ps.iter().any(|p| p.bad) {
            return Err(Report::new(BroadcastError::GasEstimation));
        }
        Ok(Fee { gas_limit: ps.iter().map(|p| p.gas).sum(), amount: vec![], granter: None, payer: None })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Closed,
    Failed,
    Panicked,
    Stuck,
}

pub fn drive(ep: &mut Ep) -> R {
    let rt = rt();
    let limit = *ep.pick(&[1u64, 10, 100, 1000, 1_000_000, 50_000_000]);
    let cap = if ep.chance(40) { ep.range(1, 3) } else { ep.range(4, 100) } as usize;
    let interval = *ep.pick(&[1u64, 7, 100, 1000, 5000, 60_000]);
    let clients = ep.range(1, 4) as usize;
    let n = if ep.big() { ep.big_size() } else { ep.range(0, 25) };
    let slow = ep.chance(25);
    let bad = if ep.chance(40) { ep.range(1, 40) } else { 0 };
    let (sender, to) = (account(ep), contract(ep));
    let mut plans = BTreeMap::new();
    let mut scripts: Vec<Vec<(u64, u64)>> = vec![vec![]; clients];
    for id in 0..n {
        let gas = match ep.below(8) {
            0 => 0,
            1 => 1,
            2 => limit,
            3 => limit - 1,
            4 => limit + ep.below(limit + 1),
            5 => limit / 2,
            _ => ep.range(0, limit / 4 + 1),
        };
        let p = Plan { gas, bad: ep.chance(bad), slow: if slow && ep.chance(30) { ep.range(1, interval * 2) } else { 0 } };
        plans.insert(id, p);
        let c = ep.below(clients as u64) as usize;
        let wait = match ep.below(6) {
            0..=2 => 0,
            3 => 1,
            4 => ep.range(1, interval + 1),
            _ => ep.range(1, interval * 3),
        };
        scripts[c].push((wait, id));
    }
    let fails = ep.chance(20).then(|| ep.below(6) as usize);
    let delays: Vec<u64> =
        (0..60).map(|_| if slow && ep.chance(40) { ep.range(1, interval * 3) } else { 0 }).collect();
    let force: Vec<u64> = if ep.chance(50) { (0..ep.range(1, 6)).map(|_| ep.range(0, interval * 3)).collect() } else { vec![] };
    ep.step(format!(
        "limit {limit} capacity {cap} interval {interval} fails {fails:?} delays {:?} force {force:?} plans {plans:?} scripts {scripts:?}",
        delays.iter().take(8).collect::<Vec<_>>()
    ));

    let plans = Arc::new(plans);
    let (end, log) = rt.block_on(async {
        let w = World { plans: plans.clone(), log: Default::default(), fails, delays: Arc::new(delays), t0: Instant::now() };
        let (queue, driver) = QueuedBroadcaster::new(w.clone(), limit, cap, Duration::from_millis(interval));
        let mut tasks = vec![];
        for (c, script) in scripts.iter().cloned().enumerate() {
            let (client, w, sender, to) = (queue.client(), w.clone(), sender.clone(), to.clone());
            tasks.push(tokio::spawn(async move {
                for (wait, id) in script {
                    if wait > 0 {
                        sleep(Duration::from_millis(wait)).await;
                    }
                    let m = MsgExecuteContract {
                        sender: sender.clone(),
                        contract: to.clone(),
                        msg: serde_json::to_vec(&id).unwrap(),
                        funds: vec![],
                    };
                    match client.broadcast(m).await {
                        Ok(()) => w.put(Log::Accepted { client: c, id, at: w.now() }),
                        Err(_) => w.put(Log::Refused { id, at: w.now() }),
                    }
                }
            }));
        }
        let w2 = w.clone();
        // the driver outlives the queue, as in the daemon
        let (done, wait_done) = tokio::sync::oneshot::channel::<()>();
        let forcer = tokio::spawn(async move {
            for f in force {
                if f > 0 {
                    sleep(Duration::from_millis(f)).await;
                }
                w2.put(Log::Forced { at: w2.now() });
                let _ = driver.force_broadcast().await;
            }
            let _ = wait_done.await;
        });
        let run = timeout(Duration::from_secs(3600 * 24 * 30), AssertUnwindSafe(queue.run()).catch_unwind()).await;
        let end = match run {
            Ok(Ok(Ok(()))) => End::Closed,
            Ok(Ok(Err(_))) => End::Failed,
            Ok(Err(_)) => End::Panicked,
            Err(_) => End::Stuck,
        };
        for t in tasks {
            let _ = t.await;
        }
        let _ = done.send(());
        let _ = forcer.await;
        let log = w.log.lock().unwrap().clone();
        (end, log)
    });
    judge(ep, limit, interval, &plans, end, log, clients)?;
    Ok(())
}

fn judge(ep: &mut Ep, limit: u64, interval: u64, plans: &BTreeMap<u64, Plan>, end: End, log: Vec<Log>, clients: usize) -> R {
    for l in &log {
        ep.note(format!("{l:?}"));
    }
    ep.check(end != End::Panicked && end != End::Stuck, P, "queue-stops", || format!("{end:?}"));
    let mut sent: Vec<u64> = vec![];
    let mut when: BTreeMap<u64, u64> = BTreeMap::new();
    let mut busy: Vec<(u64, u64)> = vec![];
    let mut accepted: Vec<(u64, usize, u64)> = vec![];
    let mut forced = vec![];
    let mut failure: Option<u64> = None;
    let mut batches = 0;
    for l in &log {
        match l {
            Log::Accepted { client, id, at } => accepted.push((*at, *client, *id)),
            Log::Refused { id, at } => {
                ep.check(failure.map_or(false, |f| f <= *at), P, "message-refused", || format!("message {id} at {at}"));
            }
            Log::Estimated { from, to, .. } => busy.push((*from, *to)),
            Log::Forced { at } => forced.push(*at),
            Log::Sent { ids, from, to, ok } => {
                batches += 1;
                ep.check(!ids.is_empty(), P, "empty-batch", || format!("at {from}"));
                ep.check(failure.is_none(), P, "sent-after-failure", || format!("{ids:?} at {from}"));
                let total: u64 = ids.iter().map(|i| plans.get(i).map_or(0, |p| p.gas)).sum();
                ep.check(ids.len() < 2 || total < limit, P, "batch-over-the-limit", || {
                    format!("{ids:?} need {total} gas of {limit}")
                });
                ep.seen(P, &("batch", ids.len().min(20), (total * 8).checked_div(limit).unwrap_or(9).min(16), ok, limit));
                ep.count(if ids.len() > 1 { "batches of several" } else { "batches of one" });
                for i in ids {
                    ep.check(when.insert(*i, *from).is_none(), P, "sent-twice", || format!("message {i}"));
                    ep.check(plans.get(i).is_some_and(|p| !p.bad), P, "sent-without-estimate", || format!("message {i}"));
                }
                sent.extend(ids);
                busy.push((*from, *to));
                if !ok {
                    failure = Some(*to);
                }
            }
        }
    }
    // what was accepted is sent: all of it, unless a broadcast failed
    for (at, _, id) in &accepted {
        let p = &plans[id];
        if p.bad {
            ep.count("without estimate");
            continue;
        }
        match when.get(id) {
            Some(t) => {
                ep.count("sent");
                let work: u64 = busy.iter().map(|(a, b)| (*b).min(*t).saturating_sub((*a).max(*at))).sum();
                ep.check(*t <= at + interval + work, P, "message-late", || {
                    format!("message {id} accepted at {at}, sent at {t}, interval {interval}, busy for {work}")
                });
                if work == 0 {
                    if let Some(f) = forced.iter().find(|f| *f > at) {
                        ep.count("forced");
                        // the queue is idle then, unless something else takes its time
                        let busy_then = busy.iter().any(|(a, b)| a <= f && f <= b && a != b);
                        ep.check(busy_then || t <= f, P, "force-ignored", || {
                            format!("message {id} accepted at {at}, forced at {f}, sent at {t}")
                        });
                    }
                }
                ep.seen(P, &("sent", (t - at).min(interval + 1) * 6 / (interval + 1), work > 0, clients, limit, interval));
            }
            None => {
                ep.check(failure.is_some(), P, "message-lost", || {
                    format!("message {id} accepted at {at} was never sent ({end:?}); {} without estimate", plans.values().filter(|p| p.bad).count())
                });
                ep.count("lost with a failure");
            }
        }
    }
    ep.check((end == End::Failed) == failure.is_some() , P, "wrong-end", || {
        format!("{end:?}, a broadcast failed: {}", failure.is_some())
    });
    // in the order in which they were accepted
    let pos: BTreeMap<u64, usize> = sent.iter().enumerate().map(|(p, i)| (*i, p)).collect();
    let mut by_time = accepted.clone();
    by_time.sort_by_key(|a| a.0);
    let mut last_of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut top: Option<(u64, usize)> = None; // the last position of everything strictly earlier
    let mut group: Option<(u64, usize)> = None;
    for (at, c, id) in by_time {
        let Some(p) = pos.get(&id).copied() else { continue };
        if let Some(l) = last_of.insert(c, p) {
            ep.check(l < p, P, "order-changed", || format!("message {id} of client {c}"));
        }
        match group {
            Some((t, g)) if t == at => group = Some((t, g.max(p))),
            _ => {
                if let Some((t, g)) = group {
                    top = Some((t, top.map_or(g, |x| x.1.max(g))));
                }
                group = Some((at, p));
            }
        }
        if let Some((_, g)) = top {
            ep.check(g < p, P, "order-changed", || format!("message {id}, accepted at {at}, overtook"));
        }
    }
    ep.count(match end {
        End::Closed => "closed",
        _ => "failed",
    });
    ep.seen(P, &("end", end == End::Closed, batches.min(30), clients, interval, limit));
    ep.settle()
}
