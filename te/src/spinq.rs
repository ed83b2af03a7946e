//! C09: the one-producer/many-workers hand-over cell.
use crate::child::{self, San::*};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;
use std::time::Instant;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use vmon::{check, fail, must, Case, Fail, Rng, Run, R};

static LIVE: AtomicI64 = AtomicI64::new(0);
/// heap payload with a checksum; counts its live instances
#[derive(Debug)]
pub struct Item { seq: u64, body: Vec<u64>, sum: u64 }
impl Item {
    fn new(seq: u64) -> Item { LIVE.fetch_add(1, Relaxed); let mut i = Item { seq, body: vec![], sum: 0 }; i.fill(seq, 3); i }
    fn fill(&mut self, seq: u64, n: usize) { self.seq = seq; self.body = (0..n as u64).map(|k| vmon::mix(seq ^ k)).collect(); self.sum = self.total(); }
    fn total(&self) -> u64 { self.body.iter().fold(vmon::mix(self.seq), |a, b| vmon::mix(a ^ b)) }
}
impl Default for Item { fn default() -> Item { Item::new(0) } }
impl Clone for Item { fn clone(&self) -> Item { LIVE.fetch_add(1, Relaxed); Item { seq: self.seq, body: self.body.clone(), sum: self.sum } } }
impl Drop for Item { fn drop(&mut self) { LIVE.fetch_sub(1, Relaxed); self.seq = u64::MAX; } }

fn ids(r: &mut Rng, n: usize) -> Vec<u16> { let mut v: Vec<u16> = (0..16).collect(); for i in 0..16 { let j = i + r.below(16 - i); v.swap(i, j); } v.truncate(n); v }

pub fn model(r: &mut Rng, c: &mut Case) -> R {
    let before = LIVE.load(Relaxed);
    for id in 16..40u16 { check!(WorkerId::new(id).is_err(), "spinqueue:worker-id", "worker id {id} accepted (only 0..=15 fit the status word)"); }
    check!(WorkerId::new(16 + r.below(65000) as u16).is_err(), "spinqueue:worker-id", "a worker id over 15 was accepted");
    let n = r.below(17);
    let mut all = vec![];
    for i in 0..16 { let w = must!(WorkerId::new(i), "spinqueue:worker-id", "worker number {i} is refused"); check!(w.id == i, "spinqueue:worker-id", "worker {i} is numbered {}", w.id); all.push(w); }
    let mine = ids(r, n);
    if n > 0 && r.chance(0.3) {
        let mut d: Vec<WorkerId> = mine.iter().map(|i| all[*i as usize].clone()).collect();
        d.insert(r.below(d.len() + 1), all[*r.pick(&mine) as usize].clone());
        check!(DataSpinQueue::new(Item::new(1), d).is_err(), "spinqueue:duplicate-worker", "a duplicate worker id was accepted: {mine:?}");
        c.ev("duplicate_ids_refused");
    }
    let dflt = n == 0 && r.bool();
    let q: DataSpinQueue<Item> = if dflt { c.ev("default_queues"); DataSpinQueue::default() } else { must!(DataSpinQueue::new(Item::new(7), mine.iter().map(|i| all[*i as usize].clone()).collect()), "spinqueue:new", "distinct worker ids refused") };
    let mut pending: std::collections::BTreeSet<u16> = Default::default();
    let mut seq = if dflt { 0 } else { 7 };
    for step in 0..20 + r.below(200) {
        let id = r.below(16) as u16;
        let w = &all[id as usize];
        match r.below(5) {
            0 => if let Some(p) = { let g = q.get_mut(); check!(g.is_some() == pending.is_empty(), "spinqueue:producer-admission", "step {step}: producer admitted = {} while workers {pending:?} have not finished", g.is_some()); g } {
                let d = unsafe { &mut *p };
                check!(d.seq == seq && d.sum == d.total(), "spinqueue:producer-view", "the producer's view holds item {} (want {seq})", d.seq);
                seq += 1; d.fill(seq, 1 + r.below(20));
                q.notify_all_workers(); pending = mine.iter().copied().collect();
                c.ev("publications");
            },
            1 | 2 => { q.work_done(w); if pending.remove(&id) { c.ev("work_done") } else { c.ev("work_done_by_idle_or_foreign_worker") } }
            3 => { c.fold(id as u64 | (pending.contains(&id) as u64) << 8); }
            _ => { // everyone finishes
                for id in pending.clone() { q.work_done(&all[id as usize]); } pending.clear();
            }
        }
        check!(q.ready_to_update() == pending.is_empty(), "spinqueue:ready-to-update", "step {step}: ready_to_update {} with pending {pending:?}", q.ready_to_update());
        for i in 0..16u16 {
            let want = pending.contains(&i);
            check!(q.ready_to_work(&all[i as usize]) == want, "spinqueue:ready-to-work", "step {step}: worker {i} ready_to_work = {}, pending {pending:?}", !want);
            match q.get(&all[i as usize]) {
                Some(p) => { check!(want, "spinqueue:delivered-twice", "step {step}: worker {i} (registered: {}) sees an item it already finished or is not registered for; pending {pending:?}", mine.contains(&i)); let d = unsafe { &*p }; check!(d.seq == seq && d.sum == d.total(), "spinqueue:wrong-item", "worker {i} sees item {} instead of {seq}", d.seq); c.ev("items_seen"); }
                None => check!(!want, "spinqueue:not-delivered", "step {step}: worker {i} does not see item {seq} although it has not finished it"),
            }
        }
    }
    drop(q);
    check!(LIVE.load(Relaxed) == before, "spinqueue:leak", "{} payloads alive after the queue was dropped, {before} before", LIVE.load(Relaxed));
    c.nontrivial = true;
    Ok(())
}

/// a race of one producer and up to 15 workers; nothing but the queue synchronises them
pub fn race(r: &mut Rng, c: &mut Case) -> R {
    let before = LIVE.load(Relaxed);
    let nw = 1 + r.below(6);
    let mine = ids(r, nw);
    let rounds = 20 + r.below(if cfg!(debug_assertions) { 150 } else { 150 }) as u64;
    let ws: Vec<WorkerId> = mine.iter().map(|i| WorkerId::new(*i).unwrap()).collect();
    let q = must!(DataSpinQueue::new(Item::new(0), ws.clone()), "spinqueue:new", "distinct worker ids refused");
    let acks: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicU64::new(0);
    let bar = Barrier::new(nw + 1);
    let seeds: Vec<u64> = (0..=nw).map(|_| r.u64()).collect();
    let slow = r.below(nw + 2);
    let pause = |q: &mut Rng, much: bool| match q.below(if much { 6 } else { 40 }) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(q.below(40) as u64)), 2 | 3 => for _ in 0..q.below(300) { std::hint::spin_loop() }, _ => {} };
    let (seen, prod) = std::thread::scope(|s| {
        let hs: Vec<_> = ws.iter().enumerate().map(|(i, w)| { let (q, acks, stop, bar, sd) = (&q, &acks, &stop, &bar, seeds[i]); s.spawn(move || -> Result<(Vec<u64>, u64, u64), Fail> {
            let mut rr = Rng::new(sd);
            let (mut log, mut polls, mut order) = (vec![], 0u64, 0u64);
            bar.wait();
            let t0 = Instant::now();
            while (log.len() as u64) < rounds {
                let Some(p) = q.get(w) else { polls += 1; if polls % 64 == 0 { std::thread::yield_now(); }
                    if polls % 4096 == 0 && (stop.load(Relaxed) != 0 || t0.elapsed().as_secs() > 20) { return Err(Fail::new("spinqueue:not-delivered", format!("worker {} saw only {} of {rounds} items", w.id, log.len()))) } continue };
                let d = unsafe { &*p };
                let (seq, ok) = (d.seq, d.sum == d.total());
                pause(&mut rr, slow == i);
                let again = q.get(w).map(|p| unsafe { (*p).seq });
                if !ok || again != Some(seq) { stop.store(1, Relaxed); return Err(Fail::new("spinqueue:torn-item", format!("worker {}: item {seq} changed under the worker before it was done (checksum ok: {ok}, second look: {again:?})", w.id))) }
                log.push(seq);
                for (j, a) in acks.iter().enumerate() { if j != i && a.load(Relaxed) < seq { order += 1; } }
                acks[i].store(seq, Relaxed);
                q.work_done(w);
            }
            Ok((log, polls, order))
        }) }).collect();
        let mut rr = Rng::new(seeds[nw]);
        let mut prod: Result<u64, Fail> = Ok(0);
        let mut busy = 0u64;
        bar.wait();
        let t0 = Instant::now();
        'out: for seq in 1..=rounds {
            let p = loop { match q.get_mut() { Some(p) => break p, None => { busy += 1; if busy % 64 == 0 { std::thread::yield_now(); } if busy % 4096 == 0 && (stop.load(Relaxed) != 0 || t0.elapsed().as_secs() > 20) { prod = Err(Fail::new("spinqueue:producer-starves", format!("item {seq}: the producer is never admitted again"))); break 'out } } } };
            for (i, a) in acks.iter().enumerate() { let a = a.load(Relaxed); if a != seq - 1 { prod = Err(Fail::new("spinqueue:producer-admission", format!("the producer is admitted for item {seq} while worker {} has only finished item {a}", ws[i].id))); stop.store(1, Relaxed); break 'out } }
            let d = unsafe { &mut *p };
            d.fill(seq, 1 + rr.below(12));
            pause(&mut rr, slow == nw);
            q.notify_all_workers();
        }
        if prod.is_ok() { prod = Ok(busy) }
        (hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>(), prod)
    });
    let busy = prod?;
    let mut waits = 0;
    for (i, l) in seen.into_iter().enumerate() {
        let (log, polls, order) = l?;
        for (k, s) in log.iter().enumerate() { check!(*s == k as u64 + 1, "spinqueue:order", "worker {}: delivery {k} is item {s}, want {}", ws[i].id, k + 1); }
        c.evn("deliveries", log.len() as u64); waits += polls;
        c.evn("finished_before_another_worker", order);
        c.fold(order); c.fold(polls);
    }
    let t0 = Instant::now();
    while !q.ready_to_update() { if t0.elapsed().as_secs() > 5 { fail!("spinqueue:producer-starves", "the queue stays busy after every worker finished") } }
    check!(ws.iter().all(|w| q.get(w).is_none()), "spinqueue:delivered-twice", "an item is offered after every worker finished");
    c.evn("producer_found_it_busy", busy); c.evn("worker_polls_without_item", waits);
    drop(q);
    check!(LIVE.load(Relaxed) == before, "spinqueue:leak", "{} payloads alive after the queue was dropped, {before} before", LIVE.load(Relaxed));
    c.nontrivial = true;
    Ok(())
}
pub fn c09(run: &mut Run) {
    run.rule("a model case is one operation sequence on a queue with 0-16 workers compared with a set model after every step; a race case is one producer and 1-6 worker threads over 20-170 items in a child process (plain build, ThreadSanitizer build, AddressSanitizer build), distinct by observed worker finishing orders and poll counts");
    run.assume("one producer; each worker calls work_done once per item it got");
    let k = if run.thorough() { 40 } else { 1 };
    child::plan(run, &[("sq_model", "model", Plain, 3000 * k, 2), ("sq_model", "model/asan", Asan, 700 * k, 1), ("sq_race", "race", Plain, 400 * k, 3), ("sq_race", "race/asan", Asan, 150 * k, 1), ("sq_race", "race/tsan", Tsan, 120 * k, 3)], if run.thorough() { 3000 } else { 400 }, 2);
    if run.cfg.replay.is_some() { return }
    for (n, m) in [("publications", 1000), ("work_done_by_idle_or_foreign_worker", 1000), ("duplicate_ids_refused", 100), ("default_queues", 10), ("deliveries", 10_000), ("finished_before_another_worker", 1000), ("producer_found_it_busy", 1000), ("worker_polls_without_item", 1000)] { run.require(n, m); }
}
