//! C11: id counters under concurrency.
use std::sync::Barrier;
use trading_engine::types::base::VirtualOrderId;
use trading_engine::utils::counter::*;
use vmon::{check, Case, Rng, Run, R};

enum Any { Us(CounterUsize), U6(CounterU64), Uu(UnboundedCounterUsize), U4(UnboundedCounterU64) }
impl Any { fn next(&self) -> Option<u64> { match self { Any::Us(c) => c.next().ok().map(|x| x as u64), Any::U6(c) => c.next().ok(), Any::Uu(c) => Some(c.next() as u64), Any::U4(c) => Some(c.next()) } } }

fn race(r: &mut Rng, c: &mut Case) -> R {
    let nt = 2 + r.below(6);
    let per = 1 + r.below(400);
    let total = (nt * per) as u64;
    // several counters of different kinds used by the same threads
    let nc = 1 + r.below(4);
    let mut cs = vec![];
    for _ in 0..nc {
        let kind = r.below(4);
        let start = match r.below(4) { 0 => 0, 1 => r.below(1000) as u64, 2 => u64::MAX - r.below(300) as u64, _ => r.u64() >> r.below(60) };
        let span = match r.below(4) { 0 => 0, 1 => r.below(total as usize + 1) as u64, 2 => total - 1, _ => u64::MAX };
        let end = start.saturating_add(span);
        if kind >= 2 { let s = start.min(u64::MAX - total); cs.push((if kind == 2 { Any::Uu(UnboundedCounterUsize::new(s as usize)) } else { Any::U4(UnboundedCounterU64::new(s)) }, s, u64::MAX)); }
        else { cs.push((if kind == 0 { Any::Us(CounterUsize::new(start as usize, end as usize)) } else { Any::U6(CounterU64::new(start, end)) }, start, end)); }
    }
    let bar = Barrier::new(nt);
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    let logs: Vec<Vec<Vec<Option<u64>>>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().map(|sd| { let (bar, cs) = (&bar, &cs); let sd = *sd; s.spawn(move || {
            let mut q = Rng::new(sd);
            let mut log: Vec<Vec<Option<u64>>> = vec![vec![]; cs.len()];
            bar.wait();
            for _ in 0..per { for (i, x) in cs.iter().enumerate() { log[i].push(x.0.next()); if q.chance(0.02) { std::thread::yield_now(); } } }
            log
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut switches = 0u64;
    for (i, (k, start, end)) in cs.iter().enumerate() {
        let mut owner: Vec<(u64, usize)> = vec![];
        let mut refused = 0u64;
        for (t, l) in logs.iter().enumerate() {
            let mut last: Option<u64> = None; let mut stopped = false;
            for v in &l[i] { match v {
                Some(x) => {
                    check!(!stopped, "counter:accepts-after-refusal", "thread {t} got id {x} after a refusal (range {start}..={end})");
                    check!(x >= start && x <= end, "counter:range", "id {x} outside {start}..={end}");
                    check!(last.map_or(true, |l| *x > l), "counter:not-increasing", "thread {t} got {x} after {last:?}");
                    last = Some(*x); owner.push((*x, t));
                }
                None => { refused += 1; stopped = true; }
            } }
        }
        owner.sort();
        let want = total.min((end - start).saturating_add(1));
        check!(owner.len() as u64 == want, "counter:count", "{total} requests on {start}..={end}: {} ids handed out, want {want}", owner.len());
        for (n, (x, _)) in owner.iter().enumerate() { check!(*x == start + n as u64, "counter:gap-or-duplicate", "the {n}-th smallest id is {x}, want {} (duplicate or gap)", start + n as u64); }
        check!(refused == total - want, "counter:refusals", "{refused} refusals, want {}", total - want);
        // refusals are stable
        for _ in 0..3 { let v = k.next(); if *end != u64::MAX || owner.last().map(|o| o.0) == Some(u64::MAX) { if owner.len() as u64 == (end - start).saturating_add(1) { check!(v.is_none(), "counter:wraps", "id {v:?} after the last id {end} was handed out"); } } }
        if refused > 0 { c.ev("exhausted_counters"); }
        if *end == u64::MAX && *start > u64::MAX - 400 && refused > 0 { c.ev("exhausted_at_the_type_maximum"); }
        for w in owner.windows(2) { if w[0].1 != w[1].1 { switches += 1; } }
        c.evn("ids_handed_out", owner.len() as u64);
        for o in owner.iter().take(64) { c.fold(o.1 as u64); }
    }
    let mut v = VirtualOrderId::new(per as u64);
    for i in 0..20 { check!(v.next_id() == per as u64 + i, "counter:virtual-order", "virtual order ids are not consecutive"); }
    c.evn("thread_switches_between_consecutive_ids", switches);
    c.fold(total); c.nontrivial = switches > 0;
    c.sample(|| format!("{nt} threads x {per} requests on {nc} counters, {switches} interleaving switches"));
    Ok(())
}
pub fn c11(run: &mut Run) {
    run.rule("a case is one race of 2-7 threads on 1-4 counters; non-trivial when consecutive ids went to different threads at least once; distinct by the observed assignment of the first ids to threads");
    run.family_t("races", 2_000, 300_000, 2, race);
    run.require("thread_switches_between_consecutive_ids", 1000); run.require("exhausted_counters", 100); run.require("exhausted_at_the_type_maximum", 10);
}
