//! C07: wire times, running dates, calendar texts and the process clock.
use std::sync::atomic::{AtomicU64, Ordering};
use trading_engine::data::krx::krx_converter::get_krx_timestamp_converter;
use trading_engine::types::timestamp::*;
use trading_engine::utils::numeric_converter::{parse_hhmmss_to_nanos, IntegerConverter, NumReprCfg, TimeStampConverter};
use trading_engine::utils::timer::*;
use trading_engine::TimeStamp;
use vmon::{check, close, must, Case, Rng, Run, R};

const DAY: u64 = 86_400_000_000_000;
/// days since 1970-01-01 -> (y, m, d), by counting eras (independent of the code's year/month loops)
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn hms(us: u64) -> String { let s = us / 1_000_000; format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, us % 1_000_000) }
fn conv(offset_h: u64) -> TimeStampConverter {
    let cfg = NumReprCfg { digit_length: 12, total_length: 12, ..Default::default() };
    TimeStampConverter::new(IntegerConverter::new(cfg).unwrap(), offset_h * 3_600_000_000_000)
}
/// realistic stream: messages at most 9 h apart, small reordering inside a day; every stamp must be the true instant
fn stream(r: &mut Rng, c: &mut Case) -> R {
    let day0 = r.range(0, 60_000) as u64;
    let own = r.below(13) as u64;
    let cv2 = conv(own);
    let (cv, off) = if r.bool() { (get_krx_timestamp_converter(), 9u64) } else { (&cv2, own) };
    let mut g = match r.below(3) {
        0 => DateUnixNanoGenerator::from_unixnano(day0 * DAY + r.below(DAY as usize) as u64),
        1 => { let (y, m, d) = civil(day0 as i64); DateUnixNanoGenerator::from(time::Date::from_calendar_date(y as i32, (m as u8).try_into().unwrap(), d as u8).unwrap()) }
        _ => { let mut g = DateUnixNanoGenerator::default(); g.set_timestamp(TimeStamp::new(day0 * DAY + r.below(DAY as usize) as u64)); g }
    };
    check!(g.get_utcdate_unix_nano() == day0 * DAY, "clock:generator-date", "generator for day {day0} starts at {}", g.get_utcdate_unix_nano());
    let mut t = r.below(86_400_000_000) as u64; // µs since day0
    let mut days = 0;
    for i in 0..60 {
        let gap = match r.below(6) { _ if i == 0 => 0, 0 => 0, 1 => r.below(1000) as u64, 2 => r.below(1_000_000) as u64, 3 => 9 * 3_600_000_000, 4 => r.below(9 * 3_600_000_000 + 1) as u64, _ => r.below(60_000_000) as u64 };
        let before = t / 86_400_000_000;
        t += gap;
        let tod_b = t % 86_400_000_000;
        if r.chance(0.15) { t -= r.below(tod_b.min(1_000_000) as usize + 1) as u64; if t / 86_400_000_000 < before { t = before * 86_400_000_000; } c.ev("reordered_messages"); }
        let text = hms(t % 86_400_000_000);
        let sys = r.bool().then(|| TimeStamp::new(r.u64() >> 2));
        let got = must!(cv.parse_hhmmssuuuuuu(text.as_bytes(), sys, &mut g), "clock:wire-time", "time {text} refused");
        let want = day0 * DAY + t * 1000 + off * 3_600_000_000_000;
        check!(got.stamp == want, "clock:wire-time", "wire time {text} on day {} of the stream (offset {off} h): stamp {}, true instant {}", t / 86_400_000_000, got.stamp, want);
        check!(g.get_utcdate_unix_nano() == (day0 + t / 86_400_000_000) * DAY, "clock:date", "running date {} after {text}, true day starts {}", g.get_utcdate_unix_nano(), (day0 + t / 86_400_000_000) * DAY);
        check!(g.get_prev_timestamp() == want, "clock:last-stamp", "last stamp {} want {}", g.get_prev_timestamp(), want);
        if t / 86_400_000_000 > before { c.ev("midnight_rollovers"); days += 1; if let Some(s) = sys { check!(g.get_update_stamp() == s.stamp, "clock:update-stamp", "the date change is not stamped with the receive time"); } }
        c.ev("wire_times"); c.fold(want);
    }
    c.sample(|| format!("60 wire times from day {day0}, offset {off} h, {days} midnights"));
    c.nontrivial = true;
    Ok(())
}
/// every second of the day
fn every_second(r: &mut Rng, c: &mut Case) -> R {
    for s in 0..86_400u64 {
        let us = match s % 4 { 0 => 0, 1 => 999_999, _ => r.below(1_000_000) as u64 };
        let t = hms(s * 1_000_000 + us);
        check!(parse_hhmmss_to_nanos(t.as_bytes()) == s * 1_000_000_000, "clock:hhmmss", "parse_hhmmss_to_nanos({t}) = {}", parse_hhmmss_to_nanos(t.as_bytes()));
        let mut g = DateUnixNanoGenerator::from_unixnano(0);
        let v = must!(conv(0).parse_hhmmssuuuuuu(t.as_bytes(), None, &mut g), "clock:wire-time", "{t}");
        check!(v.stamp == s * 1_000_000_000 + us * 1000, "clock:second", "{t} -> {}", v.stamp);
    }
    c.evn("seconds_of_day", 86_400); c.nontrivial = true; Ok(())
}
fn texts(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..40 {
        let n = match r.below(5) {
            0 => { // around a year / month / leap boundary
                let y = r.range(1971, 2550); let (m, d) = *r.pick(&[(1, 1), (3, 1), (2, 29), (2, 28), (12, 31), (7, 1)]);
                let mut z = (y - 1970) * 365; while civil(z).0 < y { z += 1; } while civil(z) < (y, m, d) { z += 1; }
                (z as u64 * DAY).wrapping_add(*r.pick(&[0i64, -1, 1, 3_599_999_999_999, -3_600_000_000_000]) as u64)
            }
            1 => r.u64() % (60 * 366 * DAY), 2 => u64::MAX - r.u64() % DAY, _ => r.u64(),
        };
        let off = r.range(-12, 14);
        if (n as i128) + off as i128 * 3_600_000_000_000 < 0 { continue; }
        let (d, t) = convert_unix_nano_to_date_and_time(n, off as i32);
        let l = (n as i128 + off as i128 * 3_600_000_000_000) as u128;
        let (y, m, dd) = civil((l / DAY as u128) as i64);
        let x = (l % DAY as u128) as u64;
        let wd = format!("{y:04}{m:02}{dd:02}");
        let wt = format!("{:02}:{:02}:{:02}.{:03}:{:03}:{:03}", x / 3_600_000_000_000, x / 60_000_000_000 % 60, x / 1_000_000_000 % 60, x / 1_000_000 % 1000, x / 1000 % 1000, x % 1000);
        check!(d == wd && t == wt, "clock:text", "{n} ns at offset {off}: {d} {t}, calendar says {wd} {wt}");
        let (h, mi, s, ms) = time_components_from_unix_nano(n);
        let x = n % DAY;
        check!((h as u64, mi as u64, s as u64, ms as u64) == (x / 3_600_000_000_000, x / 60_000_000_000 % 60, x / 1_000_000_000 % 60, x / 1_000_000 % 1000), "clock:components", "{n}: {:?}", (h, mi, s, ms));
        let ts = TimeStamp::new(n);
        let (y, m, dd) = civil((n / DAY) as i64);
        let dt = must!(ts.to_datetime(), "clock:datetime", "{n}");
        check!(dt.unix_timestamp_nanos() == n as i128 && dt.year() as i64 == y, "clock:datetime", "{n} -> {dt}");
        let da = must!(ts.to_date_utc(), "clock:date-utc", "{n}");
        check!((da.year() as i64, u8::from(da.month()) as i64, da.day() as i64) == (y, m, dd), "clock:date-utc", "{n} -> {da}, calendar {y}-{m}-{dd}");
        let g = DateUnixNanoGenerator::from_unixnano(n);
        check!(g.get_utcdate_unix_nano() == n / DAY * DAY && g.get_prev_timestamp() == 0, "clock:generator", "from_unixnano({n})");
        let mut g2 = DateUnixNanoGenerator::from(da);
        check!(g2.get_utcdate_unix_nano() == n / DAY * DAY, "clock:generator-from-date", "From<Date>({da}) = {}", g2.get_utcdate_unix_nano());
        g2.set_timestamp(TimeStamp::new(n)); check!(g2.get_update_stamp() == n && g2.get_utcdate_unix_nano() == n / DAY * DAY, "clock:set-timestamp", "set_timestamp({n})");
        if n < u64::MAX - 2 * DAY { g2.increment(5); check!(g2.get_utcdate_unix_nano() == n / DAY * DAY + DAY && g2.get_update_stamp() == 5, "clock:increment", "increment"); }
        g2.cache_timestamp(17); check!(g2.get_prev_timestamp() == 17, "clock:cache", "cache_timestamp");
        // differences
        let e = n - r.u64() % (n.max(1)).min(1 << (1 + r.below(62)));
        let dn = (n - e) as f64;
        let o = TimeStamp::new(e);
        for (name, got, sc) in [("nanos", ts.diff_in_nanos(o), 1f64), ("micros", ts.diff_in_micros(o), 1e3), ("millis", ts.diff_in_millis(o), 1e6), ("secs", ts.diff_in_secs(o), 1e9), ("mins", ts.diff_in_mins(o), 60e9), ("hours", ts.diff_in_hours(o), 3600e9), ("days", ts.diff_in_days(o), 86400e9)] {
            check!(close(got, dn / sc, 1e-12, 0.0), "clock:difference", "diff_in_{name}({n}, {e}) = {got}, want {}", dn / sc);
        }
        c.ev("instants_converted"); c.fold(n); c.sample(|| format!("{n} {off:+} -> {d} {t}"));
    }
    c.nontrivial = true;
    Ok(())
}
/// process-wide clock: never runs backwards (beyond counter resolution) over any thread, and tracks the system clock
fn clocks(run: &Run) {
    const TOL: u64 = 50_000;
    let sys = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64;
    let n = if run.thorough() { 20_000_000 } else { 300_000u64 };
    let max = AtomicU64::new(0);
    let res: Vec<R> = std::thread::scope(|s| { let hs: Vec<_> = (0..8).map(|w| { let max = &max; s.spawn(move || -> R {
        let (mut last, mut lastl) = (0u64, 0u64);
        for i in 0..n {
            let seen = max.load(Ordering::SeqCst);
            let (s0, t, s1) = if i % 64 == 0 { let a = sys(); let t = get_unix_nano(); (a, t, sys()) } else { let t = get_unix_nano(); (t, t, t) };
            check!(t + 1000 >= last, "clock:backwards", "get_unix_nano went from {last} back to {t} in one thread");
            check!(t + TOL >= seen, "clock:backwards-across-threads", "get_unix_nano returned {t} after another thread had already seen {seen}");
            check!(t + 500_000_000 >= s0 && t <= s1 + 500_000_000, "clock:not-system-time", "get_unix_nano {t} while the system clock went from {s0} to {s1}");
            last = t; max.fetch_max(t, Ordering::SeqCst);
            let l = get_thread_local_unix_nano();
            check!(l + 1000 >= lastl, "clock:local-backwards", "thread local clock went from {lastl} to {l}");
            if i % 64 == 0 { let s2 = sys(); check!(l + 500_000_000 >= s1 && l <= s2 + 500_000_000, "clock:local-not-system-time", "thread local clock {l}, system {s1}..{s2}"); }
            lastl = l;
            if w == 0 && i % 4096 == 0 { std::thread::yield_now(); }
        }
        Ok(())
    }) }).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() });
    for r in res { run.verdict("process-clock", r); }
    run.count("clock_reads", n * 16);
    let t0 = sys();
    let g = DateUnixNanoGenerator::from_today().unwrap();
    let mut g2 = DateUnixNanoGenerator::default(); g2.set_today();
    let t1 = sys();
    run.verdict("process-clock", (|| { for x in [g, g2] { check!(x.get_utcdate_unix_nano() == t0 / DAY * DAY || x.get_utcdate_unix_nano() == t1 / DAY * DAY, "clock:today", "today is {} but the system clock is at {t0}", x.get_utcdate_unix_nano()); } Ok(()) })());
}
pub fn c07(run: &mut Run) {
    run.rule("a case is a stream of 60 wire times or 40 instants, each compared with independent calendar arithmetic; distinct by the instants; plus clock reads on 8 threads ordered through an atomic maximum");
    run.assume("stream times are at most 9 hours apart and not reordered across midnight (what a running date can resolve); instants with their offset are not before 1970; clock tolerance 1 us within and 50 us across threads");
    run.family("every-second", 1, 1, every_second);
    run.family("streams", 20_000, 1_000_000, stream);
    run.family("texts", 20_000, 1_000_000, texts);
    if run.cfg.replay.is_none() { clocks(run); }
    run.require("midnight_rollovers", 1000); run.require("wire_times", 10_000); run.require("instants_converted", 10_000); run.require("reordered_messages", 100);
    run.exhaustive("all 86400 seconds of the day");
}
