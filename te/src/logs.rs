//! C10: the asynchronous JSON logger, one process per configuration, judged from the file and the console afterwards.
use crate::child::San;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use trading_engine::logger::{Logger, TimeZone};
use trading_engine::{debug, error, flushing_log_debug, flushing_log_error, flushing_log_info, flushing_log_trace, info, log_debug, log_error, log_info, log_trace, log_warn, trace, warn};
use trading_engine::{LogLevel, LogMessage, LogTopic, LOG_SENDER};
use vmon::{check, fail, Case, Fail, Rng, Run, R};

#[derive(Clone, Serialize)]
struct Rec { id: u64, qty: i64, px: f64, name: String, tags: Vec<u32>, topic: LogTopic, nested: Option<Box<Rec>>, nap: Nap }
const NASTY: [&str; 8] = ["plain", "quote\" and \\back", "line\nbreak\r\n", "tab\t null\u{0}", "한국거래소", "{\"json\":1}", "", "\u{10348} emoji {} {{}}"];
/// a number that takes long to format on the logger's own thread
#[derive(Clone)]
struct Nap(u64);
thread_local!(static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
impl Serialize for Nap { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.0 > 0 && !MINE.get() { std::thread::sleep(std::time::Duration::from_millis(self.0)) } s.serialize_u64(self.0) } }
struct Want { level: usize, topic: String, data: Value, line: u32 }
/// the plan of one thread: everything about a record is a function of the case seed, thread and number
fn rec(seed: u64, t: u64, k: u64, burst: bool) -> (u64, Rec, Rng) {
    let mut r = Rng::new(vmon::mix(seed ^ (t << 32) ^ k));
    let id = t << 32 | k;
    let mut x = Rec { id, qty: r.u64() as i64, px: (r.u64() as i64 >> (30 + r.below(30))) as f64 / 4.0, name: format!("{}{}", r.pick(&NASTY), r.below(1000)), tags: (0..r.below(5)).map(|i| i as u32 * 7).collect(), topic: *r.pick(&[LogTopic::TimeOut, LogTopic::TooLongDigit]), nested: None, nap: Nap(if !burst && r.chance(0.004) { 5 + r.below(40) as u64 } else { 0 }) };
    if r.chance(0.2) { x.nested = Some(Box::new(x.clone())); }
    if !burst && r.chance(0.002) { x.name = "x".repeat(2_100_000); }
    (id, x, r)
}
macro_rules! text { ($m:ident, $id:expr, $x:expr, $lv:expr) => {{ let (id, x) = ($id, $x.clone()); let msg = format!("#{id}# {} {:?}", x.name, x.tags); (line!(), { $m!("#{}# {} {:?}", id, x.name, x.tags); ($lv, "not given".to_string(), json!({"text": msg})) }) }} }
macro_rules! keys { ($m:ident, $id:expr, $x:expr, $lv:expr) => {{ let (id, x) = ($id, $x.clone()); let d = json!({"id": id, "qty": x.qty, "px": x.px, "name": x.name.clone(), "rec": x.clone()}); let (q, p, n) = (x.qty, x.px, x.name.clone()); (line!(), { $m!("Keyed", id = id, qty = q, px = p, name = n, rec = x); ($lv, "Keyed".to_string(), d) }) }} }
macro_rules! stru { ($m:ident, $id:expr, $x:expr, $lv:expr) => {{ let x = $x.clone(); let d = serde_json::to_value(&x).unwrap(); let t = x.topic; (line!(), { $m!(t, x); ($lv, t.as_str().to_string(), d) }) }} }
const KINDS: usize = 24;
/// log one record (if `go`) and say what it must look like
fn emit(kind: usize, id: u64, x: &Rec, go: bool) -> Want {
    macro_rules! one { ($e:expr) => {{ let (line, (level, topic, data)) = $e; Want { level, topic, data, line } }} }
    // judging side: the same code with the level switched off records nothing
    if !go { assert_eq!(trading_engine::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed), 0); }
    match kind {
        0 => one!(text!(error, id, x, 1)), 1 => one!(text!(warn, id, x, 2)), 2 => one!(text!(info, id, x, 3)), 3 => one!(text!(debug, id, x, 4)), 4 => one!(text!(trace, id, x, 5)),
        5 => one!(keys!(log_error, id, x, 1)), 6 => one!(keys!(log_warn, id, x, 2)), 7 => one!(keys!(log_info, id, x, 3)), 8 => one!(keys!(log_debug, id, x, 4)), 9 => one!(keys!(log_trace, id, x, 5)),
        10 => one!(stru!(log_error, id, x, 1)), 11 => one!(stru!(log_warn, id, x, 2)), 12 => one!(stru!(log_info, id, x, 3)), 13 => one!(stru!(log_debug, id, x, 4)), 14 => one!(stru!(log_trace, id, x, 5)),
        15 => one!(keys!(flushing_log_error, id, x, 1)), 16 => one!(keys!(flushing_log_info, id, x, 3)), 17 => one!(keys!(flushing_log_debug, id, x, 4)), 18 => one!(keys!(flushing_log_trace, id, x, 5)),
        19 => one!(stru!(flushing_log_error, id, x, 1)), 20 => one!(stru!(flushing_log_info, id, x, 3)), 21 => one!(stru!(flushing_log_debug, id, x, 4)), 22 => one!(stru!(flushing_log_trace, id, x, 5)),
        _ => { let s: &'static str = Box::leak(format!("STATIC {id}\n").into_boxed_str()); if go { let _ = LOG_SENDER.send(LogMessage::StaticString(s)); } Want { level: 0, topic: String::new(), data: json!(s.trim()), line: 0 } }
    }
}
#[derive(Clone, Debug)]
struct Plan { seed: u64, threads: u64, per: u64, level: Option<usize>, tz: usize, console: bool, early: u64, rotate: bool, file: bool, flush_heavy: bool, pace: u64, burst: bool }
impl Plan {
    fn new(seed: u64) -> Plan {
        let mut r = Rng::new(seed);
        let mut p = Plan { seed, threads: 1 + r.below(8) as u64, per: 1 + { let m = *r.pick(&[5usize, 60, 300]); r.below(m) as u64 }, level: match r.below(8) { 0 => None, n => Some([0, 1, 2, 3, 4, 5, 5, 5][n]) }, tz: r.below(5), console: r.bool(), early: r.below(12) as u64, rotate: r.chance(0.25), file: !r.chance(0.1), flush_heavy: r.chance(0.3), pace: r.below(4) as u64, burst: false };
        if r.chance(0.015) { p.burst = true; p.per = 4000 + r.below(8000) as u64; p.pace = 0; p.early = *r.pick(&[0, 10, 9000]); p.level = Some(5); if r.chance(0.35) { p.file = false; p.rotate = false; p.console = true; } }
        p
    }
    fn kind(&self, t: u64, k: u64) -> usize { let mut r = Rng::new(vmon::mix(self.seed ^ 77 ^ (t << 40) ^ k)); if self.flush_heavy && r.bool() { 15 + r.below(8) } else { r.below(KINDS) } }
}
/// child: L seed dir
pub fn child(a: &[String]) -> ! {
    let p = Plan::new(a[0].parse().unwrap());
    let dir = &a[1];
    if p.rotate { std::fs::create_dir_all(dir).unwrap(); }
    let mut l = Logger::initialize();
    if p.file { l = l.with_file(dir, "vmon").unwrap(); }
    if let Some(lv) = p.level { l = l.with_max_log_level(LogLevel::from_usize(lv).unwrap()); }
    match p.tz { 0 => l = l.with_timezone(TimeZone::Seoul), 1 => l = l.with_timezone(TimeZone::Japan), 2 => l = l.with_timezone(TimeZone::NewYork), 3 => l = l.with_timezone(TimeZone::Local), _ => {} }
    if p.console { l = l.with_console_report(true); }
    let times = std::sync::Mutex::new(String::new());
    let go = |t: u64, n: u64, pace: u64| { MINE.set(true); let mut when = String::new(); for k in 0..n {
        let (id, x, mut r) = rec(p.seed, t, k, p.burst);
        let a = trading_engine::get_unix_nano(); emit(p.kind(t, k), id, &x, true); let b = trading_engine::get_unix_nano();
        when += &format!("{id} {a} {b}\n");
        match pace { 0 => {} 1 => if r.chance(0.05) { std::thread::sleep(std::time::Duration::from_micros(r.below(3000) as u64)) }, 2 => if r.chance(0.2) { std::thread::yield_now() }, _ => for _ in 0..r.below(2000) { std::hint::spin_loop() } }
    } times.lock().unwrap().push_str(&when); };
    go(0, p.early, 0);
    let guard = l.launch();
    std::thread::scope(|s| {
        for t in 1..=p.threads { let go = &go; let p = &p; s.spawn(move || go(t, p.per, p.pace)); }
        if p.rotate { std::thread::sleep(std::time::Duration::from_micros(p.seed % 2000)); let _ = LOG_SENDER.send(LogMessage::SetFile(format!("{dir}/rotated.log").into())); }
    });
    drop(guard);
    std::fs::write(std::path::Path::new(dir).parent().unwrap().parent().unwrap().join("times"), &*times.lock().unwrap()).unwrap();
    std::process::exit(0)
}

fn judge(p: &Plan, lines: &[String], what: &str, window: (u64, u64), want: &[(u64, u64, Want)], times: &BTreeMap<u64, (u64, u64)>, c: &mut Case) -> R {
    let mut stamp: Option<u64>;
    let max = p.level.unwrap_or(0);
    let off = match p.tz { 0 | 1 => 9i64, 2 => -4, _ => 0 };
    let mut need: BTreeMap<u64, &(u64, u64, Want)> = want.iter().filter(|w| w.2.level <= max).map(|w| (w.0 << 32 | w.1, w)).collect();
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    let mut dropped = 0;
    for (n, l) in lines.iter().enumerate() {
        let stat = l.starts_with("STATIC ");
        let v: Value = if stat { json!({}) } else { match serde_json::from_str(l) { Ok(v) => v, Err(e) => fail!("logger:not-json", "{what}: line {n} is not JSON ({e}): {:.300}", l) } };
        let d = &v["data"]; stamp = None;
        if !stat {
            for k in ["date", "time", "offset", "level", "src", "topic", "data"] { check!(v.get(k).is_some(), "logger:field-missing", "{what}: line {n} has no {k}: {l:.300}"); }
            check!(v["offset"] == json!(off), "logger:offset", "{what}: offset {} want {off}", v["offset"]);
            // the texts are the instant of the logging call in the configured zone
            let (ds, ts) = (v["date"].as_str().unwrap_or(""), v["time"].as_str().unwrap_or(""));
            let nums: Vec<u64> = ts.split([':', '.']).filter_map(|x| x.parse().ok()).collect();
            check!(ds.len() == 8 && nums.len() == 6, "logger:time-text", "{what}: date {ds:?} time {ts:?}");
            let us = ((nums[0] * 60 + nums[1]) * 60 + nums[2]) * 1_000_000 + nums[3] * 1000 + nums[4];
            let ok = (window.0 / 1_000_000_000 - 3..=window.1 / 1_000_000_000 + 3).any(|s| { let l = s as i64 + off * 3600; let (y, m, d) = crate::clock::civil(l.div_euclid(86_400)); format!("{y:04}{m:02}{d:02}") == ds && (us / 1_000_000) as i64 == l.rem_euclid(86_400) });
            check!(ok, "logger:time", "{what}: record says {ds} {ts}, outside the run (ns {} .. {})", window.0, window.1);
            let days = |z: &str| { let (y, m, d): (i64, i64, i64) = (z[..4].parse().ok()?, z[4..6].parse().ok()?, z[6..].parse().ok()?); let y2 = if m <= 2 { y - 1 } else { y }; let era = y2.div_euclid(400); let yoe = y2 - era * 400; let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1; Some(era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468) };
            stamp = days(ds).map(|z| ((z * 86_400 - off * 3600) as u64) * 1_000_000_000 + us * 1000 + nums[5]);
            if v["topic"] == "logger" && d["message"] == "LoggerGuard is dropped" { dropped += 1; check!(max == 5 && n + 1 == lines.len(), "logger:guard-record", "{what}: the guard record is line {n} of {}, level {max}", lines.len()); continue; }
        }
        let id = if stat { l[7..].trim().parse().ok() } else { d["id"].as_u64().or_else(|| d["text"].as_str().and_then(|t| t.split('#').nth(1)).and_then(|x| x.parse().ok())) };
        let Some(id) = id else { fail!("logger:unknown-record", "{what}: line {n} matches no record that was logged: {l:.300}") };
        let Some((t, k, w)) = need.remove(&id) else {
            let any = want.iter().any(|w| w.0 << 32 | w.1 == id);
            fail!(if any { "logger:duplicate-or-filtered" } else { "logger:unknown-record" }, "{what}: line {n}: thread {} record {} appears a second time or although its level is off (max {max}): {l:.300}", id >> 32, id & 0xffff_ffff);
        };
        check!(last.get(t).map_or(true, |x| x < k), "logger:order", "{what}: thread {t}: record {k} after {:?}", last.get(t));
        last.insert(*t, *k);
        if stat { c.ev("static_records"); continue; }
        if let (Some(s), Some((a, b))) = (stamp, times.get(&id)) { check!(s + 1_000_000 >= *a && s <= *b + 1_000_000, "logger:call-time", "{what}: record {t}/{k} was logged between {a} and {b} ns but says {} {}, which is {s}", v["date"], v["time"]); c.ev("call_times_checked"); }
        check!(v["level"] == json!(LogLevel::from_usize(w.level).unwrap().to_string()) && v["topic"] == json!(w.topic), "logger:level-topic", "{what}: record {t}/{k}: level {} topic {}, want {} {}", v["level"], v["topic"], w.level, w.topic);
        check!(*d == w.data, "logger:data", "{what}: record {t}/{k}: data {:.400} want {:.400}", d.to_string(), w.data.to_string());
        let src = v["src"].as_str().unwrap_or("");
        check!(src.ends_with(&format!("logs.rs:{}", w.line)), "logger:src", "{what}: record {t}/{k}: src {src}, logged at logs.rs:{}", w.line);
        c.ev("records_checked");
    }
    if let Some((id, _)) = need.iter().next() { fail!("logger:lost", "{what}: {} of {} records are missing, first: thread {} record {}", need.len(), want.iter().filter(|w| w.2.level <= max).count(), id >> 32, id & 0xffff_ffff) }
    check!(dropped == (max == 5) as usize, "logger:guard-record", "{what}: {dropped} guard records at level {max}");
    Ok(())
}
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64 }
fn one(san: San, r: &mut Rng, c: &mut Case) -> R {
    let seed = r.u64(); MINE.set(true);
    let p = Plan::new(seed);
    let dir = std::env::temp_dir().join(format!("vmon-log-{}-{seed:x}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (out, err) = (dir.join("out"), dir.join("err"));
    let logs = dir.join("a/b");
    let t0 = now();
    let mut cmd = std::process::Command::new(san.bin().expect("Os { the sanitizer build is missing }"));
    cmd.arg("L").arg(seed.to_string()).arg(&logs).env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66").env("TZ", "UTC").stdout(std::fs::File::create(&out).unwrap()).stderr(std::fs::File::create(&err).unwrap());
    let mut ch = cmd.spawn().unwrap();
    let i0 = std::time::Instant::now();
    let st = loop { match ch.try_wait().unwrap() { Some(s) => break Some(s), None if i0.elapsed().as_secs() > 45 => { let _ = ch.kill(); let _ = ch.wait(); break None } None => std::thread::sleep(std::time::Duration::from_millis(2)) } };
    let t1 = now();
    let e = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).to_string();
    let console = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).to_string();
    let mut names: Vec<_> = std::fs::read_dir(&logs).map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    names.sort(); // "rotated" sorts before "vmon-": read the first file first
    let read = |n: &str| std::fs::read(logs.join(n)).unwrap_or_default();
    let mut text = vec![]; for n in names.iter().rev() { text.extend(read(n)); }
    let times: BTreeMap<u64, (u64, u64)> = std::fs::read_to_string(dir.join("times")).unwrap_or_default().lines().filter_map(|l| { let mut x = l.split(' ').map(|y| y.parse::<u64>().unwrap()); Some((x.next()?, (x.next()?, x.next()?))) }).collect();
    let _ = std::fs::remove_dir_all(&dir);
    let desc = format!("{p:?} ({})", san.name());
    c.trace(|| desc.clone());
    let Some(st) = st else { fail!("logger:hang", "{desc}: the process does not end within 45 s") };
    if st.code() == Some(66) || e.contains("ThreadSanitizer") { fail!("logger:data-race", "{desc}: {}", e.lines().filter(|l| l.contains("Sanitizer") || l.trim().starts_with('#')).take(8).collect::<Vec<_>>().join(" | ")) }
    if !st.success() || e.contains("panic") { fail!("logger:crash", "{desc}: ended with {st:?}: {}", e.lines().take(4).collect::<Vec<_>>().join(" | ")) }
    let Ok(text) = String::from_utf8(text) else { fail!("logger:not-utf8", "{desc}: the file is not UTF-8") };
    let mut want = vec![];
    for (t, n) in std::iter::once((0, p.early)).chain((1..=p.threads).map(|t| (t, p.per))) { for k in 0..n { let (id, x, _) = rec(seed, t, k, p.burst); want.push((t, k, emit(p.kind(t, k), id, &x, false))); } }
    let fl: Vec<String> = text.lines().map(String::from).collect();
    if p.file || p.rotate {
        let vm: Vec<&String> = names.iter().filter(|n| n.starts_with("vmon-")).collect();
        check!(vm.len() == p.file as usize && vm.iter().all(|n| n.len() == "vmon-20240101-000000.log".len() && n.ends_with(".log")), "logger:file-name", "{desc}: files {names:?}");
        check!(names.contains(&"rotated.log".to_string()) == p.rotate, "logger:file-name", "{desc}: files {names:?}");
        check!(text.is_empty() || text.ends_with('\n'), "logger:cut", "{desc}: the last record is cut");
        judge(&p, &fl, &format!("file, {desc}"), (t0, t1), &want, &times, c)?;
        c.ev("files_judged"); if p.rotate { c.ev("rotated_files"); }
    }
    let cl: Vec<String> = console.split('\n').filter(|l| !l.is_empty()).map(String::from).collect();
    if p.console { judge(&p, &cl, &format!("console, {desc}"), (t0, t1), &want, &times, c)?; c.ev("consoles_judged"); }
    else { check!(cl.is_empty(), "logger:console-off", "{desc}: the console shows {} lines although it is off", cl.len()); }
    if p.burst { c.ev("bursts"); }
    if p.early > 0 && p.level.unwrap_or(0) > 0 { c.ev("runs_with_records_before_launch"); }
    if p.level.unwrap_or(0) == 0 { c.ev("runs_with_logging_off"); }
    // interleaving seen in the output
    let order: Vec<u64> = if p.file { fl.iter() } else { cl.iter() }.filter_map(|l| l.split(if l.starts_with("STATIC") { ' ' } else { '#' }).nth(1).and_then(|x| x.trim().parse::<u64>().ok())).map(|i| i >> 32).collect();
    for w in order.windows(2) { if w[0] != w[1] { c.ev("thread_switches_in_the_output"); } }
    for o in order.iter().take(200) { c.fold(*o); } c.fold(seed);
    c.nontrivial = !want.is_empty();
    c.sample(|| desc);
    Ok(())
}
pub fn c10(run: &mut Run) {
    run.rule("a case is one process with a logger configuration (level, zone, console, file or none, file switch, records before launch) and 1-8 threads logging through all macros; file and console are compared with the plan record by record; distinct by plan and output order");
    run.assume("records logged before the guard is dropped; nothing is logged after it");
    run.family_t("processes", 700, 30_000, 12, |r, c| one(San::Plain, r, c));
    run.family_t("processes/tsan", 40, 3_000, 8, |r, c| one(San::Tsan, r, c));
    for (n, m) in [("records_checked", 10_000), ("call_times_checked", 10_000), ("bursts", 3), ("static_records", 500), ("files_judged", 100), ("rotated_files", 20), ("consoles_judged", 50), ("runs_with_records_before_launch", 50), ("runs_with_logging_off", 20), ("thread_switches_in_the_output", 1000)] { run.require(n, m); }
    let _ = Fail::new("", "");
}
