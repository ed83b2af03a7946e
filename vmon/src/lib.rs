//! Shared monitor runtime: seeded workload generation, per-case monitors with
//! violation/known-finding/harness-error verdicts, watchdog, evidence writing.
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod rng;
pub use rng::Rng;

/// A monitor verdict against the code under test.
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable identification of what is broken (used to match known findings)
    pub sig: String,
    pub detail: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), detail: detail.into() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))) } };
}
/// unwrap a Result/Option of the code under test, where the property says it must succeed
#[macro_export]
macro_rules! must {
    ($e:expr, $sig:expr, $($arg:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err($crate::Fail::new($sig, format!("{}: {:?}", format!($($arg)*), e))) } };
}
#[macro_export]
macro_rules! some {
    ($e:expr, $sig:expr, $($arg:tt)*) => { match $e { Some(v) => v, None => return Err($crate::Fail::new($sig, format!($($arg)*))) } };
}

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub replay: Option<(String, u64)>,
    pub root: String,
    pub scale: f64,
}

/// What one monitored execution reports.
pub struct Case {
    pub seed: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub fingerprint: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub trace: RefCell<Vec<String>>,
    pub tracing: bool,
    pub known: Vec<Fail>,
}
pub fn install_quiet_hook() { install_hook(); }
/// "family" of a verdict about a whole run; its replay is the run itself
pub const WHOLE_RUN: &str = "(whole run)";
pub fn harness_loc(l: &str) -> bool { is_harness_loc(l) }
impl Case {
    pub fn fresh(seed: u64, name: &str) -> Case { Case { seed, counters: BTreeMap::new(), fingerprint: fnv(name), nontrivial: false, sample: None, trace: RefCell::new(vec![]), tracing: false, known: vec![] } }
    /// exactly recognised known-finding behaviour: reported, the case goes on
    pub fn known(&mut self, sig: &str, detail: impl FnOnce() -> String) { if !self.known.iter().any(|k| k.sig == sig) { self.known.push(Fail { sig: sig.into(), detail: detail() }); } }
    pub fn ev(&mut self, name: &'static str) { *self.counters.entry(name).or_insert(0) += 1; }
    pub fn evn(&mut self, name: &'static str, n: u64) { *self.counters.entry(name).or_insert(0) += n; }
    /// fold observed state into the fingerprint used for counting distinct executions
    pub fn fold(&mut self, x: u64) { self.fingerprint = mix(self.fingerprint ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)); }
    pub fn foldf(&mut self, x: f64) { self.fold(x.to_bits()); }
    pub fn folds(&mut self, s: &str) { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } self.fold(h); }
    pub fn trace(&self, f: impl FnOnce() -> String) { 
        let mut t = self.trace.borrow_mut();
        if self.tracing || t.len() < 4000 { t.push(f()); }
    }
    /// use the first n trace lines as this case's sample
    pub fn sample_trace(&mut self, n: usize) { if self.sample.is_none() { let s = self.trace.borrow().iter().take(n).cloned().collect::<Vec<_>>().join(" | "); self.sample = Some(s); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.sample.is_none() { self.sample = Some(f()); } }
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct Violation { family: String, seed: u64, fail: Fail, trace: Vec<String> }

struct Inner {
    evaluations: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    nontrivial: u64,
    samples: Vec<Value>,
    violations: Vec<Violation>,
    known_hits: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
    families: BTreeMap<String, u64>,
    exhaustive: Vec<String>,
}

pub struct Run {
    pub cfg: Cfg,
    inner: Arc<Mutex<Inner>>,
    known: Vec<Known>,
    requires: Vec<(String, u64)>,
    assumptions: Vec<String>,
    rule: String,
    start: Instant,
    stop: Arc<AtomicBool>,
    /// some family ran out of its time budget before all its cases were run
    cut: AtomicBool,
}
#[derive(Clone)]
pub struct Known { pub property: String, pub sig: String, pub what: String }

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}
/// Runs code under test; a panic becomes Err((location, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|p| {
        PANIC.with(|x| x.borrow_mut().take()).unwrap_or_else(|| ("?".into(), payload_str(&*p)))
    })
}
fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.starts_with("vmon/")
}
/// a failed system call of the monitor itself (disk full, no sockets) says nothing about the code under test
pub fn environmental(msg: &str) -> bool { msg.contains("Os {") || msg.contains("os error") || msg.contains("failed to spawn thread") || msg.contains("WouldBlock") }
fn file_of(loc: &str) -> String {
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    f.rsplit_once("/src/").map(|x| x.1.to_string()).unwrap_or(f.to_string())
}

/// CPU time of the calling process' thread `tid` in ns
fn thread_cpu_ns(clock: libc::clockid_t) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 { return 0; }
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

/// the verdict goes to the stdout the process started with, also while a monitor silences the code under test
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
macro_rules! out { ($($a:tt)*) => {{ let s = format!($($a)*) + "\n"; let mut b = s.as_bytes(); while !b.is_empty() { let n = unsafe { libc::write(OUT.load(Ordering::Relaxed), b.as_ptr() as *const _, b.len()) }; if n <= 0 { break } b = &b[n as usize..]; } }} }
impl Run {
    pub fn from_env(prop: &str) -> Run {
        let args: Vec<String> = std::env::args().collect();
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.iter().any(|a| a == "--thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let mut replay = None;
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            let p = args.get(i + 1).expect("--replay PATH");
            let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json");
            if v["family"] != WHOLE_RUN { replay = Some((v["family"].as_str().unwrap().to_string(), v["case_seed"].as_str().unwrap().parse().unwrap())); }
        }
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        install_hook();
        let o = unsafe { libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3) };
        if o > 0 { OUT.store(o, Ordering::Relaxed); }
        let known = load_known(&root, prop);
        Run {
            cfg: Cfg { prop: prop.into(), thorough, seed, threads, replay, root, scale },
            inner: Arc::new(Mutex::new(Inner {
                evaluations: 0, counters: BTreeMap::new(), distinct: HashSet::new(), nontrivial: 0, samples: vec![],
                violations: vec![], known_hits: BTreeMap::new(), harness_errors: vec![], families: BTreeMap::new(), exhaustive: vec![],
            })),
            known, requires: vec![], assumptions: vec![], rule: String::new(), start: Instant::now(),
            stop: Arc::new(AtomicBool::new(false)),
            cut: AtomicBool::new(false),
        }
    }
    pub fn rule(&mut self, s: &str) { self.rule = s.into(); }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    /// the run is void (harness error) unless the monitors saw at least n of this event
    pub fn require(&mut self, counter: &str, n: u64) { self.requires.push((counter.into(), n)); }
    /// multiplies the case counts of the quick tier
    pub fn boost(&mut self, k: f64) { if !self.cfg.thorough { self.cfg.scale *= k } }
    pub fn thorough(&self) -> bool { self.cfg.thorough }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) }
    pub fn exhaustive(&self, what: &str) { self.inner.lock().unwrap().exhaustive.push(what.into()); }
    pub fn count(&self, name: &str, n: u64) { *self.inner.lock().unwrap().counters.entry(name.into()).or_insert(0) += n; }
    pub fn harness_error(&self, s: String) { self.inner.lock().unwrap().harness_errors.push(s); }

    /// Run `n` (quick) or `n_thorough` seeded cases on all threads; each capped by the family time budget.
    pub fn family<F>(&self, name: &str, n: u64, n_thorough: u64, f: F)
    where F: Fn(&mut Rng, &mut Case) -> R + Sync {
        self.family_t(name, n, n_thorough, self.cfg.threads, f)
    }
    pub fn family_t<F>(&self, name: &str, n: u64, n_thorough: u64, threads: usize, f: F)
    where F: Fn(&mut Rng, &mut Case) -> R + Sync {
        if let Some((fam, seed)) = &self.cfg.replay {
            if fam == name { self.one(name, *seed, true, &f); }
            return;
        }
        if self.stopped() { return; }
        // n = 1: an enumeration, run once
        let total = if n == 1 { 1 } else { ((if self.thorough() { n_thorough } else { n }) as f64 * self.cfg.scale).max(1.0) as u64 };
        let budget = Duration::from_secs_f64(if self.thorough() { 600.0 } else { 120.0 });
        let next = AtomicU64::new(0);
        let base = mix(self.cfg.seed ^ fnv(name));
        let t0 = Instant::now();
        let done = AtomicBool::new(false);
        // per-worker (case seed, cpu clock, cpu at case start)
        let slots: Vec<Mutex<Option<(u64, libc::clockid_t, u64)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..threads {
                let (next, f, slots, this) = (&next, &f, &slots, self);
                let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut clock: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock); }
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i < total && t0.elapsed() > budget { this.cut.store(true, Ordering::Relaxed); }
                        if i >= total || t0.elapsed() > budget || this.stopped() { break; }
                        let seed = mix(base.wrapping_add(i));
                        *slots[w].lock().unwrap() = Some((seed, clock, thread_cpu_ns(clock)));
                        this.one(name, seed, false, f);
                        *slots[w].lock().unwrap() = None;
                    }
                }).unwrap();
                hs.push(h);
            }
            let (slots, done, this) = (&slots, &done, self);
            s.spawn(move || {
                let limit_ns = 60_000_000_000u64;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    for sl in slots.iter() {
                        let g = sl.lock().unwrap();
                        if let Some((seed, clock, c0)) = *g {
                            let used = thread_cpu_ns(clock).saturating_sub(c0);
                            if used > limit_ns {
                                drop(g);
                                this.record(name, seed, Fail::new(format!("{name}:non-termination"),
                                    format!("a single case consumed more than {} s of CPU time (typical: well below a second): an operation does not return", limit_ns / 1_000_000_000)), vec![]);
                                std::process::exit(this.finish_code());
                            }
                        }
                    }
                }
            });
            for h in hs { let _ = h.join(); }
            done.store(true, Ordering::Relaxed);
        });
    }
    fn one<F>(&self, name: &str, seed: u64, tracing: bool, f: &F) where F: Fn(&mut Rng, &mut Case) -> R + Sync {
        let mut case = Case { seed, counters: BTreeMap::new(), fingerprint: fnv(name), nontrivial: false, sample: None, trace: RefCell::new(vec![]), tracing, known: vec![] };
        let mut rng = Rng::new(seed);
        let r = guarded(|| f(&mut rng, &mut case));
        let mut fail = None;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(fl)) => fail = Some(fl),
            Err((loc, msg)) => {
                if is_harness_loc(&loc) && !environmental(&msg) {
                    // the harness never panics on what the specified behaviour produces
                    fail = Some(Fail::new(format!("{name}:uninterpretable:{}", file_of(&loc)), format!("an input the code must accept was refused, or its answer lacks a part the property promises; the monitor stopped at {loc}: {msg}")));
                } else if is_harness_loc(&loc) {
                    let mut g = self.inner.lock().unwrap();
                    if g.harness_errors.len() < 20 { g.harness_errors.push(format!("harness panic in {name} seed {seed}: {loc}: {msg}")); }
                } else {
                    fail = Some(Fail::new(format!("{name}:panic:{}", file_of(&loc)), format!("panic in code under test at {loc}: {msg}")));
                }
            }
        }
        {
            let mut g = self.inner.lock().unwrap();
            g.evaluations += 1;
            *g.families.entry(name.into()).or_insert(0) += 1;
            for (k, v) in &case.counters { *g.counters.entry(k.to_string()).or_insert(0) += v; }
            if case.nontrivial {
                g.nontrivial += 1;
                let fp = case.fingerprint;
                g.distinct.insert(fp);
            }
            if let Some(s) = &case.sample { 
                let k = g.samples.iter().filter(|v| v["family"] == name).count();
                if k < 2 { g.samples.push(json!({"family": name, "case_seed": seed.to_string(), "case": s})); }
            }
        }
        for k in std::mem::take(&mut case.known) { self.record(name, seed, k, vec![]); }
        if let Some(fl) = fail { self.record(name, seed, fl, case.trace.into_inner()); }
    }
    pub fn record(&self, family: &str, seed: u64, fl: Fail, trace: Vec<String>) {
        let mut g = self.inner.lock().unwrap();
        if let Some(k) = self.known.iter().find(|k| k.sig == fl.sig) {
            *g.known_hits.entry(k.sig.clone()).or_insert(0) += 1;
            return;
        }
        if g.violations.len() < 50 {
            g.violations.push(Violation { family: family.into(), seed, fail: fl, trace });
        }
        if g.violations.len() >= 20 { self.stop.store(true, Ordering::Relaxed); }
    }
    /// add an already-decided verdict (used by external oracles such as sanitizer reports)
    pub fn verdict(&self, family: &str, r: R) {
        let mut g = self.inner.lock().unwrap();
        g.evaluations += 1;
        *g.families.entry(family.into()).or_insert(0) += 1;
        drop(g);
        if let Err(f) = r { self.record(family, 0, f, vec![]); }
    }
    pub fn count_evals(&self, family: &str, n: u64) {
        let mut g = self.inner.lock().unwrap();
        g.evaluations += n; *g.families.entry(family.into()).or_insert(0) += n;
    }
    pub fn note_case(&self, fingerprint: u64, nontrivial: bool) {
        let mut g = self.inner.lock().unwrap();
        if nontrivial { g.nontrivial += 1; g.distinct.insert(fingerprint); }
    }
    pub fn add_sample(&self, family: &str, s: String) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.iter().filter(|v| v["family"] == family).count() < 2 { g.samples.push(json!({"family": family, "case": s})); }
    }
    fn finish_code(&self) -> i32 {
        let g = self.inner.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut sigs = BTreeSet::new();
        let ev_dir = format!("{}/evidence", self.cfg.root);
        let _ = std::fs::create_dir_all(&ev_dir);
        let mut code = 0;
        let mut replays = vec![];
        for v in &g.violations {
            if !sigs.insert(v.fail.sig.clone()) { continue; }
            let path = format!("{}/replay-{}-{}.json", ev_dir, self.cfg.prop, sigs.len());
            let doc = json!({"property": self.cfg.prop, "family": v.family, "case_seed": v.seed.to_string(), "signature": v.fail.sig,
                "detail": v.fail.detail, "trace_tail": v.trace.iter().rev().take(200).rev().collect::<Vec<_>>(),
                "how": format!("/verif/check.sh {} --replay {}", self.cfg.prop, path)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            out!("VIOLATION property={} replay={}", self.cfg.prop, path);
            out!("  what: [{}] {}", v.fail.sig, v.fail.detail);
            replays.push(path);
            code = 1;
        }
        for k in &self.known {
            out!("KNOWN-FINDING: property={} {} (observed {} times in this run)", k.property, k.what, g.known_hits.get(&k.sig).copied().unwrap_or(0));
        }
        let mut counters = serde_json::Map::new();
        for (k, v) in &g.counters { counters.insert(k.clone(), json!(v)); }
        let mut harness = g.harness_errors.clone();
        if code == 0 && self.cfg.replay.is_none() {
            for (c, n) in &self.requires {
                let got = g.counters.get(c).copied().unwrap_or(0);
                if got == 0 && *n >= 20 && !self.cut.load(Ordering::Relaxed) && g.harness_errors.is_empty() {
                    // every case ran, thousands of occasions, and behaviour the property speaks about was not seen once
                    let path = format!("{}/replay-{}-never-{}.json", ev_dir, self.cfg.prop, replays.len());
                    let doc = json!({"property": self.cfg.prop, "family": WHOLE_RUN, "case_seed": "0", "signature": format!("never-observed:{c}"),
                        "detail": format!("every case of the run completed but '{c}' was never observed (at least {n} times on code with the property)"), "how": format!("/verif/check.sh {} --replay {}", self.cfg.prop, path)});
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
                    out!("VIOLATION property={} replay={}", self.cfg.prop, path);
                    out!("  what: [never-observed:{c}] every case of the run completed but this behaviour was never observed");
                    replays.push(path);
                    code = 1;
                } else if got < *n { harness.push(format!("monitor starved: saw {got} '{c}' events, need {n}")); }
            }
        }
        if self.cfg.replay.is_none() {
            let ev = json!({
                "property": self.cfg.prop, "tier": if self.thorough() {"thorough"} else {"quick"}, "seed": self.cfg.seed, "level": "exploration",
                "coverage": {
                    "evaluations": g.evaluations, "distinct_nontrivial": g.distinct.len(),
                    "rule": self.rule, "samples": g.samples, "observed_events": Value::Object(counters),
                    "cases_per_family": g.families, "nontrivial_cases": g.nontrivial, "enumerated_completely": g.exhaustive,
                    "known_findings_observed": g.known_hits, "harness_errors": harness,
                },
                "assumptions": self.assumptions, "wall_s": wall, "violations": sigs.len(),
            });
            let _ = std::fs::write(format!("{}/{}.json", ev_dir, self.cfg.prop), serde_json::to_string_pretty(&ev).unwrap());
        }
        out!("{}: {} executions, {} distinct non-trivial, {} violation signature(s), {:.1} s", self.cfg.prop, g.evaluations, g.distinct.len(), sigs.len(), wall);
        for (k, v) in &g.counters { out!("  observed {k}: {v}"); }
        if code == 0 && !harness.is_empty() {
            for h in &harness { eprintln!("HARNESS-ERROR: {h}"); }
            return 3;
        }
        code
    }
    pub fn finish(self) -> ! {
        let c = self.finish_code();
        std::process::exit(c)
    }
}
fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

fn load_known(root: &str, prop: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.jsonl")) {
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') || line.starts_with("fixed:") { continue; }
            if let Ok(v) = serde_json::from_str::<Value>(line) {
                if v["property"] == prop {
                    out.push(Known { property: prop.into(), sig: v["signature"].as_str().unwrap_or("").into(), what: v["what"].as_str().unwrap_or("").into() });
                }
            }
        }
    }
    out
}

/// |a-b| within rel*max(|a|,|b|) + abs
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b { return true; }
    if !a.is_finite() || !b.is_finite() { return a.is_nan() && b.is_nan(); }
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}
