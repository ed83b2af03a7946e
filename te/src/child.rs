//! Worker processes: families whose executions may crash the process, or need a sanitizer build.
//! The worker runs the cases; the parent reads its report (or the sanitizer's) and decides.
use std::process::{Command, Stdio};
use vmon::{guarded, Case, Fail, Rng, Run, R};
pub type Fam = fn(&mut Rng, &mut Case) -> R;
#[derive(Clone, Copy, PartialEq)]
pub enum San { Plain, Asan, Tsan }
impl San {
    pub fn name(self) -> &'static str { match self { San::Plain => "plain", San::Asan => "asan", San::Tsan => "tsan" } }
    /// binary of this variant: this one, or the build check.sh made
    pub fn bin(self) -> Option<String> {
        let e = match self { San::Plain => return std::env::current_exe().ok().map(|p| p.to_string_lossy().to_string()), San::Asan => "TE_ASAN", San::Tsan => "TE_TSAN" };
        std::env::var(e).ok().filter(|p| std::path::Path::new(p).exists())
    }
}
/// child side: W family first n slotfile outfile
pub fn worker(a: &[String], lookup: fn(&str) -> Option<Fam>) -> ! {
    let (fam, seed0, n, slot, out) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), &a[3], &a[4]);
    let family = lookup(fam).unwrap();
    let single = n == 0;
    let slot = std::fs::OpenOptions::new().write(true).create(true).open(slot).unwrap();
    use std::os::unix::fs::FileExt;
    let mut counters: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut fps = std::collections::HashSet::new();
    vmon::install_quiet_hook();
    let mut sample = String::new();
    let mut evals = 0;
    for i in 0..n.max(1) {
        let seed = if single { seed0 } else { vmon::mix(seed0.wrapping_add(i)) };
        slot.write_at(&seed.to_le_bytes(), 0).unwrap();
        let mut c = Case::fresh(seed, fam);
        let mut r = Rng::new(seed);
        let res = guarded(|| family(&mut r, &mut c));
        for (k, v) in &c.counters { *counters.entry(k).or_insert(0) += v; }
        fps.insert(c.fingerprint);
        evals += 1;
        if sample.is_empty() { if let Some(s) = &c.sample { sample = s.clone(); } }
        let f = match res { Ok(Ok(())) => continue, Ok(Err(f)) => f, Err((l, m)) => {
            eprintln!("worker panic {l}: {m}");
            if !vmon::harness_loc(&l) { std::process::exit(91) }
            if vmon::environmental(&m) { std::process::exit(90) }
            vmon::Fail::new(format!("{fam}:uninterpretable"), format!("an input the code must accept was refused, or its answer lacks a part the property promises; the monitor stopped at {l}: {m}"))
        } };
        let trace = c.trace.borrow().iter().rev().take(60).rev().cloned().collect::<Vec<_>>();
        let doc = serde_json::json!({"seed": seed.to_string(), "sig": f.sig, "detail": f.detail, "trace": trace});
        std::fs::write(out, doc.to_string()).unwrap();
        std::process::exit(77);
    }
    let doc = serde_json::json!({"counters": counters, "fps": fps.iter().map(|f| f.to_string()).collect::<Vec<_>>(), "n": evals, "sample": sample});
    std::fs::write(out, doc.to_string()).unwrap();
    std::process::exit(0)
}

/// run one worker process and fold its report into the run; replays pass n = 0
pub fn drive(run: &Run, san: San, fam: &'static str, label: &'static str, seed: u64, n: u64, secs: u64) {
    let Some(bin) = san.bin() else { run.harness_error(format!("no {} build for {label}", san.name())); return };
    static NR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("vmon-w-{}-{}", std::process::id(), NR.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    let (slot, out, err) = (dir.join("slot"), dir.join("out"), dir.join("err"));
    let mut cmd = Command::new(bin);
    cmd.arg("W").arg(fam).arg(seed.to_string()).arg(n.to_string()).arg(&slot).arg(&out).current_dir(&dir).stdout(Stdio::null()).stderr(std::fs::File::create(&err).unwrap());
    cmd.env_remove("VMON_ASAN");
    match san {
        San::Plain => {}
        San::Asan => { cmd.env("VMON_ASAN", "1").env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:exitcode=78:abort_on_error=0:allocator_may_return_null=1"); }
        San::Tsan => { cmd.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4"); }
    }
    let mut ch = cmd.spawn().expect("spawn worker");
    let t0 = std::time::Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() { Some(s) => break Some(s), None if t0.elapsed().as_secs() > secs => { let _ = ch.kill(); let _ = ch.wait(); break None } None => std::thread::sleep(std::time::Duration::from_millis(10)) }
    };
    let e = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let cur = std::fs::read(&slot).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0);
    let doc: Option<serde_json::Value> = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok());
    let _ = std::fs::remove_dir_all(&dir);
    let stack = || e.lines().filter(|l| l.contains("Sanitizer") || l.trim_start().starts_with("#") && !l.contains("/rustc/") && !l.contains("rust-src")).take(10).map(|l| l.trim()).collect::<Vec<_>>().join(" | ");
    use std::os::unix::process::ExitStatusExt;
    match (st, doc) {
        (None, _) => run.record(label, cur, Fail::new(format!("{label}:hang"), format!("{label}: the worker did not finish {n} cases in {secs} s (case seed {cur} does not return)")), vec![]),
        (Some(s), Some(d)) if s.code() == Some(0) => {
            for (k, v) in d["counters"].as_object().unwrap() { run.count(k, v.as_u64().unwrap()); }
            for f in d["fps"].as_array().unwrap() { run.note_case(f.as_str().unwrap().parse().unwrap(), true); }
            run.count_evals(label, d["n"].as_u64().unwrap());
        }
        (Some(s), Some(d)) if s.code() == Some(77) => run.record(label, d["seed"].as_str().unwrap().parse().unwrap(), Fail::new(d["sig"].as_str().unwrap(), d["detail"].as_str().unwrap()), d["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()),
        (Some(s), _) if s.code() == Some(66) || e.contains("ThreadSanitizer: data race") => run.record(label, cur, Fail::new(format!("{label}:data-race"), format!("ThreadSanitizer report in {label}: {}", stack())), vec![]),
        (Some(s), _) if s.code() == Some(78) || e.contains("AddressSanitizer") => run.record(label, cur, Fail::new(format!("{label}:address-sanitizer"), format!("AddressSanitizer report in {label}: {}", stack())), vec![]),
        (Some(s), _) if s.signal().is_some() => run.record(label, cur, Fail::new(format!("{label}:signal-{}", s.signal().unwrap()), format!("the process was killed by signal {} while handling the case (access outside the given memory, or abort): {}", s.signal().unwrap(), e.lines().last().unwrap_or(""))), vec![]),
        (Some(s), _) if s.code() == Some(91) => run.record(label, cur, Fail::new(format!("{label}:panic"), format!("panic in code under test: {}", e.lines().last().unwrap_or(""))), vec![]),
        (Some(s), _) => run.harness_error(format!("worker {label} ended with {s:?}: {}", e.lines().last().unwrap_or(""))),
    }
}
/// one entry of a plan: family, label, variant, cases per worker, number of worker processes
pub type Plan = (&'static str, &'static str, San, u64, u64);
/// run a plan (or replay one case of it) with `par` processes at a time
pub fn plan(run: &Run, plans: &[Plan], secs: u64, par: usize) {
    if let Some((f, seed)) = run.cfg.replay.clone() {
        for (fam, label, san, ..) in plans { if *label == f { for _ in 0..if *san == San::Tsan { 20 } else { 3 } { drive(run, *san, fam, label, seed, 0, 120); } } }
        return;
    }
    let mut jobs = vec![];
    for (i, (fam, label, san, n, procs)) in plans.iter().enumerate() { for w in 0..*procs { jobs.push((*fam, *label, *san, *n, vmon::mix(run.cfg.seed ^ ((w + 1) * 1000 + i as u64 * 7)))); } }
    let q = std::sync::Mutex::new(jobs);
    std::thread::scope(|s| { for _ in 0..par { s.spawn(|| loop { let Some((fam, label, san, n, seed)) = q.lock().unwrap().pop() else { break }; drive(run, san, fam, label, seed, n, secs); }); } });
}
