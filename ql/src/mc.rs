//! C42: correlated random paths. The generator draws from the thread's own random source, so every bound below is a
//! statistical one of at least seven standard errors (less than one false alarm in 1e9 runs).
use quantlib::pricing_engines::montecarlo::rand_generator::correlated_path;
use ndarray::Array2;
use vmon::{check, guarded, Case, Rng, Run, R};

const Z: f64 = 7.5;
/// a random correlation (or covariance) matrix with smallest eigenvalue away from zero, in f64
fn matrix(r: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let kind = r.below(4);
    let rho = r.uni(-1.0 / (n.max(2) as f64 - 1.0) * 0.9, 0.95);
    let b: Vec<Vec<f64>> = (0..n).map(|_| (0..n + 1).map(|_| r.uni(-1.0, 1.0)).collect()).collect();
    let raw = |i: usize, j: usize| (0..n + 1).map(|k| b[i][k] * b[j][k]).sum::<f64>() + if i == j { 0.1 } else { 0.0 };
    let vol: Vec<f64> = (0..n).map(|_| r.uni(0.2, 3.0)).collect();
    (0..n).map(|i| (0..n).map(|j| match kind {
        0 => if i == j { 1.0 } else { 0.0 },
        1 => if i == j { 1.0 } else { rho },
        2 => raw(i, j) / (raw(i, i) * raw(j, j)).sqrt(),
        _ => raw(i, j) / (raw(i, i) * raw(j, j)).sqrt() * vol[i] * vol[j],
    } as f32 as f64).collect()).collect()
}
struct Paths { x: Vec<Vec<f64>>, steps: usize }
fn draw(m: &Array2<f32>, steps: usize) -> Result<Paths, vmon::Fail> {
    let p = guarded(|| correlated_path(steps, m)).map_err(|(l, e)| vmon::Fail::new("paths:refused", format!("a positive definite matrix is refused at {l}: {e}; {m:?}")))?;
    if p.shape() != [m.shape()[0], steps] { return Err(vmon::Fail::new("paths:shape", format!("{:?} for {} variables and {steps} steps", p.shape(), m.shape()[0]))) }
    if p.iter().any(|x| !x.is_finite()) { return Err(vmon::Fail::new("paths:not-finite", format!("{steps} steps of {m:?}"))) }
    Ok(Paths { x: p.rows().into_iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect(), steps })
}
/// two samples of standardised variables must be uncorrelated
fn apart(a: impl Iterator<Item = f64>, b: impl Iterator<Item = f64>, va: f64, vb: f64) -> (f64, usize) { let (mut s, mut n) = (0.0, 0); for (x, y) in a.zip(b) { s += x * y; n += 1 } (s / (va * vb).sqrt() / (n.max(1) as f64).sqrt(), n) }

fn moments(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(6);
    let steps = 3000 + r.below(6000);
    let w = matrix(r, n);
    let m = Array2::from_shape_fn((n, n), |(i, j)| w[i][j] as f32);
    let a = draw(&m, steps)?; let b = draw(&m, steps)?;
    let d = || format!("{steps} steps of {m:?}");
    let k = steps as f64;
    for i in 0..n {
        let sd = w[i][i].sqrt();
        let mean = a.x[i].iter().sum::<f64>() / k;
        check!(mean.abs() <= Z * sd / k.sqrt(), "paths:mean", "variable {i} has mean {mean}; {}", d());
        for j in 0..=i {
            let s = a.x[i].iter().zip(&a.x[j]).map(|(x, y)| x * y).sum::<f64>() / k;
            let err = ((w[i][i] * w[j][j] + w[i][j] * w[i][j]) / k).sqrt();
            check!((s - w[i][j]).abs() <= Z * err, "paths:covariance", "variables {i} and {j}: sample covariance {s}, asked for {} (standard error {err}); {}", w[i][j], d());
            c.ev("covariances");
        }
        // the distribution is normal, not only its first two moments
        let z: Vec<f64> = a.x[i].iter().map(|x| x / sd).collect();
        let (m3, m4) = (z.iter().map(|x| x.powi(3)).sum::<f64>() / k, z.iter().map(|x| x.powi(4)).sum::<f64>() / k);
        check!(m3.abs() <= 1.3 * Z * (15.0 / k).sqrt(), "paths:skewed", "third moment {m3}; {}", d());
        check!((m4 - 3.0).abs() <= 2.0 * Z * (96.0 / k).sqrt(), "paths:not-normal", "fourth moment {m4}; {}", d());
        for (q, p) in [(-1.0, 0.15865525), (0.0, 0.5), (1.0, 0.84134475), (2.0, 0.97724987)] { let f = z.iter().filter(|x| **x <= q).count() as f64 / k; check!((f - p).abs() <= Z * (p * (1.0 - p) / k).sqrt(), "paths:not-normal", "a share {f} of the draws is below {q} standard deviations (normal: {p}); {}", d()); c.ev("quantiles"); }
        // steps are independent of each other, of other variables' past, and of another call
        for lag in [1, 2, 7] { for j in 0..n { let (t, _) = apart(a.x[i][lag..].iter().copied(), a.x[j].iter().copied(), w[i][i], w[j][j]); check!(t.abs() <= Z, "paths:steps-dependent", "variable {i} and variable {j} {lag} steps earlier: {t} standard errors; {}", d()); c.ev("lags"); } }
        for j in 0..n { let (t, _) = apart(a.x[i].iter().copied(), b.x[j].iter().copied(), w[i][i], w[j][j]); check!(t.abs() <= Z, "paths:calls-dependent", "variable {i} of one call and {j} of the next: {t} standard errors; {}", d()); c.ev("calls_compared"); }
    }
    c.fold(n as u64); c.fold(steps as u64); c.foldf(a.x[0][0]); c.nontrivial = true; let _ = a.steps;
    Ok(())
}
/// short paths, called many times: the joint law across calls
fn many(r: &mut Rng, c: &mut Case) -> R {
    let n = 2 + r.below(3); let steps = 1 + r.below(4); let calls = 3000;
    let w = matrix(r, n); let m = Array2::from_shape_fn((n, n), |(i, j)| w[i][j] as f32);
    let mut s = vec![vec![0.0; n * steps]; n * steps];
    for _ in 0..calls { let p = draw(&m, steps)?; let f: Vec<f64> = p.x.concat(); for (a, x) in f.iter().enumerate() { for (b, y) in f.iter().enumerate() { s[a][b] += x * y; } } }
    for a in 0..n * steps { for b in 0..n * steps {
        let (i, j) = (a / steps, b / steps); let want = if a % steps == b % steps { w[i][j] } else { 0.0 };
        let err = ((w[i][i] * w[j][j] + want * want) / calls as f64).sqrt();
        check!((s[a][b] / calls as f64 - want).abs() <= Z * err, "paths:covariance", "over {calls} calls variable {i} at step {} and variable {j} at step {} have covariance {}, asked for {want}; {m:?}", a % steps, b % steps, s[a][b] / calls as f64);
        c.ev("cross_covariances");
    } }
    check!(draw(&m, 0)?.x.iter().all(|x| x.is_empty()), "paths:shape", "no steps");
    c.evn("short_paths", calls); c.foldf(s[0][0]); c.nontrivial = true;
    Ok(())
}
/// longer paths over many calls: distant steps of a path share nothing
fn distant(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(3); let steps = 5 + r.below(300); let calls = 1500;
    let w = matrix(r, n); let m = Array2::from_shape_fn((n, n), |(i, j)| w[i][j] as f32);
    let mut at = vec![(0, 0, 0, 0), (0, 0, 0, steps - 1), (0, n - 1, 0, steps - 1), (n - 1, 0, 0, steps - 1), (0, 0, 0, steps / 2), (0, 0, steps / 2, steps - 1), (0, 0, steps - 2, steps - 1)];
    for _ in 0..30 { at.push((r.below(n), r.below(n), r.below(steps), r.below(steps))) }
    let mut s = vec![0.0; at.len()];
    for _ in 0..calls { let p = draw(&m, steps)?; for (k, (i, j, a, b)) in at.iter().enumerate() { s[k] += p.x[*i][*a] * p.x[*j][*b]; } }
    for (k, (i, j, a, b)) in at.iter().enumerate() {
        let (i, j) = (*i, *j); let want = if a == b { w[i][j] } else { 0.0 };
        let err = ((w[i][i] * w[j][j] + want * want) / calls as f64).sqrt();
        check!((s[k] / calls as f64 - want).abs() <= Z * err, "paths:covariance", "over {calls} calls of {steps} steps variable {i} at step {a} and variable {j} at step {b} have covariance {}, asked for {want}; {m:?}", s[k] / calls as f64);
        c.ev("distant_covariances");
    }
    c.foldf(s[0]); c.nontrivial = true; Ok(())
}
/// far tails are there in the share the normal law gives them
fn tails(r: &mut Rng, c: &mut Case) -> R {
    let var = r.uni(0.5, 2.0) as f32; let m = Array2::from_elem((1, 1), var); let sd = (var as f64).sqrt();
    let qs = [(2.0, 2.2750132e-2), (2.5, 6.2096653e-3), (3.0, 1.3498980e-3), (3.5, 2.3262908e-4), (4.0, 3.1671242e-5), (4.5, 3.3976731e-6)];
    let (mut up, mut dn) = ([0u64; 6], [0u64; 6]); let (calls, steps) = (40, 1_000_000);
    for _ in 0..calls { let p = guarded(|| correlated_path(steps, &m)).map_err(|(l, e)| vmon::Fail::new("paths:refused", format!("{l}: {e}")))?; for x in p.iter() { let z = *x as f64 / sd; if z.abs() > 2.0 { for (k, (q, _)) in qs.iter().enumerate() { if z > *q { up[k] += 1 } if z < -*q { dn[k] += 1 } } } } }
    let n = calls as f64 * steps as f64;
    for (k, (q, p)) in qs.iter().enumerate() { for (what, x) in [("above", up[k]), ("below minus", dn[k])] {
        let e = n * p; check!((x as f64 - e).abs() <= Z * e.sqrt() + 5.0, "paths:tails", "{x} of {n} draws lie {what} {q} standard deviations, the normal law gives {e}; variance {var}"); c.ev("tail_shares"); } }
    c.evn("tail_draws", n as u64); c.fold(up[0]); c.nontrivial = true; Ok(())
}
/// no call repeats another
fn repeats(_r: &mut Rng, c: &mut Case) -> R {
    let m = Array2::from_elem((1, 1), 1.0f32); let mut seen = std::collections::HashSet::new(); let (n, mut twice) = (60_000, 0);
    for _ in 0..n { let p = draw(&m, 4)?; let k: Vec<u32> = p.x[0].iter().map(|x| (*x as f32).to_bits()).collect(); if !seen.insert(k) { twice += 1 } }
    check!(twice <= 10, "paths:repeated", "{twice} of {n} four-step paths repeat an earlier one exactly");
    c.evn("distinct_paths", n); c.fold(twice); c.foldf(seen.iter().next().map_or(0.0, |x| x[0] as f64)); c.nontrivial = true; Ok(())
}
/// threads drawing at once never share numbers
fn threads(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(3); let w = matrix(r, n); let m = Array2::from_shape_fn((n, n), |(i, j)| w[i][j] as f32); let k = 2 + r.below(4); let steps = 1000;
    let bar = std::sync::Barrier::new(k);
    let all: Vec<Result<Paths, vmon::Fail>> = std::thread::scope(|s| { let h: Vec<_> = (0..k).map(|_| s.spawn(|| { bar.wait(); draw(&m, steps) })).collect(); h.into_iter().map(|x| x.join().unwrap()).collect() });
    let all: Vec<Paths> = all.into_iter().collect::<Result<_, _>>()?;
    for a in 0..k { for b in 0..a {
        let same = all[a].x[0].iter().zip(&all[b].x[0]).filter(|(x, y)| x == y).count();
        check!(same <= 5, "paths:threads-share", "two threads drew {same} of {steps} equal numbers; {m:?}");
        let (t, _) = apart(all[a].x[0].iter().copied(), all[b].x[0].iter().copied(), w[0][0], w[0][0]); check!(t.abs() <= Z, "paths:threads-share", "two threads' paths correlate: {t} standard errors");
        c.ev("thread_pairs");
    } }
    c.foldf(all[0].x[0][0]); c.nontrivial = true;
    Ok(())
}
/// what is no covariance matrix yields no path
fn refused(r: &mut Rng, c: &mut Case) -> R {
    let n = 2 + r.below(3); let w = matrix(r, n); let mut m = Array2::from_shape_fn((n, n), |(i, j)| w[i][j] as f32);
    let what = r.below(3);
    match what { 0 => { let (i, j) = (r.below(n), r.below(n)); m[[i, j]] = f32::NAN; m[[j, i]] = f32::NAN; } 1 => { let (i, j) = (0, 1); let x = 1.5 * (m[[i, i]] * m[[j, j]]).sqrt(); m[[i, j]] = x; m[[j, i]] = x; } _ => { let i = r.below(n); m[[i, i]] = -m[[i, i]]; } }
    if let Ok(p) = guarded(|| correlated_path(10, &m)) { check!(false, "paths:indefinite-accepted", "{m:?} gives {p:?}"); }
    c.ev("refused"); c.foldf(m[[0, 1]] as f64); c.fold(what as u64); c.nontrivial = true;

    Ok(())
}
pub fn c42(run: &mut Run) {
    run.rule("random correlation and covariance matrices of 1-6 variables; long paths, many short paths, concurrent threads; sample moments, quantiles, lagged and cross-call covariances against the normal law with the requested covariance, bounds of 7.5 standard errors");
    run.assume("the random source is the process' own: a replay repeats the experiment, not the numbers");
    run.family("moments", 400, 20_000, moments);
    run.family("short-paths", 200, 10_000, many);
    run.family("distant-steps", 60, 5_000, distant);
    run.family("tails", 8, 100, tails);
    run.family("repeats", 4, 100, repeats);
    run.family_t("threads", 300, 10_000, 2, threads);
    run.family("refused", 400, 10_000, refused);
    for (k, n) in [("covariances", 1000), ("quantiles", 1000), ("lags", 2000), ("calls_compared", 1000), ("cross_covariances", 2000), ("thread_pairs", 200), ("refused", 200), ("distant_covariances", 1000), ("tail_shares", 12), ("distinct_paths", 60_000)] { run.require(k, n) }
}
