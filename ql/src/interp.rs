use ndarray::{Array1, Array2};
use quantlib::math::cholescky_factorization::cholesky_decomposition;
use quantlib::math::interpolator::{ExtraPolationType as X, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::{bilinear_interpolator::BilinearInterpolator, linear_interpolator::LinearInterpolator1D, stepwise_interpolatior::{ConstantInterpolator1D, StepwiseInterpolator1D}};
use quantlib::util::is_ndarray_sorted;
use quantlib::utils::{distribute_value::distribute_value_on_vector, find_index::*, find_index_ndarray::*, number_format::*};
use vmon::*;

pub fn grid(r: &mut Rng, n: usize) -> Vec<f32> {
    let scale = *r.pick(&[1e-3f32, 0.1, 1.0, 100.0, 1e4]);
    let mut x = if r.bool() { r.uni(-10.0, 10.0) as f32 * scale } else { 0.0 };
    let even = r.bool();
    (0..n).map(|_| { let v = x; let step = scale * if even { 1.0 } else { r.uni(0.01, 2.0) as f32 }; x += step.max(x.abs() * 1e-4); v }).collect()
}
/// nodes, neighbours of nodes in float order, inner points, points outside
fn query(r: &mut Rng, g: &[f32]) -> f32 {
    let n = g.len(); let k = r.below(n); let span = (g[n - 1] - g[0]).max(1e-3);
    let bits = |x: f32, up: bool| { if x == 0.0 { return if up { f32::MIN_POSITIVE } else { -f32::MIN_POSITIVE }; } let b = x.to_bits(); f32::from_bits(if up == (x > 0.0) { b + 1 } else { b - 1 }) };
    match r.below(7) { 0 => g[k], 1 => bits(g[k], true), 2 => bits(g[k], false), 3 => g[0] - span * r.f64() as f32 - 1e-3, 4 => g[n - 1] + span * r.f64() as f32 + 1e-3, _ => if n > 1 { let k = r.below(n - 1); g[k] + (g[k + 1] - g[k]) * r.f64() as f32 } else { g[0] } }
}
fn idx<T: PartialOrd>(g: &[T], x: &T) -> usize { g.iter().filter(|v| *v <= x).count().saturating_sub(1) }
fn search(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..20 {
        let vast = r.chance(0.01); let n = 1 + match r.below(3) { _ if vast => 200 + r.below(500), 0 => r.below(3), 1 => r.below(10), _ => r.below(80) };
        let g = grid(r, n);
        let nq = if vast && r.bool() { c.ev("long_batches"); 100 + r.below(500) } else { r.below(20) };
        let mut q: Vec<f32> = (0..nq).map(|_| query(r, &g)).collect(); q.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let ga = Array1::from_vec(g.clone()); let qa = Array1::from_vec(q.clone());
        let want: Vec<usize> = q.iter().map(|x| idx(&g, x)).collect();
        for (x, w) in q.iter().zip(&want) {
            let (a, b) = (binary_search_index(&g, *x), binary_search_index_ndarray(&ga, *x));
            check!(a == *w && b == *w, "search:single", "{x} in {g:?}: {a} / {b}, expected {w}"); c.ev("searches");
            if *x < g[0] || *x > g[n - 1] { c.ev("searches_outside"); }
        }
        let (a, b) = (vectorized_search_index_for_sorted_vector(&g, &q), vectorized_search_index_for_sorted_ndarray(&ga, &qa));
        check!(a == want && b == want, "search:batch", "{q:?} in {g:?}: {a:?} / {b:?}, expected {want:?}");
        if q.len() > 2 { c.ev("batches"); }
        // integers
        let gi: Vec<i64> = { let mut v: Vec<i64> = (0..n).map(|_| r.range(-1000, 1000)).collect(); v.sort(); v.dedup(); v };
        let mut qi: Vec<i64> = (0..nq).map(|_| r.range(-1100, 1100)).collect(); qi.sort();
        let want: Vec<usize> = qi.iter().map(|x| idx(&gi, x)).collect();
        let single: Vec<usize> = qi.iter().map(|x| binary_search_index(&gi, *x)).collect();
        check!(vectorized_search_index_for_sorted_vector(&gi, &qi) == want && single == want && vectorized_search_index_for_sorted_ndarray(&Array1::from_vec(gi.clone()), &Array1::from_vec(qi.clone())) == want, "search:integers", "{qi:?} in {gi:?}, expected {want:?}");
        check!(is_ndarray_sorted(&ga), "search:sorted", "{g:?} reported unsorted");
        let mut u = g.clone(); if n > 1 { let k = r.below(n - 1); u.swap(k, k + 1); check!(!is_ndarray_sorted(&Array1::from_vec(u.clone())), "search:sorted", "{u:?} reported sorted"); check!(LinearInterpolator1D::new(Array1::from_vec(u.clone()), ga.clone(), X::Flat, true).is_err() && StepwiseInterpolator1D::new(Array1::from_vec(u.clone()), ga.clone(), true, None, None).is_err(), "interpolate:unsorted-accepted", "{u:?}"); }
        c.fold(n as u64); c.foldf(g[0] as f64); c.nontrivial = true;
    }
    Ok(())
}
/// value of the piecewise linear function; None = refused
pub fn lin(g: &[f32], v: &[f64], x: f32, ext: Option<X>) -> Option<(f64, f64)> {
    let n = g.len();
    if n == 1 && x == g[0] { return Some((v[0], v[0].abs())); }
    let out = x < g[0] || x > g[n - 1];
    let k = idx(g, &x).min(n.saturating_sub(2));
    let at = |k: usize| { let s = (v[k + 1] - v[k]) / (g[k + 1] as f64 - g[k] as f64); let a = s * (x as f64 - g[k] as f64); (v[k] + a, v[k].abs() + v[k + 1].abs() + a.abs() + if out { 0.0 } else { 0.0 }) };
    if !out { return Some(at(k)); }
    match ext { None | Some(X::None) => None, Some(X::Flat) => { let w = if x < g[0] { v[0] } else { v[n - 1] }; Some((w, w.abs())) } Some(X::Linear) => if x < g[0] { Some(at(0)) } else { let k = n - 2; let s = (v[k + 1] - v[k]) / (g[k + 1] as f64 - g[k] as f64); let a = s * (x as f64 - g[k + 1] as f64); Some((v[k + 1] + a, v[k].abs() + v[k + 1].abs() + a.abs() + (s * (g[k + 1].abs() as f64)).abs() * 1e-2)) } }
}
const EXT: [X; 3] = [X::None, X::Flat, X::Linear];
fn curves(r: &mut Rng, c: &mut Case) -> R {
    let n = 2 + match r.below(3) { _ if r.chance(0.02) => 200 + r.below(500), 0 => r.below(2), 1 => r.below(6), _ => r.below(40) }; if n > 200 { c.ev("long_grids"); }
    let g = grid(r, n); let vs = *r.pick(&[1.0f64, 1000.0, 0.01]);
    let v: Vec<f32> = (0..n).map(|_| (r.uni(-1.0, 1.0) * vs) as f32).collect();
    let vd: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let (ga, va) = (Array1::from_vec(g.clone()), Array1::from_vec(v.clone()));
    let ext = *r.pick(&EXT); let allow = r.chance(0.7);
    c.fold(n as u64); c.foldf(v[0] as f64);
    check!(LinearInterpolator1D::new(ga.clone(), Array1::zeros(n + 1), ext, allow).is_err() && StepwiseInterpolator1D::new(ga.clone(), Array1::zeros(n - 1), allow, None, None).is_err(), "interpolate:length-accepted", "different lengths accepted");
    check!(guarded(|| LinearInterpolator1D::new(Array1::zeros(0), Array1::zeros(0), ext, allow).is_err() && StepwiseInterpolator1D::new(Array1::<f32>::zeros(0), Array1::zeros(0), allow, None, None).is_err()).unwrap_or(false), "interpolate:empty-accepted", "empty grids accepted or panicking");
    let l = must!(LinearInterpolator1D::new(ga.clone(), va.clone(), ext, allow), "interpolate:refused", "{g:?}");
    let (le, re) = (if r.bool() { Some(r.uni(-2.0, 2.0) as f32) } else { None }, if r.bool() { Some(r.uni(-2.0, 2.0) as f32) } else { None });
    let s = must!(StepwiseInterpolator1D::new(ga.clone(), va.clone(), allow, le, re), "interpolate:refused", "{g:?}");
    let k = must!(ConstantInterpolator1D::new(v[0]), "interpolate:refused", "");
    let inside = r.chance(0.4);
    let nq = if n > 200 && r.bool() { 50 + r.below(400) } else { r.below(12) };
    let mut q: Vec<f32> = (0..nq).map(|_| query(r, &g)).filter(|x| !inside || (*x >= g[0] && *x <= g[n - 1])).collect(); q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let qa = Array1::from_vec(q.clone());
    let mut singles = (vec![], vec![]); let mut scale: Vec<f64> = vec![];
    for x in &q {
        let got = l.interpolate(*x);
        let d = || format!("grid {g:?} values {v:?} query {x} extrapolation {ext:?} allowed {allow}");
        match lin(&g, &vd, *x, allow.then_some(ext)) {
            None => { check!(got.is_err(), "linear:outside-accepted", "{}: {:?}", d(), got.as_ref().ok()); c.ev("linear_refused"); }
            Some((w, m)) => { let got = *must!(got.as_ref(), "linear:refused", "{}", d()) as f64;
                check!((got - w).abs() <= 2e-6 * m + 1e-9, "linear:value", "{got}, expected {w}; {}", d());
                let i = idx(&g, x); if *x >= g[0] && *x <= g[n - 1] { let (a, b) = (vd[i], vd[(i + 1).min(n - 1)]); check!(got >= a.min(b) - 2e-6 * m - 1e-9 && got <= a.max(b) + 2e-6 * m + 1e-9, "linear:bounds", "{got}; {}", d()); if g[i] == *x { check!(got == vd[i], "linear:node", "{got} at a node; {}", d()); c.ev("linear_at_nodes"); } c.ev("linear_inside"); } else { c.ev("linear_extrapolated"); } }
        }
        singles.0.push(got.ok()); scale.push(lin(&g, &vd, *x, allow.then_some(ext)).map_or(0.0, |y| y.1));
        let got = s.interpolate(*x);
        let want = if *x < g[0] { allow.then_some(le.unwrap_or(v[0])) } else if *x > g[n - 1] { allow.then_some(re.unwrap_or(v[n - 1])) } else { Some(v[idx(&g, x)]) };
        check!(got.as_ref().ok().copied() == want, "step:value", "{:?}, expected {want:?}; left {le:?} right {re:?}; {}", got.as_ref().ok(), d()); c.ev("steps");
        singles.1.push(want);
        check!(Interpolator1D::<f32>::interpolate(&k, *x).ok() == Some(v[0]), "constant:value", "{}", d());
    }
    let d = || format!("grid {g:?} values {v:?} queries {q:?} extrapolation {ext:?} allowed {allow} left {le:?} right {re:?}");
    for (name, batch, single) in [("linear", l.vectorized_interpolate_for_sorted_ndarray(&qa), &singles.0), ("step", s.vectorized_interpolate_for_sorted_ndarray(&qa), &singles.1), ("constant", k.vectorized_interpolate_for_sorted_ndarray(&qa), &vec![Some(v[0]); q.len()])] {
        if single.iter().any(|x| x.is_none()) { check!(batch.is_err(), format!("{name}:batch"), "batch accepted although a single query is refused; {}", d()); c.ev("batches_refused"); }
        else { let b = must!(batch, format!("{name}:batch"), "{}", d()); check!(b.len() == q.len() && b.iter().zip(single).enumerate().all(|(i, (x, y))| (*x as f64 - y.unwrap() as f64).abs() <= if name == "linear" { 4e-6 * scale[i] + 1e-9 } else { 0.0 }), format!("{name}:batch"), "batch {b:?}, one by one {single:?}; {}", d()); if q.len() > 2 { c.ev("batches_compared"); } }
    }
    // integer domain (dividend dates)
    let gi: Vec<i32> = (0..n as i32).map(|i| 19_000 + 7 * i).collect();
    let si = must!(StepwiseInterpolator1D::new(Array1::from_vec(gi.clone()), va.clone(), true, Some(1.0), None), "interpolate:refused", "");
    for _ in 0..5 { let x = r.range(18_990, 19_010 + 7 * n as i64) as i32; let w = if x < gi[0] { 1.0 } else { v[idx(&gi, &x)] }; check!(si.interpolate(x).ok() == Some(w), "step:integers", "{x} in {gi:?}: {:?}, expected {w}", si.interpolate(x).ok()); }
    // surfaces
    let m = 2 + r.below(6); let tg = grid(r, m);
    let z = Array2::from_shape_fn((m, n), |_| (r.uni(-1.0, 1.0) * vs) as f32);
    let (te, ta) = (*r.pick(&EXT), r.chance(0.7));
    let b = if r.bool() { BilinearInterpolator::new_from_rectangle_data(Array1::from_vec(tg.clone()), ga.clone(), z.clone(), allow, ext, ta, te) } else { BilinearInterpolator::new(Array1::from_vec(tg.clone()), (0..m).map(|i| LinearInterpolator1D::new(ga.clone(), z.row(i).to_owned(), ext, allow).unwrap()).collect(), ta, te) };
    let b = must!(b, "interpolate:refused", "surface");
    check!(BilinearInterpolator::new_from_rectangle_data(ga.clone(), Array1::from_vec(tg.clone()), z.clone(), allow, ext, ta, te).is_err() == (m != n), "interpolate:length-accepted", "transposed {m}x{n} surface");
    for _ in 0..10 {
        let (t, x) = (query(r, &tg), query(r, &g));
        let rows: Option<Vec<(f64, f64)>> = (0..m).map(|i| lin(&g, &z.row(i).iter().map(|x| *x as f64).collect::<Vec<_>>(), x, allow.then_some(ext))).collect();
        // how many cells beyond the grid: a row's rounding error grows by that factor
        let far = if te != X::Linear { 0.0 } else if t < tg[0] { ((tg[0] - t) / (tg[1] - tg[0])) as f64 } else if t > tg[m - 1] { ((t - tg[m - 1]) / (tg[m - 1] - tg[m - 2])) as f64 } else { 0.0 };
        let want = rows.and_then(|w| { let big = w.iter().map(|x| x.1).fold(0.0, f64::max); lin(&tg, &w.iter().map(|x| x.0).collect::<Vec<_>>(), t, ta.then_some(te)).map(|y| (y.0, y.1 + big * (1.0 + 2.0 * far))) });
        let got = b.interpolate(t, x);
        match want { None => { check!(got.is_err(), "bilinear:outside-accepted", "t {t} in {tg:?} ({te:?}, {ta}) x {x} in {g:?} ({ext:?}, {allow}): {:?}", got.ok()); c.ev("bilinear_refused"); }
            Some((w, mag)) => { let got = must!(got, "bilinear:refused", "t {t} in {tg:?} ({te:?}, {ta}) x {x} in {g:?} ({ext:?}, {allow})") as f64;
                check!((got - w).abs() <= 4e-6 * mag + 1e-8, "bilinear:value", "t {t} in {tg:?} ({te:?}) x {x} in {g:?} ({ext:?}): {got}, expected {w}, surface {z:?}"); c.ev("bilinear");
                if t >= tg[0] && t <= tg[m - 1] && x >= g[0] && x <= g[n - 1] { c.ev("bilinear_inside"); let (i, j) = (idx(&tg, &t), idx(&g, &x)); let corner: Vec<f64> = [(i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)].iter().map(|(i, j)| z[[(*i).min(m - 1), (*j).min(n - 1)]] as f64).collect(); let (lo, hi) = (corner.iter().fold(f64::MAX, |a, b| a.min(*b)), corner.iter().fold(f64::MIN, |a, b| a.max(*b))); check!(got >= lo - 1e-5 * vs && got <= hi + 1e-5 * vs, "bilinear:bounds", "{got} outside [{lo}, {hi}]"); } } }
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c25(run: &mut Run) {
    run.rule("random grids (2-42 nodes), queries at nodes, next to nodes, between and outside, all extrapolation settings, single and batched, compared with a linear scan and f64 evaluation");
    run.require("searches", 20_000); run.require("batches", 2000); run.require("linear_at_nodes", 500); run.require("linear_extrapolated", 1000); run.require("batches_compared", 1000); run.require("bilinear_inside", 2000); run.require("batches_refused", 200);
    run.family("search", 10000, 200_000, search);
    run.family("interpolate", 60000, 600_000, curves);
}

fn cholesky(r: &mut Rng, c: &mut Case) -> R {
    let n = if r.chance(0.02) { 11 + r.below(40) } else { 1 + r.below(10) }; if n > 24 { c.ev("large_matrices"); }
    let sc = *r.pick(&[1.0, 0.01, 100.0, 1e-4, 1e4]);
    let mut l = vec![vec![0.0f64; n]; n];
    for i in 0..n { for j in 0..=i { l[i][j] = if i == j { r.uni(0.4, 2.0) } else { r.uni(-1.0, 1.0) * (10.0 / n as f64).min(1.0).powi(2) } * sc; } }
    let a = |i: usize, j: usize| (0..n).map(|k| l[i][k] * l[j][k]).sum::<f64>();
    let mut m = Array2::<f32>::zeros((n, n)); for i in 0..n { for j in 0..=i { m[[i, j]] = a(i, j) as f32; m[[j, i]] = m[[i, j]]; } }
    let big = m.iter().fold(0.0f64, |x, y| x.max(y.abs() as f64));
    if let Ok(g) = cholesky_decomposition(&m) {
        check!(g.shape() == [n, n], "cholesky:shape", "{:?}", g.shape());
        for i in 0..n { for j in 0..n {
            if j > i { check!(g[[i, j]] == 0.0, "cholesky:upper", "entry {i},{j} of the factor is {}", g[[i, j]]); } else { check!(g[[i, j]].is_finite() && (i != j || g[[i, j]] > 0.0), "cholesky:entries", "entry {i},{j} of the factor is {}", g[[i, j]]); }
            let p: f64 = (0..n).map(|k| g[[i, k]] as f64 * g[[j, k]] as f64).sum();
            check!((p - m[[i, j]] as f64).abs() <= 3e-6 * big * n as f64, "cholesky:product", "entry {i},{j} of L·Lt is {p}, matrix {m:?}");
        } }
        c.ev("factorised");
    } else {
        // only rounding can make a positive definite matrix fail: its smallest pivot must be close to the rounding level
        let piv = (0..n).map(|i| l[i][i] * l[i][i]).fold(f64::MAX, f64::min);
        check!(piv < 1e-5 * big * n as f64, "cholesky:refused", "a positive definite matrix was refused: smallest pivot {piv}, {m:?}");
        c.ev("refused_by_rounding");
    }
    // clearly not positive definite: a negative diagonal or a dominating off-diagonal pair
    let mut b = m.clone(); let i = r.below(n);
    match if n > 1 { r.below(3) } else { 0 } {
        0 => { b[[i, i]] = -(big as f32) * 0.1; c.ev("negative_diagonals"); }
        1 => { let j = (i + 1 + r.below(n - 1)) % n; let x = ((m[[i, i]] as f64 * m[[j, j]] as f64).sqrt() * r.uni(1.3, 3.0)) as f32 * if r.bool() { 1.0 } else { -1.0 }; b[[i, j]] = x; b[[j, i]] = x; c.ev("indefinite"); }
        _ => { let j = r.below(n); b[[i, j]] = f32::NAN; b[[j, i]] = f32::NAN; c.ev("nan_inputs"); }
    }
    check!(cholesky_decomposition(&b).is_err(), "cholesky:indefinite-accepted", "factor {:?} of {b:?}", cholesky_decomposition(&b).ok());
    // two variables that are one: singular, exactly so in the machine's arithmetic
    if n > 2 {
        let (i, j) = (0, 1 + r.below(n - 1)); let sg = if r.bool() { 1.0f32 } else { -1.0 }; let sc = 4f32.powi(r.range(-6, 6) as i32);
        let mut b = Array2::<f32>::zeros((n, n)); for k in 0..n { b[[k, k]] = sc; } b[[i, j]] = sg * sc; b[[j, i]] = sg * sc;
        for k in 0..n { if k != i && k != j { let x = *r.pick(&[0.25f32, -0.5, 0.125]) * sc; b[[i, k]] = x; b[[k, i]] = x; b[[j, k]] = if r.bool() { sg * x } else { 0.0 }; b[[k, j]] = b[[j, k]]; } }
        // every product and difference above is exact, so the pivot of variable j is exactly zero, or negative where the copies disagree
        check!(cholesky_decomposition(&b).is_err(), "cholesky:singular-accepted", "factor {:?} of {b:?}", cholesky_decomposition(&b).ok());
        c.ev("singular");
    }
    let k = n + 1 + r.below(3);
    check!(cholesky_decomposition(&Array2::<f32>::ones((n, k))).is_err() && cholesky_decomposition(&Array2::<f32>::ones((k, n))).is_err(), "cholesky:rectangle-accepted", "{n}x{k}");
    c.fold(n as u64); c.foldf(l[0][0]); c.nontrivial = n > 1;
    Ok(())
}
fn distribute(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(12); let g = grid(r, n);
    let start: Vec<f32> = (0..n).map(|_| if r.bool() { 0.0 } else { r.uni(-5.0, 5.0) as f32 }).collect();
    let mut v = start.clone(); let mut total = 0.0f64; let mut moment = 0.0f64; let mut mag = start.iter().map(|x| x.abs() as f64).sum::<f64>();
    for _ in 0..1 + r.below(5) {
        let (x, val) = (query(r, &g), r.uni(-100.0, 100.0) as f32);
        let before = v.clone();
        must!(distribute_value_on_vector(&mut v, val, x, &g), "distribute:refused", "{x} in {g:?}");
        let loc = x.clamp(g[0], g[n - 1]) as f64;
        total += val as f64; moment += val as f64 * loc; mag += val.abs() as f64;
        let k = idx(&g, &x);
        for i in 0..n { let near = i == k || (i == k + 1 && x > g[0]); if !near { check!(v[i] == before[i], "distribute:elsewhere", "{val} at {x} in {g:?} changed entry {i}"); } }
        if n > 1 && x > g[0] && x < g[n - 1] { c.ev("distributed_inside"); for i in [k, k + 1] { let dlt = (v[i] - before[i]) * val.signum(); check!(dlt as f64 >= -1e-4 * (1.0 + mag), "distribute:sign", "entry {i} moved by {dlt} against the value's sign"); } } else { c.ev("distributed_at_ends"); }
    }
    let s: f64 = v.iter().zip(&start).map(|(a, b)| *a as f64 - *b as f64).sum();
    check!((s - total).abs() <= 2e-6 * mag + 1e-6, "distribute:total", "{s} arrived of {total} on {g:?}");
    let s: f64 = v.iter().zip(&start).zip(&g).map(|((a, b), x)| (*a as f64 - *b as f64) * *x as f64).sum();
    let gm = g.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64));
    check!((s - moment).abs() <= 1e-5 * mag * gm + 1e-6, "distribute:moment", "first moment {s} instead of {moment} on {g:?}");
    let mut w = vec![0.0f32; n + 1];
    check!(distribute_value_on_vector(&mut w, 1.0, 0.0, &g).is_err() && w.iter().all(|x| *x == 0.0), "distribute:length-accepted", "different lengths");
    check!(distribute_value_on_vector(&mut [], 1.0, 0.0, &[]).is_ok(), "distribute:empty", "nothing to do is refused");
    c.fold(n as u64); c.foldf(total); c.nontrivial = n > 1;
    Ok(())
}
struct Commas(f32);
impl std::fmt::Display for Commas { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write_number_with_commas(f, self.0) } }
fn numbers(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..50 {
        let x = match r.below(4) { 0 => r.range(-2000, 2000) as f32, 1 => (10f64.powf(r.uni(-2.0, 15.0)) * if r.bool() { 1.0 } else { -1.0 }) as f32, 2 => r.uni(-1500.0, 1500.0) as f32, _ => (10f64.powi(r.range(0, 12) as i32) * if r.bool() { 1.0 } else { -1.0 } - r.below(2) as f64) as f32 };
        for (s, tol, dec) in [(formatted_number(x), 0.5, false), (Commas(x).to_string(), 0.05, true)] {
            let plain: f64 = must!(s.replace(',', "").parse(), "number:unreadable", "{x} written as {s}");
            check!((plain - x as f64).abs() <= tol * 1.0001 + 1e-7 * x.abs() as f64 * 0.0, "number:value", "{x} written as {s}");
            // groups of three
            let int = s.trim_start_matches('-').split('.').next().unwrap().to_string();
            let groups: Vec<&str> = int.split(',').collect();
            check!((1..=3).contains(&groups[0].len()) && groups[1..].iter().all(|g| g.len() == 3) && int.chars().all(|k| k.is_ascii_digit() || k == ','), "number:groups", "{x} written as {s}");
            check!(s.contains('.') == dec, "number:decimals", "{x} written as {s}");
            if groups.len() > 1 { c.ev("grouped_numbers"); } if x < 0.0 { c.ev("negative_numbers"); }
        }
        c.foldf(x as f64);
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c26(run: &mut Run) {
    run.rule("random factor products, indefinite, rectangular and not-a-number matrices; random grids and amounts; random numbers over 17 decades");
    run.require("factorised", 2000); run.require("indefinite", 300); run.require("nan_inputs", 300); run.require("distributed_inside", 3000); run.require("grouped_numbers", 3000);
    run.family("cholesky", 30000, 500_000, cholesky);
    run.family("distribute", 60000, 600_000, distribute);
    run.family("numbers", 8000, 100_000, numbers);
}
