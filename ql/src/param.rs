//! C27 curves, C28 dividends, C29 evaluation date, C30 volatilities
use crate::{d::*, interp::lin, mk::*};
use ndarray::{Array1, Array2};
use quantlib::currency::Currency;
use quantlib::data::{surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::enums::{Compounding, StickynessType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::math::interpolator::ExtraPolationType as X;
use quantlib::parameters::{market_price::MarketPrice, volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator}, volatility::{Volatility, VolatilityTrait}, zero_curve::ZeroCurve};
use vmon::*;
const KRW: Currency = Currency::KRW;
fn eval(r: &mut Rng) -> (I, i64) { ((day(r, 2015, 2040), secs(r)), offset(r)) }

fn curve_case(r: &mut Rng, c: &mut Case) -> R {
    let (e, off) = eval(r);
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (zc, mut sh, desc) = curve(r, &ev, e, off, KRW, "C");
    c.folds(&desc);
    let original = sh.clone();
    let mut hist: Vec<(Option<f32>, Option<f32>, f32)> = vec![];
    let mut now = e;
    let phases = 1 + r.below(4);
    for phase in 0..phases {
        let d = || format!("{desc}; shifts {hist:?}; evaluation date {}", show(now.0));
        let z = zc.borrow();
        // node times and rates
        let nt = z.get_cached_discount_times_clone(); let nr = z.get_interpolated_rates();
        check!(nt.len() == sh.t.len() && nr.len() == sh.t.len(), "curve:nodes", "{} nodes; {}", nt.len(), d());
        for i in 0..sh.t.len() {
            check!((nt[i] as f64 - sh.t[i]).abs() <= 1e-6 + 1e-6 * sh.t[i], "curve:nodes", "node {} at {} expected {}; {}", TENORS[i].0, nt[i], sh.t[i], d());
            check!((nr[i] as f64 - sh.r[i]).abs() <= 3e-7 * (1 + hist.len()) as f64, "curve:node-rates", "rate at {}: {} expected {}; {}", TENORS[i].0, nr[i], sh.r[i], d());
            let f = must!(z.get_discount_factor(nt[i]), "curve:refused", "factor at node {}; {}", TENORS[i].0, d()) as f64;
            check!(close(f, (-sh.r[i] * sh.t[i]).exp(), 1e-5, 0.0), "curve:node-factor", "factor at {} is {f}; {}", TENORS[i].0, d());
        }
        check!(z.get_discount_factor(0.0).ok() == Some(1.0), "curve:today", "{:?}; {}", z.get_discount_factor(0.0), d());
        check!(z.get_discount_factor_at_date(&inst(now, off)).ok() == Some(1.0), "curve:today", "{:?}; {}", z.get_discount_factor_at_date(&inst(now, off)), d());
        // by date, by time, batches
        let nq = if r.chance(0.03) { 70 } else { 8 }; let mut qs: Vec<I> = (0..nq).map(|_| { let k = r.below(3); let (n, s) = (match k { 0 => r.range(0, 400), 1 => r.range(0, 4000), _ => r.range(0, 36_000) }, now.1.max(secs(r))); (now.0 + n, s) }).collect();
        qs.push(plus(now, 1 + r.range(0, 24), 1)); qs.sort();
        let mut singles = vec![];
        for q in &qs {
            let t = yf(now, *q);
            let w = some!(sh.df(t), "harness:range", "{t}");
            let g = must!(z.get_discount_factor_at_date(&inst(*q, off)), "curve:refused", "factor at {}; {}", show(q.0), d()) as f64;
            check!(close(g, w, 1e-5, 1e-9), "curve:by-date", "factor at {} second {}: {g} expected {w}; {}", show(q.0), q.1, d());
            let g2 = must!(z.get_discount_factor(t as f32), "curve:refused", "factor at {t}; {}", d()) as f64;
            check!(close(g2, w, 1e-5, 1e-9), "curve:by-time", "factor at {t}: {g2} expected {w}; {}", d());
            singles.push((t as f32, g, g2)); c.ev("factors");
        }
        let ts = Array1::from_vec(singles.iter().map(|x| x.0).collect::<Vec<_>>());
        let b = must!(z.get_vectorized_discount_factor_for_sorted_time(&ts), "curve:refused", "batch; {}", d());
        check!(b.len() == ts.len() && b.iter().zip(&singles).all(|(x, s)| close(*x as f64, s.2, 1e-6, 1e-9)), "curve:batch-times", "{b:?} one by one {singles:?}; {}", d());
        let dates: Vec<_> = qs.iter().map(|q| inst(*q, off)).collect();
        let b = must!(z.get_vectorized_discount_factor_for_sorted_dates(&dates), "curve:refused", "batch; {}", d());
        check!(b.len() == dates.len() && b.iter().zip(&singles).all(|(x, s)| close(*x as f64, s.1, 1e-6, 1e-9)), "curve:batch-dates", "{b:?} one by one {singles:?}; {}", d());
        // forward factors and rates
        for _ in 0..8 {
            let (i, j) = (r.below(qs.len()), r.below(qs.len())); let (a, b) = (qs[i], qs[j]);
            let (ta, tb) = (yf(now, a), yf(now, b));
            if a > b {
                check!(z.get_discount_factor_between_times(ta as f32, tb as f32).is_err() || (ta as f32) <= (tb as f32), "curve:reversed", "{}", d());
                check!(z.get_forward_rate_between_dates(&inst(a, off), &inst(b, off), Compounding::Continuous).is_err(), "curve:reversed", "forward from {} to {}; {}", show(a.0), show(b.0), d()); c.ev("reversed_refused"); continue;
            }
            let w = sh.df(tb).unwrap() / sh.df(ta).unwrap();
            let g = must!(z.get_discount_factor_between_times(ta as f32, tb as f32), "curve:refused", "{ta} to {tb}; {}", d()) as f64;
            check!(close(g, w, 2e-5, 0.0), "curve:between", "factor from {ta} to {tb}: {g} expected {w}; {}", d());
            if tb - ta < 0.02 { continue; }
            rates(&z, now, a, b, w, off, c, &d)?;
        }
        // nothing accrues over no time, a rate stays finite
        for comp in [Compounding::Simple, Compounding::Continuous] {
            let q = qs[r.below(qs.len() - 1)]; let t = yf(now, q);
            if t + 0.01 > sh.t[28] { continue; }
            let h = 0.002737; let w = -(sh.df(t + h).unwrap() / sh.df(t).unwrap()).ln() / h;
            let g = must!(z.get_forward_rate_between_dates(&inst(q, off), &inst(q, off), comp), "curve:refused", "forward over no time; {}", d()) as f64;
            // the code may measure the limit over any short step: accept the neighbourhood of the instantaneous rate
            let near = [1e-5, 1e-3, 0.002737].iter().map(|h| -(sh.df(t + h).unwrap() / sh.df(t).unwrap()).ln() / h).fold((w, w), |(a, b), x| (a.min(x), b.max(x)));
            let tol = 2e-3 + 3e-7 / 1e-5_f64.max(0.002737);
            check!(g.is_finite() && g >= near.0 - tol && g <= near.1 + tol, "curve:zero-length", "forward rate over no time at {t}: {g}, expected about {w}; {}", d()); c.ev("zero_length_forwards");
            let s = must!(z.get_short_rate_at_time(t as f32), "curve:refused", "short rate; {}", d()) as f64;
            check!((s - w).abs() <= 3e-3, "curve:short-rate", "short rate at {t}: {s} expected {w}; {}", d());
            let ts: Vec<f32> = qs[..qs.len() - 1].iter().map(|q| yf(now, *q) as f32).collect();
            let v = must!(z.get_vectorized_short_rate_for_sorted_times(&ts), "curve:refused", "short rates; {}", d());
            check!(v.len() == ts.len(), "curve:short-rate", "batch {v:?}; {}", d());
            for (t, x) in ts.iter().zip(&v) { let s = must!(z.get_short_rate_at_time(*t), "curve:refused", "short rate; {}", d()); check!(close(*x as f64, s as f64, 1e-3, 1e-4), "curve:short-rate", "batch {v:?} at {t}, single {s}; {}", d()); }
            let v = must!(z.get_vectorized_short_rate_for_sorted_times(&[t as f32, t as f32]), "curve:refused", "short rates; {}", d());
            check!(v.iter().all(|x| close(*x as f64, s, 1e-3, 1e-4)), "curve:short-rate", "batch {v:?}, single {s}; {}", d());
            let i = must!(z.get_instantaneous_forward_rate_from_date(&inst(q, off)), "curve:refused", "short rate; {}", d()) as f64;
            check!((i - w).abs() <= 3e-3, "curve:short-rate", "short rate at {}: {i} expected {w}; {}", show(q.0), d());
        }
        // before the valuation date and past the end
        let q = if r.bool() { (now.0 - r.range(1, 500), now.1) } else if now.1 > 0 { (now.0, now.1 - r.range(1, now.1)) } else { (now.0 - 1, 86399) };
        if secs_between(q, now) > 60 {
            check!(z.get_discount_factor_at_date(&inst(q, off)).is_err(), "curve:past-accepted", "factor at {} second {}; {}", show(q.0), q.1, d());
            check!(z.get_forward_rate_from_evaluation_date(&inst(q, off), Compounding::Continuous).is_err() && z.get_forward_rate_between_dates(&inst(q, off), &inst(qs[3], off), Compounding::Simple).is_err(), "curve:past-accepted", "forward from {} second {}; {}", show(q.0), q.1, d());
            check!(z.get_discount_factor(-(secs_between(q, now) as f32) / 31_536_000.0).is_err(), "curve:past-accepted", "factor at a negative time; {}", d());
            check!(z.get_vectorized_discount_factor_for_sorted_dates(&[inst(q, off), inst(qs[0], off)]).is_err(), "curve:past-accepted", "batch; {}", d()); c.ev("past_refused");
        }
        check!(z.get_discount_factor(sh.t[28] as f32 * 1.01).is_err(), "curve:beyond-accepted", "{}", d());
        drop(z);
        if phase + 1 == phases { break; }
        // shift an interval, by time or by date; or move the evaluation date; or undo everything
        match r.below(6) {
            0 if !hist.is_empty() => {
                for (a, b, x) in hist.drain(..).rev() { must!(zc.borrow_mut().bump_time_interval(a, b, -x), "curve:bump", "undo"); }
                sh = original.clone(); c.ev("undone");
            }
            1 => { let n = r.range(1, 400); *ev.borrow_mut() += format!("{n}D").as_str(); now.0 += n; c.ev("date_moves"); }
            k => {
                let nodes = zc.borrow().get_cached_discount_times_clone();
                let mut bound = |r: &mut Rng| match r.below(4) { 0 => None, 1 => Some(r.uni(-1.0, 40.0) as f32), _ => Some(nodes[r.below(29)]) };
                let (mut a, mut b) = (bound(r), bound(r)); let x = *r.pick(&[0.0001f32, 0.001, 0.01, -0.005]);
                if let (Some(p), Some(q)) = (a, b) { if p > q { let g = zc.borrow_mut().bump_time_interval(a, b, x); check!(g.is_err(), "curve:bump-reversed", "shift of ({p}, {q}] accepted"); std::mem::swap(&mut a, &mut b); c.ev("reversed_refused"); } }
                if k == 2 && now == e {
                    let (p, q) = (r.below(29), r.below(29)); let (p, q) = (p.min(q), p.max(q));
                    let (dp, dq) = (node(e, (TENORS[p].1, TENORS[p].2)), node(e, (TENORS[q].1, TENORS[q].2)));
                    let (np, nq) = (r.chance(0.2), r.chance(0.2));
                    must!(zc.borrow_mut().bump_date_interval((!np).then_some(&inst(dp, off)), (!nq).then_some(&inst(dq, off)), x), "curve:bump", "date shift");
                    for i in 0..29 { if (np || i > p) && (nq || i <= q) { sh.r[i] += x as f64; } }
                    hist.push(((!np).then_some(nodes[p]), (!nq).then_some(nodes[q]), x)); c.ev("date_shifts");
                } else {
                    must!(zc.borrow_mut().bump_time_interval(a, b, x), "curve:bump", "{a:?} {b:?}");
                    let (p, q) = (a.unwrap_or(f32::MIN), b.unwrap_or(f32::MAX));
                    for i in 0..29 { if nodes[i] > p && nodes[i] <= q { sh.r[i] += x as f64; } }
                    hist.push((a, b, x)); c.ev("shifts");
                }
            }
        }
    }
    c.nontrivial = true; c.sample(|| desc.clone());
    Ok(())
}
fn rates(z: &ZeroCurve, now: I, a: I, b: I, w: f64, off: i64, c: &mut Case, d: &dyn Fn() -> String) -> R {
    let (ta, tb) = (yf(now, a), yf(now, b)); let tau = tb - ta;
    let tol = 1e-6 / tau + 1e-6 * (1.0 + tb) / tau * 0.1 + 1e-5;
    let cont = -w.ln() / tau;
    for g in [z.get_forward_rate_between_times(ta as f32, tb as f32, Compounding::Continuous), z.get_forward_rate_between_dates(&inst(a, off), &inst(b, off), Compounding::Continuous)] {
        let g = must!(g, "curve:refused", "continuous forward; {}", d()) as f64;
        check!((g - cont).abs() <= tol, "curve:continuous-forward", "from {ta} to {tb}: {g} expected {cont}; {}", d());
    }
    let (simple, known) = ((1.0 / w - 1.0) / tau, (1.0 - w) / tau);
    let tol = tol / w.min(1.0);
    for g in [z.get_forward_rate_between_times(ta as f32, tb as f32, Compounding::Simple), z.get_forward_rate_between_dates(&inst(a, off), &inst(b, off), Compounding::Simple)] {
        let g = must!(g, "curve:refused", "simple forward; {}", d()) as f64;
        if (g - simple).abs() > tol {
            check!((g - known).abs() <= tol, "curve:simple-forward", "from {ta} to {tb}: {g} expected {simple}; {}", d());
            c.known("curve:simple-forward:discount-rate", || format!("simple forward rate from {ta} to {tb} is {g} = (1 - D)/tau, the simple rate implied by the factor {w} is {simple}"));
        } else { c.ev("simple_forwards_par"); }
    }
    let f = must!(z.get_forward_rate_from_evaluation_date(&inst(b, off), Compounding::Continuous), "curve:refused", "{}", d()) as f64;
    let x = must!(z.get_forward_rate_between_dates(&inst(now, off), &inst(b, off), Compounding::Continuous), "curve:refused", "{}", d()) as f64;
    check!(close(f, x, 1e-6, 1e-7), "curve:spot-rate", "{f} and {x}; {}", d());
    c.ev("forward_rates");
    Ok(())
}
fn curve_input(r: &mut Rng, c: &mut Case) -> R {
    let (e, off) = eval(r); let ev = rc(EvaluationDate::new(inst(e, off)));
    let n = 2 + r.below(5);
    let v = Array1::from_vec((0..n).map(|i| 0.01 + 0.001 * i as f32).collect::<Vec<_>>());
    let t = Array1::from_vec((0..n).map(|i| 0.5 + i as f32).collect::<Vec<_>>());
    let ds: Vec<_> = (0..n as i64).map(|i| at(e.0 + 90 * (i + 1), e.1, off)).collect();
    let m = Some(inst(e, off)); let s = || "x".to_string();
    check!(VectorData::new(v.clone(), None, None, m, KRW, s(), s()).is_err(), "data:accepted", "neither dates nor times");
    check!(VectorData::new(v.clone(), Some(ds[1..].to_vec()), None, m, KRW, s(), s()).is_err() && VectorData::new(v.clone(), None, Some(Array1::zeros(n + 1)), m, KRW, s(), s()).is_err(), "data:accepted", "different lengths");
    check!(VectorData::new(v.clone(), Some(ds.clone()), None, None, KRW, s(), s()).is_err(), "data:accepted", "dates without a market date");
    let dd = must!(VectorData::new(v.clone(), Some(ds.clone()), None, m, KRW, s(), s()), "data:refused", "dates");
    for (i, x) in dd.get_times_clone().iter().enumerate() { let w = yf(e, (e.0 + 90 * (i as i64 + 1), e.1)); check!((*x as f64 - w).abs() < 1e-6, "data:times", "{x} expected {w}"); }
    check!(guarded(|| { let x = VectorData::new(Array1::zeros(0), None, Some(Array1::zeros(0)), m, KRW, s(), s()); x.is_err() || ZeroCurve::new(ev.clone(), &x.unwrap(), s(), s()).is_err() }).unwrap_or(false), "curve:empty-accepted", "empty data accepted or panicking");
    let mut u = t.clone(); u.swap(0, n - 1);
    let x = must!(VectorData::new(v.clone(), None, Some(u), m, KRW, s(), s()), "data:refused", "times");
    check!(ZeroCurve::new(ev.clone(), &x, s(), s()).is_err(), "curve:unsorted-accepted", "unsorted times accepted");
    let z = must!(ZeroCurve::dummy_curve(), "curve:dummy", "");
    for t in [0.0, 0.3, 7.0, 60.0] { check!(z.get_discount_factor(t).ok() == Some(1.0), "curve:dummy", "factor at {t}: {:?}", z.get_discount_factor(t)); }
    c.ev("inputs"); c.fold(e.0 as u64); c.nontrivial = true;
    Ok(())
}
pub fn c27(run: &mut Run) {
    run.rule("random zero curves (1-10 quotes, by date or time), random shift histories and evaluation-date moves; node rates, factors, forwards compared with a double-precision shadow curve");
    run.require("factors", 5000); run.require("forward_rates", 2000); run.require("shifts", 200); run.require("date_shifts", 50); run.require("undone", 30); run.require("past_refused", 200); run.require("zero_length_forwards", 500); run.require("date_moves", 50);
    run.family("curve", 6000, 200_000, curve_case);
    run.family("curve-input", 100, 500, curve_input);
}

fn dividend_case(r: &mut Rng, c: &mut Case) -> R {
    let (mut e, off) = eval(r);
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let spot = r.uni(10.0, 500.0) as f32;
    let (dv, mut sh, desc) = divs(r, &ev, e, off, spot, KRW, "D");
    c.folds(&desc);
    let registered = r.chance(0.8); if registered { ev.borrow_mut().add_dividend_observer(dv.clone()); }
    let orig = sh.clone(); let mut hist: Vec<(Option<i64>, Option<i64>, f32)> = vec![];
    let phases = 2 + r.below(5);
    for phase in 0..phases {
        let d = || format!("{desc}; evaluation date {} second {}; shifts {hist:?}", show(e.0), e.1);
        let z = dv.borrow();
        let mut qs: Vec<I> = (0..10).map(|_| if r.bool() { let x = *r.pick(&sh.ex); (x.0 + r.range(-1, 1), secs(r)) } else { (e.0 + r.range(-100, 1500), secs(r)) }).collect(); qs.sort();
        let mut last = f64::MAX; let mut got = vec![];
        for q in &qs {
            let w = sh.ratio(e, *q);
            let g = must!(z.get_deduction_ratio(&inst(*q, off)), "dividend:refused", "{}", d()) as f64;
            check!(close(g, w, 3e-6, 0.0), "dividend:ratio", "ratio at {}: {g} expected {w}; {}", show(q.0), d());
            if hist.is_empty() || sh.amt.iter().all(|a| *a >= 0.0) { check!(g <= last + 1e-6, "dividend:increasing", "{g} after {last}; {}", d()); }
            last = g; got.push(g); c.ev("ratios"); if w == 1.0 { c.ev("no_dividend_due"); } else { c.ev("deductions"); }
        }
        let b = must!(z.get_vectorized_deduction_ratio_for_sorted_datetime(&qs.iter().map(|q| inst(*q, off)).collect::<Vec<_>>()), "dividend:refused", "batch; {}", d());
        check!(b.len() == got.len() && b.iter().zip(&got).all(|(a, b)| close(*a as f64, *b, 1e-6, 1e-9)), "dividend:batch", "{b:?} one by one {got:?}; {}", d());
        let (am, yi) = (z.get_dividend(), z.get_dividend_ratio());
        check!(am.len() == sh.ex.len() && yi.len() == sh.ex.len(), "dividend:list", "{} dividends; {}", am.len(), d());
        for i in 0..am.len() { check!(am[i].0 == inst(sh.ex[i], off) && yi[i].0 == am[i].0 && close(am[i].1 as f64, sh.amt[i], 1e-5, 1e-5) && close(yi[i].1 as f64, sh.amt[i] / sh.spot, 1e-5, 1e-7), "dividend:list", "dividend {i}: {:?} {:?}, expected amount {}; {}", am[i], yi[i], sh.amt[i], d()); }
        drop(z);
        if sh.ex.iter().all(|x| *x <= e) { c.ev("all_past"); } else if sh.ex.iter().all(|x| *x > e) { c.ev("all_future"); } else { c.ev("mixed"); }
        if sh.ex.iter().any(|x| *x == e) { c.ev("ex_date_is_evaluation_date"); }
        if phase + 1 == phases { break; }
        match r.below(5) {
            0 if !hist.is_empty() => { for (a, b, x) in hist.drain(..).rev() { let (p, q) = (a.map(|z| at(z, secs(r), off)), b.map(|z| at(z, secs(r), off))); must!(dv.borrow_mut().bump_date_interval(p.as_ref(), q.as_ref(), -x), "dividend:shift", "undo"); } sh = orig.clone(); c.ev("undone"); }
            1 | 2 if registered => { let x = *r.pick(&sh.ex); let to = match r.below(4) { 0 => x, 1 => (x.0, e.1), 2 => (e.0 + r.range(-1000, 1000), e.1), _ => (sh.ex[sh.ex.len() - 1].0 + r.range(1, 50), e.1) };
                ev.borrow_mut().set_date(inst(to, off)); e = to; c.ev("date_moves"); }
            _ => { let mut b = |r: &mut Rng| if r.chance(0.25) { None } else if r.bool() { Some(r.pick(&sh.ex).0 + r.range(-1, 1)) } else { Some(e.0 + r.range(-500, 500)) };
                let (p, q) = (b(r), b(r)); let x = spot * r.uni(-0.004, 0.01) as f32;
                let (ip, iq) = (p.map(|z| at(z, secs(r), off)), q.map(|z| at(z, secs(r), off)));
                let g = dv.borrow_mut().bump_date_interval(ip.as_ref(), iq.as_ref(), x);
                if let (Some(p), Some(q)) = (p, q) { if p >= q { check!(g.is_err(), "dividend:empty-interval", "shift of ({}, {}] accepted", show(p), show(q)); c.ev("empty_interval_refused"); continue; } }
                must!(g, "dividend:shift", "{desc}"); sh.bump(p.unwrap_or(i64::MIN), q.unwrap_or(i64::MAX), x as f64); hist.push((p, q, x)); c.ev("shifts");
                if sh.ex.iter().any(|x| *x <= e) { c.ev("shifts_with_past_dividends"); } }
        }
    }
    c.nontrivial = true; c.sample(|| desc.clone());
    Ok(())
}
pub fn c28(run: &mut Run) {
    run.rule("random dividend lists before, around and after the evaluation date, random shift histories and evaluation-date moves; ratios compared with the product over dividends still to be paid");
    run.require("ratios", 20_000); run.require("deductions", 5000); run.require("no_dividend_due", 2000); run.require("all_past", 300); run.require("mixed", 300); run.require("all_future", 300); run.require("ex_date_is_evaluation_date", 50); run.require("shifts_with_past_dividends", 200); run.require("undone", 50);
    run.family("dividend", 40000, 400_000, dividend_case);
}

fn moves(r: &mut Rng, c: &mut Case) -> R {
    let (e0, off) = eval(r);
    let ev = rc(EvaluationDate::new(inst(e0, off)));
    struct P { p: RC<MarketPrice>, div: Option<usize>, at: I, v: f64, reg: bool, v0: f64, at0: I }
    let nd = 1 + if r.chance(0.1) { r.below(8) } else { r.below(3) };
    let mut ds = vec![]; let mut desc = vec![];
    for k in 0..nd { let sp = r.uni(50.0, 300.0) as f32; let (d, s, t) = divs(r, &ev, e0, off, sp, KRW, &format!("D{k}")); let reg = r.chance(0.85); if reg { ev.borrow_mut().add_dividend_observer(d.clone()); } ds.push((d, s, reg, e0)); desc.push(t); }
    let mut ps: Vec<P> = vec![];
    for k in 0..1 + if r.chance(0.1) { r.below(12) } else { r.below(5) } {
        let div = if r.chance(0.75) { Some(r.below(nd)) } else { None };
        let v0 = match r.below(8) { 0 => r.uni(1e6, 1e9), 1 => r.uni(0.001, 1.0), _ => r.uni(10.0, 1000.0) }; let at0 = if r.chance(0.8) { e0 } else { (e0.0 - r.range(0, 20), e0.1) };
        let p = rc(MarketPrice::new(v0 as f32, inst(at0, off), div.map(|i| ds[i].0.clone()), KRW, format!("P{k}"), format!("P{k}")));
        let reg = r.chance(0.85); if reg { ev.borrow_mut().add_marketprice_observer(p.clone()); if r.chance(0.1) { ev.borrow_mut().add_marketprice_observer(p.clone()); c.ev("registered_twice"); } }
        ps.push(P { p, div, at: at0, v: v0 as f32 as f64, reg, v0: v0 as f32 as f64, at0 });
    }
    let mut e = e0; let mut log = vec![]; let n = 3 + r.below(15);
    let mut crossed = 0u64;
    for step in 0..n {
        let last = step + 1 == n;
        let to: I = if last { let d = r.below(nd); let _ = d; e0 } else { match r.below(5) { 0 => { let k = r.below(nd); *r.pick(&ds[k].1.ex) }, 1 => e, 2 => { let k = r.below(nd); let x = *r.pick(&ds[k].1.ex); (x.0, e.1) }, _ => (e.0 + r.range(-300, 300), if r.bool() { e.1 } else { secs(r) }) } };
        let how = if last { 0 } else { r.below(4) };
        match how {
            1 => { let k = r.below(50) as i64; let p = format!("{k}D"); *ev.borrow_mut() += p.as_str(); e = (e.0 + k, e.1); log.push(format!("+={p}")); }
            2 => { let (k, u) = (r.range(0, 14), r.below(2)); let p = format!("{k}{}", ["M", "W"][u]); if r.bool() { *ev.borrow_mut() += p.as_str(); e = plus(e, k, 1 + u); log.push(format!("+={p}")); } else { *ev.borrow_mut() -= p.as_str(); e = plus(e, -k, 1 + u); log.push(format!("-={p}")); } }
            3 => { let k = r.range(0, 40); let s = r.range(0, 86399); let p = format!("{k}D{s}sec"); let t; if r.bool() { *ev.borrow_mut() += p.as_str(); t = (e.0 + k) * 86400 + e.1 + s; log.push(format!("+={p}")); } else { *ev.borrow_mut() -= p.as_str(); t = (e.0 - k) * 86400 + e.1 - s; log.push(format!("-={p}")); } e = (t.div_euclid(86400), t.rem_euclid(86400)); }
            _ => { ev.borrow_mut().set_date(inst(to, off)); e = to; log.push(format!("={} {}", show(to.0), to.1)); }
        }
        // asking where a tenor leads moves nothing, and the date compares as the instant it is
        {
            let k = r.range(0, 30); let u = r.below(3); let p = format!("{k}{}", ["D", "W", "M"][u]); let x = ev.borrow();
            let (f, b) = ((*x).clone() + p.as_str(), (*x).clone() - p.as_str());
            check!(f == inst(plus(e, k, 3 - u), off) && b == inst(plus(e, -k, 3 - u), off), "evaluation:tenor", "{p} from {} {} leads to {f:?} and back to {b:?}", show(e.0), e.1);
            check!(x.date() == inst(e, off).date() && *x == inst(e, off) && *x == inst(e, off).date() && *x.get_date() == inst(e, off), "evaluation:date", "{x:?} is not {} {}", show(e.0), e.1);
            let o: I = (e.0 + r.range(-2, 2), secs(r)); let want = e.cmp(&o);
            check!(x.partial_cmp(&inst(o, off)) == Some(want) && x.partial_cmp(&inst(o, off).date()) == Some(e.0.cmp(&o.0)) && (*x == inst(o, off)) == (e == o) && (*x == inst(o, off).date()) == (e.0 == o.0), "evaluation:order", "{x:?} against {} {}", show(o.0), o.1);
            c.ev("dates_compared");
        }
        let d = || format!("start {} {}; moves {log:?}; {desc:?}", show(e0.0), e0.1);
        check!(ev.borrow().get_date_clone() == inst(e, off) && ev.borrow().get_date_clone().offset() == inst(e, off).offset(), "evaluation:date", "{} expected {}; {}", ev.borrow().get_date_clone(), inst(e, off), d());
        for d in ds.iter_mut() { if d.2 { d.3 = e; } }
        for (k, p) in ps.iter_mut().enumerate() {
            let mut undisturbed = true;
            if p.reg { if let Some(i) = p.div { let s = &ds[i].1;
                for (x, a) in s.ex.iter().zip(&s.amt) { let y = 1.0 - a / s.spot; if *x > p.at && *x <= e { p.v *= y; undisturbed = false; crossed += 1; } if *x > e && *x <= p.at { p.v /= y; undisturbed = false; crossed += 1; } }
                p.at = e; check!(*p.p.borrow().get_market_datetime() == inst(e, off), "evaluation:price-date", "price {k} is dated {}; {}", p.p.borrow().get_market_datetime(), d()); } }
            let g = p.p.borrow().get_value() as f64;
            check!(close(g, p.v, 3e-5, 0.0), if p.reg { "evaluation:price" } else { "evaluation:unregistered" }, "price {k} (dividends {:?}) is {g}, expected {}; {}", p.div, p.v, d());
            if !p.reg || p.div.is_none() { check!(g == p.v0, "evaluation:unregistered", "price {k} changed from {} to {g}; {}", p.v0, d()); c.ev("untouched_prices"); }
            // path independent: only start and end matter
            if let (true, Some(i)) = (p.reg, p.div) { let s = &ds[i].1; let mut w = p.v0; for (x, a) in s.ex.iter().zip(&s.amt) { let y = 1.0 - a / s.spot; if *x > p.at0 && *x <= e { w *= y; } if *x > e && *x <= p.at0 { w /= y; } } check!(close(g, w, 3e-5, 0.0), "evaluation:path", "price {k} is {g}, one move from the start gives {w}; {}", d()); c.ev("prices_compared"); if undisturbed { c.ev("no_ex_date_crossed"); } }
            if p.reg { if let Some(i) = p.div { if ds[i].2 { let q = (e.0 + r.range(0, 500), 0); let g = must!(p.p.borrow().get_dividend_deduction_ratio(&inst(q, off)), "evaluation:ratio", "{}", d()) as f64; let w = ds[i].1.ratio(e, q); check!(close(g, w, 3e-6, 0.0), "evaluation:ratio", "price {k} ratio to {}: {g} expected {w}; {}", show(q.0), d()); } } else { check!(p.p.borrow().get_dividend_deduction_ratio(&inst(e, off)).ok() == Some(1.0), "evaluation:ratio", "a price without dividends"); } }
        }
        for (k, (dv, s, reg, a)) in ds.iter().enumerate() { for _ in 0..3 { let x = *r.pick(&s.ex); let q = (x.0 + r.range(-1, 2), secs(r)); let g = must!(dv.borrow().get_deduction_ratio(&inst(q, off)), "evaluation:ratio", "{}", d()) as f64; let w = s.ratio(*a, q); check!(close(g, w, 3e-6, 0.0), if *reg { "evaluation:dividend" } else { "evaluation:unregistered" }, "dividends {k} (registered {reg}) ratio to {}: {g} expected {w}; {}", show(q.0), d()); c.ev("dividends_compared"); } }
        c.ev("moves");
    }
    c.evn("ex_dates_crossed", crossed); c.folds(&desc.join(";")); c.nontrivial = crossed > 0; c.sample(|| format!("{} prices, moves {log:?}", ps.len()));
    Ok(())
}
pub fn c29(run: &mut Run) {
    run.rule("random sets of prices and dividends, registered or not, under random walks of the evaluation date by assignment and tenor arithmetic; every state compared with the product of crossed dividends from the start");
    run.require("moves", 5000); run.require("ex_dates_crossed", 2000); run.require("prices_compared", 5000); run.require("untouched_prices", 2000); run.require("dividends_compared", 5000); run.require("registered_twice", 20); run.require("dates_compared", 5000);
    run.family("moves", 15000, 300_000, moves);
}

fn surface(r: &mut Rng, c: &mut Case) -> R {
    let (e, off) = eval(r);
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let spot = r.uni(20.0, 400.0) as f32;
    let (col, csh, _) = curve(r, &ev, e, off, KRW, "COL"); let (bor, bsh, _) = curve(r, &ev, e, off, KRW, "BOR");
    let with_div = r.bool();
    let (dv, dsh, _) = divs(r, &ev, e, off, spot, KRW, "S");
    let mp = rc(MarketPrice::new(spot, inst(e, off), with_div.then(|| dv.clone()), KRW, "S".into(), "S".into()));
    let sticky = *r.pick(&[StickynessType::StickyToMoneyness, StickynessType::StickyToStrike]);
    let all = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 18, 21, 24, 30, 36, 48, 60, 84, 120, 180, 240];
    let ten: Vec<(String, i64)> = { let n = if r.chance(0.1) { 12 + r.below(13) } else { 2 + r.below(7) }; let mut x = all[..if r.chance(0.3) { 24 } else { 18 }].to_vec(); while x.len() > n { let i = r.below(x.len()); x.remove(i); }
        x.iter().map(|m| (if m % 12 == 0 && r.bool() { format!("{}Y", m / 12) } else if *m == 18 && r.bool() { "1Y6M".into() } else { format!("{m}M") }, *m)).collect() }; let nt = ten.len();
    let nd = |x: &(String, i64)| if x.0 == "1Y6M" { node(e, (18, 1)) } else { plus(e, x.1, 1) };
    let nm = 2 + r.below(12); let mon: Vec<f32> = { let mut x = r.uni(0.4, 0.9) as f32; (0..nm).map(|_| { let v = x; x += r.uni(0.02, 0.15) as f32; v }).collect() };
    let tens: Vec<String> = ten.iter().map(|x| x.0.to_string()).collect();
    let init = LocalVolatilitySurface::initialize(ev.clone(), mp.clone(), col.clone(), bor.clone(), sticky, VolatilityInterplator::default(), "LV".into(), "LV".into());
    let times: Vec<f64> = ten.iter().map(|x| yf(e, nd(x))).collect();
    let times32: Vec<f32> = times.iter().map(|x| *x as f32).collect();
    let constant = r.chance(0.3);
    let mut gtol = 0.0f64;
    let imspot; let mut grid: Vec<Vec<f64>>; let s = if constant {
        let v = r.uni(0.05, 0.8) as f32; imspot = spot as f64; grid = vec![vec![v as f64; nm]; nt];
        must!(init.with_constant_volatility(&ValueData::new(v, None, KRW, "v".into(), "v".into()).unwrap(), tens.clone(), Array1::from_vec(mon.clone())), "surface:refused", "constant")
    } else {
        let is = if r.bool() { spot } else { spot * r.uni(0.9, 1.1) as f32 }; imspot = is as f64;
        let far = r.chance(0.3); let ng = if r.chance(0.1) { 10 + r.below(20) } else { 2 + r.below(8) }; let mut gz: Vec<i64> = (0..ng).map(|_| e.0 + if far { r.range(1, 6000) } else { r.range(1, 1500) }).collect(); gz.sort(); gz.dedup(); while gz.len() < 2 { gz.push(gz[0] + 90); }
        let nk = 2 + r.below(12); let strikes: Vec<f32> = { let mut x = is * r.uni(0.3, 0.8) as f32; (0..nk).map(|_| { let v = x; x += is * r.uni(0.02, 0.2) as f32; v }).collect() };
        let val = Array2::from_shape_fn((gz.len(), nk), |_| r.uni(0.05, 0.6) as f32);
        let sd = SurfaceData::new(Some(is), val.clone(), gz.iter().map(|z| at(*z, e.1, off)).collect(), Array1::from_vec(strikes.clone()), Some(inst(e, off)), KRW, "sd".into(), "sd".into());
        let gt: Vec<f32> = gz.iter().map(|z| yf(e, (*z, e.1)) as f32).collect(); let gm: Vec<f32> = strikes.iter().map(|k| k / is).collect();
        grid = times.iter().map(|t| mon.iter().map(|m| { let rows: Vec<f64> = (0..gz.len()).map(|i| lin(&gm, &val.row(i).iter().map(|x| *x as f64).collect::<Vec<_>>(), *m, Some(X::Flat)).unwrap().0).collect(); lin(&gt, &rows, *t as f32, Some(X::Flat)).unwrap().0 }).collect()).collect();
        gtol = (0..gz.len() - 1).map(|i| (0..nk).map(|j| (val[[i + 1, j]] - val[[i, j]]).abs() as f64).fold(0.0, f64::max) / (gt[i + 1] - gt[i]) as f64 * 2.5e-7 * (gt[i + 1] as f64)).fold(0.0, f64::max);
        let back = gz[r.below(gz.len())] - e.0 + 1;
        let bad = SurfaceData::new(Some(is), val.clone(), gz.iter().map(|z| at(*z - back, e.1, off)).collect(), Array1::from_vec(strikes.clone()), Some(inst(e, off)), KRW, "sd".into(), "sd".into());
        check!(init.clone().with_market_surface(&bad, tens.clone(), Array1::from_vec(mon.clone())).is_err(), "surface:past-accepted", "maturities before the evaluation date accepted: quoted {gz:?} less {back} days at {}", e.0);
        let bad = SurfaceData::new(Some(is), val.clone(), gz.iter().rev().map(|z| at(*z, e.1, off)).collect(), Array1::from_vec(strikes.clone()), Some(inst(e, off)), KRW, "sd".into(), "sd".into());
        check!(init.clone().with_market_surface(&bad, tens.clone(), Array1::from_vec(mon.clone())).is_err(), "surface:unsorted-accepted", "unsorted maturities accepted");
        must!(init.with_market_surface(&sd, tens.clone(), Array1::from_vec(mon.clone())), "surface:refused", "market")
    };
    let desc = format!("evaluation {} {}, tenors {tens:?}, moneyness {mon:?}, constant {constant}, sticky {sticky:?}, spot {spot}, quoted at {imspot}", show(e.0), e.1);
    c.folds(&desc);
    for i in 0..nt { check!(s.get_imvol_matuirty_dates()[i] == inst(nd(&ten[i]), off) && (s.get_imvol_maturity_times()[i] as f64 - times[i]).abs() < 1e-6 + 2e-7 * times[i], "surface:maturities", "{desc}"); }
    let mut v = Volatility::LocalVolatilitySurface(s);
    must!(v.build(), "surface:refused", "build: {desc}");
    check!(v.get_code() == "LV" && v.get_name() == "LV", "surface:name", "");
    let mut hist: Vec<(Option<f32>, Option<f32>, Option<f32>, Option<f32>, f32)> = vec![]; let orig = grid.clone(); let mut cur = spot as f64;
    for phase in 0..3 + r.below(4) {
        let d = || format!("{desc}; shifts {hist:?}; grid {grid:?}; spot now {cur}");
        if let Volatility::LocalVolatilitySurface(s) = &v { let g = s.get_interpolated_imvol(); for i in 0..nt { for j in 0..nm { check!((g[[i, j]] as f64 - grid[i][j]).abs() < 3e-6 + gtol, "surface:grid", "grid point {i},{j} is {} expected {}; {}", g[[i, j]], grid[i][j], d()); } } }
        // forward moneyness axis per maturity
        let base = if sticky == StickynessType::StickyToMoneyness { imspot } else { cur };
        let axes: Vec<Vec<f32>> = (0..nt).map(|i| { let m = nd(&ten[i]); let f = base * bsh.df(times[i]).unwrap() / csh.df(times[i]).unwrap() * if with_div { dsh.ratio(e, m) } else { 1.0 }; mon.iter().map(|x| (*x as f64 * imspot / f) as f32).collect() }).collect();
        for _ in 0..12 {
            let t = match r.below(4) { 0 => times32[r.below(nt)], 1 => 0.0, _ => r.uni(0.0, times[nt - 1] * 1.3) as f32 };
            let x = match r.below(3) { 0 => axes[r.below(nt)][r.below(nm)], _ => r.uni(0.2, 2.5) as f32 };
            let rows: Vec<f64> = (0..nt).map(|i| lin(&axes[i], &grid[i], x, Some(X::Flat)).unwrap().0).collect();
            let w = lin(&times32, &rows, t, Some(X::Flat)).unwrap().0;
            let slope = (0..nt).flat_map(|i| (0..nm - 1).map(move |j| (i, j))).map(|(i, j)| ((grid[i][j + 1] - grid[i][j]) / (axes[i][j + 1] - axes[i][j]) as f64).abs()).fold(0.0, f64::max);
            let ts = (0..nt - 1).map(|i| ((rows[i + 1] - rows[i]) / (times[i + 1] - times[i])).abs()).fold(0.0, f64::max);
            let tol = 5e-6 + gtol + slope * 3e-6 * x.max(1.0) as f64 + ts * 2e-6;
            let g = v.get_value(t, x) as f64;
            check!((g - w).abs() <= tol, "surface:value", "t {t} moneyness {x}: {g} expected {w} (tolerance {tol}); {}", d());
            let (lo, hi) = grid.iter().flatten().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
            check!(g >= lo - tol && g <= hi + tol, "surface:bounds", "{g} outside [{lo}, {hi}]; {}", d());
            let tv = must!(v.total_variance(t, x), "surface:refused", "{}", d()) as f64; let td = must!(v.total_deviation(t, x), "surface:refused", "{}", d()) as f64;
            check!(close(tv, g * g * t as f64, 2e-6, 1e-12) && close(td, g * (t as f64).sqrt(), 2e-6, 1e-12), "surface:variance", "variance {tv} deviation {td} at volatility {g}, t {t}"); c.ev("lookups");
            if constant && hist.is_empty() { check!((g - grid[0][0]).abs() < 2e-6, "surface:constant", "{g}; {}", d()); c.ev("constant_lookups"); }
        }
        // shift a rectangle, move the spot, undo
        match r.below(5) {
            0 if !hist.is_empty() => { for (a, b, x, y, h) in hist.drain(..).rev() { must!(v.bump_volatility(a, b, x, y, -h), "surface:shift", "undo"); } grid = orig.clone(); c.ev("undone"); }
            1 => { cur = spot as f64 * r.uni(0.8, 1.2); mp.borrow_mut().set_price(cur as f32); cur = cur as f32 as f64; must!(v.build(), "surface:refused", "rebuild"); c.ev("spot_moves"); }
            _ => {
                let mut b = |r: &mut Rng, g: &[f32]| match r.below(4) { 0 => None, 1 => Some((r.uni(-0.2, 1.2) as f32) * g[g.len() - 1]), _ => Some(*r.pick(g)) };
                let (a, q) = (b(r, &times32), b(r, &times32)); let (x, y) = (b(r, &mon), b(r, &mon)); let h = *r.pick(&[0.01f32, 0.001, -0.01]);
                // keep the edges away from the grid by more than the code's rounding guard, unless on it
                let near = |p: Option<f32>, g: &[f32]| p.is_some_and(|p| g.iter().any(|v| (v - p).abs() < 5e-4 && *v != p));
                if near(a, &times32) || near(q, &times32) || near(x, &mon) || near(y, &mon) { continue; }
                must!(v.bump_volatility(a, q, x, y, h), "surface:shift", "{a:?} {q:?} {x:?} {y:?}");
                let mut n = 0; for i in 0..nt { for j in 0..nm { let (t, m) = (times32[i] as f64, mon[j] as f64); let ok = |l: Option<f32>, h: Option<f32>, v: f64| l.is_none_or(|l| v > l as f64 + 3e-4) && h.is_none_or(|h| v <= h as f64 + 3e-4); if ok(a, q, t) && ok(x, y, m) { grid[i][j] += h as f64; n += 1; } } }
                hist.push((a, q, x, y, h)); c.ev("shifts"); if n > 0 && n < nt * nm { c.ev("partial_shifts"); }
            }
        }
        let _ = phase;
    }
    // constant volatility
    let x = r.uni(0.0, 1.0) as f32; let mut k = Volatility::ConstantVolatility(ConstantVolatility::new(x, "c".into(), "cc".into()));
    for _ in 0..5 { let (t, m) = (r.uni(0.0, 10.0) as f32, r.uni(0.1, 5.0) as f32); check!(k.get_value(t, m) == x && close(k.total_variance(t, m).unwrap() as f64, (x as f64).powi(2) * t as f64, 2e-6, 1e-12) && close(k.total_deviation(t, m).unwrap() as f64, x as f64 * (t as f64).sqrt(), 2e-6, 1e-12), "constant:value", "{x} at {t}, {m}"); }
    must!(k.bump_volatility(None, None, None, None, 0.01), "constant:shift", ""); check!(close(k.get_value(1.0, 1.0) as f64, x as f64 + 0.01, 1e-6, 1e-7), "constant:shift", "{x} + 0.01 = {}", k.get_value(1.0, 1.0));
    must!(k.bump_volatility(None, None, None, None, -0.01), "constant:shift", ""); check!(close(k.get_value(1.0, 1.0) as f64, x as f64, 1e-6, 1e-7), "constant:shift", "{x} back at {}", k.get_value(1.0, 1.0));
    check!(k.get_code() == "cc" && k.get_name() == "c", "constant:name", "");
    c.nontrivial = true; c.sample(|| desc.clone());
    Ok(())
}
pub fn c30(run: &mut Run) {
    run.rule("random quoted surfaces and constant volatilities on random tenor and moneyness grids, random rectangle shifts, spot moves and lookups; every grid point and lookup compared with a double-precision shadow surface");
    run.require("lookups", 20_000); run.require("constant_lookups", 500); run.require("shifts", 1000); run.require("partial_shifts", 200); run.require("undone", 100); run.require("spot_moves", 200);
    run.family("surface", 5000, 300_000, surface);
}
#[allow(unused)] fn _t<T: VolatilityTrait>() {}
