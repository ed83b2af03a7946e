//! C32 swaps, C33 futures, C34 options
use crate::{bond::*, cal::{yf as dcf, DC}, d::*, mk::*, sched::{expected, CONV, FREQ}};
use ndarray::Array1;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::value_data::ValueData;
use quantlib::enums::{OptionDailySettlementType, OptionExerciseType, OptionType, StickynessType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::{cash::Cash, futures::Futures, fx_futures::FxFutures, ktbf::{KtbfVirtualBond, KTBF}, plain_swap::{PlainSwap, PlainSwapType as PT}, schedule::{BaseSchedule, Schedule}, stock::Stock, vanilla_option::VanillaOption};
use quantlib::parameters::{market_price::MarketPrice, quanto::Quanto, volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator}, volatility::Volatility, zero_curve::ZeroCurve};
use quantlib::pricing_engines::{futures_pricer::FuturesPricer, fx_futures_pricer::FxFuturesPricer, identity_pricer::IdentityPricer, ktbf_pricer::KtbfPricer, option_analytic_pricer::OptionAnalyticPricer, plain_swap_pricer::PlainSwapPricer, pricer::PricerTrait, unit_pricer::UnitPricer};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::calendar_trait::CalendarTrait;
use std::rc::Rc;
use vmon::*;
use Currency::*;
pub struct Leg { pub rows: Vec<(i64, i64, i64, i64)>, pub dc: D, pub conv: B, pub f: usize }
pub struct Swap { pub swap: PlainSwap, pub ty: PT, pub fixed: Flows, pub float: Option<Flows>, pub unit: f32, pub cur: (Currency, Currency), pub slack: f64, pub jit: f64, pub desc: String }
fn leg(r: &mut Rng, k: &Cal, forward: bool, eff: i64, mat: i64, s: i64, fg: i64, pg: i64, dc: D, f: usize, conv: B) -> Option<Leg> {
    let _ = &r;
    let w = expected(forward, eff, mat, &|z| k.open(z, s), &conv, f, fg, pg)?;
    Some(Leg { rows: w.iter().map(|x| (x.fix, x.start, x.end, x.pay)).collect(), dc, conv, f })
}
/// a swap of any kind with its cash flows from the evaluation day on (None: they have to be refused)
pub fn swap(r: &mut Rng, c: &mut Case, e: I, off: i64, k: &Cal, fl: &Float, curs: (Currency, Currency), curve_end: i64) -> Option<Swap> {
    let s = *r.pick(&[0i64, e.1, e.1, 17 * 3600]);
    let kind = r.below(5);
    let t = |z: i64| inst((z, s), off);
    let f = *r.pick(&[4usize, 6, 6, 8, 8, 9]); let f2 = if r.bool() { f } else { *r.pick(&[4usize, 6, 8]) };
    let long = r.chance(0.01); let (f, f2) = if long { (4, *r.pick(&[4usize, 6])) } else { (f, f2) };
    let n = if long { 60 + r.range(0, 180) } else { *r.pick(&[1i64, 2, 4, 8, 20]) }; let per = FREQ[f].1 * 30;
    let eff = match r.below(5) { 0 => e.0, 1 => e.0 + r.range(0, 60), _ => e.0 - r.range(-1, n) * per - r.range(0, per) };
    let mat = match (kind, r.below(8)) { (3.., 5..) => eff + r.range(1, 4), (_, 0) => e.0, (_, 1) => e.0 + r.range(-2, 3), (2.., _) => eff + r.range(1, 700), _ => eff + n * per + *r.pick(&[0i64, 0, 5, -3]) };
    if mat <= eff || mat > curve_end { return None; }
    let issue = match r.below(3) { 0 => eff, 1 => mat - r.range(0, 4), _ => eff - r.range(0, 10) }.min(eff);
    let unit = *r.pick(&[1.0f32, 10_000.0, 1e6]);
    let fg = fl.gap; let pg = *r.pick(&[0i64, 0, 2]); let forward = r.bool();
    let rated = kind < 2;
    let curs = if kind == 0 { (curs.0, curs.0) } else { curs };
    let level = r.uni(0.5, 1500.0) as f32;
    let am = |r: &mut Rng| (level as f64 * r.uni(0.9, 1.1)) as f32; let one = |r: &mut Rng| if r.bool() { 1.0f32 } else { r.uni(0.5, 2.0) as f32 };
    let i = if kind == 1 || kind == 2 { (Some(am(r)), Some(one(r))) } else { (None, None) };
    let l = if kind != 0 { (Some(am(r)), Some(one(r))) } else { (None, None) };
    let rate = r.uni(-0.01, 0.09) as f32;
    let dc1 = *r.pick(&DC);
    let (conv1, conv2) = (*r.pick(&CONV), *r.pick(&CONV));
    let (mut a, mut b) = if rated { (leg(r, k, forward, eff, mat, s, fg, pg, dc1, f, conv1)?, leg(r, k, forward, eff, mat, s, fg, pg, fl.dc, f2, conv2)?) } else { (Leg { rows: vec![], dc: dc1, conv: conv1, f }, Leg { rows: vec![], dc: fl.dc, conv: conv2, f: f2 }) };
    let given = !rated || r.chance(0.4);
    if given && rated { // legs of their own shape
        for x in [&mut a, &mut b] { if r.bool() { let y = x.rows[r.below(x.rows.len())]; x.rows.push(y); } if r.chance(0.3) && x.rows.len() > 1 { x.rows.remove(0); } }
    }
    let ty = match kind { 0 => PT::IRS, 1 => PT::CRS, 2 => PT::FxSwap, _ => if mat <= issue + 2 { PT::FxSpot } else { PT::FxForward } };
    let (fr, ix, comp) = if rated { (Some(rate), Some(fl.index(curs.1)), fl.comp_text()) } else { (None, None, None) };
    let desc = format!("{ty:?} issued {} effective {} maturing {} second {s}, exchanges {i:?} {l:?}, fixed rate {rate} {dc1:?} every {:?} {conv1:?}, index {} compounding {:?} {:?} every {:?} {conv2:?}, {}, fixing gap {fg} payment gap {pg}, currencies {curs:?}, unit {unit}, calendar {}{}", show(issue), show(eff), show(mat), FREQ[f].0, INDEX[fl.ten].0, fl.comp_text(), fl.dc, FREQ[f2].0, if forward { "forward" } else { "backward" }, k.j.calendar_name(), if given { format!(", rows {:?} {:?}", a.rows, b.rows) } else { String::new() });
    let sw = if given {
        let sch = |x: &Leg| Schedule::new(x.rows.iter().map(|x| BaseSchedule::new(t(x.0), t(x.1), t(x.2), t(x.3), None)).collect());
        PlainSwap::new(sch(&a), sch(&b), fr, ix, comp, k.j.clone(), unit, t(issue), t(eff), t(mat), curs.0, curs.1, i.0, i.1, l.0, l.1, dc1, fl.dc, conv1, conv2, FREQ[f].0, FREQ[f2].0, fg, pg, "swap".into(), code("W1"))
    } else {
        PlainSwap::new_from_conventions(curs.0, curs.1, i.0, i.1, l.0, l.1, unit, t(issue), t(eff), t(mat), fr, ix, comp, forward, dc1, fl.dc, conv1, conv2, FREQ[f].0, FREQ[f2].0, fg, pg, k.j.clone(), "swap".into(), code("W1"))
    };
    let sw = match sw { Ok(x) => x, Err(x) => { c.ev("swap_refused"); eprintln!("{x} {desc}"); return None } };
    let mut fixed = Flows::new(); let mut float = Some(Flows::new());
    let put = |m: &mut Flows, z: i64, x: f64| if z >= e.0 { *m.entry((z, s)).or_insert(0.0) += x };
    if let Some(x) = i.0 { put(&mut fixed, eff, x as f64) } if let Some(x) = l.0 { put(&mut fixed, mat, -(x as f64)) }
    for x in &a.rows { put(&mut fixed, x.3, -(rate as f64) * dcf(&dc1, (x.1, s), (x.2, s)) * i.0.unwrap_or(1.0) as f64); }
    { let m = float.as_mut().unwrap(); if let Some(x) = i.1 { put(m, eff, -(x as f64)) } if let Some(x) = l.1 { put(m, mat, x as f64) } }
    for x in &b.rows {
        if x.3 < e.0 { continue; }
        let y = fl.coupon(k, (x.0, s), (x.1, s), (x.2, s), e, e, c);
        float = match (float, y) { (Some(mut m), Some(y)) => { put(&mut m, x.3, y * i.1.unwrap_or(1.0) as f64); Some(m) } _ => None };
    }
    c.ev(["irs", "crs", "fx_swap", "fx_forward", "fx_forward"][kind]); if ty == PT::FxSpot { c.ev("fx_spot"); }
    if eff < e.0 && i.0.is_some() { c.ev("initial_exchange_past"); } if eff == e.0 { c.ev("effective_today"); } if mat == e.0 { c.ev("matures_today"); }
    Some(Swap { swap: sw, ty, fixed, float, unit, cur: curs, slack: fl.comp.map(|_| 1.2e-7 * b.rows.iter().map(|x| x.2 - x.1).max().unwrap_or(0) as f64).unwrap_or(0.0), jit: fl.jitter(b.rows.len(), b.rows.iter().map(|x| x.2 - x.1).max().unwrap_or(0)), desc })
}
fn swaps(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z1, s1, d1) = curve(r, &ev, e, off, KRW, "FIX"); let (z2, s2, d2) = curve(r, &ev, e, off, USD, "FLT"); let (fz, _, fd) = curve(r, &ev, e, off, USD, "FWD");
    let k = Cal::new(r, off);
    for _ in 0..4 {
        let gap = *r.pick(&[0i64, 1, 2]);
        let mut fl = float(r, fz.clone(), e, gap, off); fl.spread = None;
        let curs = (*r.pick(&[KRW, JPY]), *r.pick(&[USD, EUR]));
        let Some(m) = swap(r, c, e, off, &k, &fl, curs, e.0 + 25_000) else { c.ev("not_buildable"); continue };
        let d = || format!("{}; evaluation {} second {}; {d1}; {d2}; {fd}", m.desc, show(e.0), e.1);
        c.folds(&m.desc);
        let fx = r.uni(0.5, 1500.0) as f32; let with = m.ty != PT::IRS;
        let fxp = with.then(|| rc(MarketPrice::new(fx, inst(e, off), None, m.cur.0, "FX".into(), "FX".into())));
        let fx = if with { fx as f64 } else { 1.0 };
        let data = Some(fl.data());
        let pr = PlainSwapPricer::new(ev.clone(), z1.clone(), z2.clone(), Some(fz.clone()), data.clone(), fxp).unwrap();
        let ins = Instrument::PlainSwap(m.swap.clone());
        check!(m.swap.get_specific_plain_swap_type().unwrap() == m.ty, "swap:kind", "{:?}; {}", m.swap.get_specific_plain_swap_type(), d());
        check!(*m.swap.get_fixed_leg_currency().unwrap() == m.cur.0 && *m.swap.get_floating_leg_currency().unwrap() == m.cur.1, "swap:currency", "{}", d());
        check!(m.swap.get_floating_to_fixed_fxcode().unwrap().copied() == with.then(|| FxCode::new(m.cur.1, m.cur.0)), "swap:fx-code", "{}", d());
        let gf = must!(flows(&must!(m.swap.get_fixed_cashflows(&inst(e, off)), "swap:refused", "{}", d()), off), "swap:flows", "{}", d());
        if let Some(x) = same_flows(&gf, &m.fixed, 1.0, 0.0) { fail!("swap:fixed-flows", "{x}; {}", d()) }
        let gl = m.swap.get_floating_cashflows(&inst(e, off), Some(fz.clone()), data.clone());
        let Some(w) = &m.float else { check!(gl.is_err() && pr.npv(&ins).is_err() && pr.npv_result(&ins).is_err() && pr.fx_exposure(&ins, 0.0).is_err(), "swap:fixing-accepted", "flows {gl:?}; {}", d()); c.ev("refused_fixings"); continue };
        let gl = must!(flows(&must!(gl, "swap:refused", "{}", d()), off), "swap:flows", "{}", d());
        if let Some(x) = same_flows(&gl, w, 2.0, 2.0 * m.slack) { fail!("swap:floating-flows", "{x}; {}", d()) }
        let Some((a, aa)) = present(&m.fixed, e.0, e, &s1) else { year_end(e, &d())?; c.ev("year_end_overlap"); continue };
        let Some((b, ba)) = present(w, e.0, e, &s2) else { year_end(e, &d())?; c.ev("year_end_overlap"); continue };
        let v = a + fx * b; let tol = 3e-5 * (aa + fx * ba) + 1e-6 + 2.0 * m.slack * fx;
        let g = must!(pr.npv(&ins), "swap:refused", "{}", d()) as f64;
        check!((g - v).abs() <= tol, "swap:value", "value {g} expected {v} (fixed {a}, floating {b}, rate {fx}); {}", d());
        let x = must!(pr.npv_result(&ins), "swap:refused", "{}", d());
        check!((x.get_npv() as f64 - g).abs() <= 1e-5 * (aa + fx * ba) + 1e-7, "swap:detail", "total {} value {g}; {}", x.get_npv(), d());
        let mut both = m.fixed.clone(); for (t, y) in w { *both.entry(*t).or_insert(0.0) += y * fx; }
        let big = m.fixed.values().fold(1.0, |a: f64, b| a.max(b.abs())).max(w.values().fold(0.0, |a: f64, b| a.max(b.abs())) * fx);
        detailed(&x, x.get_npv() as f64, 0.0, &both, off, 2.0 * m.slack * fx + 3e-6 * big, "swap:detail", &d)?;
        let q = must!(pr.fx_exposure(&ins, g as f32), "swap:refused", "{}", d()); let u = m.unit as f64;
        let et = |s: f64| u * (3e-5 * s + 1e-6 + 2.0 * m.slack);
        if m.cur.0 == m.cur.1 { check!(q.len() == 1 && (q[&m.cur.0] as f64 - u * (a + b)).abs() <= et(aa + ba), "swap:exposure", "{q:?} expected {}; {}", u * (a + b), d()); }
        else {
            check!(q.len() == 2 && (q[&m.cur.0] as f64 - u * a).abs() <= et(aa) && (q[&m.cur.1] as f64 - u * b).abs() <= et(ba), "swap:exposure", "{q:?} expected {} and {}; {}", u * a, u * b, d());
            check!((q[&m.cur.0] as f64 + fx * q[&m.cur.1] as f64 - u * g).abs() <= u * (5e-6 * (aa + fx * ba) + 1e-7), "swap:recombine", "{q:?} at {fx} against {}; {}", u * g, d()); c.ev("recombined");
        }
        c.ev("swaps_valued"); c.nontrivial = true; c.foldf(g); c.sample(|| d());
        if m.fixed.keys().chain(w.keys()).any(|x| x.0 == e.0) { c.ev("pays_today"); }
    }
    Ok(())
}
fn kinds(r: &mut Rng, c: &mut Case) -> R {
    // the kind follows from which terms are given
    let off = KST; let z = day(r, 2020, 2030); let k = Cal::new(r, off);
    let t = |z: i64| at(z, 0, off); let issue = at(z, secs(r), off); let until = secs(r);
    let some = |b: bool, x: f32| b.then_some(x);
    let b: Vec<bool> = (0..4).map(|_| r.bool()).collect(); let b = match r.below(4) { 0 => vec![true; 4], 1 => vec![false; 4], 2 => vec![false, false, true, true], _ => b };
    let (fixed, index, same, rows) = (r.bool(), r.bool(), r.bool(), r.bool());
    let life = *r.pick(&[1i64, 2, 3, 30]);
    let row = || Schedule::new(if rows { vec![BaseSchedule::new(t(z), t(z), t(z + life), t(z + life), None)] } else { vec![] });
    let ix = index.then(|| quantlib::parameters::rate_index::RateIndex::new("3M".into(), USD, "i".into(), "i".into()).unwrap());
    let g = PlainSwap::new(row(), row(), some(fixed, 0.03), ix, None, k.j.clone(), 1.0, issue, t(z), at(z + life, until, off), USD, if same { USD } else { EUR }, some(b[0], 1.1), some(b[1], 1.0), some(b[2], 1.1), some(b[3], 1.0), D::Actual365Fixed, D::Actual360, B::Following, B::Following, F::Quarterly, F::Quarterly, 0, 0, "s".into(), "s".into());
    let rated = fixed && index; let bare = !fixed && !index && !rows;
    let all = b.iter().all(|x| *x); let none = b.iter().all(|x| !*x); let last = !b[0] && !b[1] && b[2] && b[3];
    let w = if none && rated && same { Some(PT::IRS) } else if all && rated && !same { Some(PT::CRS) } else if all && bare && !same { Some(PT::FxSwap) } else if last && bare && !same { Some(if life <= 2 { PT::FxSpot } else { PT::FxForward }) } else { None };
    check!(g.as_ref().ok().map(|x| x.get_specific_plain_swap_type().unwrap()) == w, "swap:kind", "exchanges {b:?} fixed rate {fixed} index {index} same currency {same} rows {rows} life {life}: {:?} expected {w:?}", g.map(|x| x.get_specific_plain_swap_type().unwrap()).map_err(|_| "refused"));
    // the same from conventions, where there are always coupon rows
    let ix = index.then(|| quantlib::parameters::rate_index::RateIndex::new("3M".into(), USD, "i".into(), "i".into()).unwrap());
    let g = PlainSwap::new_from_conventions(USD, if same { USD } else { EUR }, some(b[0], 1.1), some(b[1], 1.0), some(b[2], 1.1), some(b[3], 1.0), 1.0, t(z), t(z), t(z + 200), some(fixed, 0.03), ix, None, r.bool(), D::Actual365Fixed, D::Actual360, B::Following, B::Following, F::Quarterly, F::Quarterly, 0, 0, k.j.clone(), "s".into(), "s".into());
    let w2 = if none && rated && same { Some(PT::IRS) } else if all && rated && !same { Some(PT::CRS) } else { None };
    check!(g.as_ref().ok().map(|x| x.get_specific_plain_swap_type().unwrap()) == w2, "swap:convention-kind", "from conventions: exchanges {b:?} fixed rate {fixed} index {index} same currency {same}: {:?} expected {w2:?}", g.map(|x| x.get_specific_plain_swap_type().unwrap()).map_err(|_| "refused"));
    c.ev(if w.is_some() { "kinds_accepted" } else { "kinds_refused" }); c.nontrivial = w.is_some(); c.fold(r.u64());
    Ok(())
}
pub fn c32(run: &mut Run) {
    run.rule("random interest-rate, currency and foreign-exchange swaps, forwards and spots before, on and after their exchange and payment dates; leg flows, value, detail, exposure against double precision evaluation");
    run.assume("forward rates of the curve itself are decided by C27, floating rates by C39; payments within the curve's range");
    run.require("swaps_valued", 1500); for k in ["irs", "crs", "fx_swap", "fx_forward", "initial_exchange_past", "pays_today", "recombined"] { run.require(k, 100); } for k in ["fx_spot", "effective_today", "matures_today", "kinds_accepted", "kinds_refused"] { run.require(k, 30); }
    let _m = Mute::new();
    run.family("swap", 700, 200_000, swaps);
    run.family("kind", 600, 20_000, kinds);
}
fn futures(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z1, s1, d1) = curve(r, &ev, e, off, KRW, "COL"); let (z2, s2, d2) = curve(r, &ev, e, off, KRW, "BOR");
    let spot = r.uni(0.01, 3000.0) as f32;
    let (dv, dsh, dd) = divs(r, &ev, e, off, spot, KRW, "S"); let with = r.bool();
    let p = rc(MarketPrice::new(spot, inst(e, off), with.then(|| dv.clone()), KRW, "S".into(), "S".into()));
    let fp = FuturesPricer::new(p.clone(), z1.clone(), z2.clone()); let xp = FxFuturesPricer::new(p.clone(), z1.clone(), z2.clone());
    for _ in 0..8 {
        let m: I = match r.below(6) { 0 => e, 1 => (e.0 + r.range(0, 3), secs(r)), 2 => (e.0 - r.range(1, 400), e.1), _ => (e.0 + r.range(1, 5000), *r.pick(&[e.1, 0, 17 * 3600])) };
        let avg = (spot as f64 * r.uni(0.5, 1.5)) as f32; let unit = *r.pick(&[1.0f32, 250_000.0, 1e4]);
        let (cur, und) = (*r.pick(&[KRW, USD, JPY]), *r.pick(&[KRW, EUR]));
        let t = inst(m, off);
        let f = Instrument::Futures(Futures::new(avg, inst(e, off), t, t, t, unit, cur, und, "S".into(), "fut".into(), "F1".into()));
        let (cur2, und2) = (KRW, *r.pick(&[USD, EUR]));
        let x = Instrument::FxFutures(FxFutures::new(avg, inst(e, off), t, t, t, unit, cur2, und2, "fxfut".into(), "F2".into()));
        let d = || format!("spot {spot} traded {avg} unit {unit} maturity {} second {} evaluation {} second {}; {d1}; {d2}{}", show(m.0), m.1, show(e.0), e.1, if with { format!("; {dd}") } else { String::new() });
        let tm = yf(e, m);
        c.folds(&d());
        if secs_between(e, m) < 0 {
            if m.0 < e.0 { check!(fp.npv(&f).is_err() && fp.npv_result(&f).is_err() && xp.npv(&x).is_err() && xp.npv_result(&x).is_err() && xp.fx_exposure(&x, 0.0).is_err() && guarded(|| fp.fx_exposure(&f, 0.0).is_err()).unwrap_or(true), "futures:matured", "a matured contract was priced; {}", d()); c.ev("matured_refused"); }
            continue;
        }
        if tm < 0.0 { c.ev("year_end_overlap"); continue; }
        let (a, b) = (some!(s1.df(tm), "harness:curve", "{}", d()), some!(s2.df(tm), "harness:curve", "{}", d()));
        let ratio = if with { dsh.ratio(e, m) } else { 1.0 };
        let w = spot as f64 * b / a * ratio;
        let g = must!(fp.npv(&f), "futures:refused", "{}", d()) as f64; let tol = 1e-5 * w;
        check!((g - w).abs() <= tol, "futures:value", "{g} expected {w}; {}", d());
        if with && ratio != 1.0 { c.ev("dividends_deducted"); }
        if m == e { check!(close(g, spot as f64, 1e-6, 0.0) || ratio != 1.0, "futures:converge", "{g} at maturity; {}", d()); c.ev("at_maturity"); }
        let n = must!(fp.npv_result(&f), "futures:refused", "{}", d());
        check!(close(n.get_npv() as f64, g, 2e-6, 0.0) && n.get_cashflow_amounts().is_empty(), "futures:detail", "{}; {}", n.get_npv(), d());
        check!(close(must!(fp.fair_forward(&t), "futures:refused", "{}", d()) as f64, g, 2e-6, 0.0), "futures:detail", "{}", d());
        let q = must!(fp.fx_exposure(&f, g as f32), "futures:refused", "{}", d());
        check!(q.len() == 1 && (q[&cur] as f64 - (w - avg as f64) * unit as f64).abs() <= unit as f64 * 2e-5 * (w + avg as f64), "futures:exposure", "{q:?} expected {} {cur:?}; {}", (w - avg as f64) * unit as f64, d());
        c.ev("equity_futures");
        // currency futures: the collateral curve is the underlying currency's
        let w = spot as f64 * a / b;
        let g = must!(xp.npv(&x), "fx-futures:refused", "{}", d()) as f64;
        check!((g - w).abs() <= 1e-5 * w, "fx-futures:value", "{g} expected {w}; {}", d());
        if m == e { check!(close(g, spot as f64, 1e-6, 0.0), "fx-futures:converge", "{g} at maturity; {}", d()); }
        check!(close(must!(xp.npv_result(&x), "fx-futures:refused", "{}", d()).get_npv() as f64, g, 2e-6, 0.0), "fx-futures:detail", "{}", d());
        let q = must!(xp.fx_exposure(&x, g as f32), "fx-futures:refused", "{}", d());
        check!(q.len() == 2, "fx-futures:exposure", "{q:?}; {}", d());
        let (xa, xb) = (q[&und2] as f64, q[&cur2] as f64);
        let per = |u: f64| (xa - a * u).abs() <= 1e-5 * u && (xb + b * avg as f64 * u).abs() <= 1e-5 * b * avg as f64 * u;
        if !per(unit as f64) {
            check!(per(1.0), "fx-futures:exposure", "{q:?} expected {a} {und2:?} and {} {cur2:?}, times {unit}; {}", -b * avg as f64, d());
            c.known("fx-futures:exposure-without-unit", || format!("currency futures exposures are those of one currency unit, not of the contract's {unit}: {q:?}; {}", d()));
        }
        c.ev("fx_futures"); c.foldf(g); c.nontrivial = true; c.sample(|| d());
        // instruments of another kind
        let st = Instrument::Stock(Stock::new("st".into(), "ST".into(), vec!["S".into()], KRW, None));
        let cash = Instrument::Cash(Cash::new(USD, "cash".into(), "CASH".into()));
        check!(fp.npv(&st).is_err() && fp.npv_result(&cash).is_err() && fp.fx_exposure(&x, 0.0).is_err() && fp.npv(&x).is_err(), "futures:kind", "an instrument of another kind was priced as a future"); c.ev("wrong_kinds");
        check!(UnitPricer::new().npv(&cash).unwrap() == 1.0 && UnitPricer::new().npv_result(&cash).unwrap().get_npv() == 1.0 && IdentityPricer::new(p.clone()).npv(&st).unwrap() == spot && IdentityPricer::new(p.clone()).npv_result(&st).unwrap().get_npv() == spot, "spot:value", "{}", d());
        let u = r.uni(0.5, 1.5) as f32; let v = IdentityPricer::new(p.clone()).fx_exposure(&st, spot * u).unwrap(); check!(v.len() == 1 && close(v[&KRW] as f64, (spot * u * st.get_unit_notional()) as f64, 1e-6, 0.0), "spot:exposure", "{v:?}");
    }
    Ok(())
}
fn basket(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z1, s1, d1) = curve(r, &ev, e, off, KRW, "DSC"); let (z2, s2, d2) = curve(r, &ev, e, off, KRW, "BOR");
    let k = Cal::new(r, off);
    let mt: I = (e.0 + *r.pick(&[0i64, 1, 30, 90, 180]), if r.bool() { e.1 } else { 86_399 }).max(e);
    let mut list = vec![]; let want = 1 + r.below(4);
    for _ in 0..400 { if list.len() == want { break; }
        let Some(m) = bond(r, c, e, off, Some(mt), &k, None, KRW, e.0 + 15_000) else { continue };
        if m.mat.0 - mt.0 < 800 || m.issue > mt { continue; }
        let fl: Vec<f64> = m.flows.as_ref().unwrap().iter().filter(|x| x.0 .0 > mt.0).map(|x| *x.1).collect();
        if fl.iter().all(|x| *x >= 0.0) && fl[fl.len() - 1] > 0.5 { list.push(m); }
    }
    if list.len() < want { c.ev("no_basket"); return Ok(()); }
    let (yr, cp, fq) = (*r.pick(&[3i32, 5, 10]), *r.pick(&[0.05f32, 0.03, 0.0]), *r.pick(&[F::SemiAnnually, F::SemiAnnually, F::Annually, F::Quarterly])); let vu = *r.pick(&[100.0f32, 1.0]);
    let unit = *r.pick(&[1e6f32, 1.0]);
    let mk = |b: Vec<_>| KTBF::new(KRW, unit, inst(e, off), inst(mt, off), inst(mt, off), KtbfVirtualBond::new(yr, cp, fq, vu), b, "BOR".into(), "ktbf".into(), "K1".into());
    let ins = Instrument::KTBF(must!(mk(list.iter().map(|m| m.bond.clone()).collect()), "ktbf:refused", ""));
    let d = || format!("future to {} second {} on {yr} years of {cp} {fq:?} unit {vu}, evaluation {} second {}, basket {:?}; {d1}; {d2}", show(mt.0), mt.1, show(e.0), e.1, list.iter().map(|m| m.desc.clone()).collect::<Vec<_>>());
    // average yield of the basket, at the bonds' values on the delivery date
    let mut sum = 0.0;
    for m in &list {
        let fl = m.flows.as_ref().unwrap();
        let (Some(v), Some(dm)) = (present(fl, mt.0, e, &s1), s1.df(yf(e, mt))) else { year_end(e, &d())?; c.ev("year_end_overlap"); return Ok(()) }; let v = v.0 / dm;
        let (mut lo, mut hi) = (-0.9, 5.0);
        for _ in 0..200 { let y = (lo + hi) / 2.0; if krx(m, y).0 > v { lo = y } else { hi = y } }
        sum += (lo + hi) / 2.0;
    }
    let y = sum / list.len() as f64;
    let f = fq.as_real() as f64; let n = (yr as f64 * f) as i32;
    let virt = |y: f64| ((1..=n).map(|i| cp as f64 / f / (1.0 + y / f).powi(i)).sum::<f64>() + 1.0 / (1.0 + y / f).powi(n)) * vu as f64;
    let Some(b) = s2.df(yf(e, mt)) else { year_end(e, &d())?; c.ev("year_end_overlap"); return Ok(()) };
    let w = virt(y) * b;
    let pr = KtbfPricer::new(ev.clone(), z1, z2);
    let g = must!(pr.npv(&ins), "ktbf:refused", "{}", d()) as f64;

    check!((g - w).abs() <= 4e-4 * w, "ktbf:value", "{g} expected {w} (average yield {y}); {}", d());
    let n = must!(pr.npv_result(&ins), "ktbf:refused", "{}", d()).get_npv() as f64; check!(close(n, g, 6e-4, 0.0), "ktbf:detail", "{n} value {g}; {}", d());
    let q = must!(pr.fx_exposure(&ins, g as f32), "ktbf:refused", "{}", d()); check!(q.len() == 1 && close(q[&KRW] as f64, g * unit as f64, 1e-6, 0.0), "ktbf:exposure", "{q:?}; {}", d());
    let x = r.uni(-0.02, 0.2) as f32; let v = KtbfVirtualBond::new(yr, cp, fq, vu).npv(x) as f64; check!(close(v, virt(x as f64), 1e-5, 0.0), "ktbf:virtual", "{v} at {x} expected {}", virt(x as f64));
    // baskets valued on another date are refused
    let other = (mt.0 + *r.pick(&[-1i64, 1]), mt.1);
    for p in [None, Some(other)] { if let Some(m) = (0..50).find_map(|_| bond(r, c, e, off, p, &k, None, KRW, e.0 + 15_000)) { let mut v: Vec<_> = list.iter().map(|m| m.bond.clone()).collect(); let i = r.below(v.len() + 1); v.insert(i, m.bond); check!(mk(v).is_err(), "ktbf:dates", "a basket bond priced on {p:?} was accepted; {}", d()); c.ev("baskets_refused"); } }
    c.ev("treasury_futures"); c.nontrivial = true; c.foldf(g); c.folds(&d()); c.sample(|| d());
    Ok(())
}
pub fn c33(run: &mut Run) {
    run.rule("random equity, currency and treasury-bond futures before and at maturity; value, detail and exposure against double precision evaluation; matured contracts and other instrument kinds refused");
    run.assume("treasury-bond baskets with at least two years to run (yields are found to single precision of the price)");
    run.require("equity_futures", 1500); run.require("fx_futures", 1500); run.require("treasury_futures", 200); run.require("dividends_deducted", 300); run.require("at_maturity", 100); run.require("matured_refused", 100); run.require("baskets_refused", 100);
    let _m = Mute::new();
    run.family("futures", 600, 100_000, futures);
    run.family("treasury", 400, 40_000, basket);
}
extern "C" { fn erfc(x: f64) -> f64; }
pub fn cdf(x: f64) -> f64 { 0.5 * unsafe { erfc(-x / std::f64::consts::SQRT_2) } }
pub fn black(call: bool, f: f64, k: f64, dev: f64, dsc: f64) -> f64 {
    if dev <= 0.0 { return dsc * if call { f - k } else { k - f }.max(0.0); }
    let d1 = (f / k).ln() / dev + dev / 2.0; let d2 = d1 - dev;
    dsc * if call { f * cdf(d1) - k * cdf(d2) } else { k * cdf(-d2) - f * cdf(-d1) }
}
pub fn option(k: f32, m: I, off: i64, unit: f32, und: Currency, cur: Currency, call: bool, daily: bool, code: &str, ucode: &str) -> VanillaOption {
    let t = inst(m, off);
    VanillaOption::new(k, unit, inst((m.0 - 400, 0), off), t, t, t, vec![ucode.into()], und, cur, if call { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, if daily { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, code.into(), code.into())
}
fn options(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z1, s1, d1) = curve(r, &ev, e, off, USD, "COL"); let (z2, s2, d2) = curve(r, &ev, e, off, USD, "BOR"); let (z3, s3, d3) = curve(r, &ev, e, off, KRW, "DSC");
    let spot = r.uni(5.0, 3000.0) as f32;
    let (dv, dsh, dd) = divs(r, &ev, e, off, spot, USD, "S"); let with = r.bool();
    let p = rc(MarketPrice::new(spot, inst(e, off), with.then(|| dv.clone()), USD, "S".into(), "S".into()));
    let flat = r.chance(0.7); let sig = *r.pick(&[0.0f32, 0.001, 0.05, 0.2, 0.4, 1.5]) + if r.bool() { r.uni(0.0, 0.1) as f32 } else { 0.0 };
    let surface = |r: &mut Rng, p: &RC<MarketPrice>, level: f32, step: f64| -> Result<RC<Volatility>, Fail> {
        let s = LocalVolatilitySurface::initialize(ev.clone(), p.clone(), z1.clone(), z2.clone(), StickynessType::StickyToMoneyness, VolatilityInterplator::default(), "v".into(), "S".into());
        let mut s = must!(s.with_constant_volatility(&ValueData::new(level, None, USD, "v".into(), "v".into()).unwrap(), ["1M", "3M", "6M", "1Y", "2Y"].iter().map(|x| x.to_string()).collect(), Array1::from_vec((0..9).map(|i| 0.6 + 0.1 * i as f32).collect())), "harness:surface", "");
        must!(s.build(), "harness:surface", "");
        // a smile and a term structure
        for i in 0..9 { let (a, b) = (0.55 + 0.1 * i as f32, 0.65 + 0.1 * i as f32); must!(quantlib::parameters::volatility::VolatilityTrait::bump_volatility(&mut s, None, None, Some(a), Some(b), r.uni(0.0, step) as f32), "harness:surface", ""); }
        Ok(rc(Volatility::LocalVolatilitySurface(s)))
    };
    let level = r.uni(0.05, 0.8) as f32;
    let vol = if flat { rc(Volatility::ConstantVolatility(ConstantVolatility::new(sig, "v".into(), "S".into()))) } else { surface(r, &p, level, 0.1)? };
    let quanto = r.chance(0.3); let (fv, rho) = (r.uni(0.02, 0.3) as f32, r.uni(-0.95, 0.95) as f32);
    // the exchange rate volatility is read at the moneyness of the option
    let fsmile = quanto && r.bool();
    let fxv = if fsmile { surface(r, &p, fv, 0.06)? } else { rc(Volatility::ConstantVolatility(ConstantVolatility::new(fv, "fx".into(), "fx".into()))) };
    let q = quanto.then(|| rc(Quanto::new(fxv.clone(), rho, FxCode::new(USD, KRW), "S".into())));
    let cur = if quanto { KRW } else { USD };
    let pr = |v: RC<Volatility>, q: Option<RC<Quanto>>| OptionAnalyticPricer::new(ev.clone(), p.clone(), z1.clone(), z2.clone(), z3.clone(), v, q);
    let mm = pr(vol.clone(), q.clone());
    for _ in 0..6 {
        let m: I = match r.below(7) { 0 => e, 1 => (e.0 + r.range(0, 3), secs(r)).max(e), 2 => (e.0 - r.range(1, 400), e.1), _ => (e.0 + r.range(1, 2500), *r.pick(&[e.1, 0, 17 * 3600])) };
        let past = secs_between(e, m) < 0; let tm = yf(e, m);
        let k = match r.below(5) { 0 => spot, 1 => (spot as f64 * r.uni(0.2, 4.0)) as f32, 2 => (spot as f64 * r.uni(0.98, 1.02)) as f32, _ => (spot as f64 * r.uni(0.6, 1.5)) as f32 };
        let o = |k: f32, call: bool| Instrument::VanillaOption(option(k, m, off, 1.0, USD, cur, call, false, "O1", "S"));
        let d = || format!("strike {k} maturity {} second {} spot {spot} evaluation {} second {}; volatility {} quanto {:?}; {d1}; {d2}; {d3}{}", show(m.0), m.1, show(e.0), e.1, if flat { format!("{sig}") } else { "surface".into() }, quanto.then_some((fv, fsmile, rho)), if with { format!("; {dd}") } else { String::new() });
        c.folds(&d());
        if past { if m.0 < e.0 { check!(mm.npv(&o(k, true)).is_err() && mm.npv_result(&o(k, false)).is_err(), "option:matured", "a matured option was priced; {}", d()); c.ev("matured_refused"); } continue; }
        if tm < 0.0 { c.ev("year_end_overlap"); continue; }
        let (a, b, dsc) = (s1.df(tm).unwrap(), s2.df(tm).unwrap(), s3.df(tm).unwrap());
        let f = spot as f64 * b / a * if with { dsh.ratio(e, m) } else { 1.0 };
        let (v, dev) = if flat { (sig as f64, sig as f64 * tm.max(0.0).sqrt()) } else { let x = vol.borrow(); (x.get_value(tm as f32, (k as f64 / f) as f32) as f64, (must!(x.total_variance(tm as f32, (k as f64 / f) as f32), "option:refused", "{}", d()) as f64).max(0.0).sqrt()) };
        let fv = if fsmile { fxv.borrow().get_value(tm as f32, (k as f64 / f) as f32) } else { fv };
        let fq = if quanto { f * (-v * tm * fv as f64 * rho as f64).exp() } else { f };
        let tol = dsc * 2e-5 * (fq + k as f64) + if flat && !fsmile { 0.0 } else { dsc * f * 1e-5 * (1.0 + tm.sqrt()) };
        let call = must!(mm.npv(&o(k, true)), "option:refused", "{}", d()) as f64; let put = must!(mm.npv(&o(k, false)), "option:refused", "{}", d()) as f64;
        let (wc, wp) = (black(true, fq, k as f64, dev, dsc), black(false, fq, k as f64, dev, dsc));
        check!((call - wc).abs() <= tol, "option:value", "call {call} expected {wc}; {}", d());
        check!((put - wp).abs() <= tol, "option:value", "put {put} expected {wp}; {}", d());
        check!((call - put - dsc * (fq - k as f64)).abs() <= tol, "option:parity", "{call} - {put} against {}; {}", dsc * (fq - k as f64), d());
        let (lo, hi) = ((dsc * (fq - k as f64)).max(0.0), dsc * fq);
        check!(call >= lo - tol && call <= hi + tol && put >= lo - dsc * (fq - k as f64) - tol && put <= dsc * k as f64 + tol, "option:bounds", "call {call} put {put}; {}", d());
        if m == e { check!((call - (fq - k as f64).max(0.0)).abs() <= 1e-6 * spot as f64 && (put - (k as f64 - fq).max(0.0)).abs() <= 1e-6 * spot as f64, "option:payoff", "call {call} put {put} at expiry; {}", d()); c.ev("at_expiry"); }
        check!((must!(mm.npv_result(&o(k, true)), "option:refused", "{}", d()).get_npv() as f64 - call).abs() <= tol * 0.05, "option:detail", "{}", d());
        let x = must!(mm.fx_exposure(&o(k, true), call as f32), "option:refused", "{}", d()); check!(x.len() == 1 && (x[&cur] as f64 - call).abs() <= tol * 0.05, "option:exposure", "{x:?}; {}", d());
        // strikes
        let k2 = k * (1.0 + r.uni(0.001, 0.3) as f32);
        let (c2, p2) = (must!(mm.npv(&o(k2, true)), "option:refused", "{}", d()) as f64, must!(mm.npv(&o(k2, false)), "option:refused", "{}", d()) as f64);
        if flat && !quanto { check!(c2 <= call + tol && p2 >= put - tol && call - c2 <= dsc * (k2 - k) as f64 + 2.0 * tol && p2 - put <= dsc * (k2 - k) as f64 + 2.0 * tol, "option:strike", "strike {k2}: call {c2} put {p2}, against {call} and {put}; {}", d()); c.ev("strikes_compared"); }
        if flat && !quanto { let s2 = sig + r.uni(0.01, 0.5) as f32; let h = pr(rc(Volatility::ConstantVolatility(ConstantVolatility::new(s2, "v".into(), "S".into()))), None); let (c3, p3) = (h.npv(&o(k, true)).unwrap() as f64, h.npv(&o(k, false)).unwrap() as f64); check!(c3 >= call - tol && p3 >= put - tol, "option:volatility", "volatility {s2}: call {c3} put {p3}, against {call} and {put}; {}", d()); c.ev("volatilities_compared"); }
        // another currency needs the quanto terms
        let other = Instrument::VanillaOption(option(k, m, off, 1.0, USD, EUR, r.bool(), false, "O2", "S"));
        check!(pr(vol.clone(), None).npv(&other).is_err() && pr(vol.clone(), None).npv_result(&other).is_err(), "option:quanto-missing", "{}", d());
        if quanto { c.ev("quanto_options"); } if fsmile { c.ev("quanto_smiles"); } if with { c.ev("options_with_dividends"); } if !flat { c.ev("surface_options"); } if dev == 0.0 { c.ev("no_variance"); }
        c.ev("options_valued"); c.foldf(call); c.nontrivial = true; c.sample(|| d());
    }
    Ok(())
}
pub fn c34(run: &mut Run) {
    run.rule("random calls and puts over carry, dividends, quanto terms, flat and surface volatilities, from deep in to deep out of the money and down to expiry; value against a double precision Black formula, plus parity, bounds, strike and volatility monotonicity");
    run.assume("volatility surfaces are read through the code's own total variance (decided by C30)");
    run.require("options_valued", 2000); run.require("at_expiry", 100); run.require("no_variance", 50); run.require("quanto_options", 200); run.require("quanto_smiles", 100); run.require("surface_options", 300); run.require("strikes_compared", 500); run.require("volatilities_compared", 500); run.require("matured_refused", 100);
    let _m = Mute::new();
    run.family("option", 1200, 150_000, options);
}
#[allow(unused)] fn _k(_: Rc<ZeroCurve>) {}
