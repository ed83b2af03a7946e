//! C31 bonds, C39 floating coupons
use crate::{cal::{make, yf as dcf, DC}, d::*, mk::*, period, sched::{expected, roll, CONV, FREQ}};
use quantlib::currency::Currency;
use quantlib::enums::{Compounding, CreditRating, IssuerType, RankType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::{bond::Bond, schedule::{build_schedule, BaseSchedule, Schedule}};
use quantlib::parameters::{past_price::DailyClosePrice, rate_index::RateIndex, zero_curve::ZeroCurve};
use quantlib::pricing_engines::{bond_pricer::BondPricer, krx_yield_pricer::KrxYieldPricer, npv_result::NpvResult, pricer::PricerTrait};
use quantlib::time::{calendar::Calendar, calendar_trait::CalendarTrait, conventions::{BusinessDayConvention as B, DayCountConvention as D}, jointcalendar::JointCalendar};
use std::{collections::{BTreeMap, HashMap}, rc::Rc};
use time::{Date, OffsetDateTime};
use vmon::*;
pub struct Cal { pub j: JointCalendar, pub v: Vec<Calendar>, pub off: i64 }
impl Cal {
    pub fn new(r: &mut Rng, off: i64) -> Cal { let v: Vec<_> = (0..1 + r.below(2)).map(|_| make(r.below(8)).0).collect(); Cal { j: JointCalendar::new(v.clone()).unwrap(), v, off } }
    pub fn open(&self, z: i64, s: i64) -> bool { self.v.iter().all(|k| !k.is_holiday(&at(z, s, self.off))) }
}
pub const INDEX: [(&str, (i64, usize)); 7] = [("1D", (1, 3)), ("7D", (7, 3)), ("1M", (1, 1)), ("91D", (91, 3)), ("3M", (3, 1)), ("6M", (6, 1)), ("1Y", (1, 0))];
#[derive(Clone)]
pub struct Float { pub ten: usize, pub comp: Option<usize>, pub spread: Option<f32>, pub fwd: RC<ZeroCurve>, pub past: HashMap<Date, f32>, pub gap: i64, pub dc: D, pub off: i64 }
impl Float {
    pub fn index(&self, cur: Currency) -> RateIndex { RateIndex::new(INDEX[self.ten].0.into(), cur, "index".into(), "INDEX".into()).unwrap() }
    pub fn comp_text(&self) -> Option<String> { self.comp.map(|k| INDEX[k].0.to_string()) }
    pub fn data(&self) -> Rc<DailyClosePrice> { let d = DailyClosePrice::default(); Rc::new(DailyClosePrice::new(self.past.clone(), *d.get_close_time(), *d.get_utc_offset(), make(1).0, "index".into(), "INDEX".into())) }
    /// what one rounding of a discount factor does to the sum of single-period coupons of this index
    pub fn jitter(&self, n: usize, longest: i64) -> f64 {
        let (_, (k, u)) = INDEX[self.ten]; let days = k as f64 * [365.0, 30.0, 7.0, 1.0][u];
        6e-8 * longest as f64 / days * (n as f64).sqrt()
    }
    fn rate(&self, a: I, b: I) -> Option<f64> { self.fwd.borrow().get_forward_rate_between_dates(&inst(a, self.off), &inst(b, self.off), Compounding::Simple).ok().map(|x| x as f64) }
    /// coupon per unit notional; None: it has to be refused
    pub fn coupon(&self, k: &Cal, fix: I, start: I, end: I, p: I, e: I, c: &mut Case) -> Option<f64> {
        let s = self.spread.unwrap_or(0.0) as f64;
        let ten = INDEX[self.ten].1;
        let after = |x: I, t: (i64, usize)| plus(x, t.0, t.1);
        let acc = dcf(&self.dc, start, end);
        let rate = match self.comp {
            None if fix < p => match self.past.get(&date(fix.0)) {
                Some(x) => { c.ev("recorded_fixings"); *x as f64 }
                None => { c.ev("missing_fixings"); self.rate(e, after(fix, ten))? }
            },
            None => { c.ev("forward_fixings"); self.rate(fix, after(fix, ten))? }
            Some(_) if fix >= p => { c.ev("overnight_ahead"); let l = (end.0 - self.gap, end.1); (self.rate(fix, after(fix, ten))? + self.rate(l, after(l, ten))?) / 2.0 }
            Some(q) => {
                c.ev("overnight_running");
                let mut v = 1.0; let mut a = start;
                while a < end {
                    let f = (roll(&B::Preceding, a.0 - self.gap, &|z| k.open(z, a.1)), a.1);
                    let b = after(a, INDEX[q].1).min(end);
                    let rate = if f < p { match self.past.get(&date(f.0)) { Some(x) => *x as f64, None => { c.ev("missing_daily_fixings"); self.rate(p, after(p, INDEX[q].1))? } } } else { self.rate(f, after(f, ten))? };
                    v *= 1.0 + (rate + s) * dcf(&self.dc, a, b);
                    a = b; c.ev("compounding_steps");
                }
                return Some(v - 1.0);
            }
        };
        Some((rate + s) * acc)
    }
}
/// a floating definition with fixings recorded up to the day before the pricing day
pub fn float(r: &mut Rng, fwd: RC<ZeroCurve>, p: I, gap: i64, off: i64) -> Float {
    let comp = if r.chance(0.4) { Some(r.below(2)) } else { None };
    let ten = match comp { Some(k) => k + r.below(2 - k), None => r.below(7) };
    let hole = *r.pick(&[0.0, 0.0, 0.02, 0.3]);
    let lo = p.0 - 1100;
    let past = (lo..p.0 + r.range(0, 1)).filter_map(|z| (!r.chance(hole)).then(|| (date(z), r.uni(-0.01, 0.08) as f32))).collect();
    Float { ten, comp, spread: if r.bool() { Some(if r.chance(0.1) { r.uni(0.02, 0.2) } else { r.uni(-0.01, 0.02) } as f32) } else { None }, fwd, past, gap, dc: *r.pick(&DC), off }
}
pub type Flows = BTreeMap<I, f64>;
pub fn flows(m: &HashMap<OffsetDateTime, f32>, off: i64) -> Result<Flows, String> {
    let mut out = Flows::new();
    for (t, a) in m { let (z, s, o) = parts(t); if o != off { return Err(format!("{t} in another offset")); } *out.entry((z, s)).or_insert(0.0) += *a as f64; }
    Ok(out)
}
pub fn same_flows(a: &Flows, b: &Flows, scale: f64, slack: f64) -> Option<String> {
    if a.len() != b.len() || a.keys().ne(b.keys()) { return Some(format!("dates {:?} instead of {:?}", a.keys().map(|x| show(x.0)).collect::<Vec<_>>(), b.keys().map(|x| show(x.0)).collect::<Vec<_>>())); }
    for (k, x) in a { let y = b[k]; if (x - y).abs() > slack + 3e-6 * scale.max(y.abs()) { return Some(format!("{x} on {} instead of {y}", show(k.0))); } }
    None
}
pub struct Made { pub bond: Bond, pub flows: Option<Flows>, pub unit: f32, pub freq: usize, pub mat: I, pub issue: I, pub p: I, pub pays: Vec<I>, pub slack: f64, pub jit: f64, pub desc: String }
/// a bond with its cash flows from the pricing day on (None: they have to be refused)
pub fn bond(r: &mut Rng, c: &mut Case, e: I, off: i64, p: Option<I>, k: &Cal, fl: Option<&Float>, cur: Currency, curve_end: i64) -> Option<Made> {
    let pd = p.unwrap_or(e);
    let long = r.chance(0.01);
    let f = if long { *r.pick(&[4usize, 4, 3, 2, 5, 6]) } else { *r.pick(&[4usize, 6, 6, 6, 8, 8, 8, 9, 9, 5, 7, 1]) };
    let per = if FREQ[f].1 > 0 { FREQ[f].1 * 30 } else { FREQ[f].2 };
    let s = *r.pick(&[0i64, e.1, e.1, 17 * 3600]);
    let n = if long { 60 + r.range(0, 180) } else { *r.pick(&[1i64, 2, 3, 6, 10, 30]) };
    let back = r.range(-1, n) * per;
    let eff = pd.0 - back - r.range(0, per);
    let mat = match r.below(8) { 0 => pd.0, 1 => pd.0 + r.range(-2, 3), _ => eff + n * per + *r.pick(&[0i64, 0, 5, 17, -3]) };
    if mat <= eff || mat > curve_end { return None; }
    let (conv, forward) = (*r.pick(&CONV), r.bool());
    let (fg, pg) = (fl.map(|x| x.gap).unwrap_or(*r.pick(&[0i64, 1])), *r.pick(&[0i64, 0, 0, 2]));
    let w = expected(forward, eff, mat, &|z| k.open(z, s), &conv, f, fg, pg)?;
    let dc = fl.map(|x| x.dc).unwrap_or(*r.pick(&DC));
    let rate = r.uni(0.0, 0.09) as f32; let strip = r.chance(0.2);
    let issue = (eff - r.range(0, 10), s); let unit = *r.pick(&[1.0f32, 10_000.0, 1e6]);
    let custom = r.chance(0.35);
    let t = |z: i64| inst((z, s), off);
    let mut rows: Vec<(i64, i64, i64, i64, Option<f32>)> = w.iter().map(|x| (x.fix, x.start, x.end, x.pay, None)).collect();
    if custom {
        for x in rows.iter_mut() { if r.chance(0.3) { x.4 = Some(r.uni(-0.1, 0.5) as f32); } }
        for _ in 0..r.below(3) { let x = rows[r.below(rows.len())]; rows.push((x.0, x.1, x.2, x.3, Some(r.uni(0.0, 0.5) as f32))); }
        c.ev("given_amounts");
    }
    let index = fl.map(|x| x.index(cur)); let (spread, comp) = (fl.and_then(|x| x.spread), fl.and_then(|x| x.comp_text()));
    let fixed = if fl.is_none() { Some(rate) } else { None };
    let pdate = p.map(|x| inst(x, off));
    let desc = format!("{}{} {:?} bond from {} to {} second {s}, every {:?}, {conv:?}, {}, payment gap {pg}, fixing gap {fg}, rate {rate}, pricing {} second {}{}, calendar {}", if strip { "stripped " } else { "" }, if fl.is_some() { "floating" } else { "fixed" }, dc, show(eff), show(mat), FREQ[f].0, if forward { "forward" } else { "backward" }, show(pd.0), pd.1, if custom { format!(", rows {rows:?}") } else { String::new() }, k.j.calendar_name());
    let b = if custom {
        let sch = Schedule::new(rows.iter().map(|x| BaseSchedule::new(t(x.0), t(x.1), t(x.2), t(x.3), x.4)).collect());
        Bond::new(IssuerType::Government, CreditRating::None, "gov".into(), RankType::Senior, cur, unit, strip, sch, fixed, spread, index, comp, inst(issue, off), t(eff), pdate, t(mat), k.j.clone(), dc, conv, FREQ[f].0, pg, fg, "bond".into(), code("B1"))
    } else {
        Bond::new_from_conventions(IssuerType::Government, CreditRating::None, "gov".into(), RankType::Senior, cur, unit, strip, inst(issue, off), t(eff), pdate, t(mat), fixed, spread, index, comp, k.j.clone(), forward, dc, conv, FREQ[f].0, fg, pg, "bond".into(), code("B1"))
    };
    let b = b.ok()?;
    let mut out = Some(Flows::new());
    for x in &rows {
        if x.3 < pd.0 { continue; }
        let a = match (x.4, fl) { (Some(a), _) => Some(a as f64), (None, None) => Some(rate as f64 * dcf(&dc, (x.1, s), (x.2, s))), (None, Some(q)) => q.coupon(k, (x.0, s), (x.1, s), (x.2, s), pd, e, c) };
        out = match (out, a) { (Some(mut o), Some(a)) => { *o.entry((x.3, s)).or_insert(0.0) += a; Some(o) } _ => None };
    }
    if let Some(o) = out.as_mut() { if !strip && mat >= pd.0 { *o.entry((mat, s)).or_insert(0.0) += 1.0; } }
    if rows.len() > 100 { c.ev("long_schedules"); }
    Some(Made { bond: b, flows: out, unit, freq: f, mat: (mat, s), issue, p: pd, pays: rows.iter().map(|x| (x.3, s)).collect(), slack: fl.and_then(|x| x.comp).map(|_| 1.2e-7 * rows.iter().map(|x| x.2 - x.1).max().unwrap_or(0) as f64).unwrap_or(0.0), jit: fl.map(|x| x.jitter(rows.len(), rows.iter().map(|x| x.2 - x.1).max().unwrap_or(0))).unwrap_or(0.0), desc })
}
pub fn present(fl: &Flows, day: i64, e: I, sh: &Curve) -> Option<(f64, f64)> {
    let (mut v, mut a) = (0.0, 0.0);
    for (t, x) in fl { if t.0 > day { let d = sh.df(yf(e, *t))?; v += x * d; a += (x * d).abs(); } }
    Some((v, a))
}
/// price at a yield by the Korean convention, in double precision
/// days to the next payment over days of its period, where the price formula is smooth and falls with the yield; long before the issue it need not
fn ordinary(m: &Made) -> bool {
    let Some(next) = m.flows.as_ref().and_then(|f| f.iter().map(|x| *x.0).filter(|t| t.0 > m.p.0).min()) else { return false };
    let prev = m.pays.iter().filter(|x| x.0 <= m.p.0).max().copied().unwrap_or(m.issue);
    let (d, b) = (next.0 - m.p.0, next.0 - prev.0); b > 0 && d <= 3 * b
}
pub fn krx(m: &Made, y: f64) -> (f64, f64) {
    let f = FREQ[m.freq].0.as_real() as f64; let fl = m.flows.as_ref().unwrap();
    let fut: Vec<(I, f64)> = fl.iter().filter(|x| x.0 .0 > m.p.0).map(|(t, a)| (*t, *a)).collect();
    if fut.is_empty() { return (0.0, 0.0); }
    let next = fut[0].0;
    let (mut v, mut s) = (0.0, 0.0);
    for (t, a) in &fut { let x = a / (1.0 + y / f).powf(f * dcf(&D::StreetConvention, next, *t)); v += x; s += x.abs(); }
    let prev = m.pays.iter().filter(|x| x.0 <= m.p.0).max().copied().unwrap_or(m.issue);
    let z = 1.0 + y / f * (next.0 - m.p.0) as f64 / (next.0 - prev.0) as f64;
    (v / z, s / z.abs())
}
fn bonds(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z, sh, zd) = curve(r, &ev, e, off, Currency::KRW, "D"); let (fz, _, fd) = curve(r, &ev, e, off, Currency::KRW, "F");
    let k = Cal::new(r, off);
    for _ in 0..4 {
        let p = if r.bool() { None } else { let n = *r.pick(&[0i64, 0, 1, 30, 300]); let q = (e.0 + r.range(0, n), secs(r)); Some(q.max(e)) };
        let gap = *r.pick(&[0i64, 1, 2, 5]);
        let fl = if r.chance(0.5) { Some(float(r, fz.clone(), p.unwrap_or(e), gap, off)) } else { None };
        let Some(m) = bond(r, c, e, off, p, &k, fl.as_ref(), Currency::KRW, e.0 + 25_000) else { c.ev("not_buildable"); continue };
        let d = || format!("{}; evaluation {} second {}; {zd}; {fd}{}", m.desc, show(e.0), e.1, fl.as_ref().map(|x| format!("; index {} compounding {:?} spread {:?}", INDEX[x.ten].0, x.comp_text(), x.spread)).unwrap_or_default());
        c.folds(&m.desc);
        let data = fl.as_ref().map(|x| x.data());
        let ins = Instrument::Bond(m.bond.clone());
        let pr = BondPricer::new(ev.clone(), z.clone(), Some(fz.clone()), data.clone());
        let g = m.bond.get_cashflows(&inst(m.p, off), Some(fz.clone()), data.clone());
        let Some(w) = &m.flows else { check!(g.is_err() && pr.npv(&ins).is_err() && pr.npv_result(&ins).is_err(), "bond:fixing-accepted", "flows {g:?}; {}", d()); c.ev("refused_fixings"); continue };
        let g = must!(flows(&must!(g, "bond:refused", "{}", d()), off), "bond:flows", "{}", d());
        if let Some(x) = same_flows(&g, w, 1.0, m.slack) { fail!("bond:flows", "{x}; {}", d()) }
        let Some((v, a)) = present(w, m.p.0, e, &sh) else { year_end(e, &d())?; c.ev("year_end_overlap"); continue };
        let Some(dp) = sh.df(yf(e, m.p)) else { year_end(e, &d())?; c.ev("year_end_overlap"); continue };
        let (v, tol) = (v / dp, 3e-5 * a / dp + 1e-6 + 2.0 * m.slack);
        let n = must!(pr.npv(&ins), "bond:refused", "{}", d()) as f64;
        check!((n - v).abs() <= tol, "bond:value", "value {n} expected {v}; {}", d());
        detailed(&must!(pr.npv_result(&ins), "bond:refused", "{}", d()), n, tol, w, off, m.slack, "bond:detail", &d)?;
        let x = must!(pr.fx_exposure(&ins, n as f32), "bond:refused", "{}", d());
        check!(x.len() == 1 && close(x[&Currency::KRW] as f64, n * m.unit as f64, 1e-5, 1e-6), "bond:exposure", "{x:?}; {}", d());
        c.ev("bonds_valued"); c.nontrivial = true; c.foldf(n); c.sample(|| d());
        if m.p.0 == m.mat.0 { c.ev("priced_at_maturity"); } if m.p.0 > m.mat.0 { c.ev("priced_after_maturity"); check!(n == 0.0 || m.pays.iter().any(|x| x.0 > m.p.0), "bond:value", "a matured bond is worth {n}; {}", d()); }
        if m.pays.iter().any(|x| x.0 == m.p.0) { c.ev("priced_on_payment_day"); } if w.len() > 1 { c.ev("several_flows"); }
        // yield
        let y = *r.pick(&[0.0f64, 0.01, 0.034, 0.08, 0.15, -0.01]) + r.uni(0.0, 0.01); let y = y as f32 as f64;
        let (kv, ka) = krx(&m, y);
        let mut yp = KrxYieldPricer::new(ev.clone(), y as f32, Some(fz.clone()), data.clone());
        let g = must!(yp.npv(&ins), "yield:refused", "{}", d()) as f64;
        let t = 3e-5 * ka + 1e-6 + 2.0 * m.slack;
        check!((g - kv).abs() <= t, "yield:price", "price at yield {y}: {g} expected {kv}; {}", d());
        check!((must!(yp.npv_result(&ins), "yield:refused", "{}", d()).get_npv() as f64 - g).abs() <= t, "yield:detail", "{}", d());
        c.ev("yield_prices");
        let future = w.iter().filter(|x| x.0 .0 > m.p.0).map(|x| *x.1).collect::<Vec<_>>();
        if r.chance(0.3) && ordinary(&m) && !future.is_empty() && (fl.as_ref().is_none_or(|x| x.comp.is_none()) || w.len() <= 6) && future.iter().all(|x| *x > 0.0) && g > 0.3 {
            let guess = match r.below(3) { 0 => None, 1 => Some((y + r.uni(-0.02, 0.02)) as f32), _ => Some(y as f32) };
            let f = must!(yp.find_bond_yield(m.bond.clone(), g as f32, guess), "yield:refused", "guess {guess:?} yield {y}; {}", d());
            yp.set_bond_yield(f); let again = must!(yp.npv(&ins), "yield:refused", "{}", d()) as f64;

            check!((again - g).abs() <= 1.5e-4 * g.max(1.0), "yield:round-trip", "the yield {f} found for price {g} (from {guess:?}) prices at {again}; {}", d());
            c.ev("yields_found");
        }
    }
    Ok(())
}
/// the detailed result repeats value and cash flows
pub fn detailed(n: &NpvResult, v: f64, tol: f64, w: &Flows, off: i64, slack: f64, sig: &str, d: &dyn Fn() -> String) -> R {
    check!((n.get_npv() as f64 - v).abs() <= tol.max(1e-6 * v.abs()), sig, "total {} value {v}; {}", n.get_npv(), d());
    let mut m = Flows::new();
    for (t, a) in n.get_cashflow_amounts().values() { let (z, s, _) = parts(t); *m.entry((z, s)).or_insert(0.0) += *a as f64; }
    let scale = w.values().fold(1.0, |a: f64, b| a.max(b.abs()));
    if let Some(x) = same_flows(&m, w, scale, slack) { fail!(sig, "listed flows: {x}; {}", d()) }
    let x = must!(n.get_expected_coupon_amount(), sig, "{}", d());
    if let Some(x) = same_flows(&flows(&x, off).unwrap(), w, scale, slack) { fail!(sig, "expected amounts: {x}; {}", d()) }
    Ok(())
}
fn sums(r: &mut Rng, c: &mut Case) -> R {
    // probability-weighted flows add up date by date
    let n = r.below(12); let mut a = HashMap::new(); let mut q = HashMap::new(); let mut w = Flows::new();
    for i in 0..n { let t = (days(2030, 1, 1) + r.range(0, 4), 0); let (x, y) = (r.uni(-5.0, 5.0) as f32, r.uni(0.0, 1.0) as f32); a.insert(i, (inst(t, 0), x)); q.insert(i, (inst(t, 0), y)); *w.entry(t).or_insert(0.0) += x as f64 * y as f64; }
    let g = NpvResult::new(1.5, a.clone(), q.clone());
    let x = must!(g.get_expected_coupon_amount(), "sums:refused", "{a:?}");
    if let Some(x) = same_flows(&flows(&x, 0).unwrap(), &w, 10.0, 0.0) { fail!("sums:flows", "{x}; {a:?} {q:?}") }
    if n > 0 { q.remove(&r.below(n)); check!(NpvResult::new(1.5, a.clone(), q).get_expected_coupon_amount().is_err(), "sums:probability", "a flow without probability was accepted"); }
    check!(g.get_npv() == 1.5 && NpvResult::new_from_npv(2.5).get_npv() == 2.5 && NpvResult::default().get_npv() == 0.0, "sums:value", "");
    c.ev("flow_sums"); c.nontrivial = n > 1; c.fold(r.u64());
    Ok(())
}
fn refusals(r: &mut Rng, c: &mut Case) -> R {
    let t = |z: i64| at(z, 0, KST); let z = day(r, 2020, 2030);
    let j = JointCalendar::new(vec![make(r.below(8)).0]).unwrap();
    let s = build_schedule(true, &t(z), &t(z + 400), &j, &B::Following, &FREQ[6].0, 0, 0).unwrap();
    for (a, b) in [(true, true), (false, false), (true, false), (false, true)] {
        let i = b.then(|| RateIndex::new("91D".into(), Currency::KRW, "CD".into(), "CD".into()).unwrap());
        let g = Bond::new(IssuerType::Government, CreditRating::None, "g".into(), RankType::Senior, Currency::KRW, 1.0, false, s.clone(), a.then_some(0.03), None, i, None, t(z), t(z), None, t(z + 400), j.clone(), D::Actual365Fixed, B::Following, FREQ[6].0, 0, 0, "b".into(), "b".into());
        check!(g.is_ok() == (a != b), "bond:rate-kind", "fixed rate {a} and index {b}: {}", g.is_ok()); c.ev("rate_kinds");
    }
    c.nontrivial = true; c.fold(z as u64);
    Ok(())
}
pub fn c31(run: &mut Run) {
    run.rule("random fixed and floating bonds (conventions and given schedules) priced before, on and after payment dates; flows, value, detail, exposure and Korean yield price against double precision evaluation, yields found and re-priced");
    run.assume("one UTC offset per bond; pricing date not before the evaluation date; payments within the curve's range");
    run.require("bonds_valued", 1500); run.require("priced_at_maturity", 50); run.require("priced_on_payment_day", 50); run.require("several_flows", 1000); run.require("yields_found", 200); run.require("given_amounts", 300); run.require("recorded_fixings", 300); run.require("forward_fixings", 300);
    let _m = Mute::new();
    run.family("bond", 600, 200_000, bonds);
    run.family("flow-sums", 500, 50_000, sums);
    run.family("refusals", 50, 1000, refusals);
}
fn coupons(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2016, 2034), secs(r));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let (z, _, zd) = curve(r, &ev, e, off, Currency::USD, "F");
    let k = Cal::new(r, off);
    for _ in 0..10 {
        let p = if r.bool() { e } else { (e.0 + r.range(0, 200), secs(r)).max(e) };
        let gap = *r.pick(&[0i64, 1, 2, 5, 10]);
        let fl = float(r, z.clone(), p, gap, off);
        let s = *r.pick(&[p.1, p.1, 0, 86399, 17 * 3600]);
        let len = *r.pick(&[1i64, 7, 30, 91, 183, 365]);
        let start = p.0 + match r.below(6) { 0 => 0, 1 => gap, 2 => gap + r.range(-1, 1), 3 => r.range(-len - 5, 0), 4 => r.range(0, 800), _ => r.range(-len, len) };
        let end = start + len;
        let fix = roll(&B::Preceding, start - gap, &|z| k.open(z, s));
        let row = BaseSchedule::new(inst((fix, s), off), inst((start, s), off), inst((end, s), off), inst((end + 2, s), off), None);
        let g = fl.index(Currency::USD).get_coupon_amount(&row, fl.spread, z.clone(), fl.data(), &inst(p, off), fl.comp_text().as_ref(), &k.j, &fl.dc, gap);
        let w = fl.coupon(&k, (fix, s), (start, s), (end, s), p, e, c);
        let d = || format!("period {} to {} second {s}, fixing {} (gap {gap}), pricing {} second {}, evaluation {} second {}, index {} compounding {:?} spread {:?} {:?}, {} fixings recorded, that day's {:?}; {zd}", show(start), show(end), show(fix), show(p.0), p.1, show(e.0), e.1, INDEX[fl.ten].0, fl.comp_text(), fl.spread, fl.dc, fl.past.len(), fl.past.get(&date(fix)));
        match w {
            None => { check!(g.is_err(), "coupon:accepted", "{g:?}; {}", d()); c.ev("refused"); }
            Some(w) => { let g = must!(g, "coupon:refused", "{}", d()) as f64; let steps = if fl.comp.is_some() { len as f64 } else { 1.0 }; check!((g - w).abs() <= 1e-6 + 3e-6 * w.abs() + 1.5e-7 * steps, "coupon:amount", "{g} expected {w}; {}", d()); }
        }
        if (fix, s) == p { c.ev("fixing_at_pricing_instant"); } if fix == p.0 && s < p.1 { c.ev("fixing_earlier_today"); } if fix == p.0 && s > p.1 { c.ev("fixing_later_today"); }
        c.ev("coupons"); c.folds(&d()); c.sample(|| d());
    }
    c.nontrivial = true;
    Ok(())
}
fn history(r: &mut Rng, c: &mut Case) -> R {
    // recorded values, and the value applicable at an instant
    let off = offset(r); let i = r.below(8); let (cal, _, _) = make(i);
    let close_s = *r.pick(&[56_400i64, 0, 86_399, 61_200]);
    let z0 = day(r, 2016, 2023);
    let mut m: BTreeMap<i64, f32> = BTreeMap::new(); for k in 0..40 { if r.chance(0.7) { m.insert(z0 + k, r.uni(1.0, 9.0) as f32); } }
    let ct = time::Time::from_hms((close_s / 3600) as u8, (close_s / 60 % 60) as u8, (close_s % 60) as u8).unwrap();
    let p = DailyClosePrice::new(m.iter().map(|(z, v)| (date(*z), *v)).collect(), ct, time::UtcOffset::from_whole_seconds(off as i32).unwrap(), cal.clone(), "n".into(), "c".into());
    for _ in 0..20 {
        let any = secs(r); let (z, s) = (z0 + r.range(-2, 41), *r.pick(&[0, close_s, (close_s + 1) % 86400, (close_s + 86399) % 86400, any])); let other = offset(r);
        // the instant, expressed in another offset
        let t = z * 86400 + s - off + other; let q = at(t.div_euclid(86400), t.rem_euclid(86400), other);
        let use_day = if s > close_s { (z + 1..).find(|x| !cal.is_holiday(&at(*x, s, off))).unwrap() } else { z };
        check!(p.get_at_datetime(&q) == m.get(&use_day), "history:instant", "value at {q} is {:?}, day {} holds {:?} (closes at {close_s} in offset {off})", p.get_at_datetime(&q), show(use_day), m.get(&use_day));
        check!(p.get(&date(z)) == m.get(&z), "history:day", "{}", show(z)); c.ev("history_lookups");
        if s > close_s { c.ev("after_close"); }
    }
    let (a, b) = p.get_ordered_data_by_datetime();
    check!(a.iter().map(|x| num(*x)).eq(m.keys().copied()) && b.iter().eq(m.values()), "history:order", "{a:?} {b:?}");
    c.nontrivial = m.len() > 2; c.fold(z0 as u64);
    Ok(())
}
pub fn c39(run: &mut Run) {
    run.rule("random coupon periods around the pricing instant (before, at, after the fixing), indices with and without compounding, complete and holed fixing histories; amounts against the definition, with forward rates read from the curve");
    run.assume("forward rates of the curve itself are decided by C27");
    run.require("recorded_fixings", 1000); run.require("forward_fixings", 1000); run.require("missing_fixings", 100); run.require("overnight_running", 500); run.require("overnight_ahead", 200); run.require("fixing_at_pricing_instant", 100); run.require("fixing_earlier_today", 30); run.require("fixing_later_today", 30); run.require("history_lookups", 1000);
    let _m = Mute::new();
    run.family("coupon", 1500, 150_000, coupons);
    run.family("history", 500, 30_000, history);
}
