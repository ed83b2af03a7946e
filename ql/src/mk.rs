//! market objects paired with independent double-precision shadows
use crate::{d::*, interp, period};
use ndarray::Array1;
use quantlib::{currency::Currency, data::vector_data::VectorData, evaluation_date::EvaluationDate, parameters::{discrete_ratio_dividend::DiscreteRatioDividend, zero_curve::ZeroCurve}};
use std::{cell::RefCell, rc::Rc};
use time::OffsetDateTime;
use vmon::*;
pub type RC<T> = Rc<RefCell<T>>;
pub fn rc<T>(x: T) -> RC<T> { Rc::new(RefCell::new(x)) }
/// instant as (local day, local second) in a fixed offset
pub type I = (i64, i64);
pub const TENORS: [(&str, i64, usize); 29] = [("0D", 0, 3), ("1D", 1, 3), ("1W", 1, 2), ("2W", 2, 2), ("1M", 1, 1), ("2M", 2, 1), ("3M", 3, 1), ("4M", 4, 1), ("5M", 5, 1), ("6M", 6, 1), ("9M", 9, 1), ("1Y", 12, 1), ("1Y6M", 18, 1), ("2Y", 24, 1), ("2Y6M", 30, 1), ("3Y", 36, 1), ("4Y", 48, 1), ("5Y", 60, 1), ("6Y", 72, 1), ("7Y", 84, 1), ("8Y", 96, 1), ("9Y", 108, 1), ("10Y", 120, 1), ("12Y", 144, 1), ("15Y", 180, 1), ("20Y", 240, 1), ("30Y", 360, 1), ("50Y", 600, 1), ("100Y", 1200, 1)];
/// date of a cached node; the year-and-half tenors move by whole years first
pub fn node(e: I, (n, u): (i64, usize)) -> I { if u == 1 && n % 12 != 0 && n > 12 { plus(plus(e, n / 12 * 12, 1), n % 12, 1) } else { plus(e, n, u) } }
pub fn plus(e: I, n: i64, u: usize) -> I { period::apply(e, &vec![(n, u)], 1) }
/// piecewise linear discount factors on fixed node times
#[derive(Clone, Debug)]
pub struct Curve { pub t: Vec<f64>, pub r: Vec<f64> }
impl Curve {
    pub fn df(&self, t: f64) -> Option<f64> {
        let n = self.t.len();
        if t < -1e-9 || t > self.t[n - 1] + 1e-5 { return None; }
        let t = t.max(0.0);
        let k = (self.t.iter().filter(|x| **x <= t).count().max(1) - 1).min(n - 2);
        let d = |i: usize| (-self.r[i] * self.t[i]).exp();
        Some(d(k) + (d(k + 1) - d(k)) / (self.t[k + 1] - self.t[k]) * (t - self.t[k]))
    }
    /// half-open shift (a, b] in node times
    pub fn bump(&mut self, a: f64, b: f64, x: f64) { for i in 0..self.t.len() { if self.t[i] > a && self.t[i] <= b { self.r[i] += x; } } }
}
pub fn secs_between(a: I, b: I) -> i64 { (b.0 - a.0) * 86400 + b.1 - a.1 }
/// the time axis is undefined (negative) only between the end of 31 December and the next day
pub fn year_end(e: I, d: &str) -> R { let (_, m, day) = crate::d::civil(e.0); check!(m == 12 && day == 31, "harness:curve", "{d}"); Ok(()) }
pub fn yf(a: I, b: I) -> f64 { pos(b) - pos(a) }
pub fn curve(r: &mut Rng, ev: &RC<EvaluationDate>, e: I, off: i64, cur: Currency, name: &str) -> (RC<ZeroCurve>, Curve, String) {
    let (zc, sh, _, d) = curve_data(r, ev, e, off, cur, name); (rc(zc), sh, d)
}
pub fn curve_data(r: &mut Rng, ev: &RC<EvaluationDate>, e: I, off: i64, cur: Currency, name: &str) -> (ZeroCurve, Curve, VectorData, String) {
    let n = if r.chance(0.02) { 20 + r.below(60) } else { *r.pick(&[1usize, 2, 3, 6, 10]) };
    let level = *r.pick(&[0.0, 0.01, 0.03, 0.05, 0.1, -0.01]);
    let mut rates: Vec<f32> = (0..n).map(|_| (level + r.uni(-0.01, 0.01)) as f32).collect();
    if n > 10 { for i in 1..n { rates[i] = rates[i - 1] + r.uni(-0.001, 0.001) as f32; } }
    let by_dates = r.bool();
    let (data, times): (VectorData, Vec<f64>) = if by_dates {
        let m = (e.0 - r.range(0, 40) * r.below(2) as i64, e.1);
        let mut ds: Vec<i64> = (0..n).map(|_| m.0 + match r.below(3) { 0 => r.range(1, 100), 1 => r.range(30, 4000), _ => r.range(1, 20_000) }).collect(); ds.sort(); ds.dedup();
        while ds.len() < n { let l = ds[ds.len() - 1]; ds.push(l + r.range(1, 500)); }
        if n > 10 { for i in 0..n { ds[i] = if i == 0 { m.0 } else { ds[i - 1] } + r.range(60, 300); } }
        let t = ds.iter().map(|z| yf(m, (*z, m.1))).collect();
        (VectorData::new(Array1::from_vec(rates.clone()), Some(ds.iter().map(|z| at(*z, m.1, off)).collect()), None, Some(at(m.0, m.1, off)), cur, name.into(), name.into()).unwrap(), t)
    } else {
        let mut t: Vec<f32> = vec![r.uni(0.01, 1.0) as f32]; for _ in 1..n { let l = t[t.len() - 1]; t.push(l + if n > 10 { r.uni(0.2, 0.8) } else { r.uni(0.05, 5.0) } as f32); }
        (VectorData::new(Array1::from_vec(rates.clone()), None, Some(Array1::from_vec(t.clone())), if r.bool() { Some(at(e.0, e.1, off)) } else { None }, cur, name.into(), name.into()).unwrap(), t.iter().map(|x| *x as f64).collect())
    };
    let desc = format!("curve {name} at {} rates {rates:?} times {times:?} by dates {by_dates}", show(e.0));
    let rd: Vec<f64> = rates.iter().map(|x| *x as f64).collect();
    let t: Vec<f64> = TENORS.iter().map(|(_, n, u)| yf(e, node(e, (*n, *u)))).collect();
    let rr = t.iter().map(|x| if n == 1 { rd[0] } else { linear(&times, &rd, *x) }).collect();
    let zc = ZeroCurve::new(ev.clone(), &data, name.into(), name.into()).unwrap();
    (zc, Curve { t, r: rr }, data, desc)
}
/// piecewise linear, held flat outside
pub fn linear(t: &[f64], v: &[f64], x: f64) -> f64 {
    let n = t.len(); if x <= t[0] { return v[0]; } if x >= t[n - 1] { return v[n - 1]; }
    let k = t.iter().filter(|y| **y <= x).count() - 1;
    v[k] + (v[k + 1] - v[k]) / (t[k + 1] - t[k]) * (x - t[k])
}
/// dividends: (ex instant, amount), amounts divided by the reference spot
#[derive(Clone, Debug)]
pub struct Divs { pub ex: Vec<I>, pub amt: Vec<f64>, pub spot: f64 }
impl Divs {
    pub fn ratio(&self, e: I, q: I) -> f64 { self.ex.iter().zip(&self.amt).filter(|(x, _)| **x > e && x.0 <= q.0).map(|(_, a)| 1.0 - a / self.spot).product() }
    pub fn bump(&mut self, a: i64, b: i64, x: f64) { for i in 0..self.ex.len() { if self.ex[i].0 > a && self.ex[i].0 <= b { self.amt[i] += x; } } }
}
pub fn divs(r: &mut Rng, ev: &RC<EvaluationDate>, e: I, off: i64, spot: f32, cur: Currency, name: &str) -> (RC<DiscreteRatioDividend>, Divs, String) { let (a, b, _, d) = divs_data(r, ev, e, off, spot, cur, name); (a, b, d) }
pub fn divs_data(r: &mut Rng, ev: &RC<EvaluationDate>, e: I, off: i64, spot: f32, cur: Currency, name: &str) -> (RC<DiscreteRatioDividend>, Divs, VectorData, String) {
    let n = if r.chance(0.02) { 20 + r.below(130) } else { 1 + r.below(8) };
    let (lo, hi) = *r.pick(&[(-800i64, 800i64), (-800, -1), (0, 800), (-30, 30), (1, 3000), (-3, 3)]);
    let mut z: Vec<i64> = (0..n).map(|_| e.0 + r.range(lo, hi)).collect(); z.sort(); z.dedup();
    let ts = *r.pick(&[0i64, 0, 0, e.1, 9 * 3600]);
    let ex: Vec<I> = z.iter().map(|z| (*z, ts)).collect();
    let amt: Vec<f32> = ex.iter().map(|_| (spot as f64 * r.uni(0.0, 0.04)) as f32).collect();
    let data = VectorData::new(Array1::from_vec(amt.clone()), Some(ex.iter().map(|x| at(x.0, x.1, off)).collect()), None, Some(at(e.0, e.1, off)), cur, name.into(), name.into()).unwrap();
    let desc = format!("dividends of {name}: ex {:?} second {ts} amounts {amt:?} spot {spot}", ex.iter().map(|x| show(x.0)).collect::<Vec<_>>());
    let d = DiscreteRatioDividend::new(ev.clone(), &data, spot, name.into(), name.into()).unwrap();
    (rc(d), Divs { ex, amt: amt.iter().map(|x| *x as f64).collect(), spot: spot as f64 }, data, desc)
}
pub fn inst(i: I, off: i64) -> OffsetDateTime { at(i.0, i.1, off) }
pub fn relerr(a: f64, b: f64) -> f64 { (a - b).abs() / b.abs().max(1e-30) }
#[allow(unused)] pub fn keep() { let _ = interp::grid; }

thread_local!(static CODE: RefCell<Option<String>> = const { RefCell::new(None) });
/// code of the next instruments built (None: their usual one)
pub fn set_code(c: Option<String>) { CODE.with(|x| *x.borrow_mut() = c) }
pub fn code(usual: &str) -> String { CODE.with(|x| x.borrow().clone()).unwrap_or(usual.into()) }
