//! C38 text forms read back, C40 conversion of results and currency codes
use crate::{bond::*, d::*, engine::*, mk::*};
use ndarray::Array2;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, StickynessType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::{instrument_info::InstrumentInfo, ktbf::{KtbfVirtualBond, KTBF}, schedule::{BaseSchedule, Schedule}};
use quantlib::parameters::{past_price::DailyClosePrice, volatilities::constant_volatility::ConstantVolatility, volatility::VolatilityTrait};
use quantlib::pricing_engines::{calculation_result::CalculationResult, engine_generator::InstrumentCategory, npv_result::NpvResult};
use quantlib::time::{calendar::Calendar, calendar_trait::CalendarTrait, conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F}, jointcalendar::JointCalendar};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use time::OffsetDateTime;
use vmon::*;
/// write, read, write again
fn back<T: Serialize + DeserializeOwned>(c: &mut Case, what: &str, x: &T) -> Result<T, Fail> {
    let bad = |k: &str, e: String| Fail { sig: format!("text:{k}:{what}"), detail: e };
    let s = match guarded(|| serde_json::to_string(x)) { Ok(Ok(s)) => s, Ok(Err(e)) => return Err(bad("unwritable", e.to_string())), Err(e) => return Err(bad("panic", format!("{e:?}"))) };
    let y: T = match guarded(|| serde_json::from_str(&s)) { Ok(Ok(y)) => y, Ok(Err(e)) => return Err(bad("unreadable", format!("{e}: {}", s.chars().take(600).collect::<String>()))), Err(e) => return Err(bad("panic", format!("{e:?}"))) };
    let t = serde_json::to_string(&y).map_err(|e| bad("unwritable", e.to_string()))?;
    let (a, b): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&s).unwrap(), serde_json::from_str(&t).unwrap());
    if a != b { return Err(bad("differs", format!("written {}, read and written again {}", s.chars().take(600).collect::<String>(), t.chars().take(600).collect::<String>()))); }
    c.ev("texts"); c.evn("bytes", s.len() as u64); c.folds(&s);
    Ok(y)
}
fn same(what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug) -> R { let (a, b) = (format!("{a:?}"), format!("{b:?}")); check!(a == b, format!("text:object:{what}"), "{} was read back as {}", a.chars().take(900).collect::<String>(), b.chars().take(900).collect::<String>()); Ok(()) }
fn instrument(c: &mut Case, x: &Instrument) -> Result<Instrument, Fail> {
    macro_rules! go { ($v:ident, $i:expr) => {{ let y = back(c, stringify!($v), $i)?; same(stringify!($v), $i, &y)?; c.ev(stringify!($v)); Instrument::$v(y) }} }
    Ok(match x { Instrument::Futures(i) => go!(Futures, i), Instrument::FxFutures(i) => go!(FxFutures, i), Instrument::Bond(i) => go!(Bond, i), Instrument::VanillaOption(i) => go!(VanillaOption, i), Instrument::PlainSwap(i) => go!(PlainSwap, i), Instrument::Stock(i) => go!(Stock, i), Instrument::Cash(i) => go!(Cash, i), Instrument::KTBF(i) => go!(KTBF, i), _ => x.clone() })
}
fn market(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(4); let w = world(r, c, n);
    if w.items.is_empty() { c.ev("empty"); return Ok(()); }
    let mut v = World { off: w.off, e: w.e, fx: HashMap::new(), rate: w.rate.clone(), stock: HashMap::new(), curve: HashMap::new(), div: HashMap::new(), cvol: HashMap::new(), svol: HashMap::new(), fxvol: HashMap::new(), corr: HashMap::new(), past: HashMap::new(), coll: w.coll.clone(), borr: w.borr.clone(), mp: back(c, "MatchParameter", &w.mp)?, conf: w.conf.clone(), items: vec![], desc: w.desc.clone() };
    for (k, x) in &w.fx { let k2 = back(c, "FxCode", k)?; check!(k2 == *k, "text:object:FxCode", "{k} became {k2}"); v.fx.insert(k2, back(c, "ValueData", x)?); }
    for (k, x) in &w.stock { let y = back(c, "ValueData", x)?; check!(y.get_value() == x.get_value() && y.get_currency() == x.get_currency() && y.get_name() == x.get_name() && y.get_market_datetime() == x.get_market_datetime(), "text:object:ValueData", "{k}"); v.stock.insert(k.clone(), y); }
    for (k, x) in &w.curve { let y = back(c, "VectorData", x)?; same("VectorData", x, &y)?; v.curve.insert(k.clone(), y); }
    for (k, x) in &w.div { let y = back(c, "VectorData", x)?; same("VectorData", x, &y)?; v.div.insert(k.clone(), y); }
    for (k, x) in &w.cvol { v.cvol.insert(k.clone(), back(c, "ValueData", x)?); }
    for (k, x) in &w.svol { let y = back(c, "SurfaceData", x)?; same("SurfaceData", x, &y)?; v.svol.insert(k.clone(), y); }
    for (k, x) in &w.fxvol { v.fxvol.insert(*k, back(c, "ValueData", x)?); }
    for (k, x) in &w.corr { v.corr.insert(k.clone(), back(c, "ValueData", x)?); }
    for (k, x) in &w.past {
        let y = back(c, "DailyValueData", x)?;
        check!(y.get_ordered_data_by_date() == x.get_ordered_data_by_date() && y.get_close_time() == x.get_close_time() && y.get_utc_offset() == x.get_utc_offset() && y.get_code() == x.get_code() && y.get_name() == x.get_name(), "text:object:DailyValueData", "{k}");
        let (ds, vs) = y.get_ordered_data_by_date();
        check!(ds.windows(2).all(|w| w[0] < w[1]) && ds.len() == x.get_ordered_data_by_date().0.len() && ds.iter().zip(&vs).all(|(d, v)| x.get(d) == Some(v)), "text:object:DailyValueData", "the dates read back are {ds:?}");
        if ds.first().map(|d| d.year()) != ds.last().map(|d| d.year()) { c.ev("fixing_histories_over_years"); }
        let p = DailyClosePrice::new_from_data(x).unwrap(); let q = back(c, "DailyClosePrice", &p)?;
        let (ds2, vs2) = q.get_ordered_data_by_datetime();
        check!(ds2 == ds && vs2 == vs, "text:object:DailyClosePrice", "the fixings read back are {ds2:?} {vs2:?}, recorded {ds:?} {vs:?}");
        v.past.insert(k.clone(), y);
    }
    let conf = w.conf.make(); let conf2 = back(c, "CalculationConfiguration", &conf)?;
    check!(conf == conf2, "text:object:CalculationConfiguration", "{conf:?} became {conf2:?}");
    for i in &w.items { let mut j = i.clone(); j.ins = instrument(c, &i.ins)?; v.items.push(j); }
    let ev = EvaluationDate::new(inst(w.e, w.off)); let ev2 = back(c, "EvaluationDate", &ev)?; check!(ev2.get_date_clone() == ev.get_date_clone() && ev2.get_date_clone().offset() == ev.get_date_clone().offset(), "text:object:EvaluationDate", "{}", ev2.get_date_clone());
    let (a, b): (Vec<&Item>, Vec<&Item>) = (w.items.iter().collect(), v.items.iter().collect());
    let (x, y) = match (guarded(|| w.run(&w.conf, &a)), guarded(|| v.run(&v.conf, &b))) { (Ok(Ok(x)), Ok(Ok(y))) => (x, y), (Ok(Err(_)), Ok(Err(_))) => { c.ev("refused_alike"); return Ok(()) }, (x, y) => fail!("text:prices", "original {:?}, read back {:?}; {}", x.map(|x| x.err()), y.map(|x| x.err()), w.desc) };
    for i in &a {
        if let Some((k, m)) = differ(&w, &a, i, &flat(&y[&i.code]), &flat(&x[&i.code]), &|_| false, 2.0) { fail!(&format!("text:prices:{}", measure(&k)), "after reading everything back {m}; {}", w.desc) }
        let z = back(c, "CalculationResult", &x[&i.code])?;
        check!(flat(&z) == flat(&x[&i.code]) && z.get_instrument_info() == x[&i.code].get_instrument_info() && z.get_evaluation_date() == x[&i.code].get_evaluation_date() && z.get_npv_result() == x[&i.code].get_npv_result(), "text:object:CalculationResult", "{:?} became {z:?}", x[&i.code]);
        let q = x[&i.code].get_npv_result().unwrap(); check!(back(c, "NpvResult", q)? == *q, "text:object:NpvResult", "{q:?}");
        let q = x[&i.code].get_instrument_info().unwrap(); check!(back(c, "InstrumentInfo", q)? == *q, "text:object:InstrumentInfo", "{q:?}");
        c.ev("repriced");
    }
    c.nontrivial = true; Ok(())
}
fn gather(r: &mut Rng, c: &mut Case) -> R {
    let off = offset(r); let e = (day(r, 2015, 2034), secs(r));
    // calendars with days added and removed
    let mut v: Vec<Calendar> = vec![];
    for _ in 0..1 + r.below(4) { let (mut k, _, _) = crate::cal::make(r.below(8)); for _ in 0..r.below(6) { let z = day(r, 2010, 2035); if r.bool() { k.add_holidays(&date(z)); } else { k.remove_holidays(&date(z)); } } let y = back(c, "Calendar", &k)?; same("Calendar", &k, &y)?; v.push(k); }
    let j = JointCalendar::new(v.clone()).unwrap(); let k = back(c, "JointCalendar", &j)?; same("JointCalendar", &j, &k)?;
    for _ in 0..60 { let t = at(day(r, 2010, 2035), secs(r), off); check!(j.is_holiday(&t) == k.is_holiday(&t), "text:calendar", "{t} on {}", j.calendar_name()); c.ev("days_asked"); }
    // schedules
    let p = |r: &mut Rng, e: I| inst((e.0 + r.range(-400, 4000), secs(r)), off);
    let rows: Vec<BaseSchedule> = (0..r.below(12)).map(|_| BaseSchedule::new(p(r, e), p(r, e), p(r, e), p(r, e), r.bool().then(|| r.uni(-1e6, 1e6) as f32))).collect();
    let s = Schedule::new(rows); let t = back(c, "Schedule", &s)?; same("Schedule", &s, &t)?; check!(s == t, "text:object:Schedule", "{s:?}");
    // treasury futures and bond futures
    let cal = Cal::new(r, off); let mt = (e.0 + 60, e.1);
    if let Some(b) = bond(r, c, e, off, Some(mt), &cal, None, Currency::KRW, e.0 + 9000) {
        let f = must!(KTBF::new(Currency::KRW, 1e6, inst(e, off), inst(mt, off), inst(mt, off), KtbfVirtualBond::new(r.range(1, 30) as i32, 0.05, *r.pick(&[F::SemiAnnually, F::Annually, F::Quarterly]), 100.0), vec![b.bond.clone()], "GOV".into(), "ktbf".into(), "K1".into()), "harness:ktbf", "");
        let g = instrument(c, &Instrument::KTBF(f.clone()))?; check!(g.get_maturity() == Some(&inst(mt, off)) && g.get_unit_notional() == 1e6, "text:object:KTBF", "{g:?}");
    }
    let x = ConstantVolatility::new(r.uni(0.01, 2.0) as f32, "v".into(), "V".into()); let y = back(c, "ConstantVolatility", &x)?; check!(x.get_value(1.0, 1.0) == y.get_value(1.0, 1.0) && x.get_name() == y.get_name() && x.get_code() == y.get_code(), "text:object:ConstantVolatility", "{x:?} became {y:?}");
    let x = InstrumentCategory::new(r.bool().then(|| vec!["Bond".into(), "Futures".into()]), r.bool().then(|| vec![Currency::KRW, Currency::USD]), r.bool().then(|| vec!["S1".into()])); let y = back(c, "InstrumentCategory", &x)?; same("InstrumentCategory", &x, &y)?;
    macro_rules! each { ($t:ident: $($v:ident)*) => {{ let mut seen = vec![]; $( let x = $t::$v; let y = back(c, stringify!($t), &x)?; check!(x == y, format!("text:object:{}", stringify!($t)), "{:?} became {:?}", x, y); let s = serde_json::to_string(&x).unwrap(); check!(!seen.contains(&s), format!("text:object:{}", stringify!($t)), "{:?} shares the text {s}", x); seen.push(s); )* let _ = seen; }} }
    each!(D: Actual365Fixed Actual360 Actual364 Thirty360 ActActIsda StreetConvention);
    each!(B: Unadjusted Following ModifiedFollowing Preceding ModifiedPreceding);
    each!(StickynessType: StickyToMoneyness StickyToStrike);
    each!(OptionType: Call Put);
    each!(OptionExerciseType: European American);
    each!(OptionDailySettlementType: Settled NotSettled);
    let _ = (CreditRating::None, IssuerType::Government);
    c.nontrivial = true; Ok(())
}
pub fn c38(run: &mut Run) {
    run.rule("every serializable kind of object of random markets and portfolios written as JSON, read, written again and used: objects compared field by field, markets and instruments by recalculating");
    run.assume("a result's interim cash flows and an evaluation date's observers are declared unserialized by their types");
    for k in ["Futures", "FxFutures", "Bond", "VanillaOption", "PlainSwap", "KTBF"] { run.require(k, 30); } run.require("texts", 10_000); run.require("repriced", 300); run.require("days_asked", 5000);
    let _m = Mute::new();
    run.family("market", 250, 60_000, market);
    run.family("objects", 400, 20_000, gather);
}
// ------------------------------------------------------------------------------------------------ C40
const ALL: [(&str, Currency); 47] = { use Currency::*; [("NIL", NIL), ("KRW", KRW), ("USD", USD), ("EUR", EUR), ("JPY", JPY), ("CNY", CNY), ("CNH", CNH), ("GBP", GBP), ("AUD", AUD), ("CAD", CAD), ("CHF", CHF), ("NZD", NZD), ("SEK", SEK), ("NOK", NOK), ("MXN", MXN), ("ZAR", ZAR), ("BRL", BRL), ("INR", INR), ("RUB", RUB), ("TRY", TRY), ("HKD", HKD), ("SGD", SGD), ("TWD", TWD), ("THB", THB), ("IDR", IDR), ("MYR", MYR), ("PHP", PHP), ("VND", VND), ("PKR", PKR), ("LKR", LKR), ("BDT", BDT), ("NPR", NPR), ("KZT", KZT), ("UZS", UZS), ("KGS", KGS), ("TJS", TJS), ("MNT", MNT), ("AED", AED), ("SAR", SAR), ("QAR", QAR), ("OMR", OMR), ("KWD", KWD), ("BHD", BHD), ("JOD", JOD), ("ILS", ILS), ("EGP", EGP), ("ZMW", ZMW)] };
fn codes() -> R {
    for (s, x) in ALL {
        let y = Currency::from(s);
        check!(y == x, "currency:parse", "{s} reads as {y:?}");
        check!(x.as_str() == s && x.to_string() == s && format!("{x:?}") == s, "currency:text", "{x:?} prints as {} / {x}", x.as_str());
        check!(serde_json::to_string(&x).ok() == Some(format!("\"{s}\"")) && serde_json::from_str::<Currency>(&format!("\"{s}\"")).ok() == Some(x), "currency:serde", "{s}: {:?}", serde_json::to_string(&x));
        for (t, z) in ALL {
            let f = FxCode::new(x, z);
            check!(f.to_string() == format!("{s}{t}"), "pair:text", "{x:?}/{z:?} prints as {f}");
            let g = FxCode::from(f.to_string().as_str()); check!(g == f, "pair:parse", "{f} reads as {g:?}");
            check!(*f.get_currency1() == x && *f.get_currency2() == z, "pair:parts", "{f}");
            let q = f.reciprocal(); check!(*q.get_currency1() == z && *q.get_currency2() == x && q.reciprocal() == f && (q == f) == (x == z), "pair:inverse", "the inverse of {f} is {q}");
            let j = must!(serde_json::to_string(&f), "pair:unwritable", "{f}");
            let h: FxCode = must!(serde_json::from_str(&j), "pair:unreadable", "{j}"); check!(h == f, "pair:serde", "{f} written as {j} reads as {h}");
        }
    }
    Ok(())
}
fn letters() -> R {
    let mut n = 0;
    for i in 0..26u32.pow(3) { let s: String = [i / 676, i / 26 % 26, i % 26].iter().map(|k| (b'A' + *k as u8) as char).collect(); let x = Currency::from(s.as_str()); if x != Currency::NIL { n += 1; check!(x.as_str() == s, "currency:parse", "{s} reads as {x:?}"); } }
    check!(n == 46, "currency:parse", "{n} codes are read as a currency");
    for s in ["", "krw", "KRW ", "US", "USDKRW"] { check!(Currency::from(s) == Currency::NIL, "currency:parse", "{s:?} reads as {:?}", Currency::from(s)); }
    Ok(())
}
fn random_result(r: &mut Rng, c: &mut Case) -> (CalculationResult, Currency) {
    let cur = ALL[1 + r.below(46)].1; let t = |r: &mut Rng| at(day(r, 2000, 2060), secs(r), offset(r));
    let mat = r.bool().then(|| t(r)); let unit = *r.pick(&[1.0f32, 250_000.0, 1e4, 0.01]);
    let info = InstrumentInfo::new(format!("name {}", r.below(100)), format!("C{}", r.below(100)), r.pick(&["Bond", "Futures", "PlainSwap"]), cur, unit, mat.as_ref());
    let mut x = CalculationResult::new(info, t(r));
    let v = |r: &mut Rng| if r.chance(0.1) { 0.0 } else { (r.uni(-1.0, 1.0) * 10f64.powi(r.range(-6, 12) as i32)) as f32 };
    let n = |r: &mut Rng| (0..r.below(4)).map(|i| format!("U{i}")).collect::<Vec<_>>();
    if r.chance(0.8) { let f: HashMap<usize, (OffsetDateTime, f32)> = (0..r.below(5)).map(|i| (i, (t(r), v(r)))).collect(); let p = f.iter().map(|(k, (d, _))| (*k, (*d, 1.0f32))).collect(); x.set_npv(NpvResult::new(v(r), f, p)); if r.chance(0.9) { x.set_value().unwrap(); } c.ev("with_value"); }
    if r.bool() { let mut m = HashMap::new(); for _ in 0..r.below(4) { m.insert(ALL[r.below(47)].1, v(r)); } x.set_fx_exposure(m); c.ev("with_fx_exposure"); }
    macro_rules! one { ($($f:ident $l:literal)*) => { $( if r.bool() { for k in n(r) { x.$f(&k, v(r)); c.ev($l); } } )* } }
    one!(set_single_delta "with_delta" set_single_gamma "with_gamma" set_single_vega "with_vega" set_single_rho "with_rho" set_single_div_delta "with_div_delta");
    macro_rules! many { ($($f:ident $l:literal)*) => { $( if r.bool() { for k in n(r) { let z: Vec<f32> = (0..r.below(6)).map(|_| v(r)).collect(); x.$f(&k, z); c.ev($l); } } )* } }
    many!(set_single_vega_structure "with_vega_structure" set_single_rho_structure "with_rho_structure" set_single_div_structure "with_div_structure");
    if r.bool() { for k in n(r) { let (a, b) = (1 + r.below(4), 1 + r.below(4)); x.set_single_vega_matrix(&k, Array2::from_shape_fn((a, b), |_| v(r))); c.ev("with_vega_matrix"); } }
    if r.bool() { x.set_theta(v(r)); c.ev("with_theta"); } if r.bool() { x.set_theta_day(r.range(1, 100) as i32); }
    if r.bool() { x.set_cashflows((0..r.below(4)).map(|_| (t(r), v(r))).collect()); c.ev("with_cashflows"); }
    (x, cur)
}
fn convert(r: &mut Rng, c: &mut Case) -> R {
    let (x, cur) = random_result(r, c); let d = || format!("{x:?}");
    let rate = (10f64.powf(r.uni(-4.0, 4.0))) as f32;
    let to = loop { let k = ALL[r.below(47)].1; if k != cur { break k; } };
    c.folds(&format!("{x:?}{rate}{to}"));
    let same = must!(x.representation_currency_conversion(cur, rate), "convert:same-refused", "{}", d());
    check!(same == x, "convert:same-currency", "converting {cur} to {cur} at {rate} changed {} into {same:?}", d());
    let y = must!(x.representation_currency_conversion(to, rate), "convert:refused", "{}", d());
    let (a, b) = (flat(&x), flat(&y));
    check!(a.keys().eq(b.keys()), "convert:keys", "{:?} became {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>());
    for (k, v) in &a { let w = if measure(k) == "npv" { *v } else { v * rate as f64 }; let z = b[k]; check!((z - w).abs() <= 1e-6 * w.abs() + 1e-37, format!("convert:{}", measure(k)), "{k} was {v}, at {rate} it is {z}, expected {w}"); c.ev("numbers_converted"); }
    let shape = |q: &CalculationResult| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", q.get_delta().is_some(), q.get_gamma().is_some(), q.get_vega().is_some(), q.get_rho().is_some(), q.get_div_delta().is_some(), q.get_vega_structure().map(|m| m.len()), q.get_rho_structure().map(|m| m.len()), q.get_div_structure().map(|m| m.len()), q.get_vega_matrix().map(|m| m.len()), q.get_fx_exposure().map(|m| m.len()));
    check!(shape(&x) == shape(&y), "convert:shape", "{} became {}", shape(&x), shape(&y));
    check!(x.get_instrument_info() == y.get_instrument_info() && x.get_evaluation_date() == y.get_evaluation_date() && x.get_npv_result() == y.get_npv_result() && x.get_cashflows() == y.get_cashflows(), "convert:identity", "{} became {y:?}", d());
    let (j, k) = (serde_json::to_value(&x).unwrap(), serde_json::to_value(&y).unwrap());
    for f in ["theta_day", "instrument_info", "evaluation_date"] { check!(j.get(f) == k.get(f), format!("convert:{f}"), "{:?} became {:?}", j.get(f), k.get(f)); }
    check!(k.get("representation_currency").and_then(|v| v.as_str()) == Some(to.as_str()), "convert:currency", "converted to {to} it says {:?}", k.get("representation_currency"));
    let again = must!(y.representation_currency_conversion(to, 7.0), "convert:refused", "{}", d()); check!(again == y, "convert:same-currency", "a converted result converted to its own currency changes");
    let z = must!(y.representation_currency_conversion(cur, 1.0 / rate), "convert:refused", "{}", d());
    for (k, v) in &a { let g = flat(&z)[k]; check!((g - v).abs() <= 2e-6 * v.abs() + 1e-33, "convert:back", "{k} was {v}, converted forth and back {g}"); }
    check!(serde_json::to_value(&z).unwrap().get("representation_currency") == j.get("representation_currency"), "convert:back", "the currency is not restored");
    c.nontrivial = a.len() > 3; c.sample(|| format!("{cur} to {to} at {rate}: {} numbers", a.len()));
    Ok(())
}
// results combined with each other or with a number are their values combined
fn arithmetic(r: &mut Rng, c: &mut Case) -> R {
    let mut v = || (r.uni(-1.0, 1.0) * 10f64.powf(r.uni(-6.0, 9.0))) as f32;
    let (x, y) = (v(), v()); let n = |v: f32| NpvResult::new_from_npv(v);
    let got = [n(x) + &n(y), n(x) - &n(y), n(x) * &n(y), n(x) / &n(y), n(x) + y, n(x) - y, n(x) * y, n(x) / y];
    let w = [x + y, x - y, x * y, x / y];
    for i in 0..8 { check!(got[i] == w[i % 4], "convert:arithmetic", "{x} and {y}: operation {i} gives {}, expected {}", got[i], w[i % 4]); }
    c.fold(x.to_bits() as u64 ^ (y.to_bits() as u64) << 32); c.nontrivial = true; c.ev("combined"); Ok(())
}
fn engine_results(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(3); let w = world(r, c, n); let items: Vec<&Item> = w.items.iter().collect(); if items.is_empty() { return Ok(()); }
    let Ok(Ok(m)) = guarded(|| w.run(&w.conf, &items)) else { return Ok(()) };
    let rate = r.uni(0.1, 1500.0) as f32; c.folds(&w.desc);
    for i in items { let x = &m[&i.code]; let to = if *i.ins.get_currency() == Currency::GBP { Currency::USD } else { Currency::GBP }; let y = must!(x.representation_currency_conversion(to, rate), "convert:refused", "{x:?}");
        let (a, b) = (flat(x), flat(&y)); check!(a.keys().eq(b.keys()), "convert:keys", "{:?} became {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>());
        for (k, v) in &a { let q = if measure(k) == "npv" { *v } else { v * rate as f64 }; check!((b[k] - q).abs() <= 1e-6 * q.abs() + 1e-37, format!("convert:{}", measure(k)), "{k} was {v}, at {rate} it is {}", b[k]); c.ev("numbers_converted"); }
        check!(must!(x.representation_currency_conversion(*i.ins.get_currency(), rate), "convert:refused", "") == *x, "convert:same-currency", "{x:?}"); c.ev("engine_results"); }
    c.nontrivial = true; Ok(())
}
pub fn c40(run: &mut Run) {
    run.rule("random results (every measure present or absent) and results of engines converted, converted back and compared number by number; all currency codes, pairs and three-letter strings");
    run.exhaustive("all 47 currency codes, all 2209 pairs, all 17576 three-letter strings");
    run.assume("results are converted from the currency their instrument or last conversion gave them");
    run.verdict("codes", codes()); run.count_evals("codes", 47 * 47); run.verdict("letters", letters()); run.count_evals("letters", 17576);
    for k in ["with_value", "with_fx_exposure", "with_delta", "with_gamma", "with_vega", "with_rho", "with_div_delta", "with_vega_structure", "with_rho_structure", "with_div_structure", "with_vega_matrix", "with_theta", "with_cashflows"] { run.require(k, 300); } run.require("numbers_converted", 50_000); run.require("engine_results", 30);
    let _m = Mute::new();
    run.family("convert", 20_000, 2_000_000, convert);
    run.family("engine", 40, 4000, engine_results);
    run.family("arithmetic", 20_000, 200_000, arithmetic);
}
