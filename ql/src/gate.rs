//! C43: portfolios and markets the engine cannot price are refused, spare inputs are ignored
use crate::{d::*, engine::*, mk::*};
use ndarray::{Array1, Array2};
use serde_json::Value;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::enums::{CreditRating, IssuerType};
use quantlib::instrument::Instrument;
use quantlib::instruments::{bond_futures::BondFutures, futures::Futures};
use quantlib::pricing_engines::match_parameter::MatchParameter;
use std::collections::{BTreeMap, HashMap};
use vmon::*;
use Currency::*;
#[derive(Clone, Debug, PartialEq)]
enum In { Fx(FxCode), Stock(String), Curve(String), Vol(String), FxVol(FxCode), Corr(String, FxCode), Past, Coll(String), Borr(String), Disc, Crs(Currency), Index, Fund(Currency) }
impl In { fn kind(&self) -> &'static str { match self { In::Fx(_) => "exchange_rate", In::Stock(_) => "spot", In::Curve(_) => "curve", In::Vol(_) => "volatility", In::FxVol(_) => "fx_volatility", In::Corr(..) => "correlation", In::Past => "fixings", In::Coll(_) => "collateral_match", In::Borr(_) => "borrowing_match", In::Disc => "issuer_match", In::Crs(_) => "currency_match", In::Index => "index_match", In::Fund(_) => "funding_match" } } }
const FWD: &str = "IRS";
/// does pricing this instrument use that input?
fn uses(w: &World, i: &Item, x: &In) -> bool {
    let und = |u: &String| i.und.as_ref() == Some(u);
    let on = matches!(i.wire, Wire::Fut | Wire::Opt { .. });
    let fwd = matches!(i.wire, Wire::Bond { fwd: true, .. } | Wire::Swap { fwd: true, .. });
    let curs = || -> Vec<Currency> { match &i.wire { Wire::FxFut { fx, .. } => vec![*fx.get_currency1(), *fx.get_currency2()], Wire::Swap { fx: Some(f), .. } => vec![*f.get_currency1(), *f.get_currency2()], _ => vec![] } };
    match x {
        In::Fx(f) => matches!(&i.wire, Wire::FxFut { fx, .. } | Wire::Swap { fx: Some(fx), .. } if fx == f),
        In::Stock(u) => und(u),
        In::Curve(k) => i.curves.contains(k) || on && i.und.as_ref().map_or(false, |u| &w.coll[u] == k || &w.borr[u] == k),
        In::Vol(u) => und(u) && matches!(i.wire, Wire::Opt { .. }),
        In::FxVol(f) => matches!(&i.wire, Wire::Opt { quanto: Some((_, g)), .. } if f == g),
        In::Corr(u, f) => matches!(&i.wire, Wire::Opt { quanto: Some((v, g)), .. } if f == g && u == v),
        In::Past | In::Index => fwd,
        In::Coll(u) | In::Borr(u) => on && und(u),
        In::Disc => matches!(i.wire, Wire::Bond { .. }),
        In::Crs(k) => curs().contains(k),
        In::Fund(k) => matches!(&i.wire, Wire::Opt { disc, .. } if disc != NONE) && i.ins.clone_currency() == *k,
    }
}
trait Cur { fn clone_currency(&self) -> Currency; }
impl Cur for Instrument { fn clone_currency(&self) -> Currency { use quantlib::instrument::InstrumentTrait; *self.get_currency() } }
/// an input the engine may ask for although no price depends on it (every underlying's own curve, a plain stock's curves), or a quotation another rate may be implied by
fn touches(w: &World, i: &Item, x: &In) -> bool {
    uses(w, i, x) || match x { In::Curve(k) => i.und.as_ref().map_or(false, |u| u == k || &w.coll[u] == k || &w.borr[u] == k), In::Coll(u) | In::Borr(u) => i.und.as_ref() == Some(u), In::Fx(f) => [f.get_currency1(), f.get_currency2()].into_iter().any(|k| *k != KRW && curs_of(i).contains(k)), _ => false }
}
fn curs_of(i: &Item) -> Vec<Currency> { match &i.wire { Wire::FxFut { fx, .. } | Wire::Swap { fx: Some(fx), .. } => vec![*fx.get_currency1(), *fx.get_currency2()], _ => vec![] } }
fn matching(w: &World, x: Option<&In>) -> MatchParameter {
    let (mut coll, mut borr) = (w.coll.clone(), w.borr.clone());
    let mut disc = HashMap::from([(("gov".to_string(), IssuerType::Government, CreditRating::None, KRW), "GOV".to_string())]);
    let mut crs: HashMap<Currency, String> = HashMap::from([(KRW, "CRS-KRW".to_string()), (USD, "CRS-USD".to_string()), (EUR, "CRS-USD".to_string())]);
    let mut index = HashMap::from([("INDEX".to_string(), FWD.to_string())]);
    let mut fund = HashMap::from([(KRW, "FUND-KRW".to_string()), (USD, "FUND-USD".to_string())]);
    match x { Some(In::Coll(u)) => { coll.remove(u); } Some(In::Borr(u)) => { borr.remove(u); } Some(In::Disc) => disc.clear(), Some(In::Crs(k)) => { crs.remove(k); } Some(In::Index) => index.clear(), Some(In::Fund(k)) => { fund.remove(k); } _ => {} }
    MatchParameter::new(coll, borr, disc, crs, index, fund)
}
fn take<K: std::hash::Hash + Eq, V>(m: &mut HashMap<K, V>, k: &K) -> Option<V> { m.remove(k) }
/// withhold one input (for an exchange rate: every quotation that implies it)
fn withhold(w: &mut World, x: &In, second: bool) -> Box<dyn FnOnce(&mut World)> {
    w.mp = matching(w, Some(x));
    let back: Box<dyn FnOnce(&mut World)> = match x.clone() {
        In::Fx(f) => { let mut old = vec![]; for g in [f, f.reciprocal(), FxCode::new(if second { *f.get_currency2() } else { *f.get_currency1() }, KRW)] { if let Some(v) = take(&mut w.fx, &g) { old.push((g, v)); } } Box::new(move |w| w.fx.extend(old)) }
        In::Stock(u) => { let v = take(&mut w.stock, &u); Box::new(move |w| w.stock.extend(v.map(|v| (u, v)))) }
        In::Curve(u) => { let v = take(&mut w.curve, &u); Box::new(move |w| w.curve.extend(v.map(|v| (u, v)))) }
        In::Vol(u) => { let (v, s) = (take(&mut w.cvol, &u), take(&mut w.svol, &u)); Box::new(move |w| { w.cvol.extend(v.map(|v| (u.clone(), v))); w.svol.extend(s.map(|v| (u, v))) }) }
        In::FxVol(u) => { let v = take(&mut w.fxvol, &u); Box::new(move |w| w.fxvol.extend(v.map(|v| (u, v)))) }
        In::Corr(a, b) => { let v = take(&mut w.corr, &(a.clone(), b)); Box::new(move |w| w.corr.extend(v.map(|v| ((a, b), v)))) }
        In::Past => { let v = take(&mut w.past, &"index".to_string()); Box::new(move |w| w.past.extend(v.map(|v| ("index".to_string(), v)))) }
        _ => Box::new(|_| {}),
    };
    Box::new(move |w| { back(w); w.mp = matching(w, None); })
}
fn result(w: &World, items: &[&Item], spread: bool) -> Result<Result<HashMap<String, BTreeMap<String, f64>>, String>, Fail> {
    let all = || if spread { generate(w, items, &[(Some(vec!["Bond".into(), "Cash".into(), "Stock".into(), "Futures".into()]), None, None), (None, None, None)], false).map_err(|e| e.1) } else { w.run(&w.conf, items) };
    match guarded(all) { Ok(x) => Ok(x.map(|m| m.iter().map(|(k, v)| (k.clone(), flat(v))).collect())), Err(e) => Err(Fail { sig: "gate:panic".into(), detail: format!("{e:?}") }) }
}
fn spares(w: &mut World) {
    let one = |c: Currency, n: &str| ValueData::new(77.0, None, c, n.into(), n.into()).unwrap();
    w.stock.insert("SPARE".into(), one(KRW, "SPARE")); w.cvol.insert("SPARE".into(), ValueData::new(0.3, None, KRW, "SPARE".into(), "SPARE".into()).unwrap());
    for k in ["SPARE", "AAA", "ZZZ"] { w.curve.insert(k.into(), VectorData::new(Array1::from_vec(vec![0.5f32]), None, Some(Array1::from_vec(vec![1.0f32])), None, KRW, k.into(), k.into()).unwrap()); }
    w.div.insert("SPARE".into(), VectorData::new(Array1::from_vec(vec![5.0f32]), Some(vec![at(w.e.0 + 20, 0, w.off)]), None, Some(at(w.e.0, w.e.1, w.off)), KRW, "SPARE".into(), "SPARE".into()).unwrap());
    let f = FxCode::new(GBP, JPY); w.fx.insert(f, one(JPY, "fx")); w.fxvol.insert(f, one(JPY, "fx")); w.corr.insert(("SPARE".into(), f), one(JPY, "x"));
    if let Some(p) = w.past.get("index").cloned() { w.past.insert("other".into(), p); }
}
enum Bad { Curve(String, VectorData), Surface(String, SurfaceData), Div(String, VectorData) }
fn garbled(r: &mut Rng, w: &World, its: &[&Item]) -> Option<(Bad, String)> {
    let cut = |v: &mut Value| { let d = v["data"].as_array_mut().unwrap(); d.pop(); let n = d.len(); v["dim"][0] = n.into(); };
    match r.below(3) {
        0 => {
            let used: Vec<&String> = w.curve.keys().filter(|k| its.iter().any(|i| uses(w, i, &In::Curve(k.to_string())))).collect(); if used.is_empty() { return None; }
            let k = { let mut u = used; u.sort(); u[r.below(u.len())].clone() }; let mut v = serde_json::to_value(&w.curve[&k]).unwrap(); let n = v["value"]["data"].as_array().unwrap().len();
            let what = match r.below(4) {
                0 => { cut(&mut v["value"]); "a value too few" } 1 => { cut(&mut v["times"]); "a time too few" }
                2 => { for f in ["value", "times"] { v[f]["data"] = Value::Array(vec![]); v[f]["dim"][0] = 0.into(); } "no values" }
                _ if n > 1 => { let d = v["times"]["data"].as_array_mut().unwrap(); let i = r.below(n - 1); d.swap(i, n - 1); "times out of order" }
                _ => return None };
            Some((Bad::Curve(k.clone(), serde_json::from_value(v).ok()?), format!("curve {k}: {what}")))
        }
        1 => {
            let used: Vec<&String> = w.svol.keys().filter(|k| its.iter().any(|i| uses(w, i, &In::Vol(k.to_string())))).collect(); if used.is_empty() { return None; }
            let k = { let mut u = used; u.sort(); u[r.below(u.len())].clone() }; let mut v = serde_json::to_value(&w.svol[&k]).unwrap();
            let what = match r.below(6) {
                0 => { v["dates"].as_array_mut().unwrap().pop(); "a maturity too few" } 1 => { cut(&mut v["strikes"]); "a strike too few" }
                2 => { v["dates"].as_array_mut().unwrap().swap(0, 2); "maturities out of order" } 3 => { v["strikes"]["data"].as_array_mut().unwrap().swap(1, 3); "strikes out of order" }
                4 => { v["spot"] = Value::Null; "no spot" }
                _ => { let past = serde_json::to_value(&SurfaceData::new(None, Array2::zeros((1, 1)), vec![at(w.e.0 - 1, w.e.1, w.off)], Array1::zeros(1), None, KRW, "".into(), "".into())).unwrap(); v["dates"][0] = past["dates"][0].clone(); "a maturity before the evaluation date" } };
            Some((Bad::Surface(k.clone(), serde_json::from_value(v).ok()?), format!("surface {k}: {what}")))
        }
        _ => {
            let used: Vec<&String> = w.div.keys().filter(|k| its.iter().any(|i| matches!(i.wire, Wire::Fut | Wire::Opt { .. }) && i.und.as_ref() == Some(k))).collect(); if used.is_empty() { return None; }
            let k = { let mut u = used; u.sort(); u[r.below(u.len())].clone() }; let mut v = serde_json::to_value(&w.div[&k]).unwrap();
            let what = match r.below(3) {
                0 => { v["dates"] = Value::Null; "no dates" } 1 => { v["dates"] = Value::Array(vec![]); for f in ["value", "times"] { v[f]["data"] = Value::Array(vec![]); v[f]["dim"][0] = 0.into(); } "nothing in them" }
                _ => { cut(&mut v["value"]); "a value too few" } };
            Some((Bad::Div(k.clone(), serde_json::from_value(v).ok()?), format!("dividends of {k}: {what}")))
        }
    }
}
fn case(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(6); let mut w = world(r, c, n);
    w.conf.on = [false; 11]; if r.chance(0.3) { let k = r.below(11); w.conf.on[k] = true; }
    if w.items.is_empty() { c.ev("empty"); return Ok(()); }
    c.folds(&w.desc);
    let items: Vec<Item> = w.items.clone(); let its: Vec<&Item> = items.iter().collect(); let desc = w.desc.clone();
    let spread = r.chance(0.3);
    let base = match result(&w, &its, spread).map_err(|e| Fail { detail: format!("{}; {desc}", e.detail), ..e })? { Ok(x) => x, Err(_) => { c.ev("refused_for_another_reason"); return Ok(()); } };
    let same = |w: &World, got: &HashMap<String, BTreeMap<String, f64>>, what: &str| -> R {
        check!(got.len() == base.len(), "gate:results", "{what}: {} results instead of {}; {desc}", got.len(), base.len());
        for i in &its { let g = some!(got.get(&i.code), "gate:results", "{what}: no result for {}; {desc}", i.code); if let Some((k, m)) = differ(w, &its, i, g, &base[&i.code], &|_| false, 2.0) { fail!(&format!("gate:changed:{}", measure(&k)), "{what}, {m}; {desc}") } }
        Ok(())
    };
    // inputs nobody asks for
    { let (a, b, c1, d, e, f, g, h) = (w.stock.clone(), w.cvol.clone(), w.curve.clone(), w.div.clone(), w.fx.clone(), w.fxvol.clone(), w.corr.clone(), w.past.clone());
      spares(&mut w); let x = must!(result(&w, &its, spread)?, "gate:spare-refused", "with inputs no instrument uses added: {desc}"); same(&w, &x, "with inputs no instrument uses added")?; c.ev("spare_inputs");
      w.stock = a; w.cvol = b; w.curve = c1; w.div = d; w.fx = e; w.fxvol = f; w.corr = g; w.past = h; }
    let mut all: Vec<In> = vec![In::Past, In::Disc, In::Index];
    all.extend(w.curve.keys().cloned().map(In::Curve)); all.extend(w.rate.keys().cloned().map(In::Fx)); all.extend([KRW, USD, EUR].map(In::Crs)); all.extend([KRW, USD].map(In::Fund)); all.extend(w.fxvol.keys().cloned().map(In::FxVol)); all.extend(w.corr.keys().cloned().map(|(u, f)| In::Corr(u, f)));
    for u in w.stock.keys() { for x in [In::Stock(u.clone()), In::Vol(u.clone()), In::Coll(u.clone()), In::Borr(u.clone())] { all.push(x); } }
    all.sort_by_key(|x| format!("{x:?}"));
    let (need, free): (Vec<In>, Vec<In>) = { let t: Vec<In> = all.iter().filter(|x| its.iter().any(|i| uses(&w, i, x))).cloned().collect(); let f = all.iter().filter(|x| !its.iter().any(|i| touches(&w, i, x))).cloned().collect(); (t, f) };
    for _ in 0..4 {
        if need.is_empty() { break; }
        let x = r.pick(&need).clone();
        let back = withhold(&mut w, &x, r.bool());
        let got = result(&w, &its, spread); back(&mut w);
        let got = got.map_err(|e| Fail { sig: "gate:panic".into(), detail: format!("without {x:?}: {}; {desc}", e.detail) })?;
        match got {
            Ok(m) => { let who: Vec<&String> = its.iter().filter(|i| uses(&w, i, &x)).map(|i| &i.code).collect(); fail!(&format!("gate:accepted:{}", x.kind()), "without {x:?}, which {who:?} needs, the calculation reports success: {:?}; {desc}", who.iter().map(|k| m.get(*k).and_then(|v| v.get("value").or(v.get("npv")))).collect::<Vec<_>>()) }
            Err(e) => {
                let key = match &x { In::Fx(f) => [f.get_currency1(), f.get_currency2()].iter().filter(|k| ***k != KRW).map(|k| format!("{k:?}")).collect(), In::FxVol(f) | In::Corr(_, f) => vec![f.to_string(), f.reciprocal().to_string(), format!("{f:?}")], In::Stock(u) | In::Curve(u) | In::Vol(u) | In::Coll(u) | In::Borr(u) => vec![u.clone()], In::Past => vec!["index".into(), "INDEX".into()], In::Index => vec!["INDEX".into()], In::Disc => vec!["gov".into()], In::Crs(k) | In::Fund(k) => vec![format!("{k:?}")] };
                let named = key.iter().any(|k| e.contains(k.as_str())) || its.iter().any(|i| uses(&w, i, &x) && e.contains(i.code.as_str()));
                check!(named, "gate:unnamed", "without {x:?} the error names neither the input nor an instrument using it: {e}; {desc}");
                c.ev(x.kind()); c.ev("withheld");
            }
        }
    }
    for _ in 0..2 {
        if free.is_empty() { break; }
        let x = r.pick(&free).clone(); let back = withhold(&mut w, &x, r.bool());
        let got = result(&w, &its, spread); back(&mut w);
        let m = must!(got?, "gate:free-refused", "without {x:?}, which no instrument uses; {desc}"); same(&w, &m, &format!("without {x:?}, which no instrument uses"))?; c.ev("unused_withheld");
    }
    // a used record whose parts do not fit together (as read from a damaged file)
    let bad = garbled(r, &w, &its);
    if let Some((x, what)) = bad {
        let (a, b, d) = (w.curve.clone(), w.svol.clone(), w.div.clone());
        match x { Bad::Curve(k, v) => { w.curve.insert(k, v); } Bad::Surface(k, v) => { w.svol.insert(k, v); } Bad::Div(k, v) => { w.div.insert(k, v); } }
        let got = result(&w, &its, spread).map_err(|e| Fail { sig: "gate:panic".into(), detail: format!("with {what}: {}; {desc}", e.detail) })?;
        check!(got.is_err(), &format!("gate:garbled:{}", what.split(' ').next().unwrap()), "with {what}, the calculation reports success; {desc}");
        c.ev(match what.chars().next() { Some('c') => "garbled_curves", Some('s') => "garbled_surfaces", _ => "garbled_dividends" });
        w.curve = a; w.svol = b; w.div = d;
    }
    // portfolios that cannot be priced
    let t = |s: i64| { let z = w.e.1 + s; inst((w.e.0 + z.div_euclid(86400), z.rem_euclid(86400)), w.off) };
    let ago = *r.pick(&[0i64, 0, -1, -3600, -86_400, -400 * 86_400]);
    let fut = |s: i64| Instrument::Futures(Futures::new(100.0, inst(w.e, w.off), t(s), t(s), t(s), 1.0, KRW, KRW, "S1".into(), "EXPIRED".into(), "EXPIRED".into()));
    let mk = |ins: Instrument, code: &str| Item { ins, wire: Wire::Cash, und: None, code: code.into(), gross: 1.0, unit: 1.0, mat: None, curves: vec![], desc: code.into() };
    let odd: BondFutures = serde_json::from_value(serde_json::json!({"currency": serde_json::to_value(KRW).unwrap(), "unit_notional": 1.0, "issue_date": serde_json::to_value(t(0)).unwrap(), "maturity": serde_json::to_value(t(86_400 * 50)).unwrap(), "name": "UNPRICEABLE", "code": "UNPRICEABLE"})).unwrap();
    let (bad, what) = match r.below(3) { 0 => (Some(mk(Instrument::BondFutures(odd), "UNPRICEABLE")), "an instrument without a pricer"), 1 => (Some(mk(fut(ago), "EXPIRED")), "an expired instrument"), _ => (None, "nothing") };
    let none = bad.is_none();
    let mut v: Vec<&Item> = if none { vec![] } else { its.clone() }; if let Some(b) = &bad { let k = r.below(v.len() + 1); v.insert(k, b); }
    match guarded(|| w.run(&w.conf, &v)) {
        Ok(Ok(_)) => fail!("gate:bad-portfolio", "a portfolio holding {what} ({ago} s) is calculated; {desc}"),
        Ok(Err(e)) => { if let Some(b) = &bad { check!(e.contains(b.code.as_str()), "gate:bad-unnamed", "a portfolio holding {what} ({ago} s): the error does not name {}: {e}; {desc}", b.code); } c.ev(match what { "nothing" => "empty_portfolios", "an expired instrument" => "expired_instruments", _ => "unpriceable_instruments" }); }
        Err(e) => fail!("gate:bad-panic", "a portfolio holding {what}: {e:?}; {desc}"),
    }
    c.nontrivial = !need.is_empty(); c.sample(|| format!("{} needed and {} unused inputs; {}", need.len(), free.len(), desc.chars().take(600).collect::<String>()));
    Ok(())
}
pub fn c43(run: &mut Run) {
    run.rule("random portfolios in random markets, calculated whole or in parallel groups; then again with one input withheld that an instrument uses (must be refused), with one that none uses withheld or spare ones added (must change nothing), and with an empty, expired or unpriceable instrument list (must be refused); what an instrument uses is the generator's own description of it");
    run.assume("the own curve of every underlying and the curves behind a plain stock may be asked for although no price depends on them; withholding those is not judged");
    run.require("withheld", 400); run.require("spare_inputs", 100); run.require("unused_withheld", 200);
    for k in ["exchange_rate", "spot", "curve", "volatility", "fx_volatility", "correlation", "fixings", "collateral_match", "borrowing_match", "issuer_match", "currency_match", "index_match", "funding_match", "empty_portfolios", "expired_instruments", "unpriceable_instruments"] { run.require(k, 8); }
    let _m = Mute::new();
    run.family("gate", 250, 30_000, case);
}
