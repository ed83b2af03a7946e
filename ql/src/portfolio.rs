//! C41: portfolio queries select exactly the instruments they describe
use crate::{d::*, engine::*, mk::*};
use quantlib::currency::{Currency, FxCode};
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use std::{collections::{BTreeSet, HashSet}, rc::Rc};
use vmon::*;
fn codes(v: &[Rc<Instrument>]) -> Vec<String> { v.iter().map(|i| i.get_code().clone()).collect() }
fn set<T: Ord>(v: Vec<T>, what: &str) -> Result<BTreeSet<T>, Fail> where T: std::fmt::Debug { let n = v.len(); let s: BTreeSet<T> = v.into_iter().collect(); check!(s.len() == n, "query:repeated", "{what} lists something twice: {n} entries, distinct {s:?}"); Ok(s) }
const SWAPS: [&str; 5] = ["IRS", "CRS", "FxSwap", "FxForward", "FxSpot"];
fn case(r: &mut Rng, c: &mut Case) -> R {
    let n = if r.chance(0.03) { 60 + r.below(40) } else { 1 + r.below(14) };
    let w = world(r, c, n);
    let items = &w.items;
    let rcs: Vec<Rc<Instrument>> = items.iter().map(|i| Rc::new(i.ins.clone())).collect();
    let p = Instruments::new(rcs.clone());
    check!(p.len() == items.len() && p.is_empty() == items.is_empty() && codes(&p.get_instruments_clone()) == codes(&rcs) && p.iter().map(|i| i.get_code().clone()).collect::<Vec<_>>() == codes(&rcs), "query:members", "the collection does not list its {} instruments in order; {}", items.len(), w.desc);
    check!(p.get_all_inst_code_clone(None) == items.iter().map(|i| i.code.clone()).collect::<Vec<_>>(), "query:codes", "codes {:?}; {}", p.get_all_inst_code_clone(None), w.desc);
    let ty = |i: &Item| match i.wire { Wire::Fut => "Futures", Wire::Opt { .. } => if i.desc.starts_with("call") { "VanillaCall" } else { "VanillaPut" }, Wire::Bond { .. } => "Bond", Wire::FxFut { .. } => "FxFutures", Wire::Swap { .. } => SWAPS.iter().copied().find(|s| i.desc.starts_with(&format!("{s} "))).unwrap_or("?"), Wire::Stock => "Stock", Wire::Cash => "Cash" };
    let pick = |f: &dyn Fn(&Item) -> bool| -> Vec<String> { items.iter().filter(|i| f(i)).map(|i| i.code.clone()).collect() };
    macro_rules! same { ($sig:expr, $got:expr, $want:expr, $($what:tt)*) => {{ let (g, x) = ($got, $want); check!(g == x, $sig, "{}: got {g:?}, expected {x:?}; {}", format!($($what)*), w.desc); c.ev("queries_compared"); if x.len() > 0 { c.ev("queries_with_a_nonempty_answer"); } for k in &x { c.folds(&format!("{k:?}")); } }} }
    // types
    let types: Vec<&str> = ["Futures", "VanillaCall", "VanillaPut", "Bond", "FxFutures", "IRS", "CRS", "FxSwap", "FxForward", "FxSpot", "Stock", "Cash", "KTBF", "Nothing"].into_iter().filter(|_| r.bool()).collect();
    same!("query:type", codes(&p.instruments_with_types(types.clone())), pick(&|i| types.contains(&ty(i))), "types {types:?}");
    same!("query:all-types", set(p.get_all_type_names(), "all type names")?, items.iter().map(|i| ty(i)).collect::<BTreeSet<_>>(), "all types");
    // currencies
    let usual: Vec<Currency> = items.iter().map(|i| *i.ins.get_currency()).collect();
    for k in [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY] {
        same!("query:currency", codes(&p.instruments_with_currency(&k)), items.iter().zip(&usual).filter(|(_, x)| **x == k).map(|(i, _)| i.code.clone()).collect::<Vec<_>>(), "currency {k:?}");
    }
    let name = |c: &Currency| format!("{c:?}");
    let mut want: BTreeSet<String> = usual.iter().map(name).collect();
    for i in items { match &i.wire { Wire::Fut => { want.insert(name(w.stock[i.und.as_ref().unwrap()].get_currency())); } Wire::FxFut { fx, .. } => { want.insert(name(fx.get_currency1())); } Wire::Swap { .. } => { if let Ok(x) = i.ins.get_floating_leg_currency() { want.insert(name(x)); } } _ => {} } }
    let all = must!(p.get_all_currencies(), "query:currencies", "{}", w.desc);
    same!("query:all-currencies", set(all.into_iter().map(name).collect(), "all currencies")?, want, "all currencies");
    // underlyings
    let ex: Option<Vec<&str>> = if r.bool() { None } else { Some(types.clone()) };
    let out = |i: &Item| ex.as_ref().map_or(false, |e| e.contains(&ty(i)));
    for u in ["S1", "S2", "S3", "S4", "S5", "S9"] { same!("query:underlying", codes(&p.instruments_with_underlying(&u.to_string(), ex.clone())), pick(&|i| !out(i) && i.und.as_deref() == Some(u)), "underlying {u} except {ex:?}"); }
    same!("query:all-underlyings", set(p.get_all_underlying_codes().into_iter().cloned().collect(), "all underlyings")?, items.iter().filter_map(|i| i.und.clone()).collect::<BTreeSet<_>>(), "all underlyings");
    let some: Vec<Rc<Instrument>> = rcs.iter().filter(|_| r.bool()).cloned().collect();
    let among = |i: &Item| some.iter().any(|x| x.get_code() == &i.code);
    for (who, list) in [("all", None), ("some", Some(&some))] {
        let inn = |i: &Item| list.is_none() || among(i);
        same!("query:volatile", set(p.get_all_unerlying_codes_requiring_volatility(list), "underlyings needing volatility")?, items.iter().filter(|i| inn(i) && matches!(i.wire, Wire::Opt { .. })).filter_map(|i| i.und.clone()).collect::<BTreeSet<_>>(), "{who}: underlyings that need a volatility");
        same!("query:codes", p.get_all_inst_code_clone(list), pick(&inn), "{who}: codes");
        // maturities: up to and over split the portfolio; no maturity counts as over every date
        let t = match r.below(3) { 0 if !items.is_empty() => items[r.below(items.len())].mat.unwrap_or((w.e.0 + 300, 0)), 1 => (w.e.0 + r.range(-10, 4000), r.range(0, 86_399)), _ => (w.e.0 + r.range(0, 1500), w.e.1) };
        let at = inst(t, w.off);
        same!("query:maturity-upto", codes(&p.instruments_with_maturity_upto(list, &at, ex.clone())), pick(&|i| inn(i) && !out(i) && i.mat.map_or(false, |m| m <= t)), "{who}: maturing up to {at} except {ex:?}");
        same!("query:maturity-over", codes(&p.instruments_with_maturity_over(list, &at, ex.clone())), pick(&|i| inn(i) && !out(i) && i.mat.map_or(true, |m| m > t)), "{who}: maturing after {at} except {ex:?}");
        let mats: Vec<Option<I>> = items.iter().filter(|i| inn(i)).map(|i| i.mat).collect();
        let short = mats.iter().flatten().min().map(|m| inst(*m, w.off)); let long = if mats.contains(&None) { None } else { mats.iter().flatten().max().map(|m| inst(*m, w.off)) };
        check!(p.get_shortest_maturity(list) == short, "query:shortest", "{who}: shortest maturity {:?}, expected {short:?}; {}", p.get_shortest_maturity(list), w.desc);
        check!(p.get_longest_maturity(list) == long, "query:longest", "{who}: longest maturity {:?}, expected {long:?}; {}", p.get_longest_maturity(list), w.desc);
        if long.is_some() { c.ev("longest_maturities"); } if mats.contains(&None) { c.ev("portfolios_with_an_endless_instrument"); }
    }
    // curves: each instrument once, whatever number of roles the curve plays for it
    let uses = |i: &Item, k: &str| i.curves.iter().any(|x| x == k) || matches!(i.wire, Wire::Stock) && w.coll[i.und.as_ref().unwrap()] == k;
    for k in w.curve.keys() {
        let got = must!(p.instruments_using_curve(k, &w.mp, ex.clone()), "query:curve", "{}", w.desc);
        let want = pick(&|i| !out(i) && uses(i, k));
        if items.iter().any(|i| i.curves.iter().filter(|x| *x == k).count() > 1) { c.ev("instruments_using_a_curve_in_several_roles"); }
        same!("query:curve", codes(&got), want, "instruments using {k} except {ex:?}");
    }
    let all = must!(p.get_all_curve_names(&w.mp), "query:curves", "{}", w.desc);
    same!("query:all-curves", set(all.into_iter().cloned().collect(), "all curves")?, w.curve.keys().filter(|k| items.iter().any(|i| uses(i, k))).cloned().collect::<BTreeSet<_>>(), "all curves");
    // exchange rates and quanto pairs
    let fx = |f: &FxCode| f.to_string();
    let mut want: BTreeSet<String> = BTreeSet::new();
    for i in items { match &i.wire { Wire::FxFut { fx: f, .. } => { want.insert(fx(f)); } Wire::Swap { fx: Some(f), .. } => { want.insert(fx(f)); } _ => {} } }
    same!("query:all-fx", set(p.get_all_fxcodes_for_pricing().iter().map(fx).collect(), "all exchange rates")?, want, "exchange rates needed");
    let got: HashSet<(String, String)> = p.get_all_quanto_fxcode_und_pairs().into_iter().map(|(u, f)| (u.clone(), fx(f))).collect();
    let want: HashSet<(String, String)> = items.iter().filter_map(|i| if let Wire::Opt { quanto: Some((u, f)), .. } = &i.wire { Some((u.clone(), fx(f))) } else { None }).collect();
    check!(got == want, "query:quanto", "quanto pairs {got:?}, expected {want:?}; {}", w.desc);
    if !want.is_empty() { c.ev("quanto_pairs"); }
    c.nontrivial = !items.is_empty();
    c.sample(|| w.desc.clone());
    Ok(())
}
pub fn c41(run: &mut Run) {
    run.rule("a case is a random portfolio of up to 14 instruments of seven types in a random market; every query of the collection is compared with a filter over the generator's own description of the instruments; distinct by the answers");
    run.family("queries", 400, 12_000, case);
    run.require("queries_compared", 5_000); run.require("queries_with_a_nonempty_answer", 2_000); run.require("instruments_using_a_curve_in_several_roles", 10);
    run.require("portfolios_with_an_endless_instrument", 20); run.require("longest_maturities", 20); run.require("quanto_pairs", 20); run.require("wide_markets", 20);
}
