//! C35 sensitivities against revaluation, C36 independence of measures, C37 parallel portfolios
use crate::{bond::*, d::*, deriv::{option, swap}, mk::*};
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{daily_value_data::DailyValueData, surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::enums::{CreditRating, IssuerType, StickynessType, VanillaOptionCalculationMethod};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::{cash::Cash, futures::Futures, fx_futures::FxFutures, ktbf::{KtbfVirtualBond, KTBF}, plain_swap::PlainSwapType as PT, stock::Stock};
use quantlib::parameters::{discrete_ratio_dividend::DiscreteRatioDividend, market_price::MarketPrice, past_price::DailyClosePrice, quanto::Quanto, volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator}, volatility::{Volatility}, zero_curve::ZeroCurve};
use quantlib::pricing_engines::{bond_pricer::BondPricer, calculation_configuration::CalculationConfiguration, calculation_result::CalculationResult, engine::Engine, engine_generator::{EngineGenerator, InstrumentCategory}, futures_pricer::FuturesPricer, fx_futures_pricer::FxFuturesPricer, identity_pricer::IdentityPricer, match_parameter::MatchParameter, npv_result::NpvResult, option_analytic_pricer::OptionAnalyticPricer, plain_swap_pricer::PlainSwapPricer, pricer::{Pricer, PricerTrait}, unit_pricer::UnitPricer};
use quantlib::time::{calendar_trait::CalendarTrait, calendars::nullcalendar::NullCalendar, conventions::PaymentFrequency as F};
use std::{collections::{BTreeMap, HashMap, HashSet}, rc::Rc, sync::Arc};
use time::OffsetDateTime;
use vmon::*;
use Currency::*;
pub const MEASURES: [&str; 11] = ["delta", "gamma", "vega", "rho", "div_delta", "theta", "vega_structure", "rho_structure", "div_structure", "vega_matrix", "fx_exposure"];
#[derive(Clone, Debug)]
pub struct Conf { pub on: [bool; 11], pub theta_day: i32, pub sticky: StickynessType, pub d: f32, pub v: f32, pub vs: f32, pub vm: f32, pub r: f32, pub q: f32, pub rt: Vec<String>, pub vt: Vec<String>, pub qt: Vec<String>, pub mon: Vec<f32> }
impl Conf {
    pub fn make(&self) -> CalculationConfiguration {
        let o = &self.on;
        // the two ways of configuring: step by step from the defaults (there is no step for the currency exposure or the dividend bump) ...
        if o[10] && !o[4] && !o[8] {
            let mut c = CalculationConfiguration::default().with_theta_day(self.theta_day).with_stickyness_type(self.sticky).with_delta_bump_ratio(self.d).with_gamma_bump_ratio(self.d).with_vega_bump_value(self.v).with_vega_structure_bump_value(self.vs).with_vega_matrix_bump_value(self.vm).with_rho_bump_value(self.r).with_rho_structure_tenors(self.rt.clone()).with_vega_structure_tenors(self.vt.clone()).with_vega_matrix_spot_moneyness(Array1::from_vec(self.mon.clone()));
            if o[0] { c = c.with_delta_calculation(true) } if o[1] { c = c.with_gamma_calculation(true) } if o[2] { c = c.with_vega_calculation(true) } if o[3] { c = c.with_rho_calculation(true) } if o[5] { c = c.with_theta_calculation(true) } if o[6] { c = c.with_vega_structure_calculation(true) } if o[7] { c = c.with_rho_structure_calculation(true) } if o[9] { c = c.with_vega_matrix_calculation(true) }
            return c;
        }
        // ... or everything at once
        let c = CalculationConfiguration::new(true, o[10], false, false, o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], self.theta_day, self.sticky, VolatilityInterplator::default(), self.d, self.d, self.v, self.vs, self.vm, self.r, self.q, self.rt.clone(), self.vt.clone(), self.qt.clone(), Array1::from_vec(self.mon.clone()), VanillaOptionCalculationMethod::Analytic).unwrap();
        c.with_delta_calculation(o[0]).with_gamma_calculation(o[1])
    }
}
/// the discounting of what is settled daily
pub const NONE: &str = "Dummy";
#[derive(Clone, Debug)]
pub enum Wire { Fut, Opt { disc: String, quanto: Option<(String, FxCode)> }, Bond { disc: String, fwd: bool }, FxFut { a: String, b: String, fx: FxCode }, Swap { a: String, b: String, fwd: bool, fx: Option<FxCode> }, Stock, Cash }
#[derive(Clone)]
pub struct Item { pub ins: Instrument, pub wire: Wire, pub und: Option<String>, pub code: String, pub gross: f64, pub unit: f64, pub mat: Option<I>, pub curves: Vec<String>, pub desc: String }
pub struct World {
    pub off: i64, pub e: I, pub fx: HashMap<FxCode, ValueData>, pub rate: HashMap<FxCode, f32>, pub stock: HashMap<String, ValueData>, pub curve: HashMap<String, VectorData>, pub div: HashMap<String, VectorData>,
    pub cvol: HashMap<String, ValueData>, pub svol: HashMap<String, SurfaceData>, pub fxvol: HashMap<FxCode, ValueData>, pub corr: HashMap<(String, FxCode), ValueData>, pub past: HashMap<String, DailyValueData>,
    pub coll: HashMap<String, String>, pub borr: HashMap<String, String>, pub mp: MatchParameter, pub conf: Conf, pub items: Vec<Item>, pub desc: String,
}
pub struct Mkt { pub ev: RC<EvaluationDate>, pub fx: HashMap<FxCode, RC<MarketPrice>>, pub eq: HashMap<String, RC<MarketPrice>>, pub curve: HashMap<String, RC<ZeroCurve>>, pub div: HashMap<String, RC<DiscreteRatioDividend>>, pub vol: HashMap<String, RC<Volatility>>, pub quanto: HashMap<(String, FxCode), RC<Quanto>>, pub past: HashMap<String, Rc<DailyClosePrice>> }
const FWD: &str = "IRS";
fn val(x: f32, c: Currency, n: &str) -> ValueData { ValueData::new(x, None, c, n.into(), n.into()).unwrap() }
impl World {
    /// the market built afresh from the data
    pub fn market(&self) -> Mkt { self.copy(None, None) }
    /// as `market`, with curves (and all volatilities but one) copied from an untouched market of the same date: building them is slow
    pub fn copy(&self, from: Option<&Mkt>, fresh: Option<&str>) -> Mkt {
        let t = inst(self.e, self.off);
        let ev = rc(EvaluationDate::new(t));
        let curve: HashMap<String, RC<ZeroCurve>> = self.curve.iter().map(|(k, d)| (k.clone(), rc(match from { Some(m) => m.curve[k].borrow().clone(), None => ZeroCurve::new(ev.clone(), d, k.clone(), k.clone()).unwrap() }))).collect();
        let fx: HashMap<FxCode, RC<MarketPrice>> = self.rate.iter().map(|(k, x)| (*k, rc(MarketPrice::new(*x, t, None, *k.get_currency2(), k.to_string(), k.to_string())))).collect();
        let mut div = HashMap::new(); let mut eq = HashMap::new(); let mut vol = HashMap::new();
        for (u, s) in &self.stock {
            let d = self.div.get(u).map(|d| rc(DiscreteRatioDividend::new(ev.clone(), d, s.get_value(), u.clone(), u.clone()).unwrap()));
            let p = rc(MarketPrice::new(s.get_value(), t, d.clone(), *s.get_currency(), u.clone(), u.clone()));
            if let Some(d) = d { div.insert(u.clone(), d); }
            eq.insert(u.clone(), p.clone());
            let v = match from { Some(m) if fresh != Some(u.as_str()) => m.vol[u].borrow().clone(), _ => {
                let l = LocalVolatilitySurface::initialize(ev.clone(), p, curve[&self.coll[u]].clone(), curve[&self.borr[u]].clone(), self.conf.sticky, VolatilityInterplator::default(), u.clone(), u.clone());
                let mon = Array1::from_vec(self.conf.mon.clone());
                let mut l = match self.cvol.get(u) { Some(v) => l.with_constant_volatility(v, self.conf.vt.clone(), mon), None => l.with_market_surface(&self.svol[u], self.conf.vt.clone(), mon) }.unwrap();
                l.build().unwrap();
                Volatility::LocalVolatilitySurface(l) } };
            vol.insert(u.clone(), rc(v));
        }
        let quanto = self.corr.iter().map(|((u, f), x)| ((u.clone(), *f), rc(Quanto::new(rc(Volatility::ConstantVolatility(ConstantVolatility::new(self.fxvol[f].get_value(), f.to_string(), f.to_string()))), x.get_value(), *f, u.clone())))).collect();
        let past = match from { Some(m) => m.past.clone(), None => self.past.iter().map(|(k, d)| (k.clone(), Rc::new(DailyClosePrice::new_from_data(d).unwrap()))).collect() };
        for x in fx.values().chain(eq.values()) { ev.borrow_mut().add_marketprice_observer(x.clone()); }
        for x in div.values() { ev.borrow_mut().add_dividend_observer(x.clone()); }
        Mkt { ev, fx, eq, curve, div, vol, quanto, past }
    }
    pub fn pricer(&self, m: &Mkt, i: &Item) -> Result<Pricer, String> {
        let cv = |k: &String| if k == NONE { rc(ZeroCurve::dummy_curve().unwrap()) } else { m.curve[k].clone() };
        Ok(match &i.wire {
            Wire::Fut => { let u = i.und.as_ref().unwrap(); Pricer::FuturesPricer(FuturesPricer::new(m.eq[u].clone(), cv(&self.coll[u]), cv(&self.borr[u]))) }
            Wire::Opt { disc, quanto } => { let u = i.und.as_ref().unwrap(); Pricer::OptionAnalyticPricer(OptionAnalyticPricer::new(m.ev.clone(), m.eq[u].clone(), cv(&self.coll[u]), cv(&self.borr[u]), cv(disc), m.vol[u].clone(), quanto.as_ref().map(|q| m.quanto[q].clone()))) }
            Wire::Bond { disc, fwd } => Pricer::BondPricer(BondPricer::new(m.ev.clone(), cv(disc), fwd.then(|| cv(&FWD.into())), fwd.then(|| m.past["index"].clone()))),
            Wire::FxFut { a, b, fx } => Pricer::FxFuturesPricer(FxFuturesPricer::new(m.fx[fx].clone(), cv(a), cv(b))),
            Wire::Swap { a, b, fwd, fx } => Pricer::PlainSwapPricer(PlainSwapPricer::new(m.ev.clone(), cv(a), cv(b), fwd.then(|| cv(&FWD.into())), fwd.then(|| m.past["index"].clone()), fx.map(|f| m.fx[&f].clone())).map_err(|e| e.to_string())?),
            Wire::Stock => Pricer::IdentityPricer(IdentityPricer::new(m.eq[&i.code].clone())),
            Wire::Cash => Pricer::UnitPricer(UnitPricer::new()),
        })
    }
    pub fn price(&self, m: &Mkt, i: &Item) -> Result<f64, String> { self.pricer(m, i)?.npv(&i.ins).map(|x| x as f64).map_err(|e| format!("{e:#}")) }
    pub fn detail(&self, m: &Mkt, i: &Item) -> Result<NpvResult, String> { self.pricer(m, i)?.npv_result(&i.ins).map_err(|e| format!("{e:#}")) }
    pub fn engine(&self, conf: &Conf, items: &[&Item]) -> Result<Engine, String> {
        let s = |e: anyhow::Error| format!("{e:#}");
        let e = Engine::builder(7, conf.make(), inst(self.e, self.off), self.mp.clone()).with_instruments(items.iter().map(|i| i.ins.clone()).collect()).map_err(s)?;
        let mut e = e.with_parameter_data(Arc::new(self.fx.clone()), Arc::new(self.stock.clone()), Arc::new(self.curve.clone()), Arc::new(self.div.clone()), Arc::new(self.cvol.clone()), Arc::new(self.svol.clone()), Arc::new(self.fxvol.clone()), Arc::new(self.corr.clone()), Arc::new(self.past.clone())).map_err(s)?;
        e.initialize_pricers().map_err(s)?;
        Ok(e)
    }
    pub fn run(&self, conf: &Conf, items: &[&Item]) -> Result<HashMap<String, CalculationResult>, String> { let mut e = self.engine(conf, items)?; e.calculate().map_err(|e| format!("{e:#}"))?; Ok(e.get_calculation_result_clone()) }
}
/// a random market, configuration and portfolio
pub fn world(r: &mut Rng, c: &mut Case, size: usize) -> World {
    // now and then a market of many underlyings
    let wide = size >= 40 || r.chance(0.02); let size = if wide { size.max(24) } else { size }; if wide { c.ev("wide_markets"); }
    let names: Vec<String> = (1..=if wide { 44 } else { 5 }).map(|i| format!("S{i}")).collect();
    let off = *r.pick(&[KST, KST, 0, -5 * 3600]); let e = (day(r, 2018, 2032), *r.pick(&[0i64, 9 * 3600, 16 * 3600 + 1800, 86_399]));
    let ev = rc(EvaluationDate::new(inst(e, off)));
    let mut curve = HashMap::new(); let mut fwd = None; let mut desc = format!("evaluation {} second {}", show(e.0), e.1);
    for n in ["KSD", "USGOV", "FUND-KRW", "FUND-USD", "GOV", FWD, "CRS-KRW", "CRS-USD"].into_iter().chain(names.iter().map(|x| x.as_str())) {
        let (z, _, d, t) = curve_data(r, &ev, e, off, if n.contains("US") { USD } else { KRW }, n);
        if n == FWD { fwd = Some(rc(z)); } curve.insert(n.to_string(), d); desc += &format!("; {t}");
    }
    let ten = |r: &mut Rng| { let all = ["1M", "2M", "3M", "6M", "9M", "1Y", "1Y6M", "2Y", "3Y", "5Y", "10Y", "20Y"]; let mut x: Vec<usize> = (0..2 + r.below(4)).map(|_| r.below(12)).collect(); x.sort(); x.dedup(); x.iter().map(|i| all[*i].to_string()).collect::<Vec<_>>() };
    let vt = loop { let x = ten(r); if x.len() > 1 { break x; } };
    let conf = Conf { on: [true; 11], theta_day: *r.pick(&[1, 1, 1, 2, 7, 30, 100, 250, 400]), sticky: *r.pick(&[StickynessType::StickyToMoneyness, StickynessType::StickyToStrike]), d: *r.pick(&[0.01f32, 0.005, 0.05]), v: *r.pick(&[0.01f32, 0.002, 0.05]), vs: *r.pick(&[0.01f32, 0.005, 0.03]), vm: *r.pick(&[0.01f32, 0.004, 0.03]), r: *r.pick(&[0.0001f32, 0.001, 0.01]), q: *r.pick(&[0.01f32, 0.5]), rt: ten(r), vt, qt: ten(r), mon: { let n = 2 + r.below(4); let (m0, m1) = if r.chance(0.25) { (0.3, 3.0) } else { (0.6, 1.6) }; let w = (m1 - m0) / n as f32; (0..n).map(|i| m0 + w * i as f32).collect() } };
    let mut stock = HashMap::new(); let mut div = HashMap::new(); let mut cvol = HashMap::new(); let mut svol = HashMap::new(); let mut coll = HashMap::new(); let mut borr = HashMap::new(); let mut corr = HashMap::new(); let mut fxvol = HashMap::new();
    for (k, u) in names.iter().enumerate() { let (u, cu) = (u.as_str(), if k % 2 == 0 { KRW } else { USD });
        let s = r.uni(20.0, 2000.0) as f32;
        stock.insert(u.to_string(), val(s, cu, u));
        if r.chance(0.7) { let (_, _, d, t) = divs_data(r, &ev, e, off, s, cu, u); div.insert(u.to_string(), d); desc += &format!("; {t}"); }
        if r.bool() { let v = r.uni(0.1, 0.6) as f32; cvol.insert(u.to_string(), val(v, cu, u)); desc += &format!("; {u} {s} volatility {v}"); } else {
            let gz: Vec<i64> = (0..4).map(|i| e.0 + 20 + i * 200 + r.range(0, 100)).collect(); let k: Vec<f32> = (0..5).map(|i| s * (0.6 + 0.2 * i as f32)).collect();
            let v = Array2::from_shape_fn((4, 5), |_| r.uni(0.15, 0.35) as f32);
            desc += &format!("; {u} {s} volatilities {v:?}");
            svol.insert(u.to_string(), SurfaceData::new(Some(if r.bool() { s } else { s * 1.03 }), v, gz.iter().map(|z| at(*z, e.1, off)).collect(), Array1::from_vec(k), Some(inst(e, off)), cu, u.into(), u.into()));
        }
        coll.insert(u.to_string(), if cu == KRW { *r.pick(&["KSD", "KSD", "GOV", "FUND-KRW"]) } else { *r.pick(&["USGOV", "FUND-USD"]) }.to_string());
        borr.insert(u.to_string(), if r.chance(0.8) { u.to_string() } else { coll[u].clone() });
        for q in [KRW, USD] { if q != cu { let f = FxCode::new(cu, q); corr.insert((u.to_string(), f), val(r.uni(-0.8, 0.8) as f32, q, u)); fxvol.insert(f, val(r.uni(0.05, 0.2) as f32, q, "fx")); } }
    }
    // exchange rates are quoted directly, inverted or against the won
    let (ku, ke) = (r.uni(900.0, 1500.0) as f32, r.uni(1000.0, 1700.0) as f32);
    let mut fx = HashMap::new(); let mut rate = HashMap::new();
    let (uk, ek, eu) = (FxCode::new(USD, KRW), FxCode::new(EUR, KRW), FxCode::new(EUR, USD));
    let inv = r.chance(0.3);
    if inv { fx.insert(FxCode::new(KRW, USD), val(1.0 / ku, USD, "fx")); rate.insert(uk, 1.0 / (1.0 / ku)); rate.insert(FxCode::new(KRW, USD), 1.0 / ku); } else { fx.insert(uk, val(ku, KRW, "fx")); rate.insert(uk, ku); rate.insert(FxCode::new(KRW, USD), 1.0 / ku); }
    fx.insert(ek, val(ke, KRW, "fx")); rate.insert(ek, ke);
    if inv || r.bool() { let x = r.uni(1.0, 1.3) as f32; fx.insert(eu, val(x, USD, "fx")); rate.insert(eu, x); } else { rate.insert(eu, ke / ku); c.ev("cross_rates"); }
    if inv { c.ev("inverse_rates"); }
    let k = Cal::new(r, off); let fwd = fwd.unwrap();
    let base = { let mut f = float(r, fwd.clone(), e, 0, off); for z in e.0 - 1200..e.0 + 1 { f.past.entry(date(z)).or_insert(0.03); } f };
    let past = HashMap::from([("index".to_string(), DailyValueData::new(base.past.clone(), time::Time::MIDNIGHT, time::UtcOffset::UTC, crate::cal::make(1).0, "index".into(), "INDEX".into()))]);
    let crs: HashMap<Currency, String> = HashMap::from([(KRW, "CRS-KRW".to_string()), (USD, "CRS-USD".to_string()), (EUR, "CRS-USD".to_string())]);
    let fund = HashMap::from([(KRW, "FUND-KRW".to_string()), (USD, "FUND-USD".to_string())]);
    let mp = MatchParameter::new(coll.clone(), borr.clone(), HashMap::from([(("gov".to_string(), IssuerType::Government, CreditRating::None, KRW), "GOV".to_string())]), crs.clone(), HashMap::from([("INDEX".to_string(), FWD.to_string())]), fund.clone());
    let mut w = World { off, e, fx, rate, stock, curve, div, cvol, svol, fxvol, corr, past, coll, borr, mp, conf, items: vec![], desc };
    let m = w.market(); let mut n = 0;
    let unds: Vec<&str> = { let mut v: Vec<&str> = names.iter().map(|x| x.as_str()).collect(); for _ in 0..if wide { 0 } else { r.below(5) } { let i = r.below(v.len()); v.remove(i); } v };
    for _ in 0..size * 20 {
        if w.items.len() >= size { break; }
        n += 1; let code = format!("I{n}");
        let u = if wide { unds[n % unds.len()] } else { *r.pick(&unds) }.to_string(); let (uc, spot) = (*w.stock[&u].get_currency(), w.stock[&u].get_value());
        let soon = r.chance(0.15);
        let mt: I = if soon { (e.0 + r.range(1, w.conf.theta_day as i64 + 1), *r.pick(&[e.1, 0, 17 * 3600])) } else { (e.0 + r.range(2, 1500), *r.pick(&[e.1, 0, 17 * 3600])) };
        let unit = *r.pick(&[1.0f32, 250_000.0, 1e4]);
        let item = match r.below(9) {
            0 => { let cur = *r.pick(&[uc, uc, KRW]); let t = inst(mt, off); let f = Futures::new(spot * r.uni(0.8, 1.2) as f32, inst(e, off), t, t, t, unit, cur, uc, u.clone(), code.clone(), code.clone()); Item { ins: Instrument::Futures(f), wire: Wire::Fut, curves: vec![w.coll[&u].clone()], und: Some(u), code, gross: 2.0 * spot as f64, unit: unit as f64, mat: Some(mt), desc: format!("future to {}", show(mt.0)) } }
            1 | 2 | 3 => {
                let cur = *r.pick(&[uc, uc, KRW, USD]); let kk = spot * (if r.chance(0.15) { r.uni(0.3, 3.2) } else { r.uni(0.7, 1.35) }) as f32; let call = r.bool();
                let daily = r.chance(0.2); if daily { c.ev("daily_settled_options"); }
                let o = option(kk, mt, off, unit, uc, cur, call, daily, &code, &u); let disc = if daily { NONE.to_string() } else { fund[&cur].clone() };
                Item { ins: Instrument::VanillaOption(o), wire: Wire::Opt { disc: disc.clone(), quanto: (cur != uc).then(|| (u.clone(), FxCode::new(uc, cur))) }, curves: if daily { vec![w.coll[&u].clone()] } else { vec![disc, w.coll[&u].clone()] }, und: Some(u.clone()), code, gross: (spot + kk) as f64, unit: unit as f64, mat: Some(mt), desc: format!("{} on {u} at {kk} to {} in {cur:?}{}", if call { "call" } else { "put" }, show(mt.0), if daily { " settled daily" } else { "" }) }
            }
            4 | 5 => {
                let fl = r.bool().then(|| { let gap = *r.pick(&[0i64, 1, 2]); let mut f = float(r, fwd.clone(), e, gap, off); f.past = base.past.clone(); f });
                set_code(Some(code.clone())); let b = bond(r, c, e, off, None, &k, fl.as_ref(), KRW, e.0 + 9000); set_code(None);
                let Some(b) = b else { continue }; let Some(q) = &b.flows else { continue };
                let g = q.values().map(|x| x.abs()).sum::<f64>() + b.slack + b.jit / 4e-6; let mut cv = vec!["GOV".to_string()]; if fl.is_some() { cv.push(FWD.into()); }
                Item { ins: Instrument::Bond(b.bond.clone()), wire: Wire::Bond { disc: "GOV".into(), fwd: fl.is_some() }, und: None, code, gross: g, unit: b.unit as f64, mat: Some(b.mat), curves: cv, desc: b.desc.clone() }
            }
            6 => { let (a, b) = *r.pick(&[(USD, KRW), (EUR, KRW), (EUR, USD), (KRW, USD)]); let t = inst(mt, off); let f = FxCode::new(a, b); let x = w.rate[&f]; Item { ins: Instrument::FxFutures(FxFutures::new(x, inst(e, off), t, t, t, unit, b, a, code.clone(), code.clone())), wire: Wire::FxFut { a: crs[&a].clone(), b: crs[&b].clone(), fx: f }, und: None, code, gross: 2.0 * x as f64, unit: unit as f64, mat: Some(mt), curves: vec![crs[&a].clone(), crs[&b].clone()], desc: format!("currency future {a:?}{b:?} to {}", show(mt.0)) } }
            7 => {
                let gap = *r.pick(&[0i64, 1, 2]); let mut fl = float(r, fwd.clone(), e, gap, off); fl.past = base.past.clone(); fl.spread = None;
                let cur = *r.pick(&[(KRW, USD), (USD, EUR), (KRW, EUR)]);
                set_code(Some(code.clone())); let s = swap(r, c, e, off, &k, &fl, cur, e.0 + 9000); set_code(None);
                let Some(s) = s else { continue }; let Some(q) = &s.float else { continue };
                let rated = matches!(s.ty, PT::IRS | PT::CRS); let one = s.ty == PT::IRS;
                let f = (!one).then(|| FxCode::new(s.cur.1, s.cur.0));
                let (a, b) = if one { (FWD.to_string(), FWD.to_string()) } else { (crs[&s.cur.0].clone(), crs[&s.cur.1].clone()) };
                let x = f.map(|f| w.rate[&f] as f64).unwrap_or(1.0);
                let g = s.fixed.values().map(|x| x.abs()).sum::<f64>() + x * (q.values().map(|x| x.abs()).sum::<f64>() + s.slack + s.jit / 4e-6) + 1.0;
                let mut cv: Vec<String> = if rated { vec![FWD.into()] } else { vec![] }; cv.push(a.clone()); cv.push(b.clone());
                let ins = Instrument::PlainSwap(s.swap.clone()); let Some(mt) = ins.get_maturity() else { continue }; let (z, sc, _) = parts(mt);
                Item { wire: Wire::Swap { a, b, fwd: rated, fx: f }, ins, und: None, code, gross: g, unit: s.unit as f64, mat: Some((z, sc)), curves: cv, desc: s.desc.clone() }
            }
            _ if r.chance(0.5) => { if w.items.iter().any(|x| x.code == u) { continue; } Item { ins: Instrument::Stock(Stock::new(u.clone(), u.clone(), vec![u.clone()], uc, None)), wire: Wire::Stock, curves: vec![], und: Some(u.clone()), code: u, gross: spot as f64, unit: 1.0, mat: None, desc: "stock".into() } }
            _ => { let cur = *r.pick(&[KRW, USD]); let n = format!("CASH{cur:?}"); if w.items.iter().any(|x| x.code == n) { continue; } Item { ins: Instrument::Cash(Cash::new(cur, n.clone(), n.clone())), wire: Wire::Cash, curves: vec![], und: None, code: n, gross: 1.0, unit: 1.0, mat: None, desc: "cash".into() } }
        };
        if let Some(x) = item.mat { if x <= e || item.unit == 0.0 { continue; } if yf(e, x) <= 0.0 { continue; } }
        match w.price(&m, &item) { Ok(x) if x.is_finite() => {} _ => continue }
        w.items.push(item);
    }
    for i in &w.items { w.desc += &format!("; {}: {} unit {}", i.code, i.desc, i.unit); }
    w.desc += &format!("; {:?}", w.conf);
    w
}
type Vals = BTreeMap<String, f64>;
/// everything a calculation reports, flattened: measure/key/bucket → value
pub fn flat(x: &CalculationResult) -> Vals {
    let mut v = Vals::new();
    if let Some(n) = x.get_npv_result() { v.insert("npv".into(), n.get_npv() as f64); }
    if let Some(n) = x.get_value() { v.insert("value".into(), n as f64); }
    if let Some(n) = x.get_theta() { v.insert("theta".into(), n as f64); }
    if let Some(n) = x.get_fx_exposure() { for (k, y) in n { v.insert(format!("fx_exposure/{k:?}"), *y as f64); } }
    for (n, m) in [("delta", x.get_delta()), ("gamma", x.get_gamma()), ("vega", x.get_vega()), ("rho", x.get_rho()), ("div_delta", x.get_div_delta())] { if let Some(m) = m { for (k, y) in m { v.insert(format!("{n}/{k}"), *y as f64); } } }
    for (n, m) in [("vega_structure", x.get_vega_structure()), ("rho_structure", x.get_rho_structure()), ("div_structure", x.get_div_structure())] { if let Some(m) = m { for (k, y) in m { for (i, z) in y.iter().enumerate() { v.insert(format!("{n}/{k}/{i}"), *z as f64); } } } }
    if let Some(m) = x.get_vega_matrix() { for (k, y) in m { for ((i, j), z) in y.indexed_iter() { v.insert(format!("vega_matrix/{k}/{i}/{j}"), *z as f64); } } }
    v
}
pub fn measure(k: &str) -> &str { k.split('/').next().unwrap() }
/// how far two computations of the same measure may differ by rounding
pub fn slack(w: &World, i: &Item, k: &str, tdiff: f64) -> f64 {
    let p = 4e-6 * i.gross; let f = &w.conf;
    i.unit * match measure(k) {
        "npv" => p / i.unit, "value" => p, "fx_exposure" => 3.0 * p,
        "delta" => p * 0.01 / f.d as f64 + 1e-6 * i.gross * 0.01, "gamma" => 2.0 * p * 0.5 * (0.01 / f.d as f64).powi(2),
        "vega" => p * 0.01 / f.v as f64, "vega_structure" => p * 0.01 / f.vs as f64, "vega_matrix" => p * 0.01 / f.vm as f64,
        "rho" | "rho_structure" => p * 1e-4 / f.r as f64, "div_delta" | "div_structure" => p * 1e-4 / f.q as f64,
        "theta" => p / tdiff / 365.0, _ => unreachable!(),
    }
}
/// end of the day-step used for this instrument's theta, given the portfolio it is calculated with
pub fn step(w: &World, items: &[&Item], i: &Item) -> I {
    let b = (w.e.0 + w.conf.theta_day as i64, w.e.1);
    let short: Vec<I> = items.iter().filter_map(|x| x.mat).filter(|m| *m <= b).collect();
    if i.mat.is_some_and(|m| m <= b) { *short.iter().min().unwrap() } else { b }
}
/// a bucket's end as a date and on the library's own time axis (C20 decides that axis; curve nodes lie exactly on bucket ends)
fn node_time(e: I, off: i64, t: &str) -> (f32, I) { let (_, n, u) = TENORS.iter().find(|x| x.0 == t).unwrap(); let z = node(e, (*n, *u)); (NullCalendar::default().get_time_difference(&inst(e, off), &inst(z, off)), z) }
/// revaluation from scratch of every measure
pub fn oracle(w: &World, items: &[&Item], c: &mut Case) -> Result<HashMap<String, Vals>, String> {
    let mut out: HashMap<String, Vals> = HashMap::new();
    let base = w.market(); let again = || w.copy(Some(&base), None);
    let mut p0 = HashMap::new();
    for i in items {
        let v = w.price(&base, i)?; p0.insert(i.code.clone(), v);
        let o = out.entry(i.code.clone()).or_default();
        o.insert("npv".into(), v); o.insert("value".into(), v * i.unit);
        for (k, x) in w.pricer(&base, i)?.fx_exposure(&i.ins, v as f32).map_err(|e| e.to_string())? { o.insert(format!("fx_exposure/{k:?}"), x as f64); }
        if let Wire::Stock | Wire::Fut = i.wire { o.insert(format!("delta/{}", i.code), v * 0.01 * i.unit); o.insert(format!("gamma/{}", i.code), 0.0); }
        if let Wire::Stock | Wire::Cash = i.wire { o.insert("theta".into(), 0.0); }
    }
    let unds: HashSet<&String> = items.iter().filter_map(|i| i.und.as_ref()).collect();
    let f = &w.conf;
    for u in unds {
        let opts: Vec<&&Item> = items.iter().filter(|i| i.und.as_ref() == Some(u) && matches!(i.wire, Wire::Opt { .. })).collect();
        let s = w.stock[u].get_value();
        let shift = |x: f32| { let m = w.copy(Some(&base), Some(u)); m.eq[u].borrow_mut().set_price(s * x); if f.sticky == StickynessType::StickyToStrike { m.vol[u].borrow_mut().build().unwrap(); } m };
        if !opts.is_empty() {
            let (a, b) = (shift(1.0 + f.d), shift(1.0 - f.d));
            for i in &opts {
                let (x, y, z) = (w.price(&a, i)?, w.price(&b, i)?, p0[&i.code]); let o = out.get_mut(&i.code).unwrap(); let d = f.d as f64;
                o.insert(format!("delta/{u}"), (x - y) / (2.0 * d) * 0.01 * i.unit); o.insert(format!("gamma/{u}"), 0.5 * (x + y - 2.0 * z) * (0.01 / d).powi(2) * i.unit); c.ev("deltas");
            }
            let m = again(); m.vol[u].borrow_mut().bump_volatility(None, None, None, None, f.v).unwrap();
            for i in &opts { let x = (w.price(&m, i)? - p0[&i.code]) / f.v as f64 * 0.01 * i.unit; out.get_mut(&i.code).unwrap().insert(format!("vega/{u}"), x); c.ev("vegas"); }
            // term structure and matrix accumulate from the longest tenor
            let t: Vec<f32> = f.vt.iter().map(|x| node_time(w.e, w.off, x).0).collect();
            for matrix in [false, true] {
                let mut prev = p0.clone(); let cols = if matrix { f.mon.len() } else { 1 };
                let mut done: Vec<(usize, usize)> = vec![];
                for a in (0..t.len()).rev() { for b in 0..cols {
                    done.push((a, b));
                    let m = again();
                    for (a, b) in &done {
                        let lo = (*a > 0).then(|| t[a - 1]); let hi = Some(t[*a]);
                        let (l, h) = if matrix { ((*b > 0).then(|| f.mon[b - 1]), Some(f.mon[*b])) } else { (None, None) };
                        m.vol[u].borrow_mut().bump_volatility(lo, hi, l, h, if matrix { f.vm } else { f.vs }).unwrap();
                    }
                    for i in &opts {
                        let x = w.price(&m, i)?; let y = (x - prev[&i.code]) / if matrix { f.vm } else { f.vs } as f64 * 0.01 * i.unit; prev.insert(i.code.clone(), x);
                        out.get_mut(&i.code).unwrap().insert(if matrix { format!("vega_matrix/{u}/{a}/{b}") } else { format!("vega_structure/{u}/{a}") }, y);
                        c.ev(if matrix { "matrix_cells" } else { "vega_buckets" });
                    }
                } }
            }
        }
        if w.div.contains_key(u) {
            let l: Vec<&&Item> = items.iter().filter(|i| i.und.as_ref() == Some(u) && !matches!(i.wire, Wire::Stock)).collect();
            let t: Vec<I> = f.qt.iter().map(|x| node_time(w.e, w.off, x).1).collect();
            for k in 0..=t.len() {
                let m = again();
                let (a, b) = if k == t.len() { (None, None) } else { ((k > 0).then(|| inst(t[k - 1], w.off)), Some(inst(t[k], w.off))) };
                m.div[u].borrow_mut().bump_date_interval(a.as_ref(), b.as_ref(), f.q).unwrap();
                for i in &l { let x = (w.price(&m, i)? - p0[&i.code]) / f.q as f64 * 1e-4 * i.unit; out.get_mut(&i.code).unwrap().insert(if k == t.len() { format!("div_delta/{u}") } else { format!("div_structure/{u}/{k}") }, x); c.ev(if k == t.len() { "dividend_deltas" } else { "dividend_buckets" }); }
            }
        }
    }
    let curves: HashSet<&String> = items.iter().flat_map(|i| &i.curves).collect();
    let t: Vec<f32> = f.rt.iter().map(|x| node_time(w.e, w.off, x).0).collect();
    for u in curves {
        for k in 0..=t.len() {
            let m = again();
            let (a, b) = if k == t.len() { (None, None) } else { ((k > 0).then(|| t[k - 1]), Some(t[k])) };
            m.curve[u].borrow_mut().bump_time_interval(a, b, f.r).unwrap();
            for i in items.iter().filter(|i| i.curves.contains(u)) { let x = (w.price(&m, i)? - p0[&i.code]) / f.r as f64 * 1e-4 * i.unit; out.get_mut(&i.code).unwrap().insert(if k == t.len() { format!("rho/{u}") } else { format!("rho_structure/{u}/{k}") }, x); c.ev(if k == t.len() { "rhos" } else { "rho_buckets" }); }
        }
    }
    for i in items.iter().filter(|i| i.mat.is_some()) {
        let b = step(w, items, i); let d = yf(w.e, b);
        let m = w.market();
        m.ev.borrow_mut().set_date(inst(b, w.off));
        let x = w.price(&m, i)?;
        let cash: f64 = w.detail(&base, i)?.get_expected_coupon_amount().map_err(|e| e.to_string())?.iter().filter(|(t, _)| { let z = parts(t).0; z > w.e.0 && z <= b.0 }).map(|x| *x.1 as f64).sum();
        out.get_mut(&i.code).unwrap().insert("theta".into(), (x - p0[&i.code] + cash) * i.unit / d / 365.0); c.ev("thetas"); if cash != 0.0 { c.ev("thetas_with_cash"); }
    }
    Ok(out)
}
pub fn differ(w: &World, items: &[&Item], i: &Item, got: &Vals, want: &Vals, skip: &dyn Fn(&str) -> bool, scale: f64) -> Option<(String, String)> {
    let td = i.mat.map(|_| yf(w.e, step(w, items, i))).unwrap_or(1.0);
    for k in got.keys() { if !want.contains_key(k) && !skip(k) { return Some((k.clone(), format!("{k} of {} reported ({}) without cause", i.code, got[k]))); } }
    for (k, x) in want {
        if skip(k) { continue; }
        let Some(g) = got.get(k) else { return Some((k.clone(), format!("{k} of {} is missing (expected {x})", i.code))) };
        let s = scale * slack(w, i, k, td) + 2e-6 * x.abs();
        if !((g - x).abs() <= s) { return Some((k.clone(), format!("{k} of {} is {g}, expected {x} (margin {s})", i.code))); }
    }
    None
}
fn revalued(r: &mut Rng, c: &mut Case) -> R {
    let n = if r.chance(0.12) { 8 + r.below(10) } else { 1 + r.below(7) }; let w = world(r, c, n);
    if w.items.is_empty() { c.ev("empty"); return Ok(()); }
    let items: Vec<&Item> = w.items.iter().collect();
    c.folds(&w.desc);
    let d = || w.desc.clone();
    let want = oracle(&w, &items, c);
    let got = match guarded(|| w.run(&w.conf, &items)) { Ok(x) => x, Err(e) => fail!("engine:panic", "{e:?}; {}", d()) };
    let want = match want { Ok(x) => x, Err(e) => { check!(got.is_err(), "engine:error-hidden", "stand-alone pricing refuses ({e}) and the engine reports; {}", d()); c.ev("refused_alike"); return Ok(()); } };
    let got = must!(got, "engine:refused", "{}", d());
    check!(got.len() == items.len(), "engine:results", "{} results for {} instruments; {}", got.len(), items.len(), d());
    for i in &items {
        let x = some!(got.get(&i.code), "engine:results", "no result for {}; {}", i.code, d());
        let q = x.get_instrument_info().unwrap();
        check!(q.get_code() == &i.code && q.get_currency() == *i.ins.get_currency() && q.get_unit_notional() as f64 == i.unit && q.type_name() == i.ins.get_type_name() && x.get_evaluation_date() == Some(&inst(w.e, w.off)), "engine:info", "{:?}; {}", q, d());
        let g = flat(x);
        if let Some((k, m)) = differ(&w, &items, i, &g, &want[&i.code], &|_| false, 1.0) { fail!(&format!("engine:{}", measure(&k)), "{m}; {}", d()) }
        for v in g.values() { c.foldf(*v); }
        c.ev("instruments"); c.ev(match i.wire { Wire::Fut => "futures", Wire::Opt { quanto: None, .. } => "options", Wire::Opt { .. } => "quanto_options", Wire::Bond { fwd: false, .. } => "fixed_bonds", Wire::Bond { .. } => "floating_bonds", Wire::FxFut { .. } => "fx_futures", Wire::Swap { fx: None, .. } => "irs", Wire::Swap { .. } => "currency_swaps", Wire::Stock => "stocks", Wire::Cash => "cash" });
        c.evn("numbers_compared", want[&i.code].len() as u64);
    }
    c.nontrivial = true; c.sample(|| format!("{} instruments; {}", items.len(), w.desc.chars().take(1500).collect::<String>()));
    Ok(())
}
/// treasury-bond futures reach the engine through their own pricer
fn treasury(r: &mut Rng, c: &mut Case) -> R {
    let w = world(r, c, 1); let k = Cal::new(r, w.off);
    let mt = (w.e.0 + 60, w.e.1);
    let Some(b) = (0..200).find_map(|_| bond(r, c, w.e, w.off, Some(mt), &k, None, KRW, w.e.0 + 9000).filter(|b| b.mat.0 > mt.0 + 800 && b.issue < mt)) else { return Ok(()) };
    let f = must!(KTBF::new(KRW, 1e6, inst(w.e, w.off), inst(mt, w.off), inst(mt, w.off), KtbfVirtualBond::new(3, 0.05, F::SemiAnnually, 100.0), vec![b.bond], "GOV".into(), "ktbf".into(), "K1".into()), "harness:ktbf", "");
    let i = Item { ins: Instrument::KTBF(f), wire: Wire::Cash, und: None, code: "K1".into(), gross: 100.0, unit: 1e6, mat: Some(mt), curves: vec![], desc: "treasury future".into() };
    let mut cf = w.conf.clone(); cf.on = [false; 11];
    let g = guarded(|| w.run(&cf, &[&i])); c.ev("treasury_portfolios"); c.fold(r.u64()); c.nontrivial = true;
    match g { Ok(Ok(_)) => {} Ok(Err(e)) => { c.known("engine:treasury-future", || e); } Err(e) => { c.known("engine:treasury-future", || format!("{e:?}")); } }
    Ok(())
}
pub fn c35(run: &mut Run) {
    run.rule("random portfolios of every supported kind in random markets and configurations; every value and sensitivity the engine reports against repricing in a market rebuilt from the data with the one shifted input");
    run.assume("stand-alone pricers and bump functions of the parameters are decided by C27–C34; sensitivities of the curves an instrument only borrows on are not reported");
    for k in ["futures", "options", "quanto_options", "fixed_bonds", "floating_bonds", "fx_futures", "irs", "currency_swaps", "stocks", "cash", "cross_rates", "inverse_rates", "thetas_with_cash", "daily_settled_options"] { run.require(k, 30); }
    run.require("instruments", 500); run.require("numbers_compared", 10_000);
    let _m = Mute::new();
    run.family("portfolio", 300, 60_000, revalued);
    run.family("treasury", 20, 200, treasury);
}

fn allowed(cf: &Conf, k: &str) -> bool { match measure(k) { "npv" | "value" => true, "delta" | "gamma" => cf.on[0] || cf.on[1], m => cf.on[MEASURES.iter().position(|x| *x == m).unwrap()] } }
fn subset(r: &mut Rng) -> [bool; 11] { let mut on = [false; 11]; match r.below(3) { 0 => on[r.below(11)] = true, 1 => for x in on.iter_mut() { *x = r.bool(); }, _ => { on = [true; 11]; on[r.below(11)] = false; } } on }
fn together(r: &mut Rng, c: &mut Case) -> R {
    let n = if r.chance(0.12) { 5 + r.below(8) } else { 1 + r.below(4) }; let w = world(r, c, n);
    if w.items.is_empty() { c.ev("empty"); return Ok(()); }
    let items: Vec<&Item> = w.items.iter().collect();
    c.folds(&w.desc);
    let d = || w.desc.clone();
    let run = |cf: &Conf| match guarded(|| w.run(cf, &items)) { Ok(x) => Ok(x), Err(e) => Err(Fail { sig: "engine:panic".into(), detail: format!("{e:?}; measures {:?}; {}", cf.on, w.desc) }) };
    let full = match run(&w.conf)? { Ok(x) => x, Err(e) => {
        let mut cf = w.conf.clone(); cf.on = [false; 11];
        if let Ok(_) = run(&cf)? { // a measure is refused: then it must also be refused on its own
            let any = (0..11).any(|i| { let mut cf = w.conf.clone(); cf.on = [false; 11]; cf.on[i] = true; matches!(guarded(|| w.run(&cf, &items)), Ok(Err(_))) });
            check!(any, "measures:refused-together", "every measure is calculated alone but all together are refused ({e}); {}", d());
        }
        c.ev("refused"); return Ok(());
    } };
    let all: HashMap<String, Vals> = full.iter().map(|(k, x)| (k.clone(), flat(x))).collect();
    for _ in 0..3 {
        let mut cf = w.conf.clone(); cf.on = subset(r);
        let part = must!(run(&cf)?, "measures:refused-apart", "measures {:?}; {}", cf.on, d());
        for i in &items {
            let g = flat(some!(part.get(&i.code), "measures:result-missing", "{}; {}", i.code, d()));
            for k in g.keys() { check!(allowed(&cf, k), format!("measures:unrequested:{}", measure(k)), "{k} of {} was not requested (measures {:?}); {}", i.code, cf.on, d()); }
            let want: Vals = all[&i.code].iter().filter(|(k, _)| allowed(&cf, k)).map(|(k, v)| (k.clone(), *v)).collect();
            if let Some((k, m)) = differ(&w, &items, i, &g, &want, &|_| false, 2.0) { fail!(&format!("measures:{}", measure(&k)), "together with others: {m} (measures {:?}); {}", cf.on, d()) }
            c.evn("numbers_compared", want.len() as u64);
        }
        let j = cf.on.iter().filter(|x| **x).count(); c.ev(if j == 1 { "measures_alone" } else if j == 10 { "all_but_one" } else { "subsets" });
    }
    // the market is as it was
    let mut cf = w.conf.clone(); if r.bool() { cf.on = subset(r); }
    let mut e = must!(w.engine(&cf, &items), "measures:refused", "{}", d());
    let p0 = must!(e.get_npvs(), "measures:values", "{}", d());
    let fail = |m: &str, e: String| Fail { sig: format!("market:{m}"), detail: format!("{e}; measures {:?}; {}", cf.on, w.desc) };
    match guarded(|| e.calculate()) { Ok(Ok(())) => {} Ok(Err(x)) => return Err(fail("refused", format!("{x:#}"))), Err(x) => return Err(fail("panic", format!("{x:?}"))) }
    let first: HashMap<String, Vals> = e.get_calculation_result_clone().iter().map(|(k, x)| (k.clone(), flat(x))).collect();
    e.reset_instruments_in_action();
    let p1 = must!(e.get_npvs(), "market:values", "after a calculation; {}", d());
    check!(p1.len() == items.len(), "market:values", "{} values of {}; {}", p1.len(), items.len(), d());
    for i in &items { let (a, b) = (p0[&i.code] as f64, p1[&i.code] as f64); check!((a - b).abs() <= 4e-6 * i.gross + 2e-6 * a.abs(), "market:value-moved", "{} was worth {a} before the calculation and {b} after it; measures {:?}; {}", i.code, cf.on, d()); }
    match guarded(|| e.calculate()) { Ok(Ok(())) => {} Ok(Err(x)) => return Err(fail("second-refused", format!("{x:#}"))), Err(x) => return Err(fail("second-panic", format!("{x:?}"))) }
    let again = e.get_calculation_result_clone();
    for i in &items { let g = flat(&again[&i.code]); if let Some((k, m)) = differ(&w, &items, i, &g, &first[&i.code], &|_| false, 2.0) { return Err(fail(&format!("second-calculation:{}", measure(&k)), format!("in a second calculation {m}"))) } }
    c.ev("revaluations"); c.nontrivial = true; c.sample(|| format!("{} instruments; {}", items.len(), w.desc.chars().take(1500).collect::<String>()));
    Ok(())
}
pub fn c36(run: &mut Run) {
    run.rule("random portfolios; results of random sets of measures against all measures together; values and results of the same engine after a calculation");
    run.require("numbers_compared", 5000); for k in ["measures_alone", "subsets", "all_but_one", "revaluations"] { run.require(k, 60); }
    let _m = Mute::new();
    run.family("together", 350, 60_000, together);
}
pub type Cat = (Option<Vec<String>>, Option<Vec<Currency>>, Option<Vec<String>>);
fn takes(c: &Cat, i: &Item) -> bool {
    let u: Vec<String> = i.ins.get_underlying_codes().into_iter().cloned().collect();
    c.0.as_ref().map_or(true, |t| t.iter().any(|x| x == i.ins.get_type_name())) && c.1.as_ref().map_or(true, |t| t.contains(i.ins.get_currency())) && c.2.as_ref().map_or(true, |t| u.is_empty() || *t == u)
}
/// Ok(results), Err(distribution error), or Err of the calculation
pub fn generate(w: &World, items: &[&Item], cats: &[Cat], again: bool) -> Result<HashMap<String, CalculationResult>, (bool, String)> {
    let mut g = EngineGenerator::builder();
    let s = |e: anyhow::Error| (false, format!("{e:#}"));
    g.with_configuration(w.conf.make(), inst(w.e, w.off), w.mp.clone()).map_err(s)?;
    g.with_instruments(Instruments::new(items.iter().map(|i| Rc::new(i.ins.clone())).collect())).map_err(s)?;
    g.with_instrument_categories(cats.iter().map(|c| InstrumentCategory::new(c.0.clone(), c.1.clone(), c.2.clone())).collect()).map_err(s)?;
    g.with_data(w.fx.clone(), w.stock.clone(), w.curve.clone(), w.div.clone(), w.cvol.clone(), w.svol.clone(), w.fxvol.clone(), w.corr.clone(), w.past.clone()).map_err(s)?;
    g.distribute_instruments().map_err(|e| (true, format!("{e:#}")))?;
    g.calculate().map_err(s)?;
    if again { g.distribute_instruments().map_err(|e| (true, format!("{e:#}")))?; g.calculate().map_err(s)?; }
    Ok(g.get_calculation_results().clone())
}
fn parallel(r: &mut Rng, c: &mut Case) -> R {
    let n = 2 + r.below(9); let mut w = world(r, c, n);
    let mut on = [false; 11]; for x in on.iter_mut() { *x = r.chance(0.4); } on[5] = r.chance(0.8); w.conf.on = on;
    let mut order: Vec<usize> = (0..w.items.len()).collect(); for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
    let items: Vec<&Item> = order.iter().map(|i| &w.items[*i]).collect();
    if items.is_empty() { c.ev("empty"); return Ok(()); }
    let types: Vec<String> = { let mut v: Vec<String> = items.iter().map(|i| i.ins.get_type_name().to_string()).collect(); v.sort(); v.dedup(); v };
    let curs: Vec<Currency> = { let mut v: Vec<Currency> = items.iter().map(|i| *i.ins.get_currency()).collect(); v.sort(); v.dedup(); v };
    let one = |r: &mut Rng, all: &[String]| { let mut v: Vec<String> = all.iter().filter(|_| r.bool()).cloned().collect(); if v.is_empty() { v.push(r.pick(all).clone()); } v };
    let mut cats: Vec<Cat> = (0..r.below(6)).map(|_| (r.chance(0.6).then(|| one(r, &types)), r.chance(0.5).then(|| { let k = r.below(curs.len()); vec![curs[k]] }), r.chance(0.5).then(|| vec![r.pick(&["S1", "S2", "S3", "S4", "S5"]).to_string()]))).collect();
    if r.chance(0.8) { let at = if r.chance(0.7) { cats.len() } else { r.below(cats.len() + 1) }; cats.insert(at, (None, None, None)); }
    let fail_curve = r.chance(0.15);
    if fail_curve { let cv: Vec<String> = items.iter().flat_map(|i| i.curves.clone()).collect(); if !cv.is_empty() { let k = r.pick(&cv).clone(); w.curve.remove(&k); w.desc += &format!("; curve {k} withheld"); } }
    let items: Vec<&Item> = order.iter().map(|i| &w.items[*i]).collect();
    let desc = format!("order {:?}; categories {cats:?}; {}", items.iter().map(|i| &i.code).collect::<Vec<_>>(), w.desc); c.folds(&desc);
    let mut groups: Vec<Vec<&Item>> = vec![vec![]; cats.len()]; let mut lost = vec![];
    for i in &items { match cats.iter().position(|k| takes(k, i)) { Some(k) => groups[k].push(*i), None => lost.push(*i) } }
    let threads = *r.pick(&[1usize, 2, 4, 8]); let twice = r.chance(0.2);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let got = match guarded(|| pool.install(|| generate(&w, &items, &cats, twice))) { Ok(x) => x, Err(e) => fail!("parallel:panic", "{e:?}; {desc}") };
    if !lost.is_empty() {
        match got { Ok(_) => fail!("parallel:lost", "{:?} match no category and nothing is said; {desc}", lost.iter().map(|i| &i.code).collect::<Vec<_>>()),
            Err((_, e)) => { for i in &lost { check!(e.contains(i.code.as_str()), "parallel:unnamed", "{} matches no category but the error does not name it: {e}; {desc}", i.code); } } }
        c.ev("undistributed"); c.nontrivial = true; return Ok(());
    }
    // each group calculated on its own, one after the other
    let mut want: HashMap<String, (Vals, usize)> = HashMap::new(); let mut refused = None;
    for (k, g) in groups.iter().enumerate().filter(|g| !g.1.is_empty()) { match guarded(|| w.run(&w.conf, g)) { Ok(Ok(x)) => for (n, v) in x { want.insert(n, (flat(&v), k)); }, Ok(Err(e)) => refused = Some(e), Err(e) => fail!("parallel:panic", "{e:?}; {desc}") } }
    let got = match (got, refused) { (Ok(_), Some(e)) => fail!("parallel:error-hidden", "a group fails alone ({e}) but the whole reports success; {desc}"), (Err(_), Some(_)) => { c.ev("failing_groups"); c.nontrivial = true; return Ok(()) } (Err((_, e)), None) => fail!("parallel:refused", "{e}; {desc}"), (Ok(x), None) => x };
    check!(got.len() == items.len(), "parallel:results", "{} results for {} instruments; {desc}", got.len(), items.len());
    for i in &items {
        let x = some!(got.get(&i.code), "parallel:results", "no result for {}; {desc}", i.code);
        check!(x.get_instrument_info().map(|q| q.get_code() == &i.code && q.type_name() == i.ins.get_type_name()) == Some(true), "parallel:identity", "result filed under {} is of {:?}; {desc}", i.code, x.get_instrument_info());
        let g = flat(x); let (v, k) = &want[&i.code];
        if let Some((k, m)) = differ(&w, &groups[*k], i, &g, v, &|_| false, 2.0) { fail!(&format!("parallel:group:{}", measure(&k)), "against its group alone: {m}; {desc}") }
        c.evn("numbers_compared", v.len() as u64);
    }
    // and each instrument alone
    let i = *r.pick(&items);
    let alone = match guarded(|| w.run(&w.conf, &[i])) { Ok(x) => flat(&must!(x, "parallel:refused", "{} alone; {desc}", i.code)[&i.code]), Err(e) => fail!("parallel:panic", "{e:?}; {desc}") };
    let soon = step(&w, &[i], i) != step(&w, &groups[want[&i.code].1], i);
    if let Some((k, m)) = differ(&w, &[i], i, &flat(&got[&i.code]), &alone, &|k| soon && k == "theta", 2.0) { fail!(&format!("parallel:alone:{}", measure(&k)), "against {} alone: {m}; {desc}", i.code) }
    if soon { c.ev("group_dependent_theta"); }
    let used = groups.iter().filter(|g| !g.is_empty()).count();
    c.ev(match used { 1 => "one_group", 2 | 3 => "two_or_three_groups", _ => "many_groups" }); c.ev(match threads { 1 => "one_thread", 2 | 4 => "few_threads", _ => "eight_threads" });
    if items.iter().any(|i| cats.iter().filter(|k| takes(k, i)).count() > 1) { c.ev("overlapping_categories"); }
    if twice { c.ev("calculated_twice"); }
    c.evn("instruments", items.len() as u64); c.nontrivial = used > 1; c.sample(|| desc.chars().take(1500).collect::<String>());
    Ok(())
}
/// many small groups finishing at once
fn crowd(r: &mut Rng, c: &mut Case) -> R {
    let mut w = world(r, c, 1);
    let one = r.chance(0.3); let n = 24 + r.below(if one { 120 } else { 41 }); w.items.clear();
    for k in 0..n { let cur = if one || r.bool() { KRW } else { USD }; let x = format!("CASH{k}"); w.items.push(Item { ins: Instrument::Cash(Cash::new(cur, x.clone(), x.clone())), wire: Wire::Cash, curves: vec![], und: None, code: x, gross: 1.0, unit: 1.0, mat: None, desc: "cash".into() }); }
    // futures on distinct dates share one underlying; each category is the next type and currency combination
    let (u, s) = (*r.pick(&["S1", "S2"]), 100.0f32); let t = inst((w.e.0 + 100, w.e.1), w.off); let uc = *w.stock[u].get_currency();
    for (k, cur) in [KRW, USD, EUR, JPY, CNY, GBP, AUD, CAD, CHF, NZD, SEK, NOK, HKD, SGD, TWD, THB].iter().enumerate() { let x = format!("F{k}"); w.items.push(Item { ins: Instrument::Futures(Futures::new(s, inst(w.e, w.off), t, t, t, 1.0, *cur, uc, u.into(), x.clone(), x.clone())), wire: Wire::Fut, curves: vec![], und: Some(u.into()), code: x, gross: 1.0, unit: 1.0, mat: Some((w.e.0 + 100, w.e.1)), desc: "future".into() }); }
    w.conf.on = [false; 11];
    let items: Vec<&Item> = w.items.iter().collect();
    let cats: Vec<Cat> = [KRW, USD, EUR, JPY, CNY, GBP, AUD, CAD, CHF, NZD, SEK, NOK, HKD, SGD, TWD, THB].iter().flat_map(|k| [(Some(vec!["Futures".to_string()]), Some(vec![*k]), None), (Some(vec!["Cash".to_string()]), Some(vec![*k]), None)]).collect();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    c.folds(&w.desc);
    for _ in 0..3 {
        let got = match guarded(|| pool.install(|| generate(&w, &items, &cats, false))) { Ok(Ok(x)) => x, Ok(Err(e)) => fail!("crowd:refused", "{e:?}; {}", w.desc), Err(e) => fail!("crowd:panic", "{e:?}; {}", w.desc) };
        let mut miss: Vec<&String> = items.iter().map(|i| &i.code).filter(|k| !got.contains_key(*k)).collect(); miss.sort();
        check!(miss.is_empty() && got.len() == items.len(), "crowd:results", "{} results for {} instruments in {} groups on 8 threads, missing {miss:?}", got.len(), items.len(), cats.len());
        for (k, x) in &got { check!(x.get_instrument_info().map(|q| q.get_code() == k) == Some(true) && x.get_value().is_some() && x.get_npv_result().is_some(), "crowd:identity", "result filed under {k} is {x:?}"); }
        c.ev("crowds"); c.evn("crowd_instruments", items.len() as u64);
    }
    c.nontrivial = true; Ok(())
}
pub fn c37(run: &mut Run) {
    run.rule("random portfolios, category lists, orders and thread pools; distribution recomputed independently, merged results against each group and each instrument calculated alone; crowds of small groups finishing together");
    run.assume("instrument codes are distinct");
    run.require("instruments", 600); run.require("numbers_compared", 3000); for k in ["undistributed", "failing_groups", "overlapping_categories", "two_or_three_groups", "eight_threads", "one_thread", "calculated_twice", "crowds"] { run.require(k, 10); } run.require("group_dependent_theta", 3); run.require("many_groups", 5);
    let _m = Mute::new();
    run.family("parallel", 400, 60_000, parallel);
    run.family_t("crowd", 40, 2000, 2, crowd);
}
