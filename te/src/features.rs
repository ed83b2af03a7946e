//! C12: quote features and weighted averages over random quote streams.
use serde_json::Value;
use trading_engine::data::krx::krx_converter as kc;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::feature::tick::{SimpleQuotes, TradePrice};
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::feature::weighted_valuation::{EWMA, EWMS};
use trading_engine::types::base::{LevelSnapshot, TradeHistory};
use trading_engine::types::timestamp::TimeScale;
use trading_engine::utils::numeric_converter::{IntegerConverter, OrderConverter};
use trading_engine::{IsinCode, TimeStamp};
use vmon::{check, close, fail, guarded, must, some, Case, Fail, Rng, Run, R};

fn scale(c: &IntegerConverter) -> f64 { let g = c.get_config(); 10f64.powi(g.float_normalizer.unwrap_or(0) + if g.drop_decimal_point { 0 } else { (g.decimal_point_length as i32 - 1).max(0) }) }
type Side = Vec<(i64, u64)>;
/// one tick of a random market: bids descend, asks ascend, levels may be empty
fn walk(r: &mut Rng, mid: &mut i64, tick: i64, n: usize) -> (Side, Side) {
    *mid += r.range(-2, 2) * tick;
    let q = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => 1, 2 => 1 + r.below(5) as u64, _ => 1 + r.below(100_000) as u64 };
    let gap = 1 + r.below(2) as i64;
    let b = (0..n as i64).map(|i| (*mid - (i + gap) * tick, q(r))).collect();
    let a = (0..n as i64).map(|i| (*mid + (i + gap) * tick, q(r))).collect();
    (b, a)
}
fn lv(s: &Side) -> Vec<LevelSnapshot> { s.iter().map(|(p, q)| LevelSnapshot { book_price: *p, book_quantity: *q, ..Default::default() }).collect() }
fn sides(q: &SimpleQuotes) -> (Vec<(f64, f64)>, Vec<(f64, f64)>, u64, u64, u64) {
    let v: Value = serde_json::to_value(q).unwrap();
    let f = |k: &str| v[k].as_array().unwrap().iter().map(|x| (x["price"].as_f64().unwrap(), x["quantity"].as_f64().unwrap())).collect();
    let s = |k: &str| v[k]["stamp"].as_u64().or(v[k].as_u64()).unwrap_or(u64::MAX);
    (f("bids"), f("asks"), s("timestamp"), s("system_time"), v["level_cut"].as_u64().unwrap_or(0))
}
fn convs() -> [&'static OrderConverter; 4] { [kc::get_krx_stock_order_converter(), kc::get_krx_base_bond_order_converter(), kc::get_krx_repo_order_converter(), kc::get_krx_derivative_converter(b"G703F", &IsinCode::default())] }

fn quotes(r: &mut Rng, c: &mut Case) -> R {
    let oc = *r.pick(&convs());
    let (sp, sq) = (scale(&oc.price), scale(&oc.quantity));
    let tick = *r.pick(&[1i64, 5, 100, 2500]);
    let mut mid = r.range(-50, 4_000) * tick * 10;
    let cut = r.below(11);
    let extra = r.below(3); // unused levels beyond the cut
    let mut feature: Option<SimpleQuotes> = if r.chance(0.3) { c.ev("quotes_made_with_capacity"); Some(SimpleQuotes::with_capacity(cut)) } else { None };
    let mut prev: Option<(Side, Side)> = None;
    for step in 0..30u64 {
        let deeper = if feature.is_some() && r.chance(0.2) { 1 + r.below(3) } else { 0 };
        let shallow = feature.is_some() && cut > 0 && r.chance(0.05);
        let (mut b, mut a) = walk(r, &mut mid, tick, cut + deeper + extra);
        if r.chance(0.1) { if let Some(p) = &prev { b = p.0.clone(); a = p.1.clone(); b.resize(cut + deeper + extra, (0, 0)); a.resize(cut + deeper + extra, (0, 0)); for x in b.iter_mut().chain(a.iter_mut()) { if r.chance(0.3) { x.1 = r.below(50) as u64; } } } }
        if r.chance(0.05) { for x in a.iter_mut() { x.1 = 0; } } if r.chance(0.05) { for x in b.iter_mut() { x.1 = 0; } }
        let (t, sys) = (r.u64() >> 2, r.u64() >> 2);
        let dcut = if shallow { cut - 1 } else { cut + deeper };
        let old = feature.clone();
        let kind = r.bool();
        let mut qs = QuoteSnapshot::default(); let mut tq = TradeQuoteSnapshot::default();
        if kind { qs.ask_quote_data = lv(&a); qs.bid_quote_data = lv(&b); qs.quote_level_cut = dcut; qs.timestamp = TimeStamp::new(t); qs.system_timestamp = TimeStamp::new(sys); qs.order_converter = oc; }
        else { tq.ask_quote_data = lv(&a); tq.bid_quote_data = lv(&b); tq.quote_level_cut = dcut; tq.timestamp = TimeStamp::new(t); tq.system_timestamp = TimeStamp::new(sys); tq.order_converter = oc; }
        let f = match feature.take() {
            None => if kind { SimpleQuotes::new_from_quote_sanpshot(&qs) } else { SimpleQuotes::new_from_trade_quote_snapshot(&tq) },
            Some(mut f) => {
                let before = sides(&f);
                let res = guarded(|| if kind { f.update_quote_snapshot(&qs) } else { f.update_trade_quote_snapshot(&tq) });
                match res {
                    Err((l, m)) => fail!("quotes:panic", "updating quotes of {cut} levels with a snapshot of {dcut} levels panics at {l}: {m}"),
                    Ok(Err(_)) => { check!(shallow, "quotes:update-refused", "a snapshot with {dcut} levels was refused by quotes of {cut} levels"); check!(sides(&f) == before, "quotes:refused-update-changed", "a refused update changed the quotes"); c.ev("shallow_updates_refused"); feature = Some(f); continue; }
                    Ok(Ok(())) => check!(!shallow, "quotes:shallow-accepted", "a snapshot with {dcut} levels was accepted by quotes of {cut} levels"),
                }
                c.ev("updates"); f
            }
        };
        b.truncate(cut); a.truncate(cut);
        let real = |s: &Side| -> Vec<(f64, f64)> { s.iter().map(|(p, q)| (*p as f64 / sp, *q as f64 / sq)).collect() };
        let (rb, ra) = (real(&b), real(&a));
        let s = sides(&f);
        let same = |x: &[(f64, f64)], y: &[(f64, f64)]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x.0, y.0, 1e-12, 0.0) && close(x.1, y.1, 1e-12, 0.0));
        check!(same(&s.0, &rb) && same(&s.1, &ra), "quotes:levels", "step {step}: quotes hold bids {:?} asks {:?}, the snapshot says {rb:?} {ra:?}", s.0, s.1);
        check!(s.2 == t && s.3 == sys && s.4 == cut as u64, "quotes:times", "step {step}: exchange time {} receive time {} cut {}, snapshot says {t} {sys} {cut}", s.2, s.3, s.4);
        // best prices, mid, volume-weighted average
        let bb = rb.iter().find(|x| x.1 > 0.0).map(|x| x.0); let ba = ra.iter().find(|x| x.1 > 0.0).map(|x| x.0);
        let eq = |x: Option<f64>, y: Option<f64>| match (x, y) { (Some(x), Some(y)) => close(x, y, 1e-12, 1e-12), (None, None) => true, _ => false };
        check!(eq(f.best_bid_price(), bb) && eq(f.best_ask_price(), ba), "quotes:best", "best {:?} / {:?}, want {bb:?} / {ba:?}", f.best_bid_price(), f.best_ask_price());
        check!(eq(f.mid_price(), bb.zip(ba).map(|(x, y)| (x + y) / 2.0)), "quotes:mid", "mid {:?}, best {bb:?} / {ba:?}", f.mid_price());
        if bb.is_some() && ba.is_some() {
            let (mut n, mut d, mut ab) = (0.0, 0.0, 0.0); for (p, q) in rb.iter().chain(&ra) { n += p * q; ab += (p * q).abs(); d += q; }
            let v = some!(f.vwap(), "quotes:vwap", "no average although both sides have quantity");
            check!(close(v, n / d, 1e-11, 1e-11 * ab / d), "quotes:vwap", "volume-weighted price {v}, want {}; bids {rb:?} asks {ra:?}", n / d);
            let lo = rb.iter().chain(&ra).filter(|x| x.1 > 0.0).map(|x| x.0).fold(f64::INFINITY, f64::min); let hi = rb.iter().chain(&ra).filter(|x| x.1 > 0.0).map(|x| x.0).fold(f64::NEG_INFINITY, f64::max);
            check!(v >= lo - 1e-9 * lo.abs() && v <= hi + 1e-9 * hi.abs(), "quotes:vwap", "{v} outside [{lo}, {hi}]");
            c.ev("two_sided_books");
        } else { c.ev("one_sided_or_empty_books");
            if bb.is_none() && ba.is_none() { check!(f.vwap().is_none(), "quotes:vwap", "average of an empty book is {:?}", f.vwap()); } }
        // order flow imbalance against the previous quotes
        if let (Some(o), Some((pb, pa))) = (&old, &prev) {
            check!([0, cut + 1 + r.below(5)].iter().all(|l| o.get_bid_orderflow_imbalance(*l, &f).is_err() && o.get_ask_orderflow_imbalance(*l, &f).is_err() && o.get_bid_ln_orderflow_imbalance(*l, &f).is_err() && o.get_ask_ln_orderflow_imbalance(*l, &f).is_err()) && o.get_orederflow_imbalance(0, &f).is_err() && o.get_orederflow_imbalance(cut + 1, &f).is_err() && o.get_ln_orderflow_imbalance(0, &f).is_err() && o.get_ln_orderflow_imbalance(cut + 1 + r.below(5), &f).is_err(), "ofi:level-accepted", "level 0 or a level beyond the cut {cut} accepted");
            for l in 1..=cut {
                let side = |prev: (i64, u64), cur: (i64, u64), up: bool| -> (f64, Option<f64>) {
                    let (pq, cq) = (prev.1 as f64 / sq, cur.1 as f64 / sq);
                    let better = if up { cur.0 > prev.0 } else { cur.0 < prev.0 };
                    if cur.0 == prev.0 { (cq - pq, (pq > 0.0 && cq > 0.0).then(|| cq.ln() - pq.ln())) } else if better { (cq, (cq > 0.0 && pq > 0.0).then(|| cq.ln())) } else { (-pq, (pq > 0.0 && cq > 0.0).then(|| -pq.ln())) }
                };
                let (bi, bl) = side(pb[l - 1], b[l - 1], true);
                let (ai, al) = side(pa[l - 1], a[l - 1], false);
                let d = || format!("level {l}: bid {:?} -> {:?}, ask {:?} -> {:?}, quantity scale {sq}", pb[l - 1], b[l - 1], pa[l - 1], a[l - 1]);
                let g = must!(o.get_bid_orderflow_imbalance(l, &f), "ofi:refused", "{}", d());
                check!(close(g, bi, 1e-11, 1e-12), "ofi:bid", "bid imbalance {g}, want {bi}; {}", d());
                let g = must!(o.get_ask_orderflow_imbalance(l, &f), "ofi:refused", "{}", d());
                check!(close(g, ai, 1e-11, 1e-12), "ofi:ask", "ask imbalance {g}, want {ai}; {}", d());
                let g = must!(o.get_orederflow_imbalance(l, &f), "ofi:refused", "{}", d());
                check!(close(g, bi - ai, 1e-11, 1e-11 * (bi.abs() + ai.abs()) + 1e-12), "ofi:total", "imbalance {g}, want {}; {}", bi - ai, d());
                for (got, want, n) in [(o.get_bid_ln_orderflow_imbalance(l, &f), bl, "bid"), (o.get_ask_ln_orderflow_imbalance(l, &f), al, "ask"), (o.get_ln_orderflow_imbalance(l, &f), bl.zip(al).map(|(x, y)| x - y), "total")] {
                    let got = must!(got, "ofi:refused", "{}", d());
                    check!(got.is_finite(), "ofi:ln-infinite", "log imbalance ({n}) is {got}; {}", d());
                    match want { Some(w) => { c.ev("log_imbalances"); check!(close(got, w, 1e-9, 1e-9), "ofi:ln", "log imbalance ({n}) {got}, want {w}; {}", d()) } None => c.ev("log_imbalances_with_zero_quantity") }
                }
                c.ev(if b[l - 1].0 == pb[l - 1].0 { "level_price_unchanged" } else { "level_price_moved" });
            }
        }
        c.fold(mid as u64); c.fold(b.first().map_or(0, |x| x.1));
        prev = Some((b, a)); feature = Some(f);
    }
    c.sample(|| format!("30 snapshots of {cut} levels, tick {tick}, price scale {sp}, quantity scale {sq}"));
    c.nontrivial = cut > 0;
    Ok(())
}
fn averages(r: &mut Rng, c: &mut Case) -> R {
    let (sc, ns, sn) = *r.pick(&[(TimeScale::Micro, 1e3, "micro"), (TimeScale::Milli, 1e6, "milli"), (TimeScale::Second, 1e9, "second"), (TimeScale::Minute, 60e9, "minute"), (TimeScale::Hour, 3600e9, "hour"), (TimeScale::Day, 86400e9, "day")]);
    let w = match r.below(5) { 0 => 1.0, 1 => 0.0, _ => r.f64() };
    let tw = TimeSeriesWeight { weight: w, scale: sc };
    let mut t = r.u64() >> 4;
    let v0 = r.uni(-1000.0, 1000.0);
    let mut e = EWMA::new(tw, v0, TimeStamp::new(t));
    let mut s = EWMS::new(tw, TimeStamp::new(t));
    check!(e.get_value() == v0 && s.get_value() == 0.0, "average:start", "fresh averages hold {} / {}", e.get_value(), s.get_value());
    // closed form: every sample decays with its own age
    let mut obs: Vec<(u64, f64)> = vec![];
    let mut lo = v0; let mut hi = v0;
    let t0 = t;
    for i in 0..25 {
        let gap = match r.below(5) { 0 => 0, 1 => ns as u64, 2 => r.below((ns * 5.0) as usize) as u64, 3 => r.below((ns / 10.0) as usize) as u64, _ => r.below((ns * 2.0) as usize) as u64 };
        let prev = t; t += gap;
        let x = r.uni(-1000.0, 1000.0);
        let before = e.get_value();
        let same = guarded(|| { e.update(x, TimeStamp::new(t)); s.update(x, TimeStamp::new(t)); });
        if let Err((l, m)) = same { fail!("average:panic", "update panics at {l}: {m}") }
        let d = |a: u64, b: u64| w.powf((b - a) as f64 / ns);
        let a = d(prev, t);
        let want = a * before + (1.0 - a) * x;
        check!(close(e.get_value(), want, 1e-9, 1e-9), "average:step", "step {i}: average {} after {before} and sample {x} over {} {sn}s (weight {w}), want {want}", e.get_value(), (t - prev) as f64 / ns);
        lo = lo.min(x); hi = hi.max(x);
        check!(e.get_value() >= lo - 1e-6 && e.get_value() <= hi + 1e-6, "average:range", "average {} outside [{lo}, {hi}]", e.get_value());
        obs.push((t, x));
        let sum: f64 = obs.iter().map(|(u, x)| if *u == t { *x } else { d(*u, t) * x }).sum();
        // samples taken at the same instant keep full weight (0^0 = 1 when the weight is 0)
        check!(close(s.get_value(), sum, 1e-8, 1e-8 * 1000.0 * obs.len() as f64 * 1e-2), "average:sum", "step {i}: decayed sum {}, want {sum} (weight {w} per {sn})", s.get_value());
        if w > 0.0 { let mut v = v0 * d(t0, t); let mut p = t0; for (u, x) in &obs { v += (1.0 - d(p, *u)) * x * d(*u, t); p = *u; } check!(close(e.get_value(), v, 1e-8, 1e-6), "average:closed-form", "step {i}: average {}, closed form {v} (weight {w} per {sn})", e.get_value()); }
        c.ev("average_updates"); if gap == 0 { c.ev("simultaneous_samples"); } c.foldf(x); 
    }
    // trade history
    let mut h = if r.bool() { TradeHistory::new() } else { TradeHistory::with_capacity(4) };
    check!(h.is_empty() && h.get_last_trade().is_none(), "history:empty", "fresh history is not empty");
    let (mut n, mut q) = (0i128, 0i128);
    for i in 0..1 + r.below(40) {
        let (p, k) = (r.range(-200_000, 2_000_000), 1 + r.below(10_000) as u64);
        h.push(p, k); n += p as i128 * k as i128; q += k as i128;
        check!(h.len() == i + 1 && h.get_last_trade() == Some((p, k)) && h[i] == (p, k), "history:last", "last trade {:?}", h.get_last_trade());
        check!(close(h.average_trade_price(), n as f64 / q as f64, 1e-12, 1e-9), "history:average", "average price {}, want {}", h.average_trade_price(), n as f64 / q as f64);
    }
    let oc = *r.pick(&convs());
    let td = TradeData { trade_price: r.range(-1_000_000, 10_000_000), order_converter: oc, ..Default::default() };
    check!(close(td.to_normalized_real(), td.trade_price as f64 / scale(&oc.price), 1e-12, 0.0), "trade:normalized", "{} -> {}", td.trade_price, td.to_normalized_real());
    // the trade price feature has no accessor: it is read from its debug text
    let td2 = TradeData { trade_price: r.range(-1_000_000, 10_000_000), timestamp: TimeStamp { stamp: r.u64() >> 1 }, order_converter: oc, ..Default::default() };
    let mut tp = if r.bool() { TradePrice::default() } else { TradePrice::new_from_trade_data(&td2) };
    let td = if r.bool() { tp.update_trade_data(&td2); td2 } else { tp.update_trade_data(&td); td };
    for x in [tp, TradePrice::new_from_trade_data(&td)] {
        let s = format!("{x:?}");
        let v: Option<f64> = s.split("value: ").nth(1).and_then(|x| x.split(|k: char| !(k.is_ascii_digit() || "+-.e".contains(k))).next()).and_then(|x| x.parse().ok());
        check!(v.is_some_and(|v| close(v, td.trade_price as f64 / scale(&oc.price), 1e-12, 0.0)) && s.contains(&format!("timestamp: {:?}", td.timestamp)), "trade-price:feature", "{s} for a trade at {} (scale {}) at {:?}", td.trade_price, scale(&oc.price), td.timestamp);
        c.ev("trade_prices");
    }
    c.ev("trade_histories"); c.nontrivial = true;
    c.sample(|| format!("25 samples, weight {w} per {sn}"));
    let _ = Fail::new("", "");
    Ok(())
}
pub fn c12(run: &mut Run) {
    run.rule("a quote case is a stream of 30 random snapshots (moving mid, empty levels, deeper and too shallow snapshots) feeding one feature object; an average case is 25 samples at random intervals; distinct by the values fed");
    run.assume("sample times do not run backwards; volume-weighted price judged when both sides have quantity; log imbalance judged numerically when all four quantities are positive and for finiteness otherwise");
    run.family("quotes", 6_000, 2_000_000, quotes);
    run.family("averages", 15_000, 4_000_000, averages);
    for (n, m) in [("quotes_made_with_capacity", 500), ("updates", 10_000), ("shallow_updates_refused", 100), ("two_sided_books", 10_000), ("one_sided_or_empty_books", 1000), ("log_imbalances", 10_000), ("log_imbalances_with_zero_quantity", 1000), ("level_price_unchanged", 1000), ("level_price_moved", 1000), ("average_updates", 10_000), ("simultaneous_samples", 1000)] { run.require(n, m); }
}
