//! C13: written trading records read back unchanged.  C14: datagrams arrive complete and unchanged.
use crate::{book, krx};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use trading_engine::conductor::oms::account::Balance;
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::order::*;
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::instruments::{instrument::{Instrument, InstrumentTrait}, mock_instrument::MockInstrument};
use trading_engine::orderbook::OrderBook;
use trading_engine::topics::LogTopic;
use trading_engine::types::base::{InstrumentIdentifier, LevelSnapshot, Slice, TradeHistory, VirtualOrderId};
use trading_engine::types::enums::{Currency, DataType, FromU8, OrderSide, TradeType};
use trading_engine::types::id::ticker::Ticker;
use trading_engine::types::id::{IdData, InstId, Symbol};
use trading_engine::types::inst_info::{BaseInstInfo, BaseInstMap, InstType};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeScale, TimeStampType};
use trading_engine::utils::numeric_converter::*;
use trading_engine::{IsinCode, TimeStamp, Venue};
use vmon::{check, must, Case, Rng, Run, R};

/// write, read, compare the debug forms and the second writing
fn back<T: Serialize + DeserializeOwned + Debug>(t: &T, c: &mut Case) -> Result<T, vmon::Fail> {
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
    let js = must!(serde_json::to_string(t), format!("{name}:write"), "{t:?} cannot be written");
    let b: T = must!(serde_json::from_str(&js), format!("{name}:read"), "{js} cannot be read back");
    check!(format!("{t:?}") == format!("{b:?}"), format!("{name}:changed"), "{t:?} came back as {b:?}");
    let again = must!(serde_json::to_string(&b), format!("{name}:write"), "{b:?} cannot be written again");
    check!(js == again, format!("{name}:rewritten"), "{js} is written as {again} after reading back");
    // any whitespace, the pretty form too
    let b2: T = must!(serde_json::from_str(&serde_json::to_string_pretty(t).unwrap()), format!("{name}:read"), "the pretty form of {t:?} cannot be read back");
    check!(format!("{t:?}") == format!("{b2:?}"), format!("{name}:changed"), "{t:?} came back from the pretty form as {b2:?}");
    c.ev("records_read_back");
    c.folds(&js);
    Ok(b)
}
fn eq<T: Serialize + DeserializeOwned + Debug + PartialEq>(t: &T, c: &mut Case) -> R {
    let b = back(t, c)?;
    check!(b == *t, format!("{}:unequal", std::any::type_name::<T>().rsplit("::").next().unwrap()), "{t:?} differs from its read-back {b:?}");
    Ok(())
}
fn u(r: &mut Rng) -> u64 { match r.below(5) { 0 => 0, 1 => u64::MAX, 2 => r.below(100) as u64, _ => r.u64() >> r.below(60) } }
fn i(r: &mut Rng) -> i64 { match r.below(6) { 0 => 0, 1 => i64::MAX, 2 => i64::MIN, 3 => -r.range(0, 1000), _ => (r.u64() as i64) >> r.below(60) } }
fn side(r: &mut Rng) -> OrderSide { if r.bool() { OrderSide::Ask } else { OrderSide::Bid } }
fn ts(r: &mut Rng) -> TimeStamp { TimeStamp::new(match r.below(4) { 0 => 0, 1 => u64::MAX, _ => r.u64() }) }
fn venue(r: &mut Rng) -> Venue { *r.pick(&[Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI]) }
fn isin(r: &mut Rng) -> IsinCode { let b: Vec<u8> = (0..12).map(|_| *r.pick(b"ABCDEFXYZ0123456789\"\\/")).collect(); IsinCode::new(&b).unwrap() }
fn symbol(r: &mut Rng) -> Symbol {
    if r.bool() { Symbol::Isin(isin(r)) } else { let n = r.below(9); let s: String = (0..n).map(|_| *r.pick(&['A', 'z', '0', '5', '"', '\\', 'é', '삼', ' '])).collect(); Symbol::Ticker(Ticker::new(s.as_bytes()).unwrap()) }
}
fn id(r: &mut Rng) -> InstId { InstId::new(symbol(r), venue(r)) }
fn level(r: &mut Rng) -> LevelSnapshot { LevelSnapshot { order_count: r.bool().then(|| r.u64() as u32), book_price: i(r), book_quantity: u(r), lp_quantity: r.bool().then(|| u(r)) } }
fn order(r: &mut Rng) -> OrderEnum {
    match r.below(5) {
        0 => OrderEnum::NullOrder(NullOrder {}),
        1 => OrderEnum::LimitOrder(LimitOrder::new(i(r), u(r), side(r), u(r))),
        2 => OrderEnum::RemoveAnyOrder(RemoveAnyOrder::new(i(r), u(r), side(r))),
        3 => OrderEnum::CancelOrder(CancelOrder::new(u(r))),
        _ => OrderEnum::ModifyOrder(ModifyOrder::new(u(r), i(r), u(r))),
    }
}
fn cur(r: &mut Rng) -> Currency { *r.pick(&[Currency::KRW, Currency::USD, Currency::EUR, Currency::GBP, Currency::JPY, Currency::CNY, Currency::HKD]) }
fn itype(r: &mut Rng) -> InstType { *r.pick(&[InstType::Cash, InstType::Stock, InstType::Bond, InstType::EquityFutures, InstType::FxFutures, InstType::CommodityFutures, InstType::EquityOption, InstType::Swap, InstType::Crypto]) }

fn records(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..4 {
        eq(&LimitOrder::new(i(r), u(r), side(r), u(r)), c)?;
        eq(&MarketOrder::new(u(r), side(r), u(r)), c)?;
        eq(&CancelOrder::new(u(r)), c)?;
        eq(&ModifyOrder::new(u(r), i(r), u(r)), c)?;
        eq(&RemoveAnyOrder::new(i(r), u(r), side(r)), c)?;
        eq(&NullOrder {}, c)?;
        eq(&order(r), c)?;
        let d = DecomposedOrder { order: order(r), timestamp: TimeStamp::new(r.u64() >> 1), id: id(r) };
        eq(&d, c)?;
        let t = ts(r);
        let js = must!(serde_json::to_string(&t), "TimeStamp:write", "{}", t.stamp);
        let b: TimeStamp = must!(serde_json::from_str(&js), "TimeStamp:read", "{js}");
        check!(b == t && b.stamp == t.stamp, "TimeStamp:unequal", "{} came back as {}", t.stamp, b.stamp);
        for s in [TimeScale::Micro, TimeScale::Milli, TimeScale::Second, TimeScale::Minute, TimeScale::Hour, TimeScale::Day] { eq(&s, c)?; }
        for s in [TimeStampType::HHMMSSuuuuuu, TimeStampType::UnixNanoStamp] { eq(&s, c)?; }
        eq(&level(r), c)?;
        let (x, mut y) = { let x = level(r); (x, if r.bool() { x } else { level(r) }) };
        match r.below(6) { 0 => y.book_price = i(r), 1 => y.book_quantity = u(r), 2 => y.order_count = r.bool().then(|| r.u64() as u32), 3 => y.lp_quantity = r.bool().then(|| u(r)), _ => {} }
        let same = (x.book_price, x.book_quantity, x.order_count, x.lp_quantity) == (y.book_price, y.book_quantity, y.order_count, y.lp_quantity);
        check!((x == y) == same && (&x == y) == same && (x == &y) == same && (y == x) == same, "LevelSnapshot:equality", "{x:?} == {y:?} is {} / {} / {}, expected {same}", x == y, &x == y, x == &y);
        c.ev(if same { "equal_levels" } else { "different_levels" });
        macro_rules! distinct { ($a:expr, $b:expr) => {{ let (a, b) = ($a, $b); check!((a == b) == (format!("{a:?}") == format!("{b:?}")), "equality", "{a:?} == {b:?} is {}", a == b); }} }
        distinct!(order(r), order(r)); distinct!(venue(r), venue(r)); distinct!(cur(r), cur(r)); distinct!(itype(r), itype(r)); distinct!(side(r), side(r)); distinct!(symbol(r), symbol(r)); distinct!(id(r), id(r));
        let n = r.below(6);
        let v: Vec<LevelSnapshot> = (0..n).map(|_| level(r)).collect();
        eq(&v, c)?;
        back(&Slice { start: r.u64() as usize, end: r.below(99) }, c)?;
        let first = u(r) >> 1;
        let mut vid = VirtualOrderId::new(first); for _ in 0..r.below(4) { vid.next_id(); }
        let mut vb = back(&vid, c)?;
        check!(vb == vid && vb.next_id() == vid.next_id() && vb.next_id() == vid.next_id(), "VirtualOrderId:unequal", "{vid:?} continues differently after reading back: {vb:?}");
        let mut h = TradeHistory::new();
        let n = r.below(8);
        for _ in 0..n { h.push(r.range(-100_000, 10_000_000), r.below(100_000) as u64 + 1); }
        let hb = back(&h, c)?;
        check!(hb == h && hb.len() == n && hb.get_last_trade() == h.get_last_trade() && (0..n).all(|k| hb[k] == h[k]), "TradeHistory:unequal", "{h:?} differs from its read-back {hb:?}");
        if n > 0 { check!(hb.average_trade_price() == h.average_trade_price(), "TradeHistory:average", "average of {h:?} changed"); }
        let mut bal = Balance::initialize(side(r), u(r));
        if r.bool() { bal.without_short_sell(); } if r.bool() { bal.with_upper_bound(u(r)); } if r.bool() { bal.with_lower_bound(u(r)); } bal.pending_order = u(r);
        eq(&bal, c)?;
        for t in [LogTopic::OfiLevelMismatch, LogTopic::ZeroQuantity, LogTopic::OrderNotFound, LogTopic::UnsupportedDigitSize, LogTopic::TooLongDigit, LogTopic::UnorderedTimeStamp, LogTopic::DateInUtcShift, LogTopic::TimeOut] {
            eq(&t, c)?;
            check!(serde_json::to_string(&t).unwrap() == format!("\"{}\"", t.as_str()) && format!("{t:?}") == t.as_str(), "LogTopic:name", "{t:?} is called {}", t.as_str());
        }
        for v in [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI] { eq(&v, c)?; check!(serde_json::to_string(&v).unwrap() == format!("\"{}\"", v.as_str()), "Venue:name", "{v:?} is called {}", v.as_str()); }
        let k = cur(r); eq(&k, c)?;
        check!(serde_json::to_string(&k).unwrap() == format!("\"{}\"", k.as_str()) && k.as_isin_code().as_str() == format!("{}000000000", k.as_str()) && &k.as_isin_bytes()[..3] == k.as_str().as_bytes(), "Currency:name", "{k:?} is called {}", k.as_str());
        for v in 0..=255u8 {
            check!(OrderSide::from_u8(v).ok().map(|s| s as u8) == (1..=2).contains(&v).then_some(v) && DataType::from_u8(v).ok().map(|s| s as u8) == (1..=3).contains(&v).then_some(v) && TradeType::from_u8(v).ok().map(|s| s as u8) == (v <= 2).then_some(v), "enum:code", "the code {v} reads {:?} {:?} {:?}", OrderSide::from_u8(v).ok(), DataType::from_u8(v).ok(), TradeType::from_u8(v).ok());
        }
        for s in [OrderSide::Ask, OrderSide::Bid] { eq(&s, c)?; } for s in [DataType::L1, DataType::L2, DataType::L3] { eq(&s, c)?; } for s in [TradeType::Undefined, TradeType::Sell, TradeType::Buy] { eq(&s, c)?; }
        eq(&isin(r), c)?; eq(&symbol(r), c)?; eq(&id(r), c)?; eq(&IdData { symbol: symbol(r), venue: venue(r) }, c)?;
        let ii = InstrumentIdentifier::new(isin(r), venue(r));
        let ib = back(&ii, c)?;
        check!(ib.get_isin_code() == ii.get_isin_code() && ib.get_venue() == ii.get_venue(), "InstrumentIdentifier:unequal", "{ii:?} came back as {ib:?}");
        eq(&itype(r), c)?;
        eq(&BaseInstInfo::new(itype(r), cur(r)), c)?;
        let w = TimeSeriesWeight { weight: r.below(1001) as f64 / 1000.0, scale: *r.pick(&[TimeScale::Micro, TimeScale::Second, TimeScale::Day]) };
        let wb = back(&w, c)?;
        let (a, b) = (TimeStamp::new(5_000_000_000), TimeStamp::new(5_000_000_000 + r.below(4_000_000_000) as u64));
        check!(wb == w && wb.apply(a, b) == w.apply(a, b), "TimeSeriesWeight:unequal", "{w:?} came back as {wb:?}");
        // a running date keeps its date and last time
        let mut g = DateUnixNanoGenerator::from_unixnano(r.u64() >> 1); g.cache_timestamp(r.u64() >> 1);
        let gb = back(&g, c)?;
        check!(gb.get_utcdate_unix_nano() == g.get_utcdate_unix_nano() && gb.get_prev_timestamp() == g.get_prev_timestamp() && gb.get_update_stamp() == g.get_update_stamp(), "DateUnixNanoGenerator:unequal", "{g:?} came back as {gb:?}");
        let dt = must!(time::OffsetDateTime::from_unix_timestamp(r.range(0, 4_000_000_000)), "harness", "date");
        let m = Instrument::Mock(MockInstrument::new(isin(r), venue(r), r.u64() as u32, dt, u(r), cfg(r), cfg(r)));
        let mb = back(&m, c)?;
        check!(mb.get_venue() == m.get_venue(), "Instrument:venue", "{m:?} trades at {:?} after reading back", mb.get_venue());
    }
    // instrument table: every entry is found again under its own identifier
    let mut map = BaseInstMap::new();
    let mut ids = vec![];
    let n = r.below(6);
    for _ in 0..n { let k = id(r); let v = BaseInstInfo::new(itype(r), cur(r)); map.insert(k, v); ids.push(k); }
    let js = must!(serde_json::to_string(&map), "BaseInstMap:write", "an instrument table of {n} entries cannot be written");
    let mb: BaseInstMap = must!(serde_json::from_str(&js), "BaseInstMap:read", "{js} cannot be read back");
    check!(mb == map && ids.iter().all(|k| mb.get(*k) == map.get(*k) && mb.get(*k).is_some()), "BaseInstMap:unequal", "{map:?} came back as {mb:?}");
    c.evn("table_entries_found_again", n as u64);
    c.nontrivial = true;
    Ok(())
}

fn cfg(r: &mut Rng) -> NumReprCfg {
    let (d, p, s, un) = (1 + r.below(12), *r.pick(&[0usize, 0, 2, 3, 4, 5]), r.bool(), *r.pick(&[0usize, 0, 1, 2, 3]));
    NumReprCfg { digit_length: d, decimal_point_length: p, is_signed: s, unused_length: un, total_length: d + p + un + s as usize, float_normalizer: if r.bool() { None } else { Some(r.range(0, 4) as i32) }, drop_decimal_point: r.chance(0.2) }
}
fn text(r: &mut Rng, g: &NumReprCfg) -> Vec<u8> {
    // sign, unused bytes, digits, point and decimals
    let mut v = vec![];
    if g.is_signed { v.push(*r.pick(b"0-")); }
    for _ in 0..g.unused_length { v.push(b'0'); }
    for _ in 0..g.digit_length { v.push(b'0' + r.below(10) as u8); }
    if g.decimal_point_length > 0 { v.push(b'.'); for _ in 1..g.decimal_point_length { v.push(b'0' + r.below(10) as u8); } }
    v
}
fn same_conv(a: &IntegerConverter, b: &IntegerConverter, r: &mut Rng, c: &mut Case, what: &str) -> R {
    let g = *a.get_config();
    check!(g == *b.get_config(), "IntegerConverter:config", "{what}: configuration {g:?} came back as {:?}", b.get_config());
    if g.total_length == 0 { return Ok(()); }
    for _ in 0..4 {
        let t = text(r, &g);
        let (x, y) = ((a.to_u64(&t), a.to_i64(&t)), (b.to_u64(&t), b.to_i64(&t)));
        check!(x == y, "IntegerConverter:value", "{what}: {:?} is {x:?} before and {y:?} after reading back; {g:?}", String::from_utf8_lossy(&t));
        let (p, q) = (a.normalized_real_from_i64(x.1), b.normalized_real_from_i64(x.1));
        check!(p == q && a.to_f64_from_i64(x.1) == b.to_f64_from_i64(x.1), "IntegerConverter:real", "{what}: {} is {p} before and {q} after reading back; {g:?}", x.1);
        c.ev("texts_converted_before_and_after");
        c.fold(x.0);
    }
    Ok(())
}
fn converters(r: &mut Rng, c: &mut Case) -> R {
    let mk = |r: &mut Rng| -> Result<IntegerConverter, vmon::Fail> { let g = cfg(r); Ok(must!(IntegerConverter::new(g), "IntegerConverter:refused", "{g:?}")) };
    let g = cfg(r);
    eq(&g, c)?;
    // a converter described by its layout alone
    let from_layout: IntegerConverter = must!(serde_json::from_str(&serde_json::to_string(&g).unwrap()), "IntegerConverter:layout", "a converter cannot be read from the layout {g:?}");
    same_conv(&must!(IntegerConverter::new(g), "IntegerConverter:refused", "{g:?}"), &from_layout, r, c, "from layout")?;
    let bad = NumReprCfg { total_length: g.total_length + 1, ..g };
    check!(serde_json::from_str::<IntegerConverter>(&serde_json::to_string(&bad).unwrap()).is_err(), "IntegerConverter:bad-layout", "the inconsistent layout {bad:?} was read as a converter");
    let a = mk(r)?; let b = back(&a, c)?; same_conv(&a, &b, r, c, "converter")?; same_conv(&a, &a.clone(), r, c, "copy")?;
    let o = OrderCounter { order_count: mk(r)? }; let ob = back(&o, c)?; same_conv(&o.order_count, &ob.order_count, r, c, "order counter")?;
    let o = OrderConverter { price: mk(r)?, quantity: mk(r)? }; let ob = back(&o, c)?; same_conv(&o.price, &ob.price, r, c, "price")?; same_conv(&o.quantity, &ob.quantity, r, c, "quantity")?;
    let o = YieldConverter { converter: mk(r)? }; let ob = back(&o, c)?; same_conv(&o.converter, &ob.converter, r, c, "yield")?;
    let o = CumQntConverter { converter: mk(r)? }; let ob = back(&o, c)?; same_conv(&o.converter, &ob.converter, r, c, "cumulative quantity")?;
    let off = *r.pick(&[0u64, 9 * 3600 * 1_000_000_000, 3600 * 1_000_000_000]);
    let o = TimeStampConverter::new(mk(r)?, off); let ob = back(&o, c)?; same_conv(&o.converter, &ob.converter, r, c, "time")?;
    let s = r.below(86_400);
    let t = format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, r.below(1_000_000));
    let g0 = DateUnixNanoGenerator::from_unixnano(1_700_000_000_000_000_000);
    let (mut g1, mut g2) = (g0, g0);
    let (x, y) = (o.parse_hhmmssuuuuuu(t.as_bytes(), None, &mut g1), ob.parse_hhmmssuuuuuu(t.as_bytes(), None, &mut g2));
    check!(x.as_ref().ok() == y.as_ref().ok() && x.is_ok(), "TimeStampConverter:value", "{t} is {x:?} before and {y:?} after reading back");
    // decoders that can be written
    let k = if r.bool() { krx::K::S02 } else { krx::K::S03 };
    let m = krx::gen_msg(r, k, s as u64 * 1_000_000);
    let cut = r.below(11);
    macro_rules! dec { ($t:ty) => {{
        let d = must!(<$t>::default().with_quote_level_cut(cut), "harness", "cut"); let db = back(&d, c)?;
        let (mut g1, mut g2) = (g0, g0);
        let x = must!(d.to_quote_snapshot(&m, &mut g1), "decoder:refused", "message"); let y = must!(db.to_quote_snapshot(&m, &mut g2), "decoder:refused", "after reading back");
        check!(x.id == y.id && x.timestamp == y.timestamp && x.ask_quote_data == y.ask_quote_data && x.bid_quote_data == y.bid_quote_data && x.quote_level_cut == y.quote_level_cut, "decoder:value", "{x:?} before, {y:?} after reading the decoder back");
        // the snapshot itself is written completely
        let js: serde_json::Value = must!(serde_json::from_str(&must!(serde_json::to_string(&x), "QuoteSnapshot:write", "snapshot")), "QuoteSnapshot:write", "snapshot");
        let lv = |k: &str| -> Vec<LevelSnapshot> { serde_json::from_value(js[k].clone()).unwrap_or_default() };
        let wid: Option<InstId> = serde_json::from_value(js["id"].clone()).ok();
        check!(lv("ask_quote_data") == x.ask_quote_data && lv("bid_quote_data") == x.bid_quote_data && wid == Some(x.id) && js["timestamp"]["stamp"].as_u64() == Some(x.timestamp.stamp) && js["system_timestamp"]["stamp"].as_u64() == Some(x.system_timestamp.stamp) && js["quote_level_cut"].as_u64() == Some(x.quote_level_cut as u64), "QuoteSnapshot:written", "{x:?} is written as {js}");
        c.ev("decoders_read_back");
    }} }
    match k { krx::K::S02 => dec!(IFMSRPD0002), _ => dec!(IFMSRPD0003) }
    c.nontrivial = true;
    Ok(())
}

/// orders derived from depth views, written line by line and replayed from the text, rebuild the same book
fn replay(r: &mut Rng, c: &mut Case) -> R {
    let me = id(r);
    let mut live = OrderBook::initialize_with_id(me);
    let mut again = OrderBook::initialize_with_id(me);
    let mut log = String::new();
    let mid = r.range(100, 1000);
    let mut n = 0u64;
    for _ in 0..1 + r.below(6) {
        let mk = |r: &mut Rng, ask: bool| -> Vec<LevelSnapshot> { let mut p = mid; (0..r.below(6)).map(|_| { p += if ask { 1 } else { -1 } * r.range(1, 3); LevelSnapshot { order_count: Some(1), book_price: p, book_quantity: 1 + r.below(500) as u64, lp_quantity: None } }).collect() };
        let (a, b) = (mk(r, true), mk(r, false));
        let os = must!(live.decomposed_orders_with_update(&a, &b), "decompose:refused", "depth view");
        for o in &os { log.push_str(&must!(serde_json::to_string(o), "DecomposedOrder:write", "{o:?}")); log.push('\n'); }
        n += os.len() as u64;
    }
    for l in log.lines() {
        let o: DecomposedOrder = must!(serde_json::from_str(l), "DecomposedOrder:read", "{l}");
        check!(o.id == me, "DecomposedOrder:id", "{l} names another instrument than {me:?}");
        match o.order {
            OrderEnum::LimitOrder(x) => { must!(again.add_limit_order(x), "replay:refused", "{l}"); }
            OrderEnum::RemoveAnyOrder(x) => { again.remove_order(x); }
            OrderEnum::CancelOrder(x) => { again.cancel_order(x); }
            OrderEnum::ModifyOrder(x) => { again.modify_order(x); }
            OrderEnum::NullOrder(_) => {}
        }
    }
    check!(live.eq_level(&again), "replay:differs", "the book rebuilt from the written orders differs:\n{}\n{}\nlog:\n{log}", live.to_string(), again.to_string());
    c.evn("orders_replayed_from_text", n);
    c.nontrivial = n > 0;
    c.folds(&log);
    let _ = book::c01;
    Ok(())
}
pub fn c13(run: &mut Run) {
    run.rule("a case writes random instances of every serializable trading record (or converters, or a day of derived orders) as JSON text, reads them back and compares fields, behaviour and the text written again; distinct by the written texts");
    run.family("records", 2_000, 60_000, records);
    run.family("converters", 6_000, 200_000, converters);
    run.family("replayed-orders", 4_000, 100_000, replay);
    run.require("records_read_back", 20_000);
    run.require("texts_converted_before_and_after", 5_000);
    run.require("orders_replayed_from_text", 5_000);
    run.require("decoders_read_back", 500);
    run.require("table_entries_found_again", 500);
}
