//! C04: exchange message decoding against an independent reader of the documented byte positions.
//! C05: hostile byte strings (in-process on guard pages and, in child processes, under AddressSanitizer).
use trading_engine::data::checker::Checker;
use trading_engine::data::krx::derivative_quote::{IFMSRPD0034, IFMSRPD0035};
use trading_engine::data::krx::derivative_trade::{IFMSRPD0036, IFMSRPD0037, IFMSRPD0038};
use trading_engine::data::krx::interface_map::KRX_TR_CODE_MAP;
use trading_engine::data::krx::krx_converter as kc;
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::{quote::QuoteSnapshot, trade::TradeData, trade_quote::TradeQuoteSnapshot};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::id::{InstId, Symbol};
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::utils::numeric_converter::OrderConverter;
use trading_engine::{get_unix_nano, IsinCode, TimeStamp, Venue};
use vmon::{check, close, fail, guarded, must, some, Case, Rng, Run, R};

pub const DAY: u64 = 86_400_000_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { D34, D35, D36, D37, D38, S02, S03 }
pub const KINDS: [K; 7] = [K::D34, K::D35, K::D36, K::D37, K::D38, K::S02, K::S03];
/// documented layout of one message kind
#[derive(Clone, Copy)]
pub struct Lay { pub name: &'static str, pub len: usize, pub levels: usize, pub first: usize, pub px: usize, pub qt: usize, pub cnt: usize, pub lp: usize, pub trade: bool }
pub fn lay(k: K) -> Lay {
    match k {
        K::D34 => Lay { name: "IFMSRPD0034", len: 324, levels: 5, first: 47, px: 9, qt: 9, cnt: 5, lp: 0, trade: false },
        K::D35 => Lay { name: "IFMSRPD0035", len: 554, levels: 10, first: 47, px: 9, qt: 9, cnt: 5, lp: 0, trade: false },
        K::D36 => Lay { name: "IFMSRPD0036", len: 173, levels: 0, first: 0, px: 9, qt: 9, cnt: 0, lp: 0, trade: true },
        K::D37 => Lay { name: "IFMSRPD0037", len: 431, levels: 5, first: 172, px: 9, qt: 9, cnt: 5, lp: 0, trade: true },
        K::D38 => Lay { name: "IFMSRPD0038", len: 661, levels: 10, first: 172, px: 9, qt: 9, cnt: 5, lp: 0, trade: true },
        K::S02 => Lay { name: "IFMSRPD0002", len: 555, levels: 10, first: 47, px: 11, qt: 12, cnt: 0, lp: 0, trade: false },
        K::S03 => Lay { name: "IFMSRPD0003", len: 795, levels: 10, first: 47, px: 11, qt: 12, cnt: 0, lp: 12, trade: false },
    }
}
/// how prices of an instrument class are written on the wire
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Px { Int8, Dec2, Dec3, Stock }
fn px_class(tr: &[u8], isin: &[u8], k: K) -> Px {
    if matches!(k, K::S02 | K::S03) { return Px::Stock; }
    match &tr[2..5] { b"04F" | b"05F" | b"10F" => Px::Int8, _ => if isin.starts_with(b"KR4169") { Px::Dec3 } else { Px::Dec2 } }
}
fn put_price(r: &mut Rng, c: Px, out: &mut Vec<u8>) {
    let neg = r.chance(0.25);
    let edge = r.below(6);
    let mag = |r: &mut Rng, max: i64| match edge { 0 => 0, 1 => max, 2 => r.range(0, 99), _ => r.range(0, max) };
    match c {
        Px::Int8 => { let v = mag(r, 99_999_999); out.extend(format!("{}{:08}", if neg { '-' } else { '0' }, v).bytes()) }
        Px::Dec2 => { let v = mag(r, 9_999_999); out.extend(format!("{}{:05}.{:02}", if neg { '-' } else { '0' }, v / 100, v % 100).bytes()) }
        Px::Dec3 => { let v = mag(r, 9_999_999); out.extend(format!("{}{:04}.{:03}", if neg { '-' } else { '0' }, v / 1000, v % 1000).bytes()) }
        Px::Stock => { let v = mag(r, 999_999_999); out.extend(format!("00{v:09}").bytes()) }
    }
}
fn put_uint(r: &mut Rng, w: usize, out: &mut Vec<u8>) {
    let max = 10i64.pow(w as u32) - 1;
    let v = match r.below(6) { 0 => 0, 1 => max, 2 => r.range(0, 99), _ => r.range(0, max) };
    out.extend(format!("{v:0w$}").bytes());
}
/// oracle: the decimal number in the text, scaled to an integer by dropping the point
fn rd_price(b: &[u8]) -> (i64, f64) {
    let s = std::str::from_utf8(b).unwrap();
    let neg = s.starts_with('-');
    let body = if neg { &s[1..] } else { s };
    let digits: String = body.chars().filter(|c| *c != '.').collect();
    let v: i64 = digits.parse().unwrap();
    let f: f64 = body.parse().unwrap();
    if neg { (-v, -f) } else { (v, f) }
}
fn rd_uint(b: &[u8]) -> u64 { std::str::from_utf8(b).unwrap().parse().unwrap() }

fn tr_codes(k: K) -> Vec<Vec<u8>> {
    let v: Vec<String> = match k {
        K::D34 => [1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16].iter().map(|n| format!("B6{n:02}F")).collect(),
        K::D35 => [4, 5].iter().map(|n| format!("B6{n:02}F")).collect(),
        K::D36 => (1..=16).map(|n| format!("A3{n:02}F")).collect(),
        K::D37 => [1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16].iter().map(|n| format!("G7{n:02}F")).collect(),
        K::D38 => [4, 5].iter().map(|n| format!("G7{n:02}F")).collect(),
        K::S02 => ["B601S", "B601Q", "B601X"].iter().map(|s| s.to_string()).collect(),
        K::S03 => ["B702S", "B703S", "B704S"].iter().map(|s| s.to_string()).collect(),
    };
    v.into_iter().map(|s| s.into_bytes()).collect()
}
fn gen_isin(r: &mut Rng) -> Vec<u8> {
    if r.chance(0.3) {
        let mut v = b"KR4169".to_vec(); while v.len() < 12 { v.push(*r.pick(b"0123456789VWX")); } return v;
    }
    if r.chance(0.3) { // near misses of the special prefix
        let mut v = b"KR416".to_vec(); v.push(*r.pick(b"012345678")); while v.len() < 12 { v.push(*r.pick(b"0169VWXKR4")); } return v;
    }
    let mut v = r.pick(&[*b"KR", *b"US", *b"JP"]).to_vec();
    while v.len() < 12 { v.push(*r.pick(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")); }
    v
}
pub fn gen_msg(r: &mut Rng, k: K, tod_us: u64) -> Vec<u8> {
    let l = lay(k);
    let tr = r.pick(&tr_codes(k)).clone();
    let isin = gen_isin(r);
    let c = px_class(&tr, &isin, k);
    let mut m = tr.clone();
    if r.bool() { m.extend(b"        ") } else { m.extend(format!("{:08}", r.below(100_000_000)).bytes()) }
    m.extend(b"G1"); m.extend(r.pick(&[*b"40", *b"10", *b"20", *b"00"]));
    m.extend(&isin); put_uint(r, 6, &mut m);
    let s = tod_us / 1_000_000;
    m.extend(format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, tod_us % 1_000_000).bytes());
    assert_eq!(m.len(), 47);
    if l.trade {
        put_price(r, c, &mut m); put_uint(r, 9, &mut m);
        for _ in 0..6 { put_price(r, c, &mut m); }
        put_uint(r, 12, &mut m);
        m.extend(format!("{:017}.{:04}", r.below(1_000_000_000_000), r.below(10000)).bytes());
        m.push(*r.pick(b"012012012012"));
        put_price(r, c, &mut m); put_price(r, c, &mut m);
    }
    for _ in 0..l.levels {
        put_price(r, c, &mut m); put_price(r, c, &mut m);
        put_uint(r, l.qt, &mut m); put_uint(r, l.qt, &mut m);
        if l.lp > 0 { put_uint(r, l.lp, &mut m); put_uint(r, l.lp, &mut m); }
        if l.cnt > 0 { put_uint(r, l.cnt, &mut m); put_uint(r, l.cnt, &mut m); }
    }
    while m.len() < l.len - 1 { m.push(b'0' + r.below(10) as u8); }
    m.push(255);
    assert_eq!(m.len(), l.len, "generator layout");
    m
}

/// what the oracle reads
#[derive(Debug, Clone, PartialEq)]
pub struct Exp {
    isin: String, time: u64,
    trade: Option<(i64, u64, TradeType, u64)>,
    lv: Vec<(LevelSnapshot, LevelSnapshot)>, px_real: f64, px_int: i64,
}
pub fn oracle(k: K, m: &[u8], g: &mut (u64, u64)) -> Exp {
    let l = lay(k);
    let t = std::str::from_utf8(&m[35..47]).unwrap();
    let n = |a: usize, b: usize| t[a..b].parse::<u64>().unwrap();
    let tod = ((n(0, 2) * 60 + n(2, 4)) * 60 + n(4, 6)) * 1_000_000_000 + n(6, 12) * 1000;
    let mut time = tod + 9 * 3600 * 1_000_000_000 + g.0;
    while g.1 >= 15 * 3600 * 1_000_000_000 + time { g.0 += DAY; time += DAY; }
    g.1 = time;
    let trade = l.trade.then(|| (rd_price(&m[47..56]).0, rd_uint(&m[56..65]), match m[153] { b'0' => TradeType::Undefined, b'1' => TradeType::Sell, _ => TradeType::Buy }, rd_uint(&m[119..131])));
    let stride = 2 * (l.px + l.qt + l.cnt + l.lp);
    let mut lv = vec![];
    for i in 0..l.levels {
        let b = l.first + i * stride;
        let mut at = b; let mut nx = |w: usize| { let s = &m[at..at + w]; at += w; s };
        let (ap, bp) = (rd_price(nx(l.px)).0, rd_price(nx(l.px)).0);
        let (aq, bq) = (rd_uint(nx(l.qt)), rd_uint(nx(l.qt)));
        let (al, bl) = if l.lp > 0 { (Some(rd_uint(nx(l.lp))), Some(rd_uint(nx(l.lp)))) } else { (None, None) };
        let (ac, bc) = if l.cnt > 0 { (Some(rd_uint(nx(l.cnt)) as u32), Some(rd_uint(nx(l.cnt)) as u32)) } else { (None, None) };
        lv.push((LevelSnapshot { order_count: ac, book_price: ap, book_quantity: aq, lp_quantity: al }, LevelSnapshot { order_count: bc, book_price: bp, book_quantity: bq, lp_quantity: bl }));
    }
    let pb = if l.trade { &m[47..56] } else { &m[47..47 + l.px] };
    let (px_int, px_real) = rd_price(pb);
    Exp { isin: String::from_utf8(m[17..29].to_vec()).unwrap(), time, trade, lv, px_real, px_int }
}

/// a decoded message in one shape
pub struct Dec {
    id: InstId, timestamp: TimeStamp, system: TimeStamp, trade: Option<(i64, u64, Option<TradeType>, Option<u64>)>,
    asks: Vec<LevelSnapshot>, bids: Vec<LevelSnapshot>, cut: usize, all_lp: Option<u64>, conv: &'static OrderConverter, counter_len: Option<usize>,
}
fn of_q(q: &QuoteSnapshot) -> Dec {
    Dec { id: q.id, timestamp: q.timestamp, system: q.system_timestamp, trade: None, asks: q.effective_ask_data().to_vec(), bids: q.effective_bid_data().to_vec(), cut: q.quote_level_cut, all_lp: q.all_lp_holdings, conv: q.order_converter,
        counter_len: Some(q.order_counter.order_count.get_config().total_length) }
}
fn of_tq(q: &TradeQuoteSnapshot) -> Dec {
    Dec { id: q.id, timestamp: q.timestamp, system: q.system_timestamp, trade: Some((q.trade_price, q.trade_quantity, q.trade_type, q.cumulative_trade_quantity)), asks: q.effective_ask_data().to_vec(), bids: q.effective_bid_data().to_vec(),
        cut: q.quote_level_cut, all_lp: q.all_lp_holdings, conv: q.order_converter, counter_len: Some(q.order_counter.order_count.get_config().total_length) }
}
fn of_t(q: &TradeData) -> Dec {
    Dec { id: q.id, timestamp: q.timestamp, system: q.system_timestamp, trade: Some((q.trade_price, q.trade_quantity, q.trade_type, q.cumulative_trade_quantity)), asks: vec![], bids: vec![], cut: 0, all_lp: None, conv: q.order_converter, counter_len: None }
}

/// a reused buffer with arbitrary old content
fn junk_levels(r: &mut Rng, n: usize) -> Vec<LevelSnapshot> {
    (0..n).map(|_| LevelSnapshot { order_count: r.bool().then(|| r.u64() as u32), book_price: r.u64() as i64, book_quantity: r.u64(), lp_quantity: r.bool().then(|| r.u64()) }).collect()
}
fn any_conv(r: &mut Rng) -> &'static OrderConverter {
    let isin = IsinCode::new(if r.bool() { b"KR4169V30013" } else { b"KR4101V30013" }).unwrap();
    match r.below(5) { 0 => kc::get_krx_stock_order_converter(), 1 => kc::get_krx_base_bond_order_converter(), 2 => kc::get_krx_repo_order_converter(), 3 => kc::get_krx_derivative_converter(b"G704F", &isin), _ => kc::get_krx_derivative_converter(b"G703F", &isin) }
}
pub struct Bufs { pub q: QuoteSnapshot, pub tq: TradeQuoteSnapshot, pub t: TradeData }
fn junk_id(r: &mut Rng) -> InstId { let mut c = *b"JUNK00000000"; c[11] = b'0' + r.below(10) as u8; InstId::new(Symbol::Isin(IsinCode::new(&c).unwrap()), Venue::KIS) }
pub fn junk_bufs(r: &mut Rng) -> Bufs {
    let (na, nb) = (10 + r.below(3), 10 + r.below(3));
    let mut q = QuoteSnapshot::with_quote_level(10);
    q.id = junk_id(r); q.timestamp = TimeStamp::new(r.u64() >> 2); q.ask_quote_data = junk_levels(r, na); q.bid_quote_data = junk_levels(r, nb);
    q.quote_level_cut = r.below(11); q.all_lp_holdings = r.bool().then(|| 77); q.order_converter = any_conv(r);
    let mut tq = TradeQuoteSnapshot::with_quote_level(10);
    tq.id = junk_id(r); tq.timestamp = TimeStamp::new(r.u64() >> 2); tq.ask_quote_data = junk_levels(r, na); tq.bid_quote_data = junk_levels(r, nb);
    tq.quote_level_cut = r.below(11); tq.all_lp_holdings = r.bool().then(|| 77); tq.order_converter = any_conv(r);
    tq.trade_price = -5; tq.trade_quantity = 9; tq.trade_type = Some(TradeType::Undefined); tq.cumulative_trade_quantity = Some(123);
    let mut t = TradeData::default();
    t.id = junk_id(r); t.trade_price = -5; t.trade_quantity = 9; t.trade_type = Some(TradeType::Undefined); t.cumulative_trade_quantity = Some(123); t.order_converter = any_conv(r);
    Bufs { q, tq, t }
}
/// decode with a level cut (None: default) and cumulative flag
pub fn decode(k: K, m: &[u8], cut: Option<usize>, cum: bool, buf: Option<&mut Bufs>, g: &mut DateUnixNanoGenerator) -> anyhow::Result<Dec> {
    macro_rules! q { ($t:ty) => {{
        let mut d = <$t>::default(); if let Some(c) = cut { d = d.with_quote_level_cut(c)?; }
        match buf { None => of_q(&d.to_quote_snapshot(m, g)?), Some(b) => { d.to_quote_snapshot_buffer(m, &mut b.q, g)?; of_q(&b.q) } }
    }}}
    macro_rules! tq { ($t:ty) => {{
        let mut d = <$t>::default(); if let Some(c) = cut { d = d.with_quote_level_cut(c)?; }
        d = d.with_cum_trd_qnt(cum);
        match buf { None => of_tq(&d.to_trade_quote_snapshot(m, g)?), Some(b) => { d.to_trade_quote_snapshot_buffer(m, &mut b.tq, g)?; of_tq(&b.tq) } }
    }}}
    Ok(match k {
        K::D34 => q!(IFMSRPD0034), K::D35 => q!(IFMSRPD0035), K::S02 => q!(IFMSRPD0002), K::S03 => q!(IFMSRPD0003),
        K::D37 => tq!(IFMSRPD0037), K::D38 => tq!(IFMSRPD0038),
        K::D36 => { let d = IFMSRPD0036::default().with_cum_trd_qnt(cum); match buf { None => of_t(&d.to_trade_data(m, g)?), Some(b) => { d.to_trade_data_buffer(m, &mut b.t, g)?; of_t(&b.t) } } }
    })
}
fn compare(k: K, d: &Dec, e: &Exp, cut: usize, cum: bool, how: &str, span: (u64, u64), m: &[u8]) -> R {
    let n = lay(k).name;
    let msg = || String::from_utf8_lossy(&m[..m.len() - 1]).to_string();
    check!(d.id.symbol_str() == e.isin && d.id.venue() == Venue::KRX && d.id == InstId::new(Symbol::Isin(IsinCode::new(e.isin.as_bytes()).unwrap()), Venue::KRX), format!("{n}:instrument"), "{n} {how}: instrument {:?}, wire says {} at KRX; {}", d.id, e.isin, msg());
    check!(d.timestamp.stamp == e.time, format!("{n}:time"), "{n} {how}: event time {} want {}; {}", d.timestamp.stamp, e.time, msg());
    check!(d.system.stamp + 1_000_000 >= span.0 && d.system.stamp <= span.1 + 1_000_000, format!("{n}:system-time"), "{n} {how}: receive stamp {} outside the call {:?}", d.system.stamp, span);
    if let Some((p, q, s, c)) = e.trade {
        let (gp, gq, gs, gc) = some!(d.trade, "no-trade", "no trade");
        check!(gp == p, format!("{n}:trade-price"), "{n} {how}: trade price {gp}, wire {p}; {}", msg());
        check!(gq == q, format!("{n}:trade-quantity"), "{n} {how}: trade quantity {gq}, wire {q}; {}", msg());
        check!(gs == Some(s), format!("{n}:trade-side"), "{n} {how}: trade side {gs:?}, wire {s:?}; {}", msg());
        check!(gc == cum.then_some(c), format!("{n}:cumulative"), "{n} {how}: cumulative quantity {gc:?}, wire {:?}; {}", cum.then_some(c), msg());
    }
    check!(d.cut == cut && d.asks.len() == cut && d.bids.len() == cut, format!("{n}:levels"), "{n} {how}: {} levels (asks {}, bids {}), want {cut}", d.cut, d.asks.len(), d.bids.len());
    for i in 0..cut {
        for (side, g, w) in [("ask", &d.asks[i], &e.lv[i].0), ("bid", &d.bids[i], &e.lv[i].1)] {
            check!(g.book_price == w.book_price, format!("{n}:{side}-price"), "{n} {how}: {side} level {} price {}, wire {}; {}", i + 1, g.book_price, w.book_price, msg());
            check!(g.book_quantity == w.book_quantity, format!("{n}:{side}-quantity"), "{n} {how}: {side} level {} quantity {}, wire {}; {}", i + 1, g.book_quantity, w.book_quantity, msg());
            check!(g.order_count == w.order_count, format!("{n}:{side}-count"), "{n} {how}: {side} level {} order count {:?}, wire {:?}; {}", i + 1, g.order_count, w.order_count, msg());
            check!(g.lp_quantity == w.lp_quantity, format!("{n}:{side}-lp"), "{n} {how}: {side} level {} LP quantity {:?}, wire {:?}; {}", i + 1, g.lp_quantity, w.lp_quantity, msg());
        }
    }
    check!(d.all_lp.is_none(), format!("{n}:lp-holdings"), "{n} {how}: LP holdings {:?} but the message carries none", d.all_lp);
    if let Some(cl) = d.counter_len { check!(cl == 5, format!("{n}:counter"), "{n} {how}: order counter of width {cl}"); }
    let real = d.conv.price.to_f64_from_i64(e.px_int);
    check!(close(real, e.px_real, 1e-12, 1e-12), format!("{n}:scale"), "{n} {how}: the record's price converter turns {} into {real}, wire text is {}; {}", e.px_int, e.px_real, msg());
    Ok(())
}
fn c04_case(r: &mut Rng, c: &mut Case) -> R {
    // one feed: several message kinds share one date generator and one set of reused buffers
    let start = r.range(0, 40_000) as u64 * DAY;
    let mut model = (start, 0u64);
    let mut gen = DateUnixNanoGenerator::from_unixnano(start + r.below(DAY as usize) as u64);
    let mut bufs = junk_bufs(r);
    let steps = 4 + r.below(8);
    let mut tod = r.below(86_400_000_000) as u64;
    for i in 0..steps {
        let k = *r.pick(&KINDS);
        let l = lay(k);
        tod = match r.below(5) { 0 => r.below(86_400_000_000) as u64, 1 => (tod + r.below(10) as u64) % 86_400_000_000, _ => (tod + r.below(3_600_000_000) as u64) % 86_400_000_000 };
        let m = gen_msg(r, k, tod);
        let base = model;
        let e = oracle(k, &m, &mut model);
        let cut = if l.levels == 0 { None } else { match r.below(3) { 0 => None, _ => Some(r.below(l.levels + 1)) } };
        let want_cut = cut.unwrap_or(l.levels);
        let cum = r.bool();
        // fresh, reused buffer, reduced and full must all agree with the wire
        let g0 = gen;
        for (how, cu, wc, cm, bf) in [("fresh", cut, want_cut, cum, false), ("buffer", cut, want_cut, cum, true), ("fresh/full", None, l.levels, !cum, false), ("buffer/full", None, l.levels, !cum, true)] {
            let mut g = g0;
            if bf && r.chance(0.2) { bufs = junk_bufs(r); }
            let t0 = get_unix_nano();
            let d = decode(k, &m, cu, cm, if bf { Some(&mut bufs) } else { None }, &mut g);
            let t1 = get_unix_nano();
            let d = must!(d, format!("{}:rejected", l.name), "{} {how}: a well-formed message was refused: {}", l.name, String::from_utf8_lossy(&m));
            compare(k, &d, &e, wc, cm, how, (t0, t1), &m)?;
            check!(g.get_utcdate_unix_nano() == model.0 && g.get_prev_timestamp() == model.1, format!("{}:date", l.name), "{} {how}: running date {} / last stamp {} want {:?}", l.name, g.get_utcdate_unix_nano(), g.get_prev_timestamp(), model);
            gen = g;
            c.ev("messages_decoded_and_compared");
            if bf { c.ev("decodes_into_a_dirty_buffer"); }
            c.evn("levels_compared", 2 * wc as u64);
        }
        if model.0 != base.0 { c.ev("date_rollovers"); }
        if cut.is_some() { c.ev("reduced_level_decodes"); }
        c.ev(match px_class(&m[..5], &m[17..29], k) { Px::Int8 => "integer_price_messages", Px::Dec2 => "two_decimal_messages", Px::Dec3 => "three_decimal_messages", Px::Stock => "stock_messages" });
        if e.trade.map_or(false, |t| t.0 < 0) || e.lv.iter().any(|x| x.0.book_price < 0) { c.ev("messages_with_negative_prices"); }
        if i == 0 { c.sample(|| format!("{} cut {:?} cum {}: {}", l.name, cut, cum, String::from_utf8_lossy(&m[..m.len() - 1]))); }
        c.fold(e.time); c.fold(e.px_int as u64); c.fold(k as u64); c.fold(want_cut as u64);
    }
    c.nontrivial = true;
    Ok(())
}
/// type code table: every documented transaction code names the decoder whose layout it has
fn c04_table(_r: &mut Rng, c: &mut Case) -> R {
    for k in KINDS { for tr in tr_codes(k) {
        let got = KRX_TR_CODE_MAP.get(tr.as_slice()).copied();
        check!(got == Some(lay(k).name), "interface-map", "transaction code {} maps to {:?}, its layout is {}", String::from_utf8_lossy(&tr), got, lay(k).name);
        c.ev("transaction_codes_checked"); c.folds(lay(k).name);
    } }
    let names: [(&str, String, usize); 7] = [
        ("IFMSRPD0034", IFMSRPD0034::default().as_str().into(), IFMSRPD0034::default().get_payload_length()), ("IFMSRPD0035", IFMSRPD0035::default().as_str().into(), IFMSRPD0035::default().get_payload_length()),
        ("IFMSRPD0036", IFMSRPD0036::default().as_str().into(), IFMSRPD0036::default().get_payload_length()), ("IFMSRPD0037", IFMSRPD0037::default().as_str().into(), IFMSRPD0037::default().get_payload_length()),
        ("IFMSRPD0038", IFMSRPD0038::default().as_str().into(), IFMSRPD0038::default().get_payload_length()), ("IFMSRPD0002", IFMSRPD0002::default().as_str().into(), IFMSRPD0002::default().get_payload_length()),
        ("IFMSRPD0003", IFMSRPD0003::default().as_str().into(), IFMSRPD0003::default().get_payload_length())];
    for (i, (w, n, len)) in names.iter().enumerate() {
        let k = KINDS[i];
        check!(w == n && lay(k).len == *len, "decoder-identity", "{w}: reports name {n} and length {len}");
    }
    for k in KINDS { let l = lay(k); if l.levels > 0 {
        let mut g = DateUnixNanoGenerator::from_unixnano(0);
        let mut r = Rng::new(7);
        let m = gen_msg(&mut r, k, 1);
        check!(decode(k, &m, Some(l.levels + 1), false, None, &mut g).is_err(), "level-cut-range", "{} accepts a level cut above its {} levels", l.name, l.levels);
    } }
    c.nontrivial = true; Ok(())
}
pub fn c04(run: &mut Run) {
    run.rule("a case is one feed of 4-11 messages of random kinds sharing a date generator and reused buffers; every message is decoded four ways and compared with an independent reader of the documented byte positions; distinct by the decoded times, prices, kinds and level cuts");
    run.assume("well-formed messages: numeric fields zero-padded, sign character '-' or '0', ISIN without white space, terminator 255");
    run.family("type-codes", 1, 1, c04_table);
    run.family("feeds", 60_000, 400_000, c04_case);
    run.require("messages_decoded_and_compared", 1000);
    run.require("messages_with_negative_prices", 50);
    run.require("date_rollovers", 20);
    run.require("decodes_into_a_dirty_buffer", 500);
    for c in ["integer_price_messages", "two_decimal_messages", "three_decimal_messages", "stock_messages", "reduced_level_decodes"] { run.require(c, 50); }
}
#[allow(dead_code)] fn _unused(r: &mut Rng) -> R { let _ = guarded(|| ()); if r.bool() { fail!("", ""); } Ok(()) }
