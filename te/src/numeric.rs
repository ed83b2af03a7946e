//! C06: fixed-width numeric conversion against text-based decimal reading.
use trading_engine::utils::numeric_converter::*;
use vmon::{check, close, must, Case, Rng, Run, R};

fn num(r: &mut Rng, digits: usize) -> u64 {
    if digits == 0 { return 0; }
    let max = 10i128.pow(digits.min(19) as u32) - 1;
    let max = max.min(u64::MAX as i128) as u64;
    match r.below(6) { 0 => 0, 1 => max, 2 => 1 + r.u64() % max.min(99), 3 => 10u64.pow(r.below(digits.min(19)) as u32), _ => { let d = 1 + r.below(digits.min(19)); r.u64() % (10i128.pow(d as u32) as u64) } }.min(max)
}
/// text of `digits` integer digits and, when dp > 0, a point and dp-1 decimals; its value with the point dropped, and without decimals
fn text(r: &mut Rng, digits: usize, dp: usize) -> (String, u128, u128) {
    let iv = num(r, digits);
    let fd = dp.saturating_sub(1);
    let fv = num(r, fd);
    let mut s = if digits > 0 { format!("{iv:0digits$}") } else { String::new() };
    if dp > 0 { s.push('.'); if fd > 0 { s += &format!("{fv:0fd$}"); } }
    let all: String = s.chars().filter(|c| *c != '.').collect();
    (s, all.parse().unwrap_or(0), iv as u128)
}
fn converter(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..30 {
        let size = 1 + r.below(18);
        let (mut d, mut dp, drop) = (size, 0usize, r.chance(0.3));
        if drop { dp = r.below(8); } else if r.chance(0.6) && size > 1 { dp = 1 + r.below(size); d = size - dp; }
        if !drop && dp == 1 && d == 0 { continue; }
        let signed = r.bool();
        let unused = if r.bool() { 0 } else { r.below(5) };
        let norm = r.bool().then(|| r.below(8) as i32);
        let cfg = NumReprCfg { digit_length: d, decimal_point_length: dp, is_signed: signed, unused_length: unused, total_length: d + dp + unused + signed as usize, float_normalizer: norm, drop_decimal_point: drop };
        let cv = must!(IntegerConverter::new(cfg), "converter:refused", "layout {cfg:?} with {size} digits refused");
        let cv = if r.chance(0.2) { cv.clone() } else { cv };
        check!(*cv.get_config() == cfg, "converter:config", "get_config differs from {cfg:?}");
        let (t, all, int) = text(r, d, dp);
        let want = if drop { int } else { all } as u64;
        let neg = signed && r.bool();
        let mut full = String::new();
        if signed { full.push(if neg { '-' } else { '0' }); }
        for _ in 0..unused { full.push(*r.pick(&['0', '0', ' ', '7'])); }
        full += &t;
        let mut b = full.clone().into_bytes();
        if r.chance(0.3) { let n = r.below(20); b.extend((0..n).map(|_| b'9')); c.ev("texts_with_following_bytes"); }
        let g = cv.to_u64(&b);
        check!(g == want, "converter:to_u64", "to_u64({full:?}) with {cfg:?} gives {g}, text says {want}");
        let gi = cv.to_i64(&b);
        let wi = if neg { -(want as i64) } else { want as i64 };
        check!(gi == wi, "converter:to_i64", "to_i64({full:?}) with {cfg:?} gives {gi}, text says {wi}");
        let nodec = drop || dp == 0;
        let n = if drop { d } else { d + dp };
        if nodec && n <= 16 { let g = unsafe { cv.to_u64_unchecked(&b) }; check!(g == want, "converter:to_u64_unchecked", "to_u64_unchecked({full:?}) with {cfg:?} gives {g}, text says {want}");
            let g = unsafe { cv.to_nonnegative_i64_unchecked(&b) }; check!(g == want as i64, "converter:to_nonnegative", "to_nonnegative_i64_unchecked({full:?}) with {cfg:?} gives {g}, text says {want}"); c.ev("unchecked_conversions"); }
        if nodec && n >= 16 { let g = unsafe { cv.to_long_u64_unchecked(&b) }; check!(g == want, "converter:to_long_u64_unchecked", "to_long_u64_unchecked({full:?}) with {cfg:?} gives {g}, text says {want}"); c.ev("long_unchecked_conversions"); }
        if nodec && n <= 8 { let g = unsafe { cv.to_u32_unchecked(&b) }; check!(g as u64 == want, "converter:to_u32_unchecked", "to_u32_unchecked({full:?}) with {cfg:?} gives {g}, text says {want}"); }
        // wrapper records around the same converter
        let oc = OrderConverter { price: cv.clone(), quantity: cv.clone() };
        check!(oc.to_book_price(&b) == wi && oc.to_book_quantity(&b) == want, "converter:order", "order converter on {full:?} with {cfg:?}: {} / {}", oc.to_book_price(&b), oc.to_book_quantity(&b));
        if nodec && n <= 16 { let (p, q) = unsafe { (oc.to_book_price_unchecked(&b), oc.to_book_quantity_unchecked(&b)) }; check!(p == want as i64 && q == want, "converter:order-unchecked", "unchecked order converter on {full:?}: {p} / {q} want {want}"); }
        let yc = YieldConverter { converter: cv.clone() };
        check!(yc.to_yield(&b) == wi, "converter:yield", "yield converter on {full:?}: {}", yc.to_yield(&b));
        let cc = CumQntConverter { converter: cv.clone() };
        check!(cc.to_cum_qnt(&b) == want, "converter:cum", "cumulative converter on {full:?}: {}", cc.to_cum_qnt(&b));
        if nodec && n <= 16 { let q = unsafe { cc.to_cum_qnt_unchecked(&b) }; check!(q == want, "converter:cum-unchecked", "unchecked cumulative converter on {full:?}: {q}"); }
        if nodec && n >= 16 { let q = unsafe { cc.to_long_cum_qnt_unchecked(&b) }; check!(q == want, "converter:cum-long", "long cumulative converter on {full:?}: {q}"); }
        if nodec && n <= 8 && full.len() <= 10 { let k = OrderCounter { order_count: cv.clone() }; let v = k.to_order_count(full.as_bytes()); let u = unsafe { k.to_order_count_unchecked(full.as_bytes()) }; check!(v as u64 == want && u as u64 == want, "converter:count", "order counter on {full:?}: {v} / {u}"); }
        // real values
        let dec = if drop { 0 } else { dp.saturating_sub(1) };
        let f = cv.to_f64_from_i64(wi);
        let wf = wi as f64 / 10f64.powi(dec as i32);
        check!(close(f, wf, 1e-14, 0.0), "converter:f64", "to_f64_from_i64({wi}) with {cfg:?} gives {f}, want {wf}");
        let f = cv.to_f64_from_u64(want);
        check!(close(f, want as f64 / 10f64.powi(dec as i32), 1e-14, 0.0), "converter:f64u", "to_f64_from_u64({want}) with {cfg:?} gives {f}");
        let small = want as u32; let smalli = wi as i32;
        check!(close(cv.to_f64_from_u32(small), small as f64 / 10f64.powi(dec as i32), 1e-14, 0.0), "converter:f64-32", "to_f64_from_u32({small})");
        check!(close(cv.to_f64_from_i32(smalli), smalli as f64 / 10f64.powi(dec as i32), 1e-14, 0.0), "converter:f64-i32", "to_f64_from_i32({smalli})");
        if norm.unwrap_or(0) as usize + dec <= 17 {
            let e = norm.unwrap_or(0) + dec as i32;
            let (gi, gu) = (cv.normalized_real_from_i64(wi), cv.normalized_real_from_u64(want));
            check!(close(gi, wi as f64 / 10f64.powi(e), 1e-13, 0.0), "converter:normalized", "normalized_real_from_i64({wi}) with {cfg:?} gives {gi}, want {}", wi as f64 / 10f64.powi(e));
            check!(close(gu, want as f64 / 10f64.powi(e), 1e-13, 0.0), "converter:normalized-u", "normalized_real_from_u64({want}) with {cfg:?} gives {gu}");
        }
        // sizes that do not add up, or are too wide, are refused
        let mut badc = cfg; badc.total_length += 1 + r.below(3);
        check!(IntegerConverter::new(badc).is_err(), "converter:accepts-inconsistent", "{badc:?} does not add up but was accepted");
        let w = 19 + r.below(10);
        let badc = NumReprCfg { digit_length: w, total_length: w, ..Default::default() };
        check!(IntegerConverter::new(badc).is_err(), "converter:accepts-too-wide", "{w} digits accepted");
        c.ev("layouts_checked"); if neg { c.ev("negative_values"); } if dp > 0 { c.ev("layouts_with_decimal_point"); } if unused > 0 { c.ev("layouts_with_unused_bytes"); }
        c.folds(&full); c.fold(size as u64 * 100 + dp as u64);
        c.sample(|| format!("{cfg:?} {full:?} -> {want} / {wi}"));
    }
    c.nontrivial = true;
    Ok(())
}
/// the layouts the exchange prints, as the converters that carry its names must read them:
/// (name, converter, signed, unused bytes, integer digits, bytes from the point on, digits after the point dropped, further powers of ten taken out when normalized)
type Named = (&'static str, IntegerConverter, bool, usize, usize, usize, bool, i32);
fn named_layouts() -> Vec<Named> {
    let mut v: Vec<Named> = vec![];
    let mut order = |n: &'static str, o: OrderConverter, p: (bool, usize, usize, usize, i32), q: usize| { v.push((n, o.price, p.0, p.1, p.2, p.3, false, p.4)); v.push((n, o.quantity, false, 0, q, 0, false, 0)); };
    order("risk-free derivative", OrderConverter::krx_risk_free_derivative_converter(), (true, 0, 4, 4, 0), 9);
    order("derivative", OrderConverter::krx_base_derivative_converter(), (true, 0, 5, 3, 0), 9);
    order("stock", OrderConverter::krx_stock_converter(), (false, 2, 9, 0, 0), 12);
    order("stock derivative", OrderConverter::krx_stock_derivative_converter(), (true, 0, 8, 0, 1), 9);
    order("commodity derivative", OrderConverter::krx_general_commodity_derivative_converter(), (true, 0, 8, 0, 1), 9);
    order("repo", OrderConverter::krx_repo_converter(), (true, 0, 6, 4, 0), 15);
    order("bond", OrderConverter::krx_base_bond_converter(), (false, 1, 7, 3, 0), 12);
    v.push(("cumulative quantity", CumQntConverter::krx_base_cum_qnt_converter().converter, false, 0, 12, 0, false, 4));
    v.push(("bond cumulative quantity", CumQntConverter::krx_bond_cum_qnt_converter().converter, false, 0, 15, 0, false, 4));
    v.push(("cumulative trading value", CumQntConverter::krx_cum_trd_value_converter().converter, false, 0, 18, 4, true, 8));
    v.push(("yield", YieldConverter::krx_yield_converter().converter, true, 0, 5, 7, false, 0));
    v.push(("order count", OrderCounter::krx_base_order_counter().order_count, false, 0, 5, 0, false, 0));
    v
}
fn named(r: &mut Rng, c: &mut Case) -> R {
    for (n, cv, signed, unused, d, dp, drop, norm) in named_layouts() { for _ in 0..4 {
        let (t, all, int) = text(r, d, dp);
        let want = if drop { int } else { all } as u64;
        let neg = signed && r.bool();
        let mut full = String::new();
        if signed { full.push(if neg { '-' } else { '0' }); }
        for _ in 0..unused { full.push('0'); }
        full += &t;
        let mut b = full.clone().into_bytes();
        if r.chance(0.3) { let k = r.below(20); b.extend((0..k).map(|_| b'9')); }
        let wi = if neg { -(want as i64) } else { want as i64 };
        let (g, gi) = (cv.to_u64(&b), cv.to_i64(&b));
        check!(g == want && gi == wi, "named:value", "{n} converter reads {full:?} as {g} / {gi}, text says {wi}");
        let e = norm + if drop { 0 } else { dp.saturating_sub(1) as i32 };
        let g = cv.normalized_real_from_i64(wi);
        check!(close(g, wi as f64 / 10f64.powi(e), 1e-13, 0.0), "named:normalized", "{n} converter normalizes {wi} to {g}, want {}", wi as f64 / 10f64.powi(e));
        let g = cv.normalized_real_from_u64(want);
        check!(close(g, want as f64 / 10f64.powi(e), 1e-13, 0.0), "named:normalized-u", "{n} converter normalizes {want} to {g}");
        if !drop { let x: f64 = t.parse().unwrap_or(0.0); let x = if neg { -x } else { x }; let g = cv.to_f64_from_i64(gi); check!(close(g, x, 1e-14, 0.0), "named:real", "{n} converter gives {full:?} the real value {g}, text says {x}"); }
        c.ev("named_layout_texts"); c.folds(n); c.folds(&full);
    } }
    c.nontrivial = true; Ok(())
}
fn parsers(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..30 {
        let len = 1 + r.below(32);
        let s: String = match r.below(5) { 0 => "9".repeat(len), 1 => "0".repeat(len), 2 => format!("{:0len$}", r.below(100)).chars().rev().take(len).collect(), _ => (0..len).map(|_| (b'0' + r.below(10) as u8) as char).collect() };
        let mut b = s.clone().into_bytes();
        let extra = if r.bool() { 0 } else { r.below(40) };
        b.extend((0..extra).map(|_| *r.pick(b"0123456789.- ")));
        let v: u128 = s.parse().unwrap();
        if len <= 8 { let g = parse_under8(&b, len); check!(g as u128 == v, "parser:under8", "parse_under8({s:?}) = {g}"); }
        if len <= 16 { let g = parse_under16(&b, len); check!(g == v, "parser:under16", "parse_under16({s:?}) = {g}"); }
        if len >= 16 { let g = parse_under32(&b, len); check!(g == v, "parser:under32", "parse_under32({s:?}) = {g}"); }
        if len >= 2 { check!(parse_2digits(&b) as u128 == s[..2].parse::<u128>().unwrap(), "parser:2digits", "parse_2digits({:?}) = {}", &s[..2], parse_2digits(&b)); }
        if len >= 3 { check!(parse_3digits(&b) as u128 == s[..3].parse::<u128>().unwrap(), "parser:3digits", "parse_3digits({:?}) = {}", &s[..3], parse_3digits(&b)); }
        // with a decimal point; at most 18 significant digits
        let dp = r.below(len + 1);
        if !(dp == 1 && len == 1) {
            let d = len - dp;
            let sig = 18usize;
            let (mut t, _, _) = text(r, d.min(18), dp.min(19));
            while t.len() < len { t.insert(0, '0'); }
            let digits: String = t.chars().filter(|c| *c != '.').collect();
            let v: u128 = digits.parse().unwrap();
            let real_dp = t.find('.').map_or(0, |i| t.len() - i);
            if digits.trim_start_matches('0').len() <= sig {
                let mut b = t.clone().into_bytes(); b.extend((0..if len < 16 { extra } else { 0 }).map(|_| b'8'));
                if len <= 8 { let g = parse_under8_with_floating_point(&b, len, real_dp); check!(g as u128 == v, "parser:under8-point", "parse_under8_with_floating_point({t:?}, {len}, {real_dp}) = {g}"); }
                if len <= 16 { let g = parse_under16_with_floating_point(&b, len, real_dp); check!(g as u128 == v, "parser:under16-point", "parse_under16_with_floating_point({t:?}, {len}, {real_dp}) = {g}"); }
                if len >= 16 && real_dp <= 17 { let g = parse_under32_with_floating_point(&b, len, real_dp); check!(g as u128 == v, "parser:under32-point", "parse_under32_with_floating_point({t:?}, {len}, {real_dp}) = {g}"); c.ev("long_texts_with_point"); }
                c.ev("texts_with_point"); c.folds(&t);
            }
        }
        c.ev("texts_parsed"); c.folds(&s);
    }
    c.nontrivial = true;
    Ok(())
}
fn exhaustive(_r: &mut Rng, c: &mut Case) -> R {
    for v in 0..1_000_000u64 {
        let s = format!("{v:06}");
        check!(parse_under8(s.as_bytes(), 6) == v, "parser:exhaustive6", "parse_under8({s}) wrong");
    }
    for v in 0..1000u32 { let s = format!("{v:03}"); check!(parse_3digits(s.as_bytes()) == v, "parser:3digits", "parse_3digits({s}) wrong"); if v < 100 { let s = format!("{v:02}"); check!(parse_2digits(s.as_bytes()) as u32 == v, "parser:2digits", "parse_2digits({s}) wrong"); } }
    c.evn("exhaustive_texts", 1_001_100); c.nontrivial = true; Ok(())
}
pub fn c06(run: &mut Run) {
    run.rule("a case is 30 random numeric layouts with a text each, or 30 digit strings; every conversion form is compared with decimal reading of the text; distinct by the texts");
    run.assume("1 to 18 significant digits (what the converters accept); sign character '-' for negative and '0' for positive; unchecked forms only for layouts without a decimal point and within their documented width");
    run.family("all-2-3-6-digit-texts", 1, 1, exhaustive);
    run.family("layouts", 12_000, 3_000_000, converter);
    run.family("named-layouts", 3_000, 600_000, named);
    run.family("digit-strings", 12_000, 3_000_000, parsers);
    for k in ["negative_values", "layouts_with_decimal_point", "layouts_with_unused_bytes", "unchecked_conversions", "long_unchecked_conversions", "long_texts_with_point", "texts_with_following_bytes"] { run.require(k, 1000); }
    run.exhaustive("all 6-digit texts through parse_under8, all 2- and 3-digit texts");
}
