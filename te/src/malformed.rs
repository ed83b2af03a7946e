//! C05: hostile bytes. The cases run in child processes (a plain overflow-checked build with inputs laid against
//! inaccessible guard pages, and an AddressSanitizer build with exactly sized heap inputs); the parent decides.
use crate::krx::*;
use crate::child;
use trading_engine::data::krx::krx_converter as kc;
use trading_engine::types::id::ticker::Ticker;
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::utils::numeric_converter as nc;
use trading_engine::utils::timer::convert_unix_nano_to_date_and_time;
use trading_engine::{IsinCode, TimeStamp};
use vmon::{check, guarded, Case, Fail, Rng, Run, R};

/// bytes placed so that the first byte outside them (either side) is inaccessible
pub struct Guard { base: *mut u8, page: usize }
impl Guard {
    pub fn new() -> Guard {
        unsafe {
            let page = 4096usize;
            let p = libc::mmap(std::ptr::null_mut(), page * 3, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            assert_eq!(libc::mprotect((p as *mut u8).add(page) as *mut _, page, libc::PROT_READ | libc::PROT_WRITE), 0);
            Guard { base: p as *mut u8, page }
        }
    }
    pub fn put(&mut self, b: &[u8], at_end: bool) -> &[u8] {
        assert!(b.len() <= self.page);
        unsafe {
            let at = if at_end { self.base.add(2 * self.page - b.len()) } else { self.base.add(self.page) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}

fn hostile(r: &mut Rng, k: K, c: &mut Case) -> (Vec<u8>, bool) {
    let l = lay(k);
    let tod = r.below(86_400_000_000) as u64;
    let other = *r.pick(&KINDS);
    let kk = if r.chance(0.15) { other } else { k };
    let mut m = gen_msg(r, kk, tod);
    match r.below(10) {
        0 => { c.ev("random_length_random_bytes"); let n = r.below(1200); m = r.bytes(n); if r.bool() && n > 0 { m[n - 1] = 255; } }
        1 => { c.ev("right_length_random_bytes"); m = r.bytes(l.len); m[l.len - 1] = 255; }
        2 => { c.ev("truncated"); let n = if r.bool() { m.len() - 1 - r.below(3) } else { r.below(m.len()) }; m.truncate(n); if r.bool() { if let Some(x) = m.last_mut() { *x = 255; } } }
        3 => { c.ev("extended"); let n = 1 + r.below(40); m.extend(r.bytes(n)); *m.last_mut().unwrap() = 255; }
        4 => { c.ev("bad_terminator"); let n = m.len(); m[n - 1] = r.below(255) as u8; }
        5 => { c.ev("bad_isin"); for _ in 0..1 + r.below(3) { let i = 17 + r.below(12); m[i] = *r.pick(&[b' ', b'\t', 0x80, 0xff, 0xc3, b'\n', 0]); } }
        6 => { c.ev("non_utf8_body"); for _ in 0..1 + r.below(200) { let i = r.below(m.len() - 1); m[i] = 128 + r.below(128) as u8; } }
        7 => { c.ev("bytes_flipped"); for _ in 0..1 + r.below(20) { let i = r.below(m.len()); m[i] = r.u64() as u8; } }
        8 => { c.ev("empty_or_tiny"); let n = r.below(60); m.truncate(n); }
        _ => { c.ev("blank_fields"); let a = r.below(m.len() - 20); for i in a..a + 19 { m[i] = b' '; } }
    }
    let bad = m.len() != l.len || m[l.len - 1] != 255;
    (m, bad)
}
fn place<'a>(g: &'a mut Guard, heap: &'a mut Box<[u8]>, b: &[u8], r: &mut Rng) -> &'a [u8] {
    // exactly sized heap allocation under ASan, guard pages otherwise
    if std::env::var_os("VMON_ASAN").is_some() { *heap = b.to_vec().into_boxed_slice(); heap } else { g.put(b, r.chance(0.8)) }
}
thread_local! { static GUARD: std::cell::RefCell<Guard> = std::cell::RefCell::new(Guard::new()); }

pub fn decoders(r: &mut Rng, c: &mut Case) -> R { GUARD.with(|g| {
    let g = &mut *g.borrow_mut();
    let mut heap: Box<[u8]> = Box::new([]);
    let mut gen = DateUnixNanoGenerator::from_unixnano(20_000 * DAY);
    let mut bufs = junk_bufs(r);
    for _ in 0..12 {
        let k = *r.pick(&KINDS);
        let l = lay(k);
        let (m, bad) = hostile(r, k, c);
        let bad_isin = !bad && (m[17..29].iter().any(|b| !b.is_ascii() || *b == b' ' || *b == b'\t'));
        for b in m.iter().take(64) { c.fold(*b as u64); } c.fold(m.len() as u64);
        let cut = if l.levels == 0 || r.bool() { None } else { Some(r.below(l.levels + 1)) };
        let need = if l.levels == 0 { 0 } else { cut.unwrap_or(l.levels) };
        let usebuf = r.bool();
        if usebuf && r.chance(0.4) { bufs = junk_bufs(r); let n = r.below(10); let w = r.below(3);
            if w != 1 { bufs.q.ask_quote_data.truncate(n); bufs.tq.ask_quote_data.truncate(n); } if w != 0 { bufs.q.bid_quote_data.truncate(n); bufs.tq.bid_quote_data.truncate(n); }
            // a record that effective_*_data() may be asked about must stay coherent
            bufs.q.quote_level_cut = 0; bufs.tq.quote_level_cut = 0; }
        let short = usebuf && need > 0 && { let (a, b) = if l.trade { (bufs.tq.ask_quote_data.len(), bufs.tq.bid_quote_data.len()) } else { (bufs.q.ask_quote_data.len(), bufs.q.bid_quote_data.len()) }; a < need || b < need };
        let cum = r.bool();
        let s = place(g, &mut heap, &m, r);
        let res = guarded(|| decode(k, s, cut, cum, if usebuf { Some(&mut bufs) } else { None }, &mut gen).map(|_| ()).map_err(|e| e.to_string().len()));
        let what = || format!("{} cut {cut:?} buffer {usebuf}, {} bytes: {:?}", l.name, m.len(), m);
        match res {
            Err((loc, msg)) => return Err(Fail::new(format!("{}:panic", l.name), format!("decoder panics at {loc}: {msg}; {}", what()))),
            Ok(Ok(())) => {
                check!(!bad, format!("{}:accepts-malformed", l.name), "a message of wrong length or terminator was accepted; {}", what());
                check!(!bad_isin, format!("{}:accepts-bad-isin", l.name), "a message with an ill-formed ISIN was accepted; {}", what());
                check!(!short, format!("{}:accepts-short-buffer", l.name), "a buffer too small for the levels was accepted; {}", what());
                c.ev("accepted");
            }
            Ok(Err(_)) => {
                c.ev("rejected_with_an_error");
                check!(bad || short || m[17..29].iter().any(|b| !b.is_ascii() || b.is_ascii_whitespace()), format!("{}:rejects-shaped", l.name), "a message with right length, terminator and ISIN was refused; {}", what());
            }
        }
    }
    c.nontrivial = true;
    Ok(())
}) }

pub fn fields(r: &mut Rng, c: &mut Case) -> R { GUARD.with(|g| {
    let g = &mut *g.borrow_mut();
    let mut heap: Box<[u8]> = Box::new([]);
    let convs = [&kc::get_krx_stock_order_converter().price, &kc::get_krx_base_bond_order_converter().price, &kc::get_krx_repo_order_converter().quantity, &kc::get_krx_base_order_counter().order_count,
        &kc::get_krx_derivative_converter(b"G703F", &IsinCode::default()).price, &kc::get_krx_yield_converter().converter, &kc::get_krx_bond_cum_qnt_converter().converter, &kc::get_krx_base_cum_qnt_converter().converter];
    for _ in 0..40 {
        let n = r.below(40);
        let mut b: Vec<u8> = if r.bool() { (0..n).map(|_| b'0' + r.below(10) as u8).collect() } else { r.bytes(n) };
        if r.chance(0.2) && n > 1 { let i = r.below(n); b[i] = b'.'; }
        c.fold(vmon::mix(b.iter().fold(n as u64, |a, x| a.wrapping_mul(257) + *x as u64)));
        let len = 1 + r.below(32);
        let dp = r.below(len.min(12) + 1);
        let op = r.below(16);
        let ci = r.below(convs.len());
        let mut dg = DateUnixNanoGenerator::from_unixnano(20_000 * DAY);
        let s = place(g, &mut heap, &b, r);
        let cv = convs[ci];
        let w = cv.get_config().total_length;
        // the unchecked converters promise nothing about the digits, so they get whatever bytes, of any length
        let res = guarded(|| match op {
            0 => nc::parse_under8(s, len.min(8)) as u128, 1 => nc::parse_under16(s, len.min(16)),
            2 => nc::parse_under32(s, len.clamp(16, 32)), 3 => nc::parse_under8_with_floating_point(s, len.min(8), dp.min(len.min(8))) as u128,
            4 => nc::parse_under16_with_floating_point(s, len.min(16), dp.min(len.min(16))) as u128,
            5 => nc::parse_under32_with_floating_point(s, len.clamp(17, 18), dp) as u128,
            6 => nc::parse_2digits(s) as u128, 7 => nc::parse_3digits(s) as u128, 8 => nc::parse_hhmmss_to_nanos(s) as u128,
            9 => cv.to_u64(s) as u128, 10 => cv.to_i64(s) as u128,
            11 => unsafe { cv.to_u64_unchecked(s) as u128 }, 12 => unsafe { cv.to_nonnegative_i64_unchecked(s) as u128 },
            13 => if w <= 8 { unsafe { cv.to_u32_unchecked(s) as u128 } } else { 0 },
            14 => kc::get_krx_timestamp_converter().parse_hhmmssuuuuuu(s, Some(TimeStamp::new(1)), &mut dg).map(|t| t.stamp as u128).unwrap_or(0),
            _ => kc::get_krx_base_order_counter().to_order_count(s) as u128,
        });
        match res { Ok(v) => { c.fold(v as u64); c.ev("field_parser_returned") } Err(_) => c.ev("field_parser_refused_too_short_text") }
        // a text of exactly the right width is never refused
        if op == 9 && n >= w { c.ev("full_width_fields"); let s = place(g, &mut heap, &b, r); let q = guarded(|| cv.to_u64(s)); if let Err((loc, m)) = q { return Err(Fail::new("field:panic", format!("converting {n} bytes {b:?} with layout {:?} panics at {loc}: {m}", cv.get_config()))); } }
    }
    // identifiers
    for _ in 0..20 {
        let n = *r.pick(&[0usize, 1, 6, 11, 12, 12, 12, 13, 31, 32, 33, 64]);
        let b: Vec<u8> = match r.below(3) { 0 => r.bytes(n), 1 => (0..n).map(|_| b'A' + r.below(26) as u8).collect(), _ => "안녕 KR7é\u{10348}".bytes().cycle().skip(r.below(9)).take(n).collect() };
        let s = place(g, &mut heap, &b, r);
        let res = guarded(|| {
            let i = IsinCode::new(s).map(|i| std::str::from_utf8(i.as_str().as_bytes()).is_ok() && i.as_bytes() == s);
            let t = Ticker::new(s).map(|t| std::str::from_utf8(t.as_str().as_bytes()).is_ok() && t.as_str().as_bytes().starts_with(s));
            (i.map_err(|_| ()), t.map_err(|_| ()))
        });
        match res {
            Err((loc, m)) => return Err(Fail::new("identifier:panic", format!("identifier constructor panics at {loc} on {b:?}: {m}"))),
            Ok((i, t)) => {
                check!(i != Ok(false), "isin:text", "ISIN built from {b:?} has a text form that is not these bytes / not valid UTF-8");
                check!(t != Ok(false), "ticker:text", "ticker built from {b:?} has a text form that is not valid UTF-8 or not these bytes");
                if i.is_ok() { c.ev("isin_accepted") } else { c.ev("isin_rejected") }
                if t.is_ok() { c.ev("ticker_accepted") } else { c.ev("ticker_rejected") }
            }
        }
        // deserialization is a constructor too
        let js = |k: &str, v: &[u8], w: usize| { let mut v = v.to_vec(); v.resize(w, b'0'); format!("{{\"{k}\":{:?}}}", v) };
        if let Ok(i) = serde_json::from_str::<IsinCode>(&js("isin", &b, 12)) { c.ev("isin_deserialized"); check!(std::str::from_utf8(i.as_str().as_bytes()).is_ok(), "isin:deserialized-text", "ISIN deserialized from bytes {b:?} yields a &str that is not valid UTF-8 (undefined behaviour)"); }
        if let Ok(t) = serde_json::from_str::<Ticker>(&js("ticker", &b, 32)) { c.ev("ticker_deserialized"); check!(std::str::from_utf8(t.as_str().as_bytes()).is_ok(), "ticker:deserialized-text", "ticker deserialized from bytes {b:?} yields a &str that is not valid UTF-8 (undefined behaviour)"); }
    }
    let t = r.u64();
    let _ = guarded(|| convert_unix_nano_to_date_and_time(t, r.range(-12, 14) as i32)).map_err(|(l, m)| Fail::new("clock-text:panic", format!("text of {t} panics at {l}: {m}")))?;
    c.nontrivial = true;
    Ok(())
}) }
pub fn c05(run: &mut Run) {
    run.rule("one case is a batch of 12 hostile messages (or 40 field texts and 20 identifiers) given to the decoders in a child process, laid against guard pages or in exactly sized heap blocks under AddressSanitizer; distinct by the bytes");
    run.assume("unchecked numeric converters are called within their documented widths; text shorter than a field may be refused by a bounds-check panic, decoders and identifier constructors may not panic at all");
    let per = if run.thorough() { 400_000 } else { 6_000 };
    let t = if run.thorough() { 3000 } else { 240 };
    use child::San::*;
    child::plan(run, &[("decoders", "decoders/guard-page", Plain, per, 2), ("fields", "fields/guard-page", Plain, per, 2), ("decoders", "decoders/asan", Asan, per / 4, 2), ("fields", "fields/asan", Asan, per / 4, 2)], t, 8);
    if run.cfg.replay.is_some() { return }
    run.require("rejected_with_an_error", 1000);
    run.require("accepted", 1000);
    for c in ["truncated", "extended", "bad_terminator", "bad_isin", "non_utf8_body", "right_length_random_bytes", "field_parser_returned", "full_width_fields", "isin_accepted", "ticker_accepted"] { run.require(c, 100); }
}
