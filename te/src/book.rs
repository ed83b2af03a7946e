//! C01/C02/C03: order book monitors. A reference price-time-priority book is run in lock-step.
use std::collections::{BTreeMap, VecDeque};
use trading_engine::data::order::*;
use trading_engine::data::{quote::QuoteSnapshot, trade_quote::TradeQuoteSnapshot};
use trading_engine::orderbook::{half_book::HalfBook, OrderBook};
use trading_engine::types::base::{LevelSnapshot, TradeHistory};
use trading_engine::types::enums::OrderSide;
use trading_engine::{InstId, IsinCode, Venue};
use trading_engine::types::id::Symbol;
use vmon::{check, fail, some, Case, Rng, Run, R};

#[derive(Clone, Default, Debug)]
pub struct RefSide { pub lv: BTreeMap<i64, VecDeque<(u64, u64)>> }
impl RefSide {
    fn find(&self, id: u64) -> Option<(i64, usize)> {
        for (p, q) in &self.lv { if let Some(i) = q.iter().position(|x| x.0 == id) { return Some((*p, i)); } }
        None
    }
    fn add(&mut self, id: u64, p: i64, q: u64) { self.lv.entry(p).or_default().push_back((id, q)); }
    fn del(&mut self, id: u64) -> Option<(i64, u64)> {
        let (p, i) = self.find(id)?;
        let l = self.lv.get_mut(&p).unwrap();
        let (_, q) = l.remove(i).unwrap();
        if l.is_empty() { self.lv.remove(&p); }
        Some((p, q))
    }
    fn total(&self) -> u64 { self.lv.values().flatten().map(|x| x.1).sum() }
    /// prices from best to worst
    fn prices(&self, ask: bool) -> Vec<i64> { if ask { self.lv.keys().copied().collect() } else { self.lv.keys().rev().copied().collect() } }
    /// trade up to `q` against this side with optional limit
    fn take(&mut self, ask: bool, mut q: u64, limit: Option<i64>, gone: &mut Vec<u64>) -> (Vec<(i64, u64)>, u64) {
        let mut out = vec![];
        for p in self.prices(ask) {
            if q == 0 { break; }
            if let Some(l) = limit { if (ask && p > l) || (!ask && p < l) { break; } }
            let lv = self.lv.get_mut(&p).unwrap();
            let mut t = 0;
            while q > 0 {
                let Some(f) = lv.front_mut() else { break };
                let x = f.1.min(q);
                f.1 -= x; q -= x; t += x;
                if f.1 == 0 { gone.push(f.0); lv.pop_front(); }
            }
            if lv.is_empty() { self.lv.remove(&p); }
            if t > 0 { out.push((p, t)); }
        }
        (out, q)
    }
}
#[derive(Clone, Default, Debug)]
pub struct RefBook { pub a: RefSide, pub b: RefSide, pub seen: Vec<u64>, crossed_ok: bool }
impl RefBook {
    fn side(&mut self, s: OrderSide) -> &mut RefSide { if s == OrderSide::Ask { &mut self.a } else { &mut self.b } }
    fn limit(&mut self, s: OrderSide, p: i64, q: u64, id: u64) -> Option<(Vec<(i64, u64)>, u64)> {
        let opp_ask = s == OrderSide::Bid;
        let opp = if opp_ask { &mut self.a } else { &mut self.b };
        let best = opp.prices(opp_ask).first().copied();
        let crosses = best.map_or(false, |b| if opp_ask { b <= p } else { b >= p });
        if !crosses { self.side(s).add(id, p, q); return None; }
        let mut g = vec![];
        let (h, rem) = opp.take(opp_ask, q, Some(p), &mut g);
        if rem > 0 { self.side(s).add(id, p, rem); }
        Some((h, rem))
    }
}
fn hist(h: &TradeHistory) -> Vec<(i64, u64)> { (0..h.len()).map(|i| h[i]).collect() }
fn hcmp(what: &str, got: Option<(TradeHistory, u64)>, want: Option<(Vec<(i64, u64)>, u64)>) -> R {
    let g = got.as_ref().map(|(h, r)| (hist(h), *r));
    if let Some((h, _)) = &got {
        if !h.is_empty() {
            let n: i128 = hist(h).iter().map(|(p, q)| *p as i128 * *q as i128).sum();
            let na: i128 = hist(h).iter().map(|(p, q)| (*p as i128 * *q as i128).abs()).sum();
            let d: i128 = hist(h).iter().map(|(_, q)| *q as i128).sum();
            let w = n as f64 / d as f64;
            if na < (1i128 << 62) {
                check!(vmon::close(h.average_trade_price(), w, 1e-12, 1e-12), "book:average-trade-price", "{what}: average {} expected {w}", h.average_trade_price());
            }
            check!(h.get_last_trade() == hist(h).last().copied(), "book:last-trade", "{what}");
        }
    }
    // "nothing traded" may be reported as None or as an empty history
    let norm = |x: Option<(Vec<(i64, u64)>, u64)>| x.filter(|(h, _)| !h.is_empty());
    check!(norm(g.clone()) == norm(want.clone()), "book:trades", "{what}: book traded {g:?}, price-time priority gives {want:?}");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Trades, Views }

fn side(rng: &mut Rng) -> OrderSide { if rng.bool() { OrderSide::Ask } else { OrderSide::Bid } }

fn views(b: &OrderBook, m: &RefBook, case: &mut Case, matching_only: bool) -> R {
    for (hb, rs, ask) in [(&b.asks, &m.a, true), (&b.bids, &m.b, false)] {
        let nm = if ask { "ask" } else { "bid" };
        let best = rs.prices(ask).first().copied().unwrap_or(if ask { i64::MAX } else { i64::MIN });
        check!(hb.best_price == best, "book:best-price", "{nm} best {} expected {best}; {m:?}", hb.best_price);
        check!(hb.get_total_quantity() == rs.total() && hb.aggregate_quantity() == rs.total(), "book:side-total", "{nm} total {} expected {}", hb.get_total_quantity(), rs.total());
        check!(hb.len() == rs.lv.len() && hb.is_empty() == rs.lv.is_empty(), "book:level-count", "{nm} has {} levels expected {}", hb.len(), rs.lv.len());
        let snap = if ask { b.ask_level_snapshot() } else { b.bid_level_snapshot() };
        let mut got: Vec<(i64, u64, u32)> = snap.iter().map(|l| (l.book_price, l.book_quantity, l.order_count.unwrap_or(u32::MAX))).collect();
        got.sort();
        let want: Vec<(i64, u64, u32)> = rs.lv.iter().map(|(p, q)| (*p, q.iter().map(|x| x.1).sum(), q.len() as u32)).collect();
        check!(got == want, "book:level-snapshot", "{nm} snapshot {got:?} expected {want:?}");
        for (p, q, _) in &want {
            check!(hb.aggregate_quantity_at_price(*p) == *q, "book:quantity-at-price", "{nm} at {p}: {} expected {q}", hb.aggregate_quantity_at_price(*p));
        }
        let ids: BTreeMap<u64, (i64, u64)> = rs.lv.iter().flat_map(|(p, v)| v.iter().map(move |x| (x.0, (*p, x.1)))).collect();
        for id in &m.seen {
            let g = hb.get_order(*id).map(|o| (o.price, o.quantity));
            check!(g == ids.get(id).copied(), "book:order-lookup", "{nm} lookup of order {id}: {g:?} expected {:?}", ids.get(id));
            check!(hb.get_price(*id) == ids.get(id).map(|x| x.0), "book:price-lookup", "{nm} price of order {id}");
            if let Some(o) = hb.get_order(*id) {
                check!(o.order_id == *id && (o.order_side == OrderSide::Ask) == ask, "book:order-lookup", "order {id} came back as {o:?}");
            }
        }
        case.evn("order lookups compared", m.seen.len() as u64);
    }
    check!(b.check_validity_quantity(), "book:self-check", "self check reports inconsistent totals for a consistent history: {m:?}");
    if matching_only {
        if let (Some(x), Some(y)) = (m.a.lv.keys().next(), m.b.lv.keys().next_back()) {
            check!(x > y, "harness", "reference crossed");
            check!(b.asks.best_price > b.bids.best_price, "book:crossed", "book crossed");
        }
    }
    // printed ladder
    let s = b.to_string();
    let mut asks = vec![]; let mut bids = vec![];
    for line in s.lines().skip(2) {
        let f: Vec<&str> = line.split('|').map(|x| x.trim()).collect();
        if f.len() != 5 || f[2].starts_with('-') && f[2].len() > 1 && f[2].chars().all(|c| c == '-') { continue; }
        let p: i64 = match f[2].parse() { Ok(p) => p, Err(_) => fail!("book:ladder", "unparsable ladder line {line:?}") };
        if f[0].is_empty() { asks.push((p, f[4].parse::<u64>().unwrap_or(u64::MAX), f[3].parse::<usize>().unwrap_or(usize::MAX))); }
        else { bids.push((p, f[0].parse::<u64>().unwrap_or(u64::MAX), f[1].parse::<usize>().unwrap_or(usize::MAX))); }
    }
    let want = |r: &RefSide| r.lv.iter().rev().map(|(p, q)| (*p, q.iter().map(|x| x.1).sum::<u64>(), q.len())).collect::<Vec<_>>();
    check!(asks == want(&m.a) && bids == want(&m.b), "book:ladder", "printed ladder disagrees:\n{s}\nexpected asks {:?} bids {:?}", want(&m.a), want(&m.b));
    // one side printed alone, all of it or up to a number of levels: every row is a level of the book, none twice
    for (half, r, ask) in [(&b.asks, &m.a, true), (&b.bids, &m.b, false)] {
        let all = want(r);
        for depth in [None, Some(0), Some(1), Some(all.len() / 2), Some(all.len() + 3)] {
            let s = half.to_string_upto_depth(depth);
            let mut rows = vec![];
            for line in s.lines().skip(2) {
                let f: Vec<&str> = line.split('|').map(|x| x.trim()).collect();
                let (px, n, q) = match f[..] { [a, b, c] if ask => (a, b, c), [a, b, c] => (c, b, a), _ => fail!("book:side-text", "unreadable row {line:?}") };
                match (px.parse::<i64>(), q.parse::<u64>(), n.parse::<usize>()) { (Ok(p), Ok(q), Ok(n)) => rows.push((p, q, n)), _ => fail!("book:side-text", "unreadable row {line:?}") }
            }
            let (n, mut u) = (rows.len(), rows.clone()); u.sort(); u.dedup();
            check!(n == depth.unwrap_or(usize::MAX).min(all.len()) && u.len() == n && rows.iter().all(|x| all.contains(x)), "book:side-text", "one side up to {depth:?} levels is printed as\n{s}\nits levels are {all:?}");
        }
    }
    case.ev("full view comparisons");
    Ok(())
}

/// consume a clone of the book front-to-back one resting order at a time
fn drain(b: &OrderBook, m: &RefBook, case: &mut Case) -> R {
    let mut b = b.clone();
    for (ask, rs) in [(true, &m.a), (false, &m.b)] {
        for p in rs.prices(ask) {
            for (id, q) in &rs.lv[&p] {
                let s = if ask { OrderSide::Bid } else { OrderSide::Ask };
                let got = b.process_market_order(&MarketOrder::new(*q, s, u64::MAX - 7));
                let Some((h, rem)) = got else { fail!("book:drain", "book empty while order {id} ({q}@{p}) should rest; {m:?}") };
                check!(hist(&h) == vec![(p, *q)] && rem == 0, "book:drain", "draining order {id} ({q}@{p}) traded {:?} rem {rem}", hist(&h));
                let hb = if ask { &b.asks } else { &b.bids };
                check!(hb.get_order(*id).is_none(), "book:time-priority", "after trading exactly the oldest order's quantity at {p}, order {id} still rests: queue order wrong; {m:?}");
                case.ev("resting orders drained in priority order");
            }
        }
        let hb = if ask { &b.asks } else { &b.bids };
        check!(hb.is_empty() && hb.get_total_quantity() == 0, "book:drain", "book not empty after draining all resting orders");
        let s = if ask { OrderSide::Bid } else { OrderSide::Ask };
        let r = b.process_market_order(&MarketOrder::new(1, s, u64::MAX - 8));
        check!(r.as_ref().map_or(true, |(h, rem)| h.is_empty() && *rem == 1), "book:empty-market", "market order against empty side traded");
    }
    Ok(())
}

fn inst_id(n: u64) -> InstId {
    // well-formed ISIN-like 12 byte codes
    let code = format!("KR{:010}", n % 10_000_000_000);
    InstId::new(Symbol::Isin(IsinCode::new(code.as_bytes()).unwrap()), Venue::KRX)
}

pub fn history(rng: &mut Rng, case: &mut Case, focus: Focus) -> R {
    let mut b = if rng.chance(0.25) { case.ev("default_constructed_books"); OrderBook::default() } else { OrderBook::initialize_with_id(inst_id(1)) };
    let mut m = RefBook::default();
    let steps = [8, 30, 80, 200, 300][rng.below(5)];
    // a deep book: hundreds of orders rest on few levels, or on hundreds of levels, before the history proper begins
    let deep = rng.chance(if focus == Focus::Trades { 0.02 } else { 0.004 });
    let (lo, hi) = match rng.below(10) { 8 => (i64::MAX - 12, i64::MAX - 1), 9 => (i64::MIN + 1, i64::MIN + 12), 0 => (100, 104), 1 => (1, 40), 2 => (-20, 20), 3 => (99_990_000, 100_010_000), 4 => (1 << 40, (1 << 40) + 12), 5 => (-(1 << 40) - 8, -(1 << 40)), 6 => (50, 130), _ => (98, 103) };
    let qmax = [3u64, 10, 100, 1000, 1_000_000_000, 1 << 41, (1 << 54) + 1][rng.below(7)];
    let mkt_cap = [3u64, 10, 50, u64::MAX][rng.below(4)];
    let matching_only = rng.chance(0.7);
    // order numbers: counted up from anywhere in the whole range, counted down, or scattered
    let (id_first, id_step) = match rng.below(8) { 0 => (u64::MAX, 1u64.wrapping_neg()), 1 => (1 << 32, 1u64.wrapping_neg()), 2 => (0, 0x9E37_79B9_7F4A_7C15), 3 => ((1 << 63) - 20, 1), 4 => (u64::MAX - 5000, 1), _ => (0, 1) };
    if id_step != 1 { case.ev("order_numbers_not_in_time_order"); }
    let mut id_count = rng.below(5) as u64;
    let mut huge_left = [rng.chance(0.08), rng.chance(0.08)];
    let mut weights: Vec<u32> = (0..9).map(|_| if rng.chance(0.2) { 0 } else { rng.range(0, 6) as u32 + 1 }).collect();
    weights[0] += 2; weights[3] = if rng.chance(0.5) { 1 } else { weights[3] };
    let wsum: u32 = weights.iter().sum();
    let center = rng.range(lo, hi);
    let deep = deep && lo > i64::MIN / 2 && hi < i64::MAX / 2;
    if deep {
        let vast = rng.chance(0.04);
        let width = if vast { [1i64, 1, 50, 6000][rng.below(4)] } else { [1i64, 2, 6, 400][rng.below(4)] };
        let n = if vast { case.ev("vast_books"); 2500 + rng.below(4000) } else { 150 + rng.below(450) };
        for _ in 0..n {
            let s = side(rng);
            let px = if s == OrderSide::Ask { center + 1 + rng.range(0, width - 1) } else { center - rng.range(0, width - 1) };
            let qty = rng.range(1, qmax.min(1 << 41) as i64) as u64;
            id_count += 1; let next_id = id_first.wrapping_add(id_count.wrapping_mul(id_step)); m.seen.push(next_id);
            check!(b.process_limit_order(LimitOrder::new(px, qty, s, next_id)).is_none(), "book:trades", "a non-crossing order traded");
            m.limit(s, px, qty, next_id);
        }
        for hb in [&m.a, &m.b] { if hb.lv.values().any(|l| l.len() > 128) { case.ev("levels_of_more_than_128_orders"); } if hb.lv.len() > 64 { case.ev("sides_of_more_than_64_levels"); } }
        case.trace(|| format!("{n} resting orders around {center}, width {width}"));
        case.ev("deep_books");
    }
    let steps = if m.seen.len() > 2000 { steps.min(40) } else { steps };
    for step in 0..steps {
        let mut w = rng.below(wsum as usize) as u32;
        let mut op = 0;
        for (i, x) in weights.iter().enumerate() { if w < *x { op = i; break; } w -= x; }
        let px = if rng.chance(0.5) { rng.range(lo, hi) } else { center.saturating_add(rng.range(-3, 3)).clamp(lo, hi) };
        let qty = if !deep && rng.chance(0.6) { rng.range(1, qmax.min(8) as i64) as u64 } else { rng.range(1, qmax as i64) as u64 };
        let live: Vec<u64> = m.a.lv.values().chain(m.b.lv.values()).flatten().map(|x| x.0).collect();
        let some_id = |rng: &mut Rng, m: &RefBook| -> u64 {
            if !live.is_empty() && rng.chance(0.9) { *rng.pick(&live) } else if !m.seen.is_empty() && rng.bool() { *rng.pick(&m.seen) } else { 1_000_000 + rng.below(10) as u64 }
        };
        match op {
            0 | 1 | 2 => {
                let s = side(rng);
                id_count += 1 + rng.below(3) as u64;
                let next_id = id_first.wrapping_add(id_count.wrapping_mul(id_step));
                m.seen.push(next_id);
                // one quantity beyond the signed 64-bit range per side: side totals still fit
                let qty = if qmax <= 1_000_000_000 && std::mem::take(&mut huge_left[(s == OrderSide::Ask) as usize]) { case.ev("quantities_beyond_63_bits"); (1 << 63) + qty } else { qty };
                case.trace(|| format!("limit {s:?} {qty}@{px} id {next_id}"));
                if !matching_only && rng.chance(0.4) {
                    vmon::must!(b.add_limit_order(LimitOrder::new(px, qty, s, next_id)), "book:add-refused", "adding a valid order");
                    m.side(s).add(next_id, px, qty);
                    case.ev("orders added without matching");
                } else {
                    let got = b.process_limit_order(LimitOrder::new(px, qty, s, next_id));
                    let want = m.limit(s, px, qty, next_id);
                    if let Some((h, rem)) = &want {
                        case.ev("crossing limit orders");
                        case.evn("trades", h.len() as u64);
                        if h.len() > 1 { case.ev("multi-level sweeps"); case.nontrivial = true; }
                        if *rem > 0 { case.ev("partially filled limit remainders rested"); }
                    } else { case.ev("resting limit orders"); }
                    if focus == Focus::Trades { hcmp("limit order", got, want)?; }
                }
            }
            3 => {
                let s = side(rng);
                let q = if rng.chance(0.2) { m.side(if s == OrderSide::Ask { OrderSide::Bid } else { OrderSide::Ask }).total().max(1) } else { qty.saturating_mul(1 + rng.below(5) as u64).min(mkt_cap) };
                case.trace(|| format!("market {s:?} {q}"));
                let got = b.process_market_order(&MarketOrder::new(q, s, 9_000_000 + step as u64));
                let opp_ask = s == OrderSide::Bid;
                let mut gone = vec![];
                let want = (if opp_ask { &mut m.a } else { &mut m.b }).take(opp_ask, q, None, &mut gone);
                case.ev("market orders");
                case.evn("trades", want.0.len() as u64);
                if want.0.len() > 1 { case.ev("multi-level sweeps"); }
                if want.1 > 0 { case.ev("market orders left unfilled"); }
                if focus == Focus::Trades { hcmp("market order", got, Some(want))?; }
            }
            4 => {
                let id = some_id(rng, &m);
                case.trace(|| format!("cancel {id}"));
                let got = b.cancel_order(CancelOrder::new(id));
                let want = m.a.del(id).or_else(|| m.b.del(id));
                if want.is_some() { case.ev("orders cancelled"); } else { case.ev("unknown ids cancelled"); }
                check!(got.is_some() == want.is_some(), "book:cancel-result", "cancel of {id}: {got:?}, order existed: {}", want.is_some());
            }
            5 => {
                // amendment
                let id = some_id(rng, &m);
                let place = m.a.find(id).map(|x| (OrderSide::Ask, x)).or_else(|| m.b.find(id).map(|x| (OrderSide::Bid, x)));
                let p2 = if rng.chance(0.4) { place.map_or(px, |x| x.1 .0) } else { px };
                case.trace(|| format!("modify {id} -> {qty}@{p2}"));
                let qty = if rng.chance(0.05) { 0 } else { qty };
                let got = b.modify_order(ModifyOrder::new(id, p2, qty));
                let want = match place {
                    Some((s, _)) if qty == 0 => { m.side(s).del(id); case.ev("orders amended to zero"); None }
                    None => { case.ev("unknown ids amended"); None }
                    Some((s, (p, i))) if p == p2 => { m.side(s).lv.get_mut(&p).unwrap()[i].1 = qty; case.ev("quantity amendments"); None }
                    Some((s, _)) => { m.side(s).del(id); case.ev("price amendments"); let w = m.limit(s, p2, qty, id); if w.is_some() { case.ev("amendments that traded"); case.nontrivial = true; } w }
                };
                if focus == Focus::Trades { hcmp("amendment", got, want)?; }
            }
            6 => {
                let id = some_id(rng, &m);
                let q2 = if rng.chance(0.15) { 0 } else { qty };
                case.trace(|| format!("change_quantity {id} -> {q2}"));
                let got = b.change_quantity(id, q2);
                let mut found = false;
                for s in [OrderSide::Ask, OrderSide::Bid] {
                    if let Some((p, i)) = m.side(s).find(id) {
                        found = true;
                        if q2 == 0 { m.side(s).del(id); case.ev("orders amended to zero"); } else { m.side(s).lv.get_mut(&p).unwrap()[i].1 = q2; case.ev("quantity amendments"); }
                    }
                }
                check!(got.is_some() == found, "book:change-quantity-result", "change quantity of {id}: {got:?}, existed {found}");
            }
            7 => {
                let s = side(rng);
                let prices: Vec<i64> = m.side(s).lv.keys().copied().collect();
                let p = if !prices.is_empty() && rng.chance(0.85) { *rng.pick(&prices) } else { px };
                case.trace(|| format!("remove_any {s:?} {qty}@{p}"));
                let got = b.remove_order(RemoveAnyOrder::new(p, qty, s));
                let mut rem = qty;
                let rs = m.side(s);
                if let Some(l) = rs.lv.get_mut(&p) {
                    while rem > 0 {
                        let Some(x) = l.back_mut() else { break };
                        let t = x.1.min(rem);
                        x.1 -= t; rem -= t;
                        if x.1 == 0 { l.pop_back(); }
                    }
                    if l.is_empty() { rs.lv.remove(&p); }
                    case.ev("back-of-queue removals");
                }
                check!(got == Some(rem), "book:remove-result", "remove {qty}@{p}: remaining {got:?} expected {rem}");
            }
            _ => {
                // half-book level price move: to the back of the new price, no matching
                if matching_only { continue; }
                let id = some_id(rng, &m);
                let place = m.a.find(id).map(|_| OrderSide::Ask).or_else(|| m.b.find(id).map(|_| OrderSide::Bid));
                case.trace(|| format!("change_price {id} -> {px}"));
                let got = b.asks.change_price(id, px).or_else(|| b.bids.change_price(id, px));
                if let Some(s) = place { let (_, q) = m.side(s).del(id).unwrap(); m.side(s).add(id, px, q); case.ev("price moves without matching"); }
                check!(got.is_some() == place.is_some(), "book:change-price-result", "change price of {id}");
            }
        }
        if focus == Focus::Views { views(&b, &m, case, matching_only)?; }
        else if rng.chance(if deep { 0.002 } else { 0.05 }) { drain(&b, &m, case)?; }
        case.fold(m.a.total().wrapping_mul(31) ^ m.b.total() ^ ((m.a.lv.len() as u64) << 40) ^ ((m.b.lv.len() as u64) << 50));
    }
    if focus == Focus::Trades { drain(&b, &m, case)?; } else {
        views(&b, &m, case, matching_only)?;
        // clone equality / eq_level
        let c = b.clone();
        check!(b.eq_level(&c) && c.eq_level(&b), "book:eq-level", "a book is not level-equal to its copy");
        if let Some(p) = m.a.lv.keys().next().copied() {
            let mut c = b.clone();
            let q = m.a.lv[&p].back().unwrap().1;
            c.remove_order(RemoveAnyOrder::new(p, q, OrderSide::Ask));
            check!(!b.eq_level(&c) && !c.eq_level(&b), "book:eq-level", "books with different ask quantity compare level-equal");
        }
        let mut c = b.clone();
        c.asks.clear(); c.bids.clear();
        check!(c.asks.is_empty() && c.bids.is_empty() && c.asks.get_total_quantity() == 0 && c.asks.best_price == i64::MAX && c.bids.best_price == i64::MIN, "book:clear", "clear leaves residue");
        for id in &m.seen { check!(c.asks.get_order(*id).is_none() && c.bids.get_order(*id).is_none(), "book:clear", "cleared book still finds {id}"); }
    }
    case.sample_trace(12);
    Ok(())
}

/// initialize_with_limit_order + half book API
fn half(rng: &mut Rng, case: &mut Case) -> R {
    let s = side(rng);
    let ask = s == OrderSide::Ask;
    let mut m = RefSide::default();
    let p = rng.range(90, 110);
    let mut h = if rng.bool() { m.add(1, p, 5); HalfBook::initialize_with_limit_order(LimitOrder::new(p, 5, s, 1)) } else { HalfBook::initialize(s) };
    for id in 2..(3 + rng.below(30) as u64) {
        let p = rng.range(95, 105); let q = rng.range(1, 9) as u64;
        if rng.chance(0.15) {
            let other = if ask { OrderSide::Bid } else { OrderSide::Ask };
            check!(h.add_limit_order(LimitOrder::new(p, q, other, 1000 + id)).is_err(), "book:wrong-side-accepted", "order of the other side accepted");
            check!(h.remove_order(RemoveAnyOrder::new(p, q, other)).is_none(), "book:wrong-side-accepted", "removal of the other side accepted");
            check!(h.trade_market_order(&MarketOrder::new(q, s, 7)).is_none(), "book:same-side-trade", "market order traded against its own side");
            check!(h.trade_limit_order(&LimitOrder::new(p, q, s, 7)).is_none(), "book:same-side-trade", "limit order traded against its own side");
            case.ev("wrong-side requests refused");
        } else { vmon::must!(h.add_limit_order(LimitOrder::new(p, q, s, id)), "book:add-refused", "half book"); m.add(id, p, q); }
        if rng.chance(0.3) {
            let o = if ask { OrderSide::Bid } else { OrderSide::Ask };
            let q = rng.range(1, 25) as u64; let p = rng.range(93, 107);
            let best = m.prices(ask).first().copied();
            let crosses = best.map_or(false, |b| if ask { b <= p } else { b >= p });
            let got = h.trade_limit_order(&LimitOrder::new(p, q, o, 9999));
            let mut g = vec![];
            let want = if crosses { Some(m.take(ask, q, Some(p), &mut g)) } else { None };
            hcmp("half book limit", got, want)?;
            case.ev("half-book trades");
            case.nontrivial = true;
        }
        check!(h.get_total_quantity() == m.total() && h.len() == m.lv.len(), "book:side-total", "half book totals");
        check!(h.best_price == m.prices(ask).first().copied().unwrap_or(if ask { i64::MAX } else { i64::MIN }), "book:best-price", "half book best");
        let bq = m.prices(ask).first().map(|p| m.lv[p].iter().map(|x| x.1).sum::<u64>());
        check!(h.get_best_level_mut().map(|l| l.aggregate_quantity()) == bq, "book:best-level", "best level");
        case.fold(m.total());
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
fn lvl(p: i64, q: u64, c: u32) -> LevelSnapshot { LevelSnapshot { order_count: Some(c), book_price: p, book_quantity: q, lp_quantity: None } }
fn gen_depth(rng: &mut Rng, prev: &[(i64, u64)], ask: bool, n: usize, mid: i64) -> Vec<(i64, u64)> {
    let scale = if rng.chance(0.1) { 3_000_000_001 } else { 1u64 };
    let mut v: BTreeMap<i64, u64> = BTreeMap::new();
    let k = if rng.chance(0.1) { rng.below(n + 1) } else { n };
    for x in prev { if v.len() < k && rng.chance(0.7) { v.insert(x.0, if rng.chance(0.6) { x.1 } else if rng.chance(0.05) { x.1 + (1 << 32) * rng.range(1, 3) as u64 } else { rng.range(1, 50) as u64 * scale }); } }
    let mut guard = 0;
    while v.len() < k && guard < 1000 {
        guard += 1;
        let d = rng.range(1, 12);
        v.entry(if ask { mid + d } else { mid - d }).or_insert(rng.range(1, 1000) as u64 * scale);
    }
    // no level may cross the middle
    v.retain(|p, _| if ask { *p > mid - 20 } else { *p < mid + 20 });
    let mut o: Vec<_> = v.into_iter().collect();
    if !ask { o.reverse(); }
    o
}
fn lv_of(hb: &[LevelSnapshot]) -> BTreeMap<i64, u64> { hb.iter().map(|l| (l.book_price, l.book_quantity)).collect() }
fn to_map(v: &[(i64, u64)]) -> BTreeMap<i64, u64> { v.iter().copied().collect() }

fn level_view_is(b: &OrderBook, a: &[(i64, u64)], d: &[(i64, u64)], sig: &str, what: &str) -> R {
    let (ga, gb) = (b.ask_level_snapshot(), b.bid_level_snapshot());
    check!(ga.len() == a.len() && lv_of(&ga) == to_map(a), sig, "{what}: ask levels {ga:?} expected {a:?}");
    check!(gb.len() == d.len() && lv_of(&gb) == to_map(d), sig, "{what}: bid levels {gb:?} expected {d:?}");
    let (ta, tb) = (a.iter().map(|x| x.1).sum::<u64>(), d.iter().map(|x| x.1).sum::<u64>());
    check!(b.asks.get_total_quantity() == ta && b.bids.get_total_quantity() == tb, sig, "{what}: side totals {} {} expected {ta} {tb}", b.asks.get_total_quantity(), b.bids.get_total_quantity());
    let ba = a.iter().map(|x| x.0).min().unwrap_or(i64::MAX);
    let bb = d.iter().map(|x| x.0).max().unwrap_or(i64::MIN);
    check!(b.asks.best_price == ba && b.bids.best_price == bb, sig, "{what}: best {} / {} expected {ba} / {bb}", b.asks.best_price, b.bids.best_price);
    check!(b.check_validity_quantity(), sig, "{what}: self check fails");
    Ok(())
}

pub fn snapshots(rng: &mut Rng, case: &mut Case) -> R {
    let me = inst_id(100 + rng.below(50) as u64);
    let other = inst_id(500 + rng.below(50) as u64);
    let mut b = OrderBook::initialize_with_id(me);
    let n = [1, 5, 5, 10][rng.below(4)];
    let mut mid = rng.range(-5, 1000);
    let (mut pa, mut pb): (Vec<(i64, u64)>, Vec<(i64, u64)>) = (vec![], vec![]);
    let snap_only = rng.bool();
    for k in 0..(1 + rng.below(25)) {
        if rng.chance(0.3) { mid += rng.range(-4, 4); }
        let a = gen_depth(rng, &pa, true, n, mid);
        let d = gen_depth(rng, &pb, false, n, mid);
        let pad = rng.chance(0.5);
        let mk = |v: &[(i64, u64)], rng: &mut Rng| -> Vec<LevelSnapshot> {
            let mut o: Vec<_> = v.iter().map(|x| lvl(x.0, x.1, 1 + rng.below(9) as u32)).collect();
            if pad { while o.len() < n { o.push(lvl(0, 0, 0)); } }
            o
        };
        let (sa, sd) = (mk(&a, rng), mk(&d, rng));
        let common = a.iter().filter(|x| pa.iter().any(|y| y.0 == x.0)).count();
        if common > 0 && common < a.len().max(pa.len()) { case.nontrivial = true; case.ev("partially overlapping updates"); }
        if a.len() < n || d.len() < n { case.ev("snapshots with missing levels"); }
        let use_quote = snap_only || rng.bool();
        let before = b.clone();
        case.trace(|| format!("{k}: asks {a:?} bids {d:?} pad {pad} quote {use_quote}"));
        if rng.chance(0.2) {
            // foreign instrument must be refused and change nothing
            let mut q = QuoteSnapshot::with_quote_level(n);
            q.id = other; q.ask_quote_data = sa.clone(); q.bid_quote_data = sd.clone();
            let mut t = TradeQuoteSnapshot::with_quote_level(n);
            t.id = other; t.ask_quote_data = sa.clone(); t.bid_quote_data = sd.clone();
            check!(b.update_from_quote_snapshot(&q).is_err() && b.update_from_trade_quote_snapshot(&t).is_err(), "snapshot:foreign-accepted", "snapshot of another instrument accepted");
            level_view_is(&b, &pa, &pb, "snapshot:foreign-applied", "after refused snapshot")?;
            case.ev("foreign snapshots refused");
        }
        if use_quote {
            // books with several orders per level are outside the snapshot loader's documented domain: it is only used on snapshot-fed books
            let r = if rng.bool() {
                let mut q = QuoteSnapshot::with_quote_level(n);
                q.id = me; q.ask_quote_data = sa.clone(); q.bid_quote_data = sd.clone();
                b.update_from_quote_snapshot(&q)
            } else {
                let mut t = TradeQuoteSnapshot::with_quote_level(n);
                t.id = me; t.ask_quote_data = sa.clone(); t.bid_quote_data = sd.clone();
                b.update_from_trade_quote_snapshot(&t)
            };
            vmon::must!(r, "snapshot:refused", "snapshot of the book's own instrument");
            level_view_is(&b, &a, &d, "snapshot:level-view", "after snapshot")?;
            lookups(&b, "snapshot:lookup")?;
            case.ev("snapshots loaded");
        } else {
            let orders = vmon::must!(b.decomposed_orders_with_update(&sa, &sd), "snapshot:decompose-refused", "decompose");
            level_view_is(&b, &a, &d, "snapshot:decompose-update", "after decomposing update")?;
            let same = to_map(&a) == to_map(&pa) && to_map(&d) == to_map(&pb);
            check!(b.eq_level(&before) == same && before.eq_level(&b) == same, "snapshot:eq-level", "level equality reported as {} / {} but depth views equal is {same}: asks {pa:?} -> {a:?} bids {pb:?} -> {d:?}", b.eq_level(&before), before.eq_level(&b));
            case.ev("level equalities judged");
            let mut r = before.clone();
            for o in &orders {
                check!(o.id == me, "snapshot:decompose-id", "decomposed order carries another instrument");
                match &o.order {
                    OrderEnum::LimitOrder(l) => {
                        check!(l.quantity > 0, "snapshot:decompose-zero", "zero quantity order emitted: {l:?}");
                        vmon::must!(r.add_limit_order(l.clone()), "snapshot:replay", "replaying {l:?}");
                        case.ev("emitted additions replayed");
                    }
                    OrderEnum::RemoveAnyOrder(x) => {
                        check!(x.quantity > 0, "snapshot:decompose-zero", "zero quantity removal emitted: {x:?}");
                        let rem = r.remove_order(x.clone());
                        check!(rem == Some(0), "snapshot:replay", "replayed removal {x:?} left {rem:?}");
                        case.ev("emitted removals replayed");
                    }
                    o => fail!("snapshot:decompose-kind", "unexpected decomposed order {o:?}"),
                }
            }
            level_view_is(&r, &a, &d, "snapshot:replay", "after replaying the emitted orders on the previous book")?;
            check!(r.eq_level(&b) && b.eq_level(&r), "snapshot:replay", "replayed book not level-equal to updated book");
            if pa == a && pb == d { check!(orders.is_empty(), "snapshot:decompose-noop", "unchanged depth emitted orders {orders:?}"); }
            case.ev("depth updates decomposed");
        }
        pa = a; pb = d;
        case.fold(pa.iter().chain(&pb).fold(0u64, |h, x| vmon::mix(h ^ (x.0 as u64) ^ x.1.rotate_left(32))));
        if !use_quote && !snap_only {
            // keep the "only snapshot-fed" domain: once decomposed, levels may hold several orders; continue with decompositions only
            return continue_decomposed(rng, case, b, me, pa, pb, n, mid);
        }
    }
    case.sample_trace(4);
    Ok(())
}

/// every resting order of the book can be looked up, once
fn lookups(b: &OrderBook, sig: &str) -> R {
    let mut ids = std::collections::HashSet::new();
    for hb in [&b.asks, &b.bids] {
        for (p, l) in &hb.levels {
            for (id, q) in &l.orders {
                check!(ids.insert(*id), sig, "two resting orders carry the id {id}");
                let o = some!(hb.get_order(*id), sig, "order {id} rests at {p} and is not found");
                check!(o.price == *p && o.quantity == *q, sig, "order {id} rests as {q}@{p} and is found as {o:?}");
            }
        }
    }
    Ok(())
}

/// one day of snapshots on one book: a few levels stay the whole day while many thousands come and go
fn long_feed(rng: &mut Rng, case: &mut Case) -> R {
    let me = inst_id(1);
    let mut b = OrderBook::initialize_with_id(me);
    let turns = [200usize, 2_000, 18_000][rng.below(3)];
    let mut mid = rng.range(1000, 2000);
    let (ra, rb) = (mid + 5000, mid - 900);
    let mut made = 0u64;
    for k in 0..turns {
        mid += rng.range(-2, 2);
        let mut a: Vec<(i64, u64)> = (1..=4).map(|i| (mid + 1 + i + if k % 2 == 0 { 0 } else { 40 }, rng.range(1, 99) as u64)).collect();
        let mut d: Vec<(i64, u64)> = (1..=4).map(|i| (mid - i - if k % 2 == 0 { 0 } else { 40 }, rng.range(1, 99) as u64)).collect();
        if k < 3 || !rng.chance(0.00005) { a.push((ra, 7 + k as u64)); d.push((rb, 11 + k as u64)); }
        let mut q = QuoteSnapshot::with_quote_level(5);
        q.id = me; q.ask_quote_data = a.iter().map(|x| lvl(x.0, x.1, 1)).collect(); q.bid_quote_data = d.iter().map(|x| lvl(x.0, x.1, 1)).collect();
        vmon::must!(b.update_from_quote_snapshot(&q), "snapshot:refused", "snapshot of the book's own instrument");
        made += 8;
        if k % 37 == 0 || k + 1 == turns {
            level_view_is(&b, &a, &d, "snapshot:level-view", "late in a long feed")?;
            lookups(&b, "snapshot:lookup")?;
        }
    }
    // an order of the far bid level is cancelled by the id it rests under
    let id = b.bids.levels.values().next().unwrap().orders[0].0;
    let (n, t) = (b.asks.len(), b.asks.get_total_quantity());
    check!(b.cancel_order(CancelOrder::new(id)).is_some() && b.bids.get_order(id).is_none() && b.asks.len() == n && b.asks.get_total_quantity() == t, "snapshot:lookup", "cancelling the bid order {id} did not take it, or took an ask");
    case.evn("levels_created_in_long_feeds", made);
    case.nontrivial = true; case.fold(made ^ (mid as u64) << 20);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn continue_decomposed(rng: &mut Rng, case: &mut Case, mut b: OrderBook, me: InstId, mut pa: Vec<(i64, u64)>, mut pb: Vec<(i64, u64)>, n: usize, mut mid: i64) -> R {
    let mut oid = 1_000_000u64;
    for _ in 0..rng.below(20) {
        // real order flow in between: any reachable book
        for _ in 0..rng.below(4) {
            oid += 1;
            let s = side(rng);
            let q = rng.range(1, 30) as u64;
            let p = if s == OrderSide::Ask { mid + rng.range(21, 30) } else { mid - rng.range(21, 30) };
            if rng.bool() { let _ = b.add_limit_order(LimitOrder::new(p, q, s, oid)); let _ = b.add_limit_order(LimitOrder::new(p, q + 1, s, oid + 500_000)); }
            else { let _ = b.process_market_order(&MarketOrder::new(q, s, oid)); }
        }
        let cur = |v: Vec<LevelSnapshot>| v.iter().map(|l| (l.book_price, l.book_quantity)).collect::<Vec<_>>();
        pa = cur(b.ask_level_snapshot()); pb = cur(b.bid_level_snapshot());
        pb.reverse();
        if rng.chance(0.3) { mid += rng.range(-4, 4); }
        let a = gen_depth(rng, &pa, true, n, mid);
        let d = gen_depth(rng, &pb, false, n, mid);
        let before = b.clone();
        let sa: Vec<_> = a.iter().map(|x| lvl(x.0, x.1, 1)).collect();
        let sd: Vec<_> = d.iter().map(|x| lvl(x.0, x.1, 1)).collect();
        let orders = vmon::must!(b.decomposed_orders_with_update(&sa, &sd), "snapshot:decompose-refused", "decompose");
        level_view_is(&b, &a, &d, "snapshot:decompose-update", "after decomposing update of an order-driven book")?;
        let mut r = before.clone();
        for o in &orders {
            check!(o.id == me, "snapshot:decompose-id", "decomposed order carries another instrument");
            match &o.order {
                OrderEnum::LimitOrder(l) => { vmon::must!(r.add_limit_order(l.clone()), "snapshot:replay", "replaying {l:?}"); }
                OrderEnum::RemoveAnyOrder(x) => { let _ = some!(r.remove_order(x.clone()), "snapshot:replay", "removal refused"); }
                o => fail!("snapshot:decompose-kind", "unexpected decomposed order {o:?}"),
            }
        }
        level_view_is(&r, &a, &d, "snapshot:replay", "after replaying the emitted orders on the previous order-driven book")?;
        case.ev("order-driven books decomposed");
        case.nontrivial = true;
        case.fold(orders.len() as u64 ^ (oid << 8));
    }
    let _ = (pa, pb);
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.rule("one case = one random operation history (8..200 operations) on a fresh book, compared with a reference price-time-priority book; non-trivial = it contains a multi-level sweep or a trading amendment; distinct = different sequence of reference book totals");
    run.assume("order ids are distinct and quantities positive; sentinel prices i64::MIN/MAX excluded");
    run.require("trades", 2000); run.require("multi-level sweeps", 200); run.require("resting orders drained in priority order", 1000); run.require("amendments that traded", 50); run.require("levels_of_more_than_128_orders", 50); run.require("sides_of_more_than_64_levels", 50);
    run.require("order_numbers_not_in_time_order", 500); run.require("vast_books", 40); run.require("quantities_beyond_63_bits", 200);
    run.family("matching", 60_000, 3_000_000, |r, c| history(r, c, Focus::Trades));
    run.family("half-book", 60_000, 2_000_000, half);
}
pub fn c02(run: &mut Run) {
    run.rule("one case = one random operation history; every view of the book is compared with the reference book after every operation");
    run.assume("order ids are distinct and quantities positive (amendments to zero included); sentinel prices excluded");
    run.require("full view comparisons", 20_000); run.require("orders amended to zero", 100); run.require("back-of-queue removals", 500);
    run.family("views", 30_000, 1_500_000, |r, c| { c.nontrivial = true; history(r, c, Focus::Views) });
}
pub fn c03(run: &mut Run) {
    run.rule("one case = a sequence of up to 25 depth views applied to one book by loading or by decomposition; non-trivial = at least one update overlaps the previous view partially");
    run.assume("a depth view has distinct prices; zero-quantity entries are padding; snapshot loading is exercised on snapshot-fed books only (the loader documents one order per level)");
    run.require("snapshots loaded", 5_000); run.require("depth updates decomposed", 1_000); run.require("order-driven books decomposed", 500); run.require("foreign snapshots refused", 100);
    run.require("levels_created_in_long_feeds", 100_000);
    run.family("snapshots", 80_000, 4_000_000, snapshots);
    run.family("long-feed", 24, 2_000, long_feed);
}
