//! C08: instrument identifiers.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use trading_engine::types::base::InstrumentIdentifier;
use trading_engine::types::id::ticker::Ticker;
use trading_engine::types::id::{IdData, InstId, Symbol};
use trading_engine::{Currency, IsinCode, LazyString, Venue};
use vmon::{check, must, Case, Rng, Run, R};

const VENUES: [(Venue, &str); 5] = [(Venue::Undefined, "Undefined"), (Venue::CCP, "CCP"), (Venue::KRX, "KRX"), (Venue::KIS, "KIS"), (Venue::SI, "SI")];
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn validation(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..50 {
        let n = *r.pick(&[12usize, 12, 12, 12, 11, 13, 0, 1, 24]);
        let mut b: Vec<u8> = (0..n).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcxyz.-_")).collect();
        if n > 0 && r.chance(0.4) { let i = r.below(n); b[i] = *r.pick(&[b' ', b'\t', 0x80, 0xff, 0xc2]); if r.bool() { let i = r.below(n); b[i] = 0xe9; } }
        let well = n == 12 && b.iter().all(|x| *x < 128 && *x != b' ' && *x != b'\t');
        let got = IsinCode::new(&b);
        check!(got.is_ok() == well, "isin:validation", "ISIN from {:?} ({}): accepted={}", String::from_utf8_lossy(&b), b.len(), got.is_ok());
        if let Ok(i) = got {
            let s = std::str::from_utf8(&b).unwrap();
            check!(i.as_bytes() == b.as_slice() && i.as_str() == s, "isin:text", "ISIN {s} reads back as {:?}", i.as_str());
            let k = r.below(13);
            check!(i.starts_with(&b[..k]), "isin:prefix", "{s} does not start with its own first {k} bytes");
            let mut o = b.clone(); let j = r.below(12); o[j] = if o[j] == b'Q' { b'Z' } else { b'Q' };
            check!(!i.starts_with(&o), "isin:prefix", "{s} starts with {:?}", String::from_utf8_lossy(&o));
            let other = IsinCode::new(&o).unwrap();
            check!(i == i.clone() && h(&i) == h(&IsinCode::new(&b).unwrap()), "isin:eq", "{s} differs from its copy");
            check!(i != other, "isin:confused", "{s} equals {}", other.as_str());
            // comparisons with texts and bytes agree both ways
            check!(i == s && s == i && i == b && b == i && i == b.as_slice(), "isin:cross-eq", "{s} differs from its own text or bytes");
            let os = std::str::from_utf8(&o).unwrap();
            check!(!(i == os) && !(os == i) && !(i == o) && !(o == i) && !(i == o.as_slice()) && !(i == &s[..11]) && !(i == &b[..11]), "isin:cross-ne", "{s} equals {os} or its own prefix");
            let js = must!(serde_json::to_string(&i), "isin:serde", "{s}");
            let back: IsinCode = must!(serde_json::from_str(&js), "isin:serde", "{js}");
            check!(back == i, "isin:serde", "{s} came back as {}", back.as_str());
            c.ev("isin_accepted");
        } else { c.ev("isin_rejected"); }
        // tickers: up to 32 bytes of text
        let n = *r.pick(&[0usize, 1, 6, 31, 32, 33, 40]);
        let t: String = (0..n).map(|_| *r.pick(&['A', 'B', '0', '5', '9', '-', '.'])).collect();
        let tk = Ticker::new(t.as_bytes());
        check!(tk.is_ok() == (n <= 32), "ticker:validation", "ticker {t:?} accepted={}", tk.is_ok());
        if let Ok(k) = tk {
            check!(k.as_str().trim_end_matches('\0') == t, "ticker:text", "ticker {t:?} reads back as {:?}", k.as_str());
            check!(k == Ticker::new(t.as_bytes()).unwrap() && h(&k) == h(&Ticker::new(t.as_bytes()).unwrap()), "ticker:eq", "{t}");
            if n < 32 { let o = Ticker::new(format!("{t}X").as_bytes()).unwrap(); check!(k != o, "ticker:confused", "{t} equals {t}X"); }
            if n > 0 { let o = Ticker::new(&t.as_bytes()[..n - 1]).unwrap(); check!(k != o, "ticker:confused", "{t} equals its prefix");
                let mut f = t.clone().into_bytes(); let j = r.below(n); f[j] = if f[j] == b'Q' { b'Z' } else { b'Q' }; check!(k != Ticker::new(&f).unwrap(), "ticker:confused", "{t} equals {:?}", String::from_utf8_lossy(&f)); }
            let back: Ticker = must!(serde_json::from_str(&serde_json::to_string(&k).unwrap()), "ticker:serde", "{t}");
            check!(back == k, "ticker:serde", "{t} came back as {}", back.as_str());
            c.ev("tickers");
        }
        c.folds(&String::from_utf8_lossy(&b)); c.folds(&t);
    }
    c.nontrivial = true;
    Ok(())
}
type Key = (bool, String, usize);
fn make(k: &Key) -> InstId { InstId::new(if k.0 { Symbol::Isin(IsinCode::new(k.1.as_bytes()).unwrap()) } else { Symbol::Ticker(Ticker::new(k.1.as_bytes()).unwrap()) }, VENUES[k.2].0) }
fn data(k: &Key) -> IdData { IdData { symbol: if k.0 { Symbol::Isin(IsinCode::new(k.1.as_bytes()).unwrap()) } else { Symbol::Ticker(Ticker::new(k.1.as_bytes()).unwrap()) }, venue: VENUES[k.2].0 } }
/// many threads create and deserialize the same identifiers in different orders, racing on first creation
fn interning(r: &mut Rng, c: &mut Case) -> R {
    let salt = r.u64() % 100_000_000;
    let mut keys: Vec<Key> = vec![];
    for i in 0..6 {
        let s = format!("KR{salt:08}{i:02}");
        for v in 0..5 { if v < 2 || r.bool() { keys.push((true, s.clone(), v)); keys.push((false, s.clone(), v)); } }
        keys.push((false, s[..6 + r.below(5)].to_string() + &i.to_string(), 2));
    }
    keys.sort(); keys.dedup();
    let jsons: Vec<String> = keys.iter().map(|k| serde_json::to_string(&data(k)).unwrap()).collect();
    let nt = 6;
    let plans: Vec<Vec<(usize, bool)>> = (0..nt).map(|_| { let mut p: Vec<(usize, bool)> = (0..keys.len()).map(|i| (i, r.chance(0.4))).collect(); r.shuffle(&mut p); p }).collect();
    let bar = Barrier::new(nt);
    let got: Vec<Vec<(usize, Result<InstId, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|p| { let (bar, keys, jsons) = (&bar, &keys, &jsons); s.spawn(move || { bar.wait(); p.iter().map(|(i, de)| (*i, if *de { serde_json::from_str::<InstId>(&jsons[*i]).map_err(|e| e.to_string()) } else { Ok(make(&keys[*i])) })).collect::<Vec<_>>() }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut first: BTreeMap<usize, InstId> = BTreeMap::new();
    for (t, v) in got.iter().enumerate() { for (i, id) in v {
        let id = match id { Ok(i) => *i, Err(e) => vmon::fail!("id:serde", "{} does not deserialize: {e}", jsons[*i]) };
        let k = &keys[*i];
        let f = *first.entry(*i).or_insert(id);
        check!(id == f, "id:not-equal", "{k:?} created in thread {t} differs from the first one");
        check!(std::ptr::eq(id.get_id(), f.get_id()), "id:not-shared", "{k:?} created in thread {t} has its own entry");
        check!(h(&id) == h(&f), "id:hash", "{k:?} hashes differently");
        check!(id.symbol_str().trim_end_matches('\0') == k.1 && id.venue() == VENUES[k.2].0, "id:content", "{k:?} reads back as {:?}", id);
        check!(id.get_id_clone() == data(k) && *id.get_id() == data(k), "id:content", "{k:?} holds {:?}", id.get_id());
        check!(format!("{id:?}") == format!("{f:?}"), "id:debug", "{k:?} prints differently");
        check!(serde_json::to_string(&id).ok() == Some(jsons[*i].clone()), "id:serialized-form", "{k:?} serializes to {:?}, its data to {}", serde_json::to_string(&id), jsons[*i]);
        c.ev("identifiers_created_concurrently");
    } }
    let mut map: HashMap<InstId, usize> = HashMap::new();
    for (i, id) in &first { check!(map.insert(*id, *i).is_none(), "id:confused", "{:?} collides in a map", keys[*i]); }
    for (i, a) in &first { for (j, b) in &first { if i != j { check!(a != b && format!("{a:?}") != format!("{b:?}"), "id:confused", "{:?} equals {:?}", keys[*i], keys[*j]); } } check!(map.get(&make(&keys[*i])) == Some(i), "id:lookup", "{:?} is not found in a map", keys[*i]); }
    c.evn("distinct_identifiers", first.len() as u64); c.fold(salt);
    c.sample(|| format!("{} identifiers raced by {nt} threads, e.g. {}", keys.len(), jsons[0]));
    c.nontrivial = true;
    Ok(())
}
fn fixed(_r: &mut Rng, c: &mut Case) -> R {
    check!(InstId::default() == InstId::new(Symbol::default(), Venue::default()), "id:default", "the default identifier differs from one built from default parts");
    let d: InstId = must!(serde_json::from_str(&serde_json::to_string(&InstId::default()).unwrap()), "id:default-serde", "default");
    check!(d == InstId::default() && d.get_id_clone() == IdData::default(), "id:default", "default identifier does not survive serialization");
    check!(Symbol::default() == Symbol::Isin(IsinCode::default()), "id:default", "default symbol");
    for (v, n) in VENUES { check!(v.as_str() == n, "venue:text", "{v:?} prints {}", v.as_str()); let b: Venue = must!(serde_json::from_str(&serde_json::to_string(&v).unwrap()), "venue:serde", "{n}"); check!(b == v, "venue:serde", "{n}"); }
    let curs = [(Currency::KRW, "KRW"), (Currency::USD, "USD"), (Currency::EUR, "EUR"), (Currency::GBP, "GBP"), (Currency::JPY, "JPY"), (Currency::CNY, "CNY"), (Currency::HKD, "HKD")];
    for (v, n) in curs {
        check!(v.as_str() == n && v.as_isin_code().as_str() == format!("{n}000000000") && v.as_isin_bytes()[..] == *format!("{n}000000000").as_bytes(), "currency:text", "{v:?} prints {} / {}", v.as_str(), v.as_isin_code().as_str());
        let b: Currency = must!(serde_json::from_str(&serde_json::to_string(&v).unwrap()), "currency:serde", "{n}"); check!(b == v, "currency:serde", "{n}");
    }
    let ii = InstrumentIdentifier::new(IsinCode::new(b"KR7005930003").unwrap(), Venue::SI);
    check!(ii.get_isin_code().as_str() == "KR7005930003" && ii.get_venue() == Venue::SI, "instrument-identifier", "{ii:?}");
    // lazily built text: built once, same for every reader
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let m = n.clone();
    let l = std::sync::Arc::new(LazyString::new(move || { m.fetch_add(1, std::sync::atomic::Ordering::SeqCst); "x1".repeat(5) }));
    let all: Vec<String> = std::thread::scope(|s| { let hs: Vec<_> = (0..6).map(|_| { let l = l.clone(); s.spawn(move || (**l).clone()) }).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() });
    check!(all.iter().all(|t| *t == "x1".repeat(5)) && n.load(std::sync::atomic::Ordering::SeqCst) == 1, "lazy-string", "lazy string built {} times: {all:?}", n.load(std::sync::atomic::Ordering::SeqCst));
    check!(serde_json::to_string(&*l).unwrap() == format!("\"{}\"", "x1".repeat(5)), "lazy-string", "serialized lazy string");
    let b: LazyString = serde_json::from_str("\"abc\"").unwrap(); check!(*b == "abc", "lazy-string", "deserialized lazy string");
    c.ev("fixed_tables"); c.nontrivial = true; Ok(())
}
pub fn c08(run: &mut Run) {
    run.rule("a case is 50 ISIN/ticker byte strings checked against the acceptance rule, or about 40 identifiers created and deserialized by 6 racing threads; distinct by codes");
    run.assume("well-formed ISIN = 12 ASCII bytes without blank or tab (other control characters are not tried); ticker text compared without its zero padding");
    run.family("tables", 1, 1, fixed);
    run.family("validation", 20_000, 1_000_000, validation);
    run.family_t("interning", 1_500, 60_000, 2, interning);
    run.require("isin_accepted", 1000); run.require("isin_rejected", 1000); run.require("identifiers_created_concurrently", 10_000); run.require("tickers", 1000);
}
