use crate::d::*;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::{nullcalendar::NullCalendar, southkorea::{SouthKorea, SouthKoreaType}, unitedstates::{UnitedStates, UnitedStatesType}};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D};
use quantlib::time::holiday::Holidays;
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::HashSet;
use vmon::*;

/// n-th weekday (1..) of a month, weekday 0 = Monday
fn nth(y: i64, m: i64, w: i64, n: i64) -> i64 { let f = days(y, m, 1); f + (w - wd(f)).rem_euclid(7) + 7 * (n - 1) }
fn last(y: i64, m: i64, w: i64) -> i64 { let e = days(y, m, mlen(y, m)); e - (wd(e) - w).rem_euclid(7) }
fn sunday_to_monday(z: i64) -> i64 { if wd(z) == 6 { z + 1 } else { z } }
fn nearest_weekday(z: i64) -> i64 { match wd(z) { 6 => z + 1, 5 => z - 1, _ => z } }
/// Easter Sunday, Gregorian (anonymous algorithm)
pub fn easter_western(y: i64) -> i64 {
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let (d, e, f) = (b / 4, b % 4, (b + 8) / 25);
    let g = (b - f + 1) / 3; let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4); let l = (32 + 2 * e + 2 * i - h - k) % 7; let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114; days(y, n / 31, n % 31 + 1)
}
/// Easter Sunday of the Julian calendar, as a Gregorian date (Meeus)
pub fn easter_orthodox(y: i64) -> i64 {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30; let e = (2 * a + 4 * b - d + 34) % 7; let n = d + e + 114;
    // Julian date to day number: Gregorian days(...) of the same figures plus the century shift
    let shift = y / 100 - y / 400 - 2;
    days(y, n / 31, n % 31 + 1) + shift
}
pub fn us_rules(kind: UnitedStatesType, y: i64) -> (HashSet<i64>, HashSet<i64>) {
    use UnitedStatesType::*;
    let mut h = HashSet::new(); let mut unsure = HashSet::new();
    let fed = matches!(kind, FederalReserve);
    let obs = |z: i64| if fed { sunday_to_monday(z) } else { nearest_weekday(z) };
    let mut add = |z: i64| { h.insert(z); };
    add(sunday_to_monday(days(y, 1, 1)));
    if matches!(kind, Settlement) && wd(days(y, 12, 31)) == 4 { add(days(y, 12, 31)); }
    if y >= if matches!(kind, Nyse) { 1998 } else { 1983 } { add(nth(y, 1, 0, 3)); }
    add(if y >= 1971 { nth(y, 2, 0, 3) } else { nearest_weekday(days(y, 2, 22)) });
    if matches!(kind, Nyse | Sofr) || (matches!(kind, GovernmentBond) && ![2015, 2021, 2023].contains(&y)) { add(easter_western(y) - 2); }
    add(if y >= 1971 { last(y, 5, 0) } else { nearest_weekday(days(y, 5, 30)) });
    if y >= 2022 { add(obs(days(y, 6, 19))); }
    add(obs(days(y, 7, 4)));
    add(nth(y, 9, 0, 1));
    if !matches!(kind, Nyse) {
        if y >= 1971 { add(nth(y, 10, 0, 2)); }
        if (1971..1978).contains(&y) { add(nth(y, 10, 0, 4)); } else { add(sunday_to_monday(days(y, 11, 11))); if matches!(kind, Settlement) && wd(days(y, 11, 11)) == 5 { unsure.insert(days(y, 11, 10)); } }
    }
    add(nth(y, 11, 3, 4));
    add(obs(days(y, 12, 25)));
    if matches!(kind, GovernmentBond | Sofr) { for (yy, m, d) in [(2018, 12, 5), (2012, 10, 30), (2004, 6, 11)] { if yy == y { add(days(y, m, d)); } } }
    if matches!(kind, Nyse) {
        if y <= 1968 || (y <= 1980 && y % 4 == 0) { add(nth(y, 11, 1, 1)); }
        for (yy, m, d) in [(2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5), (1968, 4, 9), (1963, 11, 25), (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24)] { if yy == y { add(days(y, m, d)); } }
        if y == 1968 { let mut z = nth(1968, 6, 2, 2); while civil(z).0 == 1968 { add(z); z += 7; } }
    }
    (h, unsure)
}
fn lunar(y: i64, m: u8, d: u8) -> i64 {
    use chrono::Datelike;
    let g = korean_lunar_calendar::convert::lunar_to_gregorian(&korean_lunar_calendar::date::LunarDate { year: y as i32, month: (m.into(), false), day: d.into() }).unwrap();
    days(g.year() as i64, g.month() as i64, g.day() as i64)
}
/// (weekday) holidays of the Korean market by rule, without the substitute days
pub fn kr_rules(krx: bool, y: i64) -> HashSet<i64> {
    let mut h: HashSet<i64> = [(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)].iter().map(|(m, d)| days(y, *m, *d)).collect();
    let s = lunar(y, 1, 1); h.extend([s - 1, s, s + 1]);
    h.insert(lunar(y, 4, 8));
    let c = lunar(y, 8, 15); h.extend([c - 1, c, c + 1]);
    for (yy, m, d) in [(2023, 1, 24), (2023, 5, 29), (2023, 10, 2), (2024, 2, 12), (2024, 5, 6)] { if yy == y { h.insert(days(y, m, d)); } }
    if krx { let mut z = days(y, 12, 31); while wd(z) >= 5 || h.contains(&z) { z -= 1; } h.insert(z); }
    h
}
const US: [UnitedStatesType; 5] = [UnitedStatesType::Settlement, UnitedStatesType::Nyse, UnitedStatesType::GovernmentBond, UnitedStatesType::FederalReserve, UnitedStatesType::Sofr];
/// index 0..=7: null, krx, kr settlement, 5 x us
pub fn make(i: usize) -> (Calendar, i64, String) {
    match i {
        0 => (Calendar::NullCalendar(NullCalendar::new()), 0, "null".into()),
        1 => (Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)), KST, "krx".into()),
        2 => (Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement)), KST, "kr-settlement".into()),
        k => (Calendar::UnitedStates(UnitedStates::new(US[k - 3])), -5 * 3600, format!("us-{:?}", US[k - 3]).to_lowercase()),
    }
}
fn rules(i: usize, y: i64) -> (HashSet<i64>, HashSet<i64>) { match i { 0 => Default::default(), 1 => (kr_rules(true, y), HashSet::new()), 2 => (kr_rules(false, y), HashSet::new()), k => us_rules(US[k - 3], y) } }
fn supported(i: usize) -> (i64, i64) { match i { 0 => (1600, 2400), 1 | 2 => (1951, 2050), _ => (1901, 2199) } }

fn all_days(_r: &mut Rng, c: &mut Case) -> R {
    for i in 0..8 {
        let (cal, off, name) = make(i);
        let (y0, y1) = supported(i);
        for y in y0..=y1 {
            let (h, unsure) = rules(i, y);
            for z in days(y, 1, 1)..=days(y, 12, 31) {
                let want = wd(z) >= 5 || h.contains(&z);
                let s = [0, 43200, 86399][(z.rem_euclid(3)) as usize];
                let got = cal.is_holiday(&at(z, s, off));
                if unsure.contains(&z) { c.ev("days_not_judged"); continue; }
                if got != want { fail!(format!("calendar:{name}"), "{name}: {} is {} by the calendar, {} by the rules", show(z), if got { "closed" } else { "open" }, if want { "closed" } else { "open" }); }
                if want && wd(z) < 5 { c.ev("weekday_holidays") } else if want { c.ev("weekends") } else { c.ev("business_days") }
            }
        }
    }
    for y in 1901..=2199 { for ortho in [false, true] {
        let gf = if ortho { easter_orthodox(y) } else { easter_western(y) } - 2;
        for z in days(y, 2, 1)..=days(y, 6, 30) {
            let got = UnitedStatesType::Nyse.is_good_friday(&at(z, 0, 0), ortho);
            check!(got == (z == gf), format!("good-friday:{}", if ortho { "orthodox" } else { "western" }), "{} good friday = {got}, computed Easter gives {} (orthodox: {ortho})", show(z), show(gf));
        }
        c.ev("easters");
    } }
    c.nontrivial = true;
    Ok(())
}
fn overrides(r: &mut Rng, c: &mut Case) -> R {
    let i = r.below(8);
    let (mut cal, off, name) = make(i);
    let (y0, y1) = supported(i);
    let y = r.range(y0, y1);
    let (h, unsure) = rules(i, y);
    let near: Vec<i64> = { let mut v: Vec<i64> = h.iter().copied().filter(|z| civil(*z).0 == y).collect(); v.sort(); for _ in 0..15 { v.push(days(y, 1, 1) + r.range(0, 364)); } v };
    let (mut added, mut removed) = (HashSet::new(), HashSet::new());
    for _ in 0..r.below(25) {
        let z = *r.pick(&near);
        if r.bool() { must!(cal.add_holidays(&date(z)), "calendar:add-refused", "{name}"); added.insert(z); c.ev("dates_added"); }
        else { must!(cal.remove_holidays(&date(z)), "calendar:remove-refused", "{name}"); removed.insert(z); c.ev("dates_removed"); }
    }
    for z in days(y, 1, 1)..=days(y, 12, 31) {
        if unsure.contains(&z) && !removed.contains(&z) { continue; }
        let base = wd(z) >= 5 || (!removed.contains(&z) && (h.contains(&z) || added.contains(&z)));
        // the null calendar has no user dates
        let want = if i == 0 { wd(z) >= 5 } else { base };
        // the same local day expressed in another offset
        let s = secs(r);
        let o2 = if i == 0 { off } else { offset(r) };
        let t = z * 86400 + s - off + o2;
        let inst = at(t.div_euclid(86400), t.rem_euclid(86400), o2);
        let got = cal.is_holiday(&inst);
        check!(got == want, format!("calendar:{name}:override"), "{name}: {} (given as {inst}) is {} by the calendar, expected {}; in rules {} added {} removed {}", show(z), if got { "closed" } else { "open" }, if want { "closed" } else { "open" }, h.contains(&z), added.contains(&z), removed.contains(&z));
        check!(cal.is_business_day(&inst) == !got && cal.is_weekend(&inst) == (wd(z) >= 5), format!("calendar:{name}:business"), "{}", show(z));
        c.ev("overridden_calendar_days");
        if added.contains(&z) && removed.contains(&z) { c.ev("days_added_and_removed"); }
    }
    c.nontrivial = true; c.fold(y as u64 * 8 + i as u64); c.fold(added.len() as u64 * 64 + removed.len() as u64);
    Ok(())
}
pub fn c20(run: &mut Run) {
    run.rule("every day of 1951-2050 (Korea) and 1901-2199 (US) compared with holidays computed from the published rules (nth weekdays, observed days, Gregorian/Julian Easter, lunar conversion); random added/removed dates seen from random UTC offsets");
    run.assume("Korean substitute days are only known for the listed 2023/2024 dates; US settlement's treatment of 10 November when the 11th is a Saturday is not judged");
    run.require("weekday_holidays", 10_000); run.require("easters", 598); run.require("days_added_and_removed", 100); run.require("dates_removed", 1000);
    run.family_t("all_days", 1, 1, 1, all_days);
    run.exhaustive("all days of all supported years of all eight calendars");
    run.family("overrides", 3000, 200_000, overrides);
}

fn joint(r: &mut Rng) -> (JointCalendar, Vec<Calendar>, String) {
    let n = 1 + r.below(4);
    let mut v = vec![]; let mut s = String::new();
    for _ in 0..n {
        let (mut c, _, n) = make(r.below(8)); s += &n; s += " ";
        for _ in 0..r.below(6) { let z = days(1990, 1, 1) + r.range(0, 365 * 20); if r.bool() { c.add_holidays(&date(z)).unwrap() } else { c.remove_holidays(&date(z)).unwrap() } }
        v.push(c);
    }
    (JointCalendar::new(v.clone()).unwrap(), v, s)
}
fn adjust_case(r: &mut Rng, c: &mut Case) -> R {
    check!(JointCalendar::new(vec![]).is_err(), "joint:empty-accepted", "a joint calendar of no calendars");
    let (mut j, v, name) = joint(r);
    // a run of added holidays to make long closed stretches
    let z0 = day(r, 1990, 2009);
    let mut v = v;
    if r.chance(0.5) { for k in 0..r.below(12) as i64 { let w = r.below(v.len()); v[w].add_holidays(&date(z0 + k)).unwrap(); } j = JointCalendar::new(v.clone()).unwrap(); c.ev("long_closures"); }
    check!(j.add_holidays(&date(z0)).is_err() && j.remove_holidays(&date(z0)).is_err(), "joint:edited", "a joint calendar accepted a user date");
    let (s, off) = (secs(r), offset(r));
    for k in -20..20 {
        let t = at(z0 + k, s, off);
        let open = |x: i64| v.iter().all(|c| !c.is_holiday(&at(x, s, off)));
        check!(j.is_holiday(&t) != open(z0 + k) && j.is_business_day(&t) == open(z0 + k), "joint:union", "{name}: {t} joint closed {} while members all open {}", j.is_holiday(&t), open(z0 + k));
        check!(j.is_weekend(&t) == v.iter().any(|c| c.is_weekend(&t)), "joint:weekend", "{name}: {t}");
        let month = civil(z0 + k).1;
        let fwd = (z0 + k..).find(|x| open(*x)).unwrap();
        let bwd = (0..).map(|d| z0 + k - d).find(|x| open(*x)).unwrap();
        for (conv, want) in [(B::Unadjusted, z0 + k), (B::Following, fwd), (B::Preceding, bwd), (B::ModifiedFollowing, if civil(fwd).1 == month { fwd } else { bwd }), (B::ModifiedPreceding, if civil(bwd).1 == month { bwd } else { fwd })] {
            let got = must!(j.adjust(&t, &conv), "adjust:refused", "{conv:?} {t}");
            check!(parts(&got) == (want, s, off), format!("adjust:{conv:?}"), "{name}: {conv:?} of {t} is {got}, expected {}", show(want));
            if v.len() == 1 { let g = must!(v[0].adjust(&t, &conv), "adjust:refused", "{conv:?} {t}"); check!(g == got, "adjust:single", "{name}: single calendar gives {g}, joint {got}"); c.ev("single_calendar_adjustments"); }
            let again = must!(j.adjust(&got, &conv), "adjust:refused", "{conv:?} {got}");
            check!(again == got, "adjust:idempotent", "{conv:?} of {got} moves to {again}");
            if want != z0 + k { c.ev("adjusted_dates"); if matches!(conv, B::ModifiedFollowing) && want == bwd && fwd != bwd { c.ev("month_end_reversals"); } }
        }
        check!(j.adjust(&t, &B::Dummy).is_err(), "adjust:dummy", "the dummy convention was accepted");
    }
    c.nontrivial = true; c.fold(z0 as u64); c.folds(&name);
    Ok(())
}
pub fn c21(run: &mut Run) {
    run.rule("joint calendars of 1-4 random members with user dates and forced long closures; every adjustment compared with a direct search for the next/previous open day");
    run.require("adjusted_dates", 10_000); run.require("month_end_reversals", 200); run.require("long_closures", 200);
    run.family("adjust", 30000, 300_000, adjust_case);
}

pub fn yf(conv: &D, (za, sa): (i64, i64), (zb, sb): (i64, i64)) -> f64 {
    let (ya, ma, da) = civil(za); let (yb, mb, db) = civil(zb);
    let elapsed = ((zb - za) * 86400 + sb - sa).div_euclid(86400) as f64;
    match conv {
        D::Actual365Fixed => elapsed / 365.0, D::Actual360 => elapsed / 360.0, D::Actual364 => elapsed / 364.0,
        D::Thirty360 => (360 * (yb - ya) + 30 * (mb - ma) + db - da) as f64 / 360.0,
        D::StreetConvention => { let (d1, d2) = if da == 31 { (30, db.min(30)) } else { (da, db) }; (360 * (yb - ya) + 30 * (mb - ma) + d2 - d1) as f64 / 360.0 }
        D::ActActIsda => { let len = |y| if leap(y) { 366.0 } else { 365.0 };
            if ya == yb { elapsed / len(ya) } else { (days(ya, 12, 31) - za) as f64 / len(ya) + (yb - ya - 1) as f64 + (zb - days(yb - 1, 12, 31)) as f64 / len(yb) } }
        D::Dummy => f64::NAN,
    }
}
pub const DC: [D; 6] = [D::Actual365Fixed, D::Actual360, D::Actual364, D::Thirty360, D::ActActIsda, D::StreetConvention];
fn fractions(r: &mut Rng, c: &mut Case) -> R {
    let i = r.below(9);
    let j = joint(r).0; let cal = make(i.min(7)).0;
    let yfr = |a: &time::OffsetDateTime, b: &time::OffsetDateTime, d: &D| if i == 8 { j.year_fraction(a, b, d) } else { cal.year_fraction(a, b, d) };
    let td = |a: &time::OffsetDateTime, b: &time::OffsetDateTime| if i == 8 { j.get_time_difference(a, b) } else { cal.get_time_difference(a, b) };
    for _ in 0..40 {
        let off = offset(r);
        let midnight = r.bool();
        let za = day(r, 1950, 2100);
        let span = *r.pick(&[0i64, 3, 40, 400, 3000, 20_000]);
        let zb = if r.chance(0.2) { let (y, _, d) = civil(za); let m2 = r.range(1, 12); let y2 = y + r.range(0, 3); days(y2, m2, d.min(mlen(y2, m2))) } else if r.chance(0.3) { day(r, 1950, 2100) } else { za + r.range(0, span) };
        let (sa, sb) = if midnight { (0, 0) } else { (secs(r), secs(r)) };
        let (mut a, mut b) = ((za, sa), (zb, sb)); if b < a { std::mem::swap(&mut a, &mut b); }
        let (ta, tb) = (at(a.0, a.1, off), at(b.0, b.1, off));
        let tol = |x: f64| 2e-6 + 1e-6 * x.abs();
        for d in &DC {
            let g = must!(yfr(&ta, &tb, d), "fraction:refused", "{d:?} {ta} {tb}") as f64;
            let w = yf(d, a, b);
            check!((g - w).abs() <= tol(w), format!("fraction:{d:?}"), "{d:?} from {ta} to {tb} is {g}, by definition {w}");
            check!(g >= 0.0, format!("fraction:{d:?}"), "{d:?} from {ta} to {tb} is negative: {g}");
            if a != b { check!(yfr(&tb, &ta, d).is_err(), "fraction:reversed", "{d:?} accepts the reversed interval {tb} to {ta}"); c.ev("reversed_refused"); }
            check!(must!(yfr(&ta, &ta, d), "fraction:refused", "{d:?} {ta}") == 0.0, format!("fraction:{d:?}"), "{d:?} of the empty interval at {ta} is not zero");
            // growing end
            let grow = r.range(0, 40);
            let tb2 = at(b.0 + grow, b.1, off);
            let g2 = must!(yfr(&ta, &tb2, d), "fraction:refused", "{d:?}") as f64;
            check!(g2 >= g - 1e-6 * (1.0 + g), format!("fraction:{d:?}"), "{d:?} from {ta} falls from {g} to {g2} when the end moves from {tb} to {tb2}");
            if midnight && !matches!(d, D::StreetConvention) {
                let m = (a.0 + r.range(0, b.0 - a.0), 0); let tm = at(m.0, 0, off);
                let (x, y) = (must!(yfr(&ta, &tm, d), "fraction:refused", "{d:?}") as f64, must!(yfr(&tm, &tb, d), "fraction:refused", "{d:?}") as f64);
                check!((x + y - g).abs() <= 4e-6 + 2e-6 * g || (matches!(d, D::Thirty360) && (x < -1e-6 || y < -1e-6)), format!("fraction:{d:?}"), "{d:?}: {x} + {y} over {tm} differs from {g} over the whole {ta} to {tb}");
                c.ev("intervals_split");
            }
            c.ev("fractions");
        }
        check!(yfr(&ta, &tb, &D::Dummy).is_err(), "fraction:dummy", "dummy day count accepted");
        // continuous time difference, also across offsets
        let (g, w) = (td(&ta, &tb) as f64, pos(b) - pos(a));
        check!((g - w).abs() <= tol(w), "time-difference", "time from {ta} to {tb} is {g}, expected {w}");
        let m = { let t = r.range(a.0 * 86400 + a.1, b.0 * 86400 + b.1); (t.div_euclid(86400), t.rem_euclid(86400)) };
        let tm = at(m.0, m.1, off);
        let s = td(&ta, &tm) as f64 + td(&tm, &tb) as f64;
        check!((s - g).abs() <= 2.0 * tol(w), "time-difference:additive", "{ta} -> {tm} -> {tb}: {s} instead of {g}");
        if civil(a.0).0 != civil(b.0).0 { c.ev("cross_year") } if leap(civil(a.0).0) || leap(civil(b.0).0) { c.ev("leap_years") }
        c.fold(a.0 as u64); c.fold(b.0 as u64);
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c22(run: &mut Run) {
    run.rule("random intervals biased to month ends, leap days and year ends under every convention and calendar, compared with the definitions in f64");
    run.require("fractions", 100_000); run.require("cross_year", 5000); run.require("leap_years", 5000); run.require("intervals_split", 10_000);
    run.family("fractions", 30000, 500_000, fractions);
}
