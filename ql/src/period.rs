use crate::d::*;
use quantlib::utils::string_arithmetic::*;
use vmon::*;
const UNITS: [&str; 7] = ["Y", "M", "W", "D", "h", "min", "sec"];
pub type P = Vec<(i64, usize)>;
fn gen(r: &mut Rng, clock: bool) -> (P, String) {
    let mut p: P = vec![];
    let n = 1 + r.below(3);
    for _ in 0..n {
        let u = r.below(if clock { 7 } else { 4 });
        let v = match u { 0 => r.range(0, 60), 1 => *r.pick(&[0i64, 1, 3, 6, 11, 12, 13, 23, 24, 25, 36, 119, 240]) + r.range(0, 2), 2 => r.range(0, 200), 3 => r.range(0, 4000), _ => r.range(0, 5000) };
        p.push((v, u));
    }
    if r.chance(0.7) { p.sort_by_key(|x| x.1); }
    let s = p.iter().map(|(v, u)| format!("{v}{}", UNITS[*u])).collect();
    (p, s)
}
/// apply with calendar arithmetic on (day, second)
pub fn apply(mut x: (i64, i64), p: &P, sign: i64) -> (i64, i64) {
    for (v, u) in p {
        let v = v * sign;
        match u {
            0 | 1 => { let (y, m, d) = civil(x.0); let k = y * 12 + m - 1 + if *u == 0 { v * 12 } else { v }; let (y2, m2) = (k.div_euclid(12), k.rem_euclid(12) + 1); x.0 = days(y2, m2, d.min(mlen(y2, m2))); }
            2 => x.0 += 7 * v, 3 => x.0 += v,
            _ => { let t = x.0 * 86400 + x.1 + v * [3600, 60, 1][u - 4]; x = (t.div_euclid(86400), t.rem_euclid(86400)); }
        }
    }
    x
}
/// the result the repository's own test pins: reaching back over several year boundaries counts at most one of them per month unit
fn pinned(mut z: i64, p: &P) -> i64 {
    for (v, u) in p { let (y, m, d) = civil(z); z = match u {
        0 => { let y = y - v; days(y, m, d.min(mlen(y, m))) }
        1 => { let (y, m2) = (y - 1 + (m - 1 - v + 12) / 12, (m - 1 - v).rem_euclid(12) + 1); days(y, m2, d.min(mlen(y, m2))) }
        2 => z - 7 * v, _ => z - v } }
    z
}
fn tenors(r: &mut Rng, c: &mut Case) -> R {
    for _ in 0..60 {
        let (z, s, off) = (day(r, 1850, 2150), secs(r), offset(r));
        let t = at(z, s, off);
        let (p, txt) = gen(r, true);
        let g = add_period(&t, &txt); let w = apply((z, s), &p, 1);
        check!(parts(&g) == (w.0, w.1, off), "tenor:add", "{t} + {txt} = {g}, expected {} second {}", show(w.0), w.1);
        let g = sub_period(&t, &txt); let w = apply((z, s), &p, -1);
        check!(parts(&g) == (w.0, w.1, off), "tenor:sub", "{t} - {txt} = {g}, expected {} second {}", show(w.0), w.1);
        if p.iter().any(|x| x.1 == 1 && x.0 > 12) { c.ev("multi_year_month_tenors"); }
        if civil(w.0).0 != civil(z).0 { c.ev("subtractions_across_years"); }
        if p.len() > 1 { c.ev("multi_unit_tenors"); }
        if p.iter().all(|x| x.1 >= 2) { let b = add_period(&g, &txt); check!(b == t && b.offset() == t.offset(), "tenor:undo", "{t} - {txt} + {txt} = {b}"); let b = sub_period(&add_period(&t, &txt), &txt); check!(b == t, "tenor:undo", "{t} + {txt} - {txt} = {b}"); c.ev("undone"); }
        // monotone in the amount
        let u = r.below(7); let n = r.range(0, 300);
        let (a, b) = (format!("{n}{}", UNITS[u]), format!("{}{}", n + 1 + r.range(0, 3), UNITS[u]));
        check!(add_period(&t, &a) <= add_period(&t, &b) && sub_period(&t, &a) >= sub_period(&t, &b) && add_period(&t, &a) >= t && sub_period(&t, &a) <= t, "tenor:monotone", "{t}: {a} against {b}: {} {} / {} {}", add_period(&t, &a), add_period(&t, &b), sub_period(&t, &a), sub_period(&t, &b));
        let (p, txt) = gen(r, false);
        let (g, w) = (add_period_date(&date(z), &txt), apply((z, 0), &p, 1).0);
        check!(num(g) == w, "tenor:add-date", "{} + {txt} = {g}, expected {}", show(z), show(w));
        let (g, w) = (sub_period_date(&date(z), &txt), apply((z, 0), &p, -1).0);
        if num(g) != w && num(g) == pinned(z, &p) { c.known("tenor:sub-date:years-late", || format!("{} - {txt} = {g}, expected {}", show(z), show(w))); }
        else { check!(num(g) == w, "tenor:sub-date", "{} - {txt} = {g}, expected {}", show(z), show(w)); }
        // rough length in years: within 1 % of the exact length
        let (p, txt) = gen(r, true);
        let w: f64 = p.iter().map(|(v, u)| *v as f64 * [1.0, 1.0 / 12.0, 7.0 / 365.25, 1.0 / 365.25, 1.0 / 8766.0, 1.0 / 525960.0, 1.0 / 31557600.0][*u]).sum();
        let g = must!(from_period_string_to_float(&txt), "tenor:length", "{txt}") as f64;
        check!((g - w).abs() <= 0.01 * w + 1e-7, "tenor:length", "{txt} is {g} years, about {w}");
        check!(from_period_string_to_float(*r.pick(&["", "abc", "M", "12", "3x", "y1"])).is_err(), "tenor:bad-accepted", "a text without amount and unit was accepted");
        c.fold(z as u64); c.folds(&txt); c.ev("tenors");
        if mlen(civil(z).0, civil(z).1) == civil(z).2 { c.ev("month_end_starts"); }
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c23(run: &mut Run) {
    run.rule("random tenors of 1-3 units applied forwards and backwards to random instants, compared with integer calendar arithmetic");
    run.require("tenors", 10_000); run.require("multi_year_month_tenors", 500); run.require("subtractions_across_years", 1000); run.require("month_end_starts", 1000); run.require("undone", 1000);
    run.family("tenors", 600, 100_000, tenors);
}
