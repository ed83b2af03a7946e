use crate::cal::make;
use crate::d::*;
use quantlib::instruments::schedule::{build_schedule, BaseSchedule, Schedule};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{BusinessDayConvention as B, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use vmon::*;
pub const FREQ: [(F, i64, i64); 10] = [(F::Daily, 0, 1), (F::Weekly, 0, 7), (F::BiWeekly, 0, 14), (F::SemiMonthly, 0, 14), (F::Monthly, 1, 0), (F::SemiQuarterly, 2, 0), (F::Quarterly, 3, 0), (F::TriAnnually, 4, 0), (F::SemiAnnually, 6, 0), (F::Annually, 12, 0)];
pub const CONV: [B; 5] = [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding];
pub fn add_months(z: i64, k: i64) -> i64 { let (y, m, d) = civil(z); let n = y * 12 + m - 1 + k; let (y, m) = (n.div_euclid(12), n.rem_euclid(12) + 1); days(y, m, d.min(mlen(y, m))) }
pub fn roll(conv: &B, z: i64, open: &dyn Fn(i64) -> bool) -> i64 {
    let f = || (z..).find(|x| open(*x)).unwrap(); let b = || (0..).map(|k| z - k).find(|x| open(*x)).unwrap();
    let same = |x: i64| (civil(x).0, civil(x).1) == (civil(z).0, civil(z).1);
    match conv { B::Following => f(), B::Preceding => b(), B::ModifiedFollowing => if same(f()) { f() } else { b() }, B::ModifiedPreceding => if same(b()) { b() } else { f() }, _ => z }
}
pub struct Period { pub fix: i64, pub start: i64, pub end: i64, pub pay: i64 }
/// the schedule by its definition on local days; None: it cannot be built
pub fn expected(forward: bool, e: i64, m: i64, open: &dyn Fn(i64) -> bool, conv: &B, f: usize, fg: i64, pg: i64) -> Option<Vec<Period>> {
    let step = |z: i64, k: i64| if FREQ[f].1 > 0 { add_months(z, FREQ[f].1 * k) } else { z + FREQ[f].2 * k };
    if e >= m { return Some(vec![]); }
    // inner period boundaries strictly between the effective date and the maturity
    let mut inner = vec![];
    for k in 1.. { let z = if forward { step(e, k) } else { step(m, -k) }; if forward && z >= m || !forward && z <= e { break; } inner.push(roll(conv, z, open)); }
    if !forward { inner.reverse(); }
    let mut b = vec![e]; b.extend(inner); b.push(m);
    let n = b.len() - 1;
    let mut out = vec![];
    for i in 0..n {
        if b[i + 1] <= b[i] { return None; }
        out.push(Period { fix: roll(&B::Preceding, b[i] - fg, open), start: b[i], end: b[i + 1], pay: if i == n - 1 { m } else { roll(conv, b[i + 1] + pg, open) } });
    }
    Some(out)
}
fn schedules(r: &mut Rng, c: &mut Case) -> R {
    let n = 1 + r.below(2);
    let cals: Vec<_> = (0..n).map(|_| make(r.below(8)).0).collect();
    let j = JointCalendar::new(cals.clone()).unwrap();
    let (s, off) = (secs(r), if r.chance(0.8) { KST } else { offset(r) });
    let open = |z: i64| cals.iter().all(|k| !k.is_holiday(&at(z, s, off)));
    let e = day(r, 1960, 2045);
    let f = r.below(10); let conv = *r.pick(&CONV); let forward = r.bool();
    let per = if FREQ[f].1 > 0 { FREQ[f].1 * 30 } else { FREQ[f].2 };
    let m = match r.below(6) { 0 => e + r.range(-5, 5), 1 => e + r.range(0, per + 5), 2 => { let k = r.range(1, 12); if FREQ[f].1 > 0 { add_months(e, FREQ[f].1 * k) } else { e + FREQ[f].2 * k } } 3 => { let k = r.range(40, 400.min(14_600 / per).max(41)); if k > 128 { c.ev("over_128_periods"); } e + per * k + r.range(0, per) } _ => e + per * r.range(1, 40) + r.range(0, per) };
    let (fg, pg) = (if r.chance(0.05) { -1 } else { *r.pick(&[0i64, 0, 1, 2, 5]) }, if r.chance(0.05) { -r.range(1, 3) } else { *r.pick(&[0i64, 0, 1, 2, 10]) });
    let (te, tm) = (at(e, s, off), at(m, s, off));
    let d = || format!("{} from {te} to {tm}, every {:?}, {conv:?}, fixing gap {fg}, payment gap {pg}, calendars {}", if forward { "forward" } else { "backward" }, FREQ[f].0, j.calendar_name());
    let g = build_schedule(forward, &te, &tm, &j, &conv, &FREQ[f].0, fg, pg);
    c.fold(e as u64); c.fold(m as u64); c.fold(f as u64);
    if fg < 0 || pg < 0 { check!(g.is_err(), "schedule:bad-gap-accepted", "{}", d()); c.ev("negative_gaps_refused"); return Ok(()); }
    match expected(forward, e, m, &open, &conv, f, fg, pg) {
        None => { check!(g.is_err(), "schedule:collapsed-accepted", "{}: a period of no length, but {:?}", d(), g.map(|x| x.len())); c.ev("collapsed_refused"); }
        Some(want) => {
            let g = must!(g, "schedule:refused", "{}", d());
            let got: Vec<&BaseSchedule> = g.iter().collect();
            // tiling, judged on the result alone
            for (i, p) in got.iter().enumerate() {
                check!(p.get_calc_start_date() < p.get_calc_end_date(), "schedule:order", "{}: period {i} runs from {} to {}", d(), p.get_calc_start_date(), p.get_calc_end_date());
                if i > 0 { check!(p.get_calc_start_date() == got[i - 1].get_calc_end_date(), "schedule:gap", "{}: period {i} starts {} while the previous one ends {}", d(), p.get_calc_start_date(), got[i - 1].get_calc_end_date()); }
                check!(*p.get_calc_end_date() <= tm, "schedule:overshoot", "{}: period {i} ends {} after the maturity", d(), p.get_calc_end_date());
                check!(p.get_fixing_date() <= p.get_calc_start_date(), "schedule:fixing", "{}: period {i} fixes {} after its start", d(), p.get_fixing_date());
            }
            if !got.is_empty() { check!(*got[0].get_calc_start_date() == te && *got[got.len() - 1].get_calc_end_date() == tm, "schedule:ends", "{}: covers {} to {}", d(), got[0].get_calc_start_date(), got[got.len() - 1].get_calc_end_date()); }
            check!(got.len() == want.len(), "schedule:count", "{}: {} periods, expected {}", d(), got.len(), want.len());
            for (i, (p, w)) in got.iter().zip(&want).enumerate() {
                let t = |z: i64| at(z, s, off);
                check!(*p.get_calc_start_date() == t(w.start) && *p.get_calc_end_date() == t(w.end), "schedule:period", "{}: period {i} is {} to {}, expected {} to {}", d(), p.get_calc_start_date(), p.get_calc_end_date(), show(w.start), show(w.end));
                check!(*p.get_fixing_date() == t(w.fix), "schedule:fixing", "{}: period {i} fixes {}, expected {}", d(), p.get_fixing_date(), show(w.fix));
                check!(*p.get_payment_date() == t(w.pay), "schedule:payment", "{}: period {i} pays {}, expected {}", d(), p.get_payment_date(), show(w.pay));
                check!(p.get_amount().is_none(), "schedule:amount", "{}: period {i} has an amount", d());
                c.ev("periods");
            }
            match want.len() { 0 => c.ev("empty_schedules"), 1 => c.ev("single_period_schedules"), _ => c.ev("multi_period_schedules") }
            // container
            check!(g.len() == want.len() && g.is_empty() == want.is_empty() && (&g).into_iter().count() == want.len() && (want.is_empty() || g[0] == *got[0]), "schedule:container", "{}", d());
            let copy = Schedule::new(got.iter().map(|p| BaseSchedule::new(*p.get_fixing_date(), *p.get_calc_start_date(), *p.get_calc_end_date(), *p.get_payment_date(), p.get_amount())).collect());
            check!(copy == g, "schedule:container", "{}: a schedule rebuilt from its own dates differs", d());
            c.nontrivial = want.len() > 1;
        }
    }
    Ok(())
}
pub fn c24(run: &mut Run) {
    run.rule("random dates, frequencies, conventions, gaps and joint calendars, forwards and backwards; every date of every period compared with the definition, tiling checked on the result itself");
    run.assume("frequency 'None' is not used for schedules");
    run.require("periods", 20_000); run.require("single_period_schedules", 100); run.require("collapsed_refused", 20); run.require("negative_gaps_refused", 50); run.require("multi_period_schedules", 1000);
    run.family("schedules", 15000, 200_000, schedules);
}
