//! independent date arithmetic (proleptic Gregorian day numbers) and generators shared by the monitors
use time::{Date, Month, OffsetDateTime, Time, UtcOffset};
use vmon::Rng;
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400); let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468; let era = z.div_euclid(146097); let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
/// 0 = Monday … 6 = Sunday
pub fn wd(z: i64) -> i64 { (z + 3).rem_euclid(7) }
pub fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn mlen(y: i64, m: i64) -> i64 { days(if m == 12 { y + 1 } else { y }, if m == 12 { 1 } else { m + 1 }, 1) - days(y, m, 1) }
pub fn date(z: i64) -> Date { let (y, m, d) = civil(z); Date::from_calendar_date(y as i32, Month::try_from(m as u8).unwrap(), d as u8).unwrap() }
pub fn num(d: Date) -> i64 { days(d.year() as i64, d.month() as u8 as i64, d.day() as i64) }
/// instant: local day z, local second s, offset in seconds
pub fn at(z: i64, s: i64, off: i64) -> OffsetDateTime {
    OffsetDateTime::new_in_offset(date(z), Time::from_hms((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8).unwrap(), UtcOffset::from_whole_seconds(off as i32).unwrap())
}
/// (local day, local second, offset)
pub fn parts(t: &OffsetDateTime) -> (i64, i64, i64) { (num(t.date()), t.hour() as i64 * 3600 + t.minute() as i64 * 60 + t.second() as i64, t.offset().whole_seconds() as i64) }
pub const KST: i64 = 9 * 3600;
pub fn offset(r: &mut Rng) -> i64 { *r.pick(&[0i64, KST, KST, -5 * 3600, 5 * 3600 + 1800, -12 * 3600]) }
pub fn secs(r: &mut Rng) -> i64 { match r.below(5) { 0 => 0, 1 => 86399, 2 => 17 * 3600, 3 => 9 * 3600, _ => r.range(0, 86399) } }
/// day between the given years, biased to month ends, leap days and year ends
pub fn day(r: &mut Rng, y0: i64, y1: i64) -> i64 {
    let y = r.range(y0, y1);
    match r.below(6) {
        0 => { let m = r.range(1, 12); days(y, m, mlen(y, m)) }
        1 => { let m = r.range(1, 12); days(y, m, 1) }
        2 => days(y, 2, mlen(y, 2) - r.range(0, 1)),
        3 => days(y, 12, 31) + r.range(-2, 2).min(if y == y1 { 0 } else { 2 }),
        _ => { let m = r.range(1, 12); days(y, m, r.range(1, mlen(y, m))) }
    }
}
pub fn show(z: i64) -> String { let (y, m, d) = civil(z); format!("{y:04}-{m:02}-{d:02}({})", ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"][wd(z) as usize]) }
/// day-count convention as documented, on day numbers (times of day play no role)
/// full-precision "time" between instants given as UTC seconds; year boundary at local midnight of 31 December
pub fn tdiff(a: (i64, i64), b: (i64, i64)) -> f64 { pos(b) - pos(a) }
/// position on the time axis of local (day, second): year + elapsed share of the year, measured from midnight of 31 December
pub fn pos((z, s): (i64, i64)) -> f64 {
    let (y, _, _) = civil(z);
    let start = days(y - 1, 12, 31);
    y as f64 + ((z - start) as f64 + s as f64 / 86400.0) / if leap(y) { 366.0 } else { 365.0 }
}
/// difference of two instants expressed in the first one's year convention (both in the same offset)
pub fn tdt(a: &OffsetDateTime, b: &OffsetDateTime) -> f64 {
    let (za, sa, oa) = parts(a); let (zb, sb, ob) = parts(b);
    if oa == ob { return seg((za, sa), (zb, sb)); }
    let t = zb * 86400 + sb - ob + oa;
    seg((za, sa), (t.div_euclid(86400), t.rem_euclid(86400)))
}
fn seg(a: (i64, i64), b: (i64, i64)) -> f64 { pos(b) - pos(a) }

/// silences the code's warnings on standard output while it lives
pub struct Mute(i32);
impl Mute {
    pub fn new() -> Mute { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { let o = libc::dup(1); let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY); libc::dup2(n, 1); libc::close(n); Mute(o) } }
}
impl Drop for Mute { fn drop(&mut self) { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { libc::dup2(self.0, 1); libc::close(self.0); } } }
