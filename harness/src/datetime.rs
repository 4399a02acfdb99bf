use crate::vsym::*;
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};

crate::harness!(h_fat_date, h_fat_time_date, h_fat_10ms, h_posix32, h_posix64, h_filetime, h_from_bytes);

/// decimal value of the digits in s[a..b]; every one must be a digit
fn num(s: &[u8], a: usize, b: usize) -> u64 {
    let (mut v, mut ok) = (0u64, true);
    for i in a..b {
        let d = s[i].wrapping_sub(b'0');
        ok &= d < 10;
        v = v * 10 + (d & 15) as u64;
    }
    check(ok && a < b, "a digit is expected");
    v
}
fn hex(s: &[u8], a: usize, b: usize) -> u64 {
    let (mut v, mut ok) = (0u64, true);
    for i in a..b {
        let (d, l) = (s[i].wrapping_sub(b'0'), s[i].wrapping_sub(b'a'));
        ok &= (d < 10) | (l < 6);
        v = v << 4 | if d < 10 { d } else { l.wrapping_add(10) & 15 } as u64;
    }
    check(ok && a < b, "a hexadecimal digit is expected");
    v
}
/// YYYY-MM-DD at the start of s; year of any number of digits (at least 4), possibly negative: (year, month, day, length)
fn date(s: &[u8], n: usize) -> (i64, u64, u64) {
    check(n >= 10, "string is too short");
    let d = n - 6;
    let neg = s[0] == b'-';
    let y = num(s, neg as usize, d) as i64;
    check((s[d] == b'-') & (s[d + 3] == b'-'), "date separators");
    (if neg { -y } else { y }, num(s, d + 1, d + 3), num(s, d + 4, d + 6))
}
/// THH:MM:SS
fn time(s: &[u8]) -> (u64, u64, u64) {
    check((s[0] == b'T') & (s[3] == b':') & (s[6] == b':'), "time separators");
    (num(s, 1, 3), num(s, 4, 6), num(s, 7, 9))
}
fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn month_days(y: i64, m: u64) -> u64 {
    if m == 2 { 28 + leap(y) as u64 } else { [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize] }
}
/// days since 1970-01-01 of the first day of month m of year y (m in 1..=12), both concrete
fn month_start(y: i64, m: u64) -> i64 {
    let p = y - 1;
    let mut d = 365 * y + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719527;
    for k in 1..m {
        d += month_days(y, k) as i64;
    }
    d
}
#[no_mangle]
pub extern "C" fn h_fat_date() {
    let v = any_u16();
    let s = FatDate::new(v).to_iso8601_string().into_bytes();
    reach(1);
    check(s.len() == 10, "length");
    let (y, m, d) = date(&s, 10);
    check(y == 1980 + (v >> 9) as i64, "year");
    check(m == (v >> 5 & 15) as u64, "month");
    check(d == (v & 31) as u64, "day of month");
    observe("y", y as u64);
    let t = format!("{}", FatDate::new(v)).into_bytes();
    check(t.len() == 19 && same(&t[..10], &s), "display form: date");
    check(same(&t[10..14], b" (0x") && t[18] == b')' && hex(&t, 14, 18) == v as u64, "display form: raw value");
}
#[no_mangle]
pub extern "C" fn h_fat_time_date() {
    let (v, w) = (any_u16(), any_u16());
    let f = FatTimeDate::new(v, w);
    let s = f.to_iso8601_string().into_bytes();
    reach(1);
    check(s.len() == 19, "length");
    let (y, m, d) = date(&s, 10);
    check(y == 1980 + (v >> 9) as i64, "year");
    check(m == (v >> 5 & 15) as u64, "month");
    check(d == (v & 31) as u64, "day of month");
    let (h, mi, se) = time(&s[10..]);
    check(h == (w >> 11) as u64, "hours");
    check(mi == (w >> 5 & 63) as u64, "minutes");
    check(se == 2 * (w & 31) as u64, "seconds");
    observe("s", se);
}
#[no_mangle]
pub extern "C" fn h_fat_10ms() {
    // the date is formatted as in FatTimeDate; here it is arbitrary within one day
    let (v, w, f) = (0x5a21 ^ (any_u8() as u16 & 31), any_u16(), any_u8());
    let s = FatTimeDate10Ms::new(v, w, f).to_iso8601_string().into_bytes();
    reach(1);
    check(s.len() == 22, "length");
    let (y, m, d) = date(&s, 10);
    check(y == 1980 + (v >> 9) as i64 && m == (v >> 5 & 15) as u64 && d == (v & 31) as u64, "date");
    let (h, mi, se) = time(&s[10..]);
    check(h == (w >> 11) as u64, "hours");
    check(mi == (w >> 5 & 63) as u64, "minutes");
    check(s[19] == b'.', "fraction separator");
    let c = num(&s, 20, 22);
    check(se * 100 + c == 200 * (w & 31) as u64 + f as u64, "seconds and fraction");
    observe("s", se * 100 + c);
}
const NOTIME: u64 = 99;
/// day number, and the time of day, of days (base + less than `days`) since 1970-01-01
fn instant() -> (i64, i64, u64, u64, u64) {
    let base = param("base", 0) as i64;
    let d = base + any_lt(param("days", 366)) as i64;
    match param("part", 0) {
        // arbitrary day, fixed time; the second lies at the start or at the end of the day
        0 => (d * 86400, d, 0, 0, 0),
        1 => (d * 86400 + 86399, d, 23, 59, 59),
        // a few arbitrary seconds of a fixed day
        3 => {
            let t = param("tod", 0) + any_lt(param("secs", 60));
            (base * 86400 + t as i64, base, NOTIME, t, 0)
        }
        // arbitrary time of a fixed day
        _ => {
            let (h, m, s) = (param("hour", 0) + any_lt(param("hours", 24)), any_lt(60), any_lt(60));
            let d = if param("part", 0) == 4 { d } else { base };
            (d * 86400 + (h * 3600 + m * 60 + s) as i64, d, h, m, s)
        }
    }
}
fn check_date(s: &[u8], n: usize, days: i64) {
    let (y, m, d) = date(s, n);
    // the year and the month are concrete on every path of the implementation, or made so here
    let (y, m) = (concretize(y as u64) as i64, concretize(m));
    check(m >= 1 && m <= 12, "month is out of range");
    check(d >= 1 && d <= month_days(y, m), "day of month is out of range");
    check(month_start(y, m) + d as i64 - 1 == days, "date is not that of the instant");
    observe("y", y as u64);
}
fn check_time(s: &[u8], h: u64, m: u64, se: u64) {
    let t = time(s);
    if h == NOTIME {
        check((t.0 < 24) & (t.1 < 60) & (t.2 < 60) & (t.0 * 3600 + t.1 * 60 + t.2 == m), "time of day");
        return;
    }
    check(t.0 == h, "hours");
    check(t.1 == m, "minutes");
    check(t.2 == se, "seconds");
}
#[no_mangle]
pub extern "C" fn h_posix32() {
    let (t, days, h, m, s) = instant();
    let r = PosixTime32::new(t as i32).to_iso8601_string().into_bytes();
    reach(1);
    check(r.len() == 19, "length");
    check_date(&r, 10, days);
    check_time(&r[10..], h, m, s);
}
#[no_mangle]
pub extern "C" fn h_posix64() {
    let (t, days, h, m, s) = instant();
    // three arbitrary adjacent digits of the fraction
    let f = (param("fraction", 0) + param("scale", 0) * any_lt(1000)) as u32;
    let r = PosixTime64Ns::new(t, f).to_iso8601_string().into_bytes();
    reach(1);
    let n = r.len();
    check(n >= 29, "length");
    check_date(&r, n - 19, days);
    check_time(&r[n - 19..], h, m, s);
    check(r[n - 10] == b'.' && num(&r, n - 9, n) == f as u64, "fraction");
}
#[no_mangle]
pub extern "C" fn h_filetime() {
    let (t, days, h, m, s) = instant();
    let f = param("fraction", 0) + param("scale", 0) * any_lt(1000);
    let r = Filetime::new((t + 11644473600) as u64 * 10000000 + f).to_iso8601_string().into_bytes();
    reach(1);
    let n = r.len();
    check(n >= 27, "length");
    check_date(&r, n - 17, days);
    check_time(&r[n - 17..], h, m, s);
    check(r[n - 8] == b'.' && num(&r, n - 7, n) == f, "fraction");
}
#[no_mangle]
pub extern "C" fn h_from_bytes() {
    let b: [u8; 8] = any_array();
    let le = |a: usize, n: usize| (0..n).fold(0u64, |v, i| v | (b[a + i] as u64) << (8 * i));
    check(FatDate::from_bytes(&b).date as u64 == le(0, 2), "FAT date");
    let f = FatTimeDate::from_bytes(&b);
    check(f.time as u64 == le(0, 2) && f.date as u64 == le(2, 2), "FAT time and date");
    let f = FatTimeDate10Ms::from_bytes(&b);
    check(f.fraction == b[0] && f.time as u64 == le(1, 2) && f.date as u64 == le(3, 2), "FAT fraction, time and date");
    check(Filetime::from_bytes(&b).timestamp == le(0, 8), "FILETIME");
    check(PosixTime32::from_le_bytes(&b).timestamp as u32 as u64 == le(0, 4), "POSIX time, little endian");
    check(PosixTime32::from_be_bytes(&b).timestamp == i32::from_be_bytes([b[0], b[1], b[2], b[3]]), "POSIX time, big endian");
    reach(1);
}
