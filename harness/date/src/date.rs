//! C30: dateformat.
use crate::common::*;
use humphrey_json::Value;

static mut CLOCK: i64 = 1_700_000_000;
/// The clock of the machine.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
    *t = [CLOCK, 5_000_000];
    0
}
/// The time zone of the machine.
fn zone(i: usize) {
    vrt::vfs::set_env(&[(b"TZ", [&b"XYZ-5:45"[..], b"ABC11"][i])]);
}
/// Another clock and time zone of the machine.
fn any_clock() {
    zone(choose(2));
    unsafe { CLOCK = pick(&[1_700_000_000, 951_782_399, 1_735_689_599]) };
}

type Out = Result<Vec<u8>, TracebackError<process::ProcessError>>;
/// The page `<{{ dateformat($d, f) }}>` where d is the value.
fn run(d: Value, f: &[u8]) -> Out {
    let mut t = b"{{ import($d, \"d.json\") }}<{{ dateformat($d, \"".to_vec();
    t.extend_from_slice(f);
    t.extend_from_slice(b"\") }}>");
    let t = unsafe { String::from_utf8_unchecked(t) };
    direct(vec![("d", d)], &t)
}
/// Builds the regular expressions, which are compiled when first used, before the paths split.
fn prime() {
    zone(0);
    let _ = run(Value::String("zz".into()), b"%Y");
}
fn expect(d: Vec<u8>, f: &[u8], want: &[u8]) {
    observe(&d);
    let r = run(Value::String(unsafe { String::from_utf8_unchecked(d) }), f);
    obs_direct(&r);
    match r {
        Ok(v) => {
            let mut w = b"<".to_vec();
            w.extend_from_slice(want);
            w.push(b'>');
            eq(&v, &w, "dateformat prints another instant than the string denotes");
        }
        Err(_) => fail("dateformat rejects a date"),
    }
    cover("printed");
}
fn refuse(d: Value, f: &[u8]) {
    let r = run(d, f);
    obs_direct(&r);
    check(r.is_err(), "dateformat accepts what is no date or no format");
    cover("rejected");
}

// ---- the calendar ----
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y + 400 - (m <= 2) as i64;
    let n = (m + 9) % 12;
    y * 365 + y / 4 - y / 100 + y / 400 + (n * 153 + 2) / 5 + d - 1 - 719468 - 146097
}
fn civil(z: i64) -> (i64, i64, i64) {
    // z is concrete: simply walk
    let mut y = 1970;
    let mut z = z;
    while z < 0 {
        y -= 1;
        z += 365 + leap(y) as i64;
    }
    while z >= 365 + leap(y) as i64 {
        z -= 365 + leap(y) as i64;
        y += 1;
    }
    let mut m = 1;
    while z >= month_len(y, m) {
        z -= month_len(y, m);
        m += 1;
    }
    (y, m, z + 1)
}
fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DAYS: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];

/// n digits and their value.
fn digits(n: usize) -> (Vec<u8>, i64) {
    let mut v = Vec::with_capacity(n);
    let mut x = 0;
    for _ in 0..n {
        let d = digit();
        v.push(d);
        x = x * 10 + (d - b'0') as i64;
    }
    (v, x)
}
fn put(o: &mut Vec<u8>, x: i64, n: u32) {
    for i in (0..n).rev() {
        o.push(b'0' + (x / 10i64.pow(i) % 10) as u8);
    }
}
fn num(x: i64, n: u32) -> Vec<u8> {
    let mut o = vec![];
    put(&mut o, x, n);
    o
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
/// A two-digit number below n, of which the digits are arbitrary.
fn below(n: i64) -> (Vec<u8>, i64) {
    let (v, x) = digits(2);
    assume((v[0] - b'0') as i64 <= (n - 1) / 10);
    assume(x < n);
    (v, x)
}

entries! {
    date(n): h_c30_date_2 = 2, h_c30_date_4 = 4;
    year(n): h_c30_year_2 = 2, h_c30_year_4 = 4;
    time(n): h_c30_time_2 = 2, h_c30_time_4 = 4, h_c30_time_6 = 6;
    offset(n): h_c30_offset_2 = 2, h_c30_offset_4 = 4;
    unix(n): h_c30_unix_2 = 2, h_c30_unix_4 = 4;
    specifier(n): h_c30_specifier_1 = 1, h_c30_specifier_2 = 2;
    refused(n): h_c30_refused_3 = 3, h_c30_refused_5 = 5;
}

const YEARS: [i64; 16] = [2000, 2021, 1900, 1972, 2016, 1999, 2004, 2014, 2017, 1969, 1, 9999, 2020, 1992, 2100, 1970];
/// Dates without a time, in each notation: midnight, whatever the clock says.
fn dates(years: usize, layouts: &[usize]) {
    prime();
    if years > 1 {
        any_clock();
    }
    let layout = pick(layouts);
    let m = 1 + choose(12) as i64;
    let y = YEARS[choose(years)];
    let (dd, d) = below(32);
    assume(d >= 1 && d <= month_len(y, m));
    dated(layout, &num(y, 4), m, &dd);
}
const LAYOUTS: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11];
fn date(n: usize) {
    dates(if n == 2 { 1 } else { 16 }, &LAYOUTS)
}
/// Every year.
fn year(n: usize) {
    prime();
    let layout = if n < 4 { pick(&LAYOUTS[..3]) } else { pick(&LAYOUTS) };
    let (m, d) = pick(&[(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)]);
    let c = if n == 2 { pick(&[19, 20]) } else { choose(100) as i64 };
    let (v, x) = digits(2);
    let y = c * 100 + x;
    assume(d != 29 || leap(y));
    dated(layout, &cat(&[&num(c, 2), &v]), m, &num(d, 2));
}
/// The notations which pass through a search that tells all digits apart.
#[no_mangle]
pub extern "C" fn h_c30_dots() {
    prime();
    any_clock();
    let (y, m, d) = pick(&[(2014i64, 3i64, 30i64), (2000, 2, 29), (1999, 12, 31), (1971, 8, 1)]);
    dated(8 + choose(2), &num(y, 4), m, &num(d, 2));
}
fn dated(layout: usize, yy: &[u8], m: i64, dd: &[u8]) {
    let mm = &num(m, 2)[..];
    let name = MONTHS[m as usize - 1].as_bytes();
    let s = match layout {
        0 => cat(&[yy, b"-", mm, b"-", dd]),
        1 => cat(&[yy, b"-", &name[..3], b"-", dd]),
        2 => cat(&[name, b" ", dd, b", ", yy]),
        3 => cat(&[&name[..3].to_ascii_lowercase(), b". ", dd, b", ", yy]),
        4 => cat(&[dd, b" ", &name[..3], b" ", yy]),
        5 => cat(&[dd, b" ", name, b" ", yy]),
        6 => cat(&[mm, b"/", dd, b"/", yy]),
        7 => cat(&[yy, b"/", mm, b"/", dd]),
        8 => cat(&[mm, b".", dd, b".", yy]),
        9 => cat(&[yy, b".", mm, b".", dd]),
        10 => cat(&[yy, "年".as_bytes(), mm, "月".as_bytes(), dd, "日".as_bytes()]),
        _ => cat(&[yy, b"-", mm, b"-", dd, b"T00:00:00Z"]),
    };
    expect(s, b"%d/%m/%Y %H:%M:%S", &cat(&[dd, b"/", mm, b"/", yy, b" 00:00:00"]));
}

/// Times of day, in each notation.
fn time(n: usize) {
    prime();
    let layout = choose(15);
    let days = [(2014i64, 4i64, 26i64), (2000, 2, 29), (1965, 12, 31)];
    let (y, m, d) = if n == 2 { days[layout % 3] } else { pick(&days) };
    let (yy, mm, dd) = (num(y, 4), num(m, 2), num(d, 2));
    let name = MONTHS[m as usize - 1].as_bytes();
    // of the form `05:24:37 PM`
    let half = matches!(layout, 3 | 4 | 6 | 8 | 10);
    let seconds = matches!(layout, 1 | 2 | 3 | 5 | 8 | 9 | 11 | 12 | 13 | 14);
    // with few digits, only the hours or only the minutes vary
    let hours = n > 2 || flip();
    let (hh, h) = if hours { below(24) } else { (num(12, 2), 12) };
    let (ii, i) = if n > 2 || !hours { below(60) } else { (num(8, 2), 8) };
    let (ss, s) = if n < 6 {
        let s = pick(&[7, 59]);
        (num(s, 2), s)
    } else {
        below(60)
    };
    let pm = half && flip();
    if half {
        assume(h >= 1 && h <= 12);
    }
    let p: &[u8] = if pm { b" PM" } else { b" am" };
    let h24 = if half { h % 12 + 12 * pm as i64 } else { h };
    let ymd = cat(&[&yy, b"-", &mm, b"-", &dd]);
    let hm = cat(&[&hh, b":", &ii]);
    let hms = cat(&[&hm, b":", &ss]);
    let slash = cat(&[&mm, b"/", &dd, b"/", &yy]);
    let t = match layout {
        0 => cat(&[&ymd, b" ", &hm]),
        1 => cat(&[&ymd, b" ", &hms]),
        2 => cat(&[&ymd, b" ", &hms, b".257"]),
        3 => cat(&[&ymd, b" ", &hms, p]),
        4 => cat(&[&ymd, b" ", &hm, p]),
        5 => cat(&[&slash, b" ", &hms]),
        6 => cat(&[&slash, b" ", &hm, p]),
        7 => cat(&[&yy, b"/", &mm, b"/", &dd, b" ", &hm]),
        8 => cat(&[&yy, b"/", &mm, b"/", &dd, b" ", &hms, p]),
        9 => cat(&[name, b" ", &dd, b", ", &yy, b" ", &hms]),
        10 => cat(&[&name[..3], b" ", &dd, b", ", &yy, b", ", &hm, p]),
        11 => cat(&[&dd, b" ", &name[..3], b" ", &yy, b" ", &hms]),
        12 => cat(&[&ymd, b"T", &hms, b"Z"]),
        13 => cat(&[&ymd, b"T", &hms, b".604456Z"]),
        _ => cat(&[&yy, "年".as_bytes(), &mm, "月".as_bytes(), &dd, "日".as_bytes(), &hh, "时".as_bytes(), &ii, "分".as_bytes(), &ss, "秒".as_bytes()]),
    };
    let s = if seconds { s } else { 0 };
    expect(t, b"%F %T", &cat(&[&ymd, b" ", &num(h24, 2), b":", &num(i, 2), b":", &num(s, 2)]));
}

/// Times with an offset from UTC: the instant is printed in UTC.
fn offset(n: usize) {
    prime();
    let (y, m, d) = pick(&[(2021i64, 1i64, 1i64), (2020, 2, 29), (1999, 12, 31)]);
    let day = days(y, m, d);
    let (yy, mm, dd) = (num(y, 4), num(m, 2), num(d, 2));
    let name = MONTHS[m as usize - 1].as_bytes();
    let (hh, h) = below(24);
    let (ii, i) = if n == 2 { (num(31, 2), 31) } else { below(60) };
    let layout = choose(9);
    let neg = flip();
    let sign: &[u8] = if neg { b"-" } else { b"+" };
    let (oh, o1) = below(24);
    let (om, o2) = if n == 2 || layout == 6 { (num(30, 2), 30) } else { below(60) };
    let ymd = cat(&[&yy, b"-", &mm, b"-", &dd]);
    let hms = cat(&[&hh, b":", &ii, b":05"]);
    let week = DAYS[((day + 4) % 7) as usize].as_bytes();
    let mail = cat(&[&week[..3], b", ", &dd, b" ", &name[..3], b" ", &yy, b" ", &hms]);
    let zone = pick(&[("UTC", 0i64), ("PST", -8), ("EST", -5), ("GMT", 0)]);
    // not a zone of mail headers
    assume(layout != 6 || zone.0 != "UTC");
    let (t, off) = match layout {
        0 => (cat(&[&ymd, b"T", &hms, sign, &oh, b":", &om]), o1 * 60 + o2),
        1 => (cat(&[&ymd, b" ", &hms, sign, &oh, b":", &om]), o1 * 60 + o2),
        2 => (cat(&[&ymd, b" ", &hms, sign, &oh]), o1 * 60),
        3 => (cat(&[&ymd, b" ", &hms, b" ", sign, &oh, &om]), o1 * 60 + o2),
        4 => (cat(&[&mail, b" ", sign, &oh, &om]), o1 * 60 + o2),
        5 => (cat(&[&ymd, b" ", &hms, b".5", sign, &oh]), o1 * 60),
        6 => (cat(&[&mail, b" ", zone.0.as_bytes()]), zone.1 * 60),
        7 => (cat(&[&ymd, b" ", &hms, b" ", zone.0.as_bytes()]), zone.1 * 60),
        _ => (cat(&[&name, b" ", &dd, b", ", &yy, b" ", &hms, b" ", zone.0.as_bytes()]), zone.1 * 60),
    };
    let off = if layout < 6 && neg { -off } else { off };
    // minutes since the midnight before the day
    let min = h * 60 + i - off + 1440;
    let k = conc((min / 1440) as u64) as i64;
    let r = min - k * 1440;
    let (y, m, d) = civil(day + k - 1);
    expect(t, b"%Y-%m-%d %H:%M:%S", &cat(&[&num(y, 4), b"-", &num(m, 2), b"-", &num(d, 2), b" ", &num(r / 60, 2), b":", &num(r % 60, 2), b":05"]));
}

/// Unix time in seconds, milliseconds and nanoseconds.
fn unix(n: usize) {
    prime();
    // the thousand seconds in which a day begins, of which the last three digits are arbitrary
    let day: i64 = if n == 2 {
        pick(&[17_000, 18_321, 20_089, 47_482])
    } else {
        [11_574, 11_575, 115_740][choose(3)] + 365 * choose(120) as i64
    };
    let base = day * 86400 / 1000 * 1000;
    assume(base >= 1_000_000_000 && base < 10_000_000_000);
    let (v, x) = digits(3);
    let head = num(base / 1000, 7);
    let kind = choose(3);
    if kind == 2 {
        assume(base < 9_000_000_000);
    }
    let t = cat(&[&head, &v, [b"" as &[u8], b"123", b"987654321"][kind]]);
    let s = base / 86400;
    let rest = base % 86400 + x;
    let k = conc((rest / 86400) as u64) as i64;
    let r = rest - k * 86400;
    let (y, m, d) = civil(s + k);
    expect(t, b"%Y-%m-%d %H:%M:%S", &cat(&[&num(y, 4), b"-", &num(m, 2), b"-", &num(d, 2), b" ", &num(r / 3600, 2), b":", &num(r / 60 % 60, 2), b":", &num(r % 60, 2)]));
}

/// What a specifier prints, or None if there is no such specifier.
fn spec(c: u8, y: i64, m: i64, d: i64, h: i64, i: i64, s: i64) -> Option<Vec<u8>> {
    let day = days(y, m, d);
    let w = ((day + 4) % 7) as usize;
    let ord = day - days(y, 1, 1);
    let h12 = if h % 12 == 0 { 12 } else { h % 12 };
    let space = |x: i64| if x < 10 { cat(&[b" ", &num(x, 1)]) } else { num(x, 2) };
    let (mon, wd) = (MONTHS[m as usize - 1].as_bytes(), DAYS[w].as_bytes());
    let dmy = |a: i64, b: i64, c: i64| cat(&[&num(a, 2), b"/", &num(b, 2), b"/", &num(c, 2)]);
    let hms = cat(&[&num(h, 2), b":", &num(i, 2), b":", &num(s, 2)]);
    // the week of the ISO calendar
    let mon0 = |y: i64| {
        let j4 = days(y, 1, 4);
        j4 - (j4 + 3) % 7
    };
    let iy = if day >= mon0(y + 1) { y + 1 } else if day < mon0(y) { y - 1 } else { y };
    let iw = (day - mon0(iy)) / 7 + 1;
    Some(match c {
        b'Y' => num(y, 4),
        b'C' => num(y / 100, 2),
        b'y' => num(y % 100, 2),
        b'm' => num(m, 2),
        b'b' | b'h' => mon[..3].to_vec(),
        b'B' => mon.to_vec(),
        b'd' => num(d, 2),
        b'e' => space(d),
        b'a' => wd[..3].to_vec(),
        b'A' => wd.to_vec(),
        b'w' => num(w as i64, 1),
        b'u' => num(if w == 0 { 7 } else { w as i64 }, 1),
        b'U' => num((ord + 7 - w as i64) / 7, 2),
        b'W' => num((ord + 7 - (w as i64 + 6) % 7) / 7, 2),
        b'G' => num(iy, 4),
        b'g' => num(iy % 100, 2),
        b'V' => num(iw, 2),
        b'j' => num(ord + 1, 3),
        b'D' | b'x' => dmy(m, d, y % 100),
        b'F' => cat(&[&num(y, 4), b"-", &num(m, 2), b"-", &num(d, 2)]),
        b'v' => cat(&[&space(d), b"-", &mon[..3], b"-", &num(y, 4)]),
        b'H' => num(h, 2),
        b'k' => space(h),
        b'I' => num(h12, 2),
        b'l' => space(h12),
        b'P' => if h < 12 { b"am".to_vec() } else { b"pm".to_vec() },
        b'p' => if h < 12 { b"AM".to_vec() } else { b"PM".to_vec() },
        b'M' => num(i, 2),
        b'S' => num(s, 2),
        b'f' => num(0, 9),
        b'R' => num(h, 2).into_iter().chain(b":".iter().copied()).chain(num(i, 2)).collect(),
        b'T' | b'X' => hms,
        b'r' => cat(&[&num(h12, 2), b":", &num(i, 2), b":", &num(s, 2), if h < 12 { b" AM" } else { b" PM" }]),
        b'Z' => b"UTC".to_vec(),
        b'z' => b"+0000".to_vec(),
        b'c' => cat(&[&wd[..3], b" ", &mon[..3], b" ", &space(d), b" ", &hms, b" ", &num(y, 4)]),
        b'+' => cat(&[&num(y, 4), b"-", &num(m, 2), b"-", &num(d, 2), b"T", &hms, b"+00:00"]),
        b's' => (day * 86400 + h * 3600 + i * 60 + s).to_string().into_bytes(),
        b't' => b"\t".to_vec(),
        b'n' => b"\n".to_vec(),
        b'%' => b"%".to_vec(),
        _ => return None,
    })
}

/// Every specifier, with text around it.
fn specifier(n: usize) {
    prime();
    let (y, m, d, h, i, s) = pick(&[(2021i64, 1i64, 3i64, 0i64, 5i64, 9i64), (2020, 12, 31, 12, 30, 0), (2000, 2, 29, 23, 59, 59), (1999, 8, 9, 9, 0, 1)]);
    let t = cat(&[&num(y, 4), b"-", &num(m, 2), b"-", &num(d, 2), b" ", &num(h, 2), b":", &num(i, 2), b":", &num(s, 2)]);
    let mut f = vec![];
    let mut want = Some(vec![]);
    for k in 0..n {
        let a = byte();
        assume(a >= 32 && a < 127 && a != b'"' && a != b'%' && a != b'\\' && a != b'{' && a != b'}');
        let c = byte();
        assume(c < 128 && c != b'"' && c != b'\\');
        // modifiers of what follows
        assume(!matches!(c, b'-' | b'_' | b'0' | b'.' | b':' | b'#' | b'3' | b'6' | b'9'));
        if k > 0 {
            // the first one varies most
            assume(matches!(c, b'd' | b'%' | b'Q' | b'A' | b'H'));
        }
        let c = conc(c as u64) as u8;
        f.extend_from_slice(&[a, b'%', c]);
        if let Some(w) = want.as_mut() {
            match spec(c, y, m, d, h, i, s) {
                Some(x) => {
                    w.push(a);
                    w.extend(x);
                }
                None => want = None,
            }
        }
    }
    let d = unsafe { String::from_utf8_unchecked(t) };
    match want {
        Some(w) => expect(d.into_bytes(), &f, &w),
        None => refuse(Value::String(d), &f),
    }
}

/// Formats with modifiers, and text which is none.
#[no_mangle]
pub extern "C" fn h_c30_modifier() {
    prime();
    let l: &[(&str, &str)] = &[
        ("%-d/%-m", "5/4"),
        ("%_d|%_m|%_H", " 5| 4| 7"),
        ("%0e", "05"),
        ("%-j", "95"),
        ("%-I:%M%P", "7:08am"),
        ("%.3f|%3f", ".250|250"),
        ("%.f", ".250"),
        ("%.6f|%6f|%.9f", ".250000|250000|.250000000"),
        ("%:z|%#z", "+00:00|+00"),
        ("", ""),
        ("no specifier, (just) text = é", "no specifier, (just) text = é"),
        ("%Y年%m月", "2014年04月"),
        ("%%Y %%", "%Y %"),
        ("}%d}", "}05}"),
        ("$d", "$d"),
        ("  %d  ", "  05  "),
    ];
    let (f, w) = pick(l);
    if f.contains("%:z") {
        // `%#z` only parses
        return expect(b"2014-04-05 07:08:09.250".to_vec(), b"%:z", b"+00:00");
    }
    expect(b"2014-04-05 07:08:09.250".to_vec(), f.as_bytes(), w.as_bytes());
}

/// Strings which are no dates, other values, and formats which are none.
fn refused(n: usize) {
    prime();
    let kind = choose(4);
    match kind {
        0 => {
            let l = ["", " ", "2021-02-30", "2021-02-29", "1900-02-29", "2021-04-31", "2021-13-01", "2021-00-10", "2021-01-00", "2021-01-32", "31/12/2021", "2021-05-06 24:00:00", "2021-05-06 10:60:00", "Mai 6, 2021", "6th May 2021", "today", "2021", "-", "12345678901", "99999999999999999999", "2021-05-06T", "2021-05-06 extra words", "Wed, 03 Jun 2021 06:31:39 GMT", "2021-05-06T01:02:03+99:99x"];
            refuse(Value::String(pick(&l).into()), b"%Y")
        }
        1 => {
            // no digit, no date
            let t = text_in(n, b"aPmM :-/.,TZ+");
            refuse(Value::String(t), b"%Y")
        }
        2 => {
            let v = match choose(6) {
                0 => Value::Null,
                1 => Value::Bool(true),
                2 => Value::Number(1_500_000_000.0),
                3 => Value::Array(vec![Value::String("2021-05-06".into())]),
                4 => Value::Object(vec![("d".into(), Value::String("2021-05-06".into()))]),
                _ => Value::Array(vec![]),
            };
            refuse(v, b"%Y")
        }
        _ => {
            let f = pick(&["%", "%Q", "%Y %", "%-", "%.", "%.4f", "%E", "%Y%!", "%4f", "%::z ok"]);
            if f == "%::z ok" {
                return cover("rejected");
            }
            refuse(Value::String("2021-05-06".into()), f.as_bytes())
        }
    }
}

/// One call which formats one date after another.
#[no_mangle]
pub extern "C" fn h_c30_again() {
    prime();
    let l: &[(&str, &str)] = &[
        ("2021-02-03 04:05:06", "03/02/21 04:05:06 Wed"),
        ("2021-02-03 14:15:16", "03/02/21 14:15:16 Wed"),
        ("2021-02-03", "03/02/21 00:00:00 Wed"),
        ("2021-02-04 04:05:06", "04/02/21 04:05:06 Thu"),
        ("2021-02-03T04:05:06+01:00", "03/02/21 03:05:06 Wed"),
        ("Feb 3, 2020", "03/02/20 00:00:00 Mon"),
        ("no date", ""),
    ];
    let (a, b) = (pick(l), pick(l));
    let c = if flip() { Some(pick(l)) } else { None };
    let mut items = vec![Value::String(a.0.into()), Value::String(b.0.into())];
    items.extend(c.map(|c| Value::String(c.0.into())));
    let f = if flip() { "%d/%m/%y %T %a" } else { "%T" };
    let cut = |w: &str| if f == "%T" && w.len() > 17 { w[9..17].to_string() } else { w.to_string() };
    let r = direct(vec![("d", Value::Array(items))], &format!("{{{{ for($x, \"d.json\") }}}}{{{{ dateformat($x, \"{}\") }}}}|{{{{ end(for) }}}}", f));
    obs_direct(&r);
    let mut want = vec![];
    let mut good = true;
    for x in [Some(a), Some(b), c].into_iter().flatten() {
        good &= !x.1.is_empty();
        want.extend_from_slice(cut(x.1).as_bytes());
        want.push(b'|');
    }
    match r {
        Ok(v) => {
            check(good, "dateformat accepts what is no date or no format");
            eq(&v, &want, "dateformat prints another instant than the string denotes");
            cover("printed");
        }
        Err(_) => check(!good, "dateformat rejects a date"),
    }
}

/// Members of variables, and several calls.
#[no_mangle]
pub extern "C" fn h_c30_calls() {
    prime();
    let v = Value::Object(vec![("a".into(), Value::String("2021-05-06".into())), ("b".into(), Value::Array(vec![Value::String("7 oct 1970".into()), Value::Number(3.0)]))]);
    let (t, w): (&str, Option<&str>) = pick(&[
        ("{{ dateformat($d.a, \"%d\") }}-{{ dateformat($d.b.0, \"%m\") }}", Some("06-10")),
        ("{{ dateformat($d.b.0, \"%Y\") }}{{ dateformat($d.b.0, \"%y\") }}", Some("197070")),
        ("{{ dateformat($d.b.1, \"%Y\") }}", None),
        ("{{ dateformat($d.b.2, \"%Y\") }}", None),
        ("{{ dateformat($d.c, \"%Y\") }}", None),
        ("{{ dateformat($e, \"%Y\") }}", None),
        ("{{ dateformat($d, \"%Y\") }}", None),
        ("{{ dateformat($d.a, \"%Q\") }}", None),
        ("a{{ ifdefined($d.c) }}{{ dateformat($d.c, \"%Q\") }}{{ else() }}b{{ end(ifdefined) }}c{{ dateformat($d.a, \"%e\") }}", Some("abc 6")),
    ]);
    let r = direct(vec![("d", v)], &format!("{{{{ import($d, \"d.json\") }}}}{}", t));
    obs_direct(&r);
    match (r, w) {
        (Ok(v), Some(w)) => eq(&v, w.as_bytes(), "dateformat prints another instant than the string denotes"),
        (Err(_), None) => (),
        (Ok(_), None) => fail("dateformat accepts what is no date or no format"),
        (Err(_), Some(_)) => fail("dateformat rejects a date"),
    }
    cover("called");
}
