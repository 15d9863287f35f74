//! C15: calendar, zone, duration and clock arithmetic against chrono and day-by-day counting.
use chrono::{Datelike, Days, Months, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
use logicaffeine_base::temporal::*;
use vkit::{scale, Case, Report, Rng};

const DAY: i64 = 86_400_000_000_000;
fn epoch() -> NaiveDate {
    NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()
}
fn chrono_day(z: i64) -> NaiveDate {
    if z >= 0 {
        epoch().checked_add_days(Days::new(z as u64)).unwrap()
    } else {
        epoch().checked_sub_days(Days::new((-z) as u64)).unwrap()
    }
}
fn gen_day(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.range(-800_000, 800_000),
        1 => r.range(-100_000, 100_000),
        2 => {
            // around the turn of a (century / leap) year
            let y = *r.pick(&[-401i64, -400, -100, -4, -1, 0, 1, 4, 100, 400, 1582, 1600, 1700, 1800, 1896, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2004, 2020, 2023, 2024, 2100, 2399, 2400, 9999, 10000]);
            let d = NaiveDate::from_ymd_opt(y as i32, *r.pick(&[1u32, 2, 3, 12]), 28.min(1 + r.below(28) as u32)).unwrap();
            (d - epoch()).num_days() + r.range(-4, 4)
        }
        3 => r.range(-90_000_000, 90_000_000),
        _ => r.range(-36_600, 36_600),
    }
}
fn gen_ns(r: &mut Rng) -> i64 {
    let day = match r.below(4) {
        0 => r.range(-106_000, 106_000),
        1 => r.range(-1, 1),
        _ => r.range(0, 36_500),
    };
    let t = match r.below(5) {
        0 => 0,
        1 => DAY - 1,
        2 => r.range(0, 86_399) * 1_000_000_000,
        3 => r.range(0, 86_399) * 1_000_000_000 + r.range(0, 999) * 1_000_000,
        _ => r.range(0, DAY - 1),
    };
    day * DAY + t
}
fn eq<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, args: String, got: T, want: T) {
    c.eval();
    if got != want {
        c.fail(&format!("{what}:wrong"), format!("{what}({args}) gave {got:?}, expected {want:?}"));
    }
}

fn dates(c: &mut Case) {
    let start = gen_day(&mut c.rng);
    for z in start..start + 40 {
        let d = chrono_day(z);
        let (y, m, dd) = (d.year() as i64, d.month(), d.day());
        c.nontrivial(&z);
        eq(c, "date of day", format!("{z}"), civil_from_days(z), (y, m, dd));
        eq(c, "day of date", format!("{y}-{m}-{dd}"), days_from_civil(y, m, dd), z);
        eq(c, "weekday", format!("{z}"), weekday_from_days(z), d.weekday().num_days_from_sunday());
        eq(c, "ISO weekday", format!("{z}"), iso_weekday_from_days(z), d.weekday().number_from_monday());
        eq(c, "day of year", format!("{y}-{m}-{dd}"), day_of_year(y, m, dd), d.ordinal());
        let w = d.iso_week();
        eq(c, "ISO week", format!("{z}"), iso_week_from_days(z), (w.year() as i64, w.week(), d.weekday().number_from_monday()));
        eq(c, "day of ISO week", format!("{z}"), days_from_iso_week(w.year() as i64, w.week(), d.weekday().number_from_monday()), z);
        eq(c, "leap year", format!("{y}"), is_gregorian_leap(y), d.leap_year());
        let last = (28..=31).rev().find(|k| NaiveDate::from_ymd_opt(y as i32, m, *k).is_some()).unwrap();
        eq(c, "last day of month", format!("{y}-{m}"), last_day_of_month(y, m), last);
        eq(c, "weekend", format!("{z}"), is_weekend(z), d.weekday().number_from_monday() >= 6);
        // Julian calendar: each day follows its predecessor by the Julian month lengths
        if z > -2_400_000 && z < 80_000_000 {
            let (jy, jm, jd) = julian_from_days(z);
            let (ny, nm, nd) = julian_from_days(z + 1);
            let len = match jm {
                2 => if jy.rem_euclid(4) == 0 { 29 } else { 28 },
                4 | 6 | 9 | 11 => 30,
                _ => 31,
            };
            let next = if jd < len { (jy, jm, jd + 1) } else if jm < 12 { (jy, jm + 1, 1) } else { (jy + 1, 1, 1) };
            eq(c, "Julian successor", format!("{jy}-{jm}-{jd}"), (ny, nm, nd), next);
            eq(c, "day of Julian date", format!("{jy}-{jm}-{jd}"), days_from_julian(jy, jm, jd), z);
            eq(c, "Julian leap year", format!("{jy}"), is_julian_leap(jy), jy.rem_euclid(4) == 0);
        }
    }
    // anchor of the Julian calendar: 1582-10-05 Julian is 1582-10-15 Gregorian
    eq(c, "Julian anchor", String::new(), days_from_julian(1582, 10, 5), days_from_civil(1582, 10, 15));
    // business days by counting
    let (a, b) = (start, start + c.rng.range(-60, 60));
    let n = (a.min(b)..a.max(b)).filter(|z| chrono_day(*z).weekday().number_from_monday() < 6).count() as i64;
    eq(c, "business days between", format!("{a}, {b}"), business_days_between(a, b), if a <= b { n } else { -n });
    let k = c.rng.range(-30, 30);
    let mut d = a;
    let mut left = k.abs();
    while left > 0 {
        d += k.signum();
        if chrono_day(d).weekday().number_from_monday() < 6 {
            left -= 1;
        }
    }
    eq(c, "add business days", format!("{a}, {k}"), add_business_days(a, k), d);
}

fn to_naive(ns: i64) -> NaiveDateTime {
    Utc.timestamp_nanos(ns).naive_utc()
}
fn civil(n: NaiveDateTime) -> CivilDateTime {
    CivilDateTime { year: n.year() as i64, month: n.month(), day: n.day(), hour: n.hour(), minute: n.minute(), second: n.second(), nanosecond: n.nanosecond() }
}
fn text(n: NaiveDateTime) -> String {
    let mut s = n.format("%Y-%m-%dT%H:%M:%S").to_string();
    if n.nanosecond() != 0 {
        s.push_str(format!(".{:09}", n.nanosecond()).trim_end_matches('0'));
    }
    s
}
fn shift(n: NaiveDateTime, months: i64) -> NaiveDateTime {
    if months >= 0 {
        n.checked_add_months(Months::new(months as u32)).unwrap()
    } else {
        n.checked_sub_months(Months::new((-months) as u32)).unwrap()
    }
}

fn instants(c: &mut Case) {
    let ns = gen_ns(&mut c.rng);
    let n = to_naive(ns);
    c.nontrivial(&ns);
    eq(c, "civil time", format!("{ns}"), civil_from_unix_nanos(ns), civil(n));
    eq(c, "instant of civil time", format!("{n}"), unix_nanos_from_civil(civil(n)), ns);
    eq(c, "timestamp text", format!("{ns}"), format_rfc3339(ns), format!("{}Z", text(n)));
    let tod = ns.rem_euclid(DAY);
    let t = text(n);
    eq(c, "clock text", format!("{tod}"), format_time_of_day(tod), t.split('T').nth(1).unwrap().to_string());
    eq(c, "clock text wraps", format!("{ns}"), format_time_of_day(ns), t.split('T').nth(1).unwrap().to_string());
    // parsing: any offset spelling of the instant names the instant
    let off = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.range(-14, 14) * 3600,
        _ => c.rng.range(-23 * 60 - 59, 23 * 60 + 59) * 60,
    };
    let local = to_naive(ns + off * 1_000_000_000);
    if local.year() >= 1678 && local.year() < 2262 {
        let z = if off == 0 && c.rng.bool() { "Z".to_string() } else { format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() % 3600 / 60) };
        let s = format!("{}{z}", text(local));
        eq(c, "timestamp parse", s.clone(), parse_rfc3339(&s), Some(ns));
        // one altered character: never a panic, and only accepted where chrono accepts it too
        let mut b: Vec<u8> = s.clone().into_bytes();
        let i = c.rng.below(b.len());
        b[i] = *c.rng.pick(b"0123456789:-T.Zz +x");
        let s2 = String::from_utf8(b).unwrap();
        let got = c.sut(&format!("parse of {s2:?}"), || parse_rfc3339(&s2));
        if let Some(Some(v)) = got {
            c.count("altered timestamps still valid", 1);
            match chrono::DateTime::parse_from_rfc3339(&s2) {
                Ok(w) => {
                    eq(c, "altered timestamp", s2.clone(), Some(v), w.timestamp_nanos_opt());
                }
                Err(_) => c.fail("timestamp parse:lax", format!("{s2:?} is not a timestamp but was read as {v}")),
            }
        }
        let cut = c.rng.below(s.len());
        if s.is_char_boundary(cut) {
            let s3 = &s[..cut];
            if let Some(Some(v)) = c.sut(&format!("parse of {s3:?}"), || parse_rfc3339(s3)) {
                c.fail("timestamp parse:cut", format!("{s3:?} was read as {v}"));
            }
        }
    }
    // calendar spans
    let (mo, da) = (c.rng.range(-30, 30) * if c.rng.chance(1, 6) { 12 } else { 1 }, c.rng.range(-70, 70));
    let w = shift(n, mo);
    let w = if da >= 0 { w.checked_add_days(Days::new(da as u64)) } else { w.checked_sub_days(Days::new((-da) as u64)) }.unwrap();
    eq(c, "add span", format!("{n}, {mo} months {da} days"), add_span(civil(n), mo, da), civil(w));
    // complete months: the largest k with a + k months not after b
    let other = if c.rng.bool() { ns + c.rng.range(-4000, 4000) * DAY / 24 } else { gen_ns(&mut c.rng) };
    let near = c.rng.range(-2, 2);
    let other = if c.rng.chance(1, 3) { shift(n, c.rng.range(-18, 18)).and_utc().timestamp_nanos_opt().unwrap_or(other) + near } else { other };
    let (lo, hi) = (ns.min(other), ns.max(other));
    let (ln, hn) = (to_naive(lo), to_naive(hi));
    let mut k = ((hn.year() - ln.year()) as i64 * 12 + hn.month() as i64 - ln.month() as i64 + 1).max(0);
    while k > 0 && shift(ln, k) > hn {
        k -= 1;
    }
    let want = if other < ns { -k } else { k };
    eq(c, "months between", format!("{ns}, {other}"), months_between(ns, other), want);
    eq(c, "years between", format!("{ns}, {other}"), years_between(ns, other), want / 12);
}

// Zones by the published rules, located with chrono.
fn nth_sunday(y: i32, m: u32, n: i32) -> NaiveDate {
    let all: Vec<NaiveDate> = (1..=31).filter_map(|d| NaiveDate::from_ymd_opt(y, m, d)).filter(|d| d.weekday() == chrono::Weekday::Sun).collect();
    if n < 0 { *all.last().unwrap() } else { all[n as usize - 1] }
}
fn ref_offset(zone: &str, utc: NaiveDateTime) -> i64 {
    let y = utc.year();
    let at = |d: NaiveDate, h: i64| d.and_hms_opt(0, 0, 0).unwrap() + chrono::Duration::hours(h);
    let us = |std: i64| {
        let s = at(nth_sunday(y, 3, 2), 2 - std);
        let e = at(nth_sunday(y, 11, 1), 2 - std - 1);
        if utc >= s && utc < e { std + 1 } else { std }
    };
    let eu = |std: i64| {
        let s = at(nth_sunday(y, 3, -1), 1);
        let e = at(nth_sunday(y, 10, -1), 1);
        if utc >= s && utc < e { std + 1 } else { std }
    };
    match zone {
        "UTC" | "Etc/UTC" => 0,
        "America/New_York" => us(-5) * 3600,
        "America/Chicago" => us(-6) * 3600,
        "America/Denver" => us(-7) * 3600,
        "America/Los_Angeles" => us(-8) * 3600,
        "America/Phoenix" => -7 * 3600,
        "Europe/London" | "Europe/Dublin" | "Europe/Lisbon" => eu(0) * 3600,
        "Europe/Paris" | "Europe/Berlin" | "Europe/Madrid" | "Europe/Rome" | "Europe/Amsterdam" => eu(1) * 3600,
        "Asia/Kolkata" | "Asia/Calcutta" => 5 * 3600 + 1800,
        "Asia/Tokyo" => 9 * 3600,
        "Asia/Shanghai" => 8 * 3600,
        "Australia/Sydney" => {
            // summer time from 02:00 standard on the first Sunday of October to 02:00 standard on the first Sunday of April
            let e = at(nth_sunday(y, 4, 1), 2 - 10);
            let s = at(nth_sunday(y, 10, 1), 2 - 10);
            if utc < e || utc >= s { 11 * 3600 } else { 10 * 3600 }
        }
        _ => unreachable!(),
    }
}
const ZONES: [&str; 20] = ["UTC", "Etc/UTC", "America/New_York", "America/Chicago", "America/Denver", "America/Los_Angeles", "America/Phoenix", "Europe/London", "Europe/Dublin", "Europe/Lisbon", "Europe/Paris", "Europe/Berlin", "Europe/Madrid", "Europe/Rome", "Europe/Amsterdam", "Asia/Kolkata", "Asia/Calcutta", "Asia/Tokyo", "Asia/Shanghai", "Australia/Sydney"];

fn zones(c: &mut Case) {
    let zone = *c.rng.pick(&ZONES);
    let spec = match zone_by_name(zone) {
        Some(s) => s,
        None => {
            c.fail("zone unknown", zone.to_string());
            return;
        }
    };
    // near a transition half of the time
    let year = c.rng.range(1990, 2080);
    let tr = spec.transitions(year, year);
    let ns = if !tr.is_empty() && c.rng.chance(2, 3) {
        let t = c.rng.pick(&tr).at_unix_seconds * 1_000_000_000;
        t + match c.rng.below(4) {
            0 => c.rng.range(-2, 2),
            1 => c.rng.range(-3, 3) * 1_000_000_000,
            _ => c.rng.range(-14_400, 14_400) * 1_000_000_000,
        }
    } else {
        days_from_civil(year, 1, 1) * DAY + c.rng.range(0, 366 * DAY - 1)
    };
    let utc = to_naive(ns);
    let off = ref_offset(zone, utc);
    c.nontrivial(&(zone, ns));
    c.seen("zone and offset", &(zone, off));
    let local = to_naive(ns + off * 1_000_000_000);
    eq(c, "local time", format!("{utc} in {zone}"), spec.to_local(ns), civil(local));
    eq(c, "local clock as instant", format!("{utc} in {zone}"), local_instant_nanos(ns, zone), Some(ns + off * 1_000_000_000));
    let want = format!("{}{}{:02}:{:02}", local.format("%Y-%m-%dT%H:%M:%S"), if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() % 3600 / 60);
    eq(c, "zoned text", format!("{utc} in {zone}"), format_zoned(ns, zone), Some(want));
    // local → instant: the instants showing this wall clock are found by trying both offsets
    let tr = spec.transitions(year - 2, year + 2);
    let mut offs: Vec<i64> = vec![spec.std_offset as i64];
    if let Some((d, _, _)) = spec.dst {
        offs.push(d as i64);
    }
    let lns = ns + off * 1_000_000_000;
    // also a wall clock that may fall in a gap
    let lns = if c.rng.chance(1, 3) { lns + c.rng.range(-7200, 7200) * 1_000_000_000 } else { lns };
    let ok: Vec<i64> = {
        let mut v: Vec<i64> = offs.iter().map(|o| (*o, lns - o * 1_000_000_000)).filter(|(o, t)| ref_offset(zone, to_naive(*t)) == *o).map(|x| x.1).collect();
        v.sort();
        v.dedup();
        v
    };
    let wall = civil(to_naive(lns));
    for (fold, pick) in [(Fold::Earlier, 0usize), (Fold::Later, 1)] {
        let got = from_local(&tr, spec.std_offset, wall, fold);
        if ok.is_empty() {
            c.count("wall clocks in a gap", 1);
            // no instant shows it: the answer is one of the two readings, earlier or later
            let mut cand: Vec<i64> = offs.iter().map(|o| lns - o * 1_000_000_000).collect();
            cand.sort();
            let want = if pick == 0 { cand[0] } else { cand[cand.len() - 1] };
            eq(c, "instant of skipped wall clock", format!("{wall:?} {zone} {fold:?}"), got, want);
        } else {
            if ok.len() == 2 {
                c.count("wall clocks shown twice", 1);
            }
            let want = ok[if pick == 0 { 0 } else { ok.len() - 1 }];
            eq(c, "instant of wall clock", format!("{wall:?} {zone} {fold:?}"), got, want);
        }
    }
}

fn ref_duration(ns: i64) -> String {
    if ns == 0 {
        return "0s".into();
    }
    let mut a = (ns as i128).abs();
    let mut s = String::new();
    if ns < 0 {
        s.push('-');
    }
    let num = |w: i128, f: i128, width: usize| {
        let mut t = w.to_string();
        if f != 0 {
            t.push('.');
            t.push_str(format!("{f:0width$}").trim_end_matches('0'));
        }
        t
    };
    if a >= 1_000_000_000 {
        for (u, n) in [("d", 86_400_000_000_000i128), ("h", 3_600_000_000_000), ("m", 60_000_000_000)] {
            if a / n > 0 {
                s += &format!("{}{u}", a / n);
            }
            a %= n;
        }
        if a > 0 {
            s += &format!("{}s", num(a / 1_000_000_000, a % 1_000_000_000, 9));
        }
    } else if a >= 1_000_000 {
        s += &format!("{}ms", num(a / 1_000_000, a % 1_000_000, 6));
    } else if a >= 1000 {
        s += &format!("{}us", num(a / 1000, a % 1000, 3));
    } else {
        s += &format!("{a}ns");
    }
    s
}
fn durations(c: &mut Case) {
    let ns = match c.rng.below(4) {
        0 => c.rng.edgy_i64(),
        1 => c.rng.range(-90_000, 90_000) * 1_000_000_000,
        2 => c.rng.range(-2_000_000_000, 2_000_000_000),
        _ => c.rng.range(-100_000, 100_000) * *c.rng.pick(&[1, 1000, 1_000_000, 60_000_000_000]),
    };
    c.nontrivial(&ns);
    let t = ref_duration(ns);
    eq(c, "duration text", format!("{ns}"), format_duration(ns), t.clone());
    eq(c, "duration parse", t.clone(), parse_duration(&t), Some(ns));
    // free combinations: digits, fractions and units in any order
    let n = 1 + c.rng.below(4);
    let mut s = String::new();
    let neg = c.rng.chance(1, 4);
    if neg {
        s.push('-');
    }
    let mut total: Option<i128> = Some(0);
    let mut longest = 0;
    for _ in 0..n {
        let (u, k) = *c.rng.pick(&[("d", 86_400_000_000_000i128), ("h", 3_600_000_000_000), ("m", 60_000_000_000), ("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1000), ("µs", 1000), ("ns", 1)]);
        let w = if c.rng.chance(1, 10) { c.rng.u64() as i128 } else { c.rng.below(2000) as i128 };
        let digits = match c.rng.below(12) {
            0..=5 => 0,
            6..=9 => 1 + c.rng.below(9),
            10 => 10 + c.rng.below(12),
            _ => 22 + c.rng.below(40),
        };
        longest = longest.max(digits);
        let f: String = (0..digits).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect();
        s += &w.to_string();
        if digits > 0 {
            s.push('.');
            s += &f;
        }
        s += u;
        // exact fraction, truncated to nanoseconds
        use num_bigint::BigInt as NB;
        use num_traits::ToPrimitive;
        let frac = if digits > 0 { (f.parse::<NB>().unwrap() * NB::from(k) / NB::from(10u32).pow(digits as u32)).to_i128().unwrap() } else { 0 };
        total = total.and_then(|t| t.checked_add(w * k + frac));
    }
    let want = total.and_then(|t| i64::try_from(if neg { -t } else { t }).ok());
    if let Some(got) = c.sut(&format!("parse of {s:?}"), || parse_duration(&s)) {
        // a fraction too long to hold may be refused, never misread
        if longest <= 18 || got.is_some() {
            eq(c, "duration parse", s.clone(), got, want);
        }
    }
    let mut junk: Vec<char> = s.chars().collect();
    let at = c.rng.below(junk.len());
    junk[at] = *c.rng.pick(&['x', '.', ' ', '-', 'é', 'm', '9', 'µ']);
    let junk: String = junk.into_iter().collect();
    c.sut(&format!("parse of {junk:?}"), || parse_duration(&junk));
    c.eval();
}

const LEAPS: [(i32, u32); 27] = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)];
fn clocks(c: &mut Case) {
    let s = if c.rng.bool() {
        let (y, m) = *c.rng.pick(&LEAPS);
        NaiveDate::from_ymd_opt(y, m, 1).unwrap().and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp() + c.rng.range(-40, 40)
    } else {
        c.rng.range(-1_000_000_000, 4_000_000_000)
    };
    c.nontrivial(&s);
    let n = LEAPS.iter().filter(|(y, m)| NaiveDate::from_ymd_opt(*y, *m, 1).unwrap().and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp() <= s).count() as i64;
    eq(c, "leap seconds", format!("{s}"), tai_minus_utc(s), 10 + n);
    eq(c, "atomic seconds", format!("{s}"), unix_to_tai_seconds(s), s + 10 + n);
    let ns = s * 1_000_000_000 + c.rng.range(0, 999_999_999);
    eq(c, "atomic nanoseconds", format!("{ns}"), tai_nanos_from_unix_nanos(ns), ns + (10 + n) * 1_000_000_000);
    eq(c, "terrestrial time", format!("{ns}"), tt_nanos_from_unix_nanos(ns), ns + (10 + n) * 1_000_000_000 + 32_184_000_000);
    eq(c, "back from terrestrial time", format!("{ns}"), unix_nanos_from_tt_nanos(tt_nanos_from_unix_nanos(ns)), ns);
    eq(c, "back from atomic seconds", format!("{s}"), tai_to_unix_seconds(unix_to_tai_seconds(s)), s);

    // Hybrid logical clocks over a random message history: happened-before implies less
    let nodes = 2 + c.rng.below(3);
    let mut clk = vec![Hlc::ZERO; nodes];
    let mut phys = vec![0i64; nodes];
    let mut inflight: Vec<(usize, Hlc, usize)> = Vec::new();
    let mut events: Vec<(Hlc, std::collections::BTreeSet<usize>)> = Vec::new();
    let mut past: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); nodes];
    for _ in 0..30 {
        let i = c.rng.below(nodes);
        phys[i] = match c.rng.below(4) {
            0 => phys[i],
            1 => phys[i] - c.rng.range(0, 5),
            _ => phys[i] + c.rng.range(0, 4),
        };
        let k = if !inflight.is_empty() && c.rng.bool() { Some(c.rng.below(inflight.len())) } else { None };
        let stamp = if let Some(k) = k {
            let (from, h, ev) = inflight[k];
            if from == i {
                continue;
            }
            let p = events[ev].1.clone();
            past[i].extend(p);
            past[i].insert(ev);
            clk[i].recv(h, phys[i])
        } else {
            clk[i].tick(phys[i])
        };
        let id = events.len();
        for e in &past[i] {
            c.eval();
            if events[*e].0 >= stamp {
                c.fail("logical clock:order", format!("event stamped {stamp:?} follows one stamped {:?}", events[*e].0));
            }
        }
        if stamp.physical_nanos < phys[i] {
            c.fail("logical clock:behind", format!("stamp {stamp:?} lies before the local clock {}", phys[i]));
        }
        let bound = phys.iter().copied().chain(events.iter().map(|e| e.0.physical_nanos)).max().unwrap();
        if stamp.physical_nanos > bound {
            c.fail("logical clock:ahead", format!("stamp {stamp:?} lies ahead of every clock ({bound})"));
        }
        events.push((stamp, past[i].clone()));
        past[i].insert(id);
        clk[i] = stamp;
        inflight.push((i, stamp, id));
        c.count("logical clock events", 1);
    }
    // Clock replicas converge: any order, repeated delivery
    let mut reps: Vec<SyncClock> = (0..3)
        .map(|k| {
            let mut s = SyncClock::new();
            for _ in 0..c.rng.below(5) {
                s = if c.rng.bool() { s.tick(c.rng.range(0, 9)) } else {
                    let lo = c.rng.range(0, 20);
                    s.observe(c.rng.below(3) as u64, EstimateInterval::new(lo, lo + c.rng.range(0, 30)))
                };
            }
            let _ = k;
            s
        })
        .collect();
    let (a, b, d) = (reps[0].clone(), reps[1].clone(), reps[2].clone());
    let w = a.merge(&b).merge(&d);
    c.rng.shuffle(&mut reps);
    let mut v = reps[0].clone();
    for k in [1, 2, 1, 0] {
        v = v.merge(&reps[k]);
    }
    eq(c, "clock merge", format!("{a:?} {b:?} {d:?}"), v == w, true);
    for s in [&a, &b, &d] {
        c.eval();
        if w.hlc < s.hlc {
            c.fail("clock merge:hlc", format!("{w:?} lies before {s:?}"));
        }
        for (n, iv) in &s.knowledge {
            let m = w.knowledge.get(n);
            if !m.map_or(false, |m| m.lower_nanos >= iv.lower_nanos && m.upper_nanos <= iv.upper_nanos) {
                c.fail("clock merge:interval", format!("merged knowledge {m:?} of node {n} is wider than {iv:?}"));
            }
        }
    }
}

pub fn check(rep: &Report) {
    rep.rule("runs of consecutive days and random instants, half of them beside year ends, leap days, zone changes and leap seconds; each answer is recomputed with chrono or by counting days one by one");
    rep.cases("dates", scale(40_000, 400_000), dates);
    rep.cases("instants", scale(400_000, 4_000_000), instants);
    rep.cases("zones", scale(300_000, 3_000_000), zones);
    rep.cases("durations", scale(400_000, 4_000_000), durations);
    rep.cases("clocks", scale(40_000, 400_000), clocks);
    rep.require("wall clocks in a gap", 50);
    rep.require("wall clocks shown twice", 50);
    rep.require("logical clock events", 1000);
    rep.require("altered timestamps still valid", 100);
}
