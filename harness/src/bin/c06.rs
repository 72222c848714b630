//! C06: HTTP dates. Formatting is IMF-fixdate and exact to the second over the whole range;
//! all three formats of RFC 7231 parse to the instant they denote; anything else is a 400.
use http_types::cache::Expires;
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers::{Header, Headers};
use http_types::other::{Date, RetryAfter};
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, gen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const END: u64 = 253_402_300_800; // 10000-01-01T00:00:00Z

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Civil {
    y: i64,
    m: u32,
    d: u32,
    hh: u32,
    mm: u32,
    ss: u32,
    wd: u32, // 0 = Sunday
}

/// Counts days by walking years: slow and obvious.
fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn mlen(y: i64, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => 28 + leap(y) as u32,
    }
}
fn civil(secs: u64) -> Civil {
    let days = secs / 86400;
    let sod = (secs % 86400) as u32;
    let mut rest = days;
    let mut y = 1970;
    // whole 400-year blocks have a fixed length
    y += 400 * (rest / 146_097) as i64;
    rest %= 146_097;
    while rest >= 365 + leap(y) as u64 {
        rest -= 365 + leap(y) as u64;
        y += 1;
    }
    let mut m = 1;
    while rest >= mlen(y, m) as u64 {
        rest -= mlen(y, m) as u64;
        m += 1;
    }
    Civil {
        y,
        m,
        d: rest as u32 + 1,
        hh: sod / 3600,
        mm: sod / 60 % 60,
        ss: sod % 60,
        wd: ((days + 4) % 7) as u32,
    }
}

const WD: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn imf(c: Civil) -> String {
    format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", &WD[c.wd as usize][..3], c.d, MON[c.m as usize - 1], c.y, c.hh, c.mm, c.ss)
}
fn rfc850(c: Civil) -> String {
    format!("{}, {:02}-{}-{:02} {:02}:{:02}:{:02} GMT", WD[c.wd as usize], c.d, MON[c.m as usize - 1], c.y % 100, c.hh, c.mm, c.ss)
}
fn asctime(c: Civil) -> String {
    format!("{} {} {:2} {:02}:{:02}:{:02} {:04}", &WD[c.wd as usize][..3], MON[c.m as usize - 1], c.d, c.hh, c.mm, c.ss, c.y)
}

fn at(secs: u64, nanos: u32) -> SystemTime {
    UNIX_EPOCH + Duration::new(secs, nanos)
}

fn secs_strategy() -> BoxedStrategy<u64> {
    fn ymd(y: i64, m: u32, d: u32) -> u64 {
        let mut days = 0u64;
        for yy in 1970..y {
            days += 365 + leap(yy) as u64;
        }
        for mm in 1..m {
            days += mlen(y, mm) as u64;
        }
        (days + d as u64 - 1) * 86400
    }
    prop_oneof![
        4 => 0u64..END,
        3 => 0u64..ymd(2100, 1, 1),
        // around month and year boundaries, with years around centuries favoured
        4 => (prop_oneof![1970i64..10000, proptest::sample::select(vec![1970i64, 1972, 1999, 2000, 2001, 2069, 2070, 2099, 2100, 2101, 2399, 2400, 2401, 3999, 4000, 9999])], 1u32..13, any::<bool>(), -2i64..3)
            .prop_map(|(y, m, feb29, off)| {
                let base = if feb29 { ymd(y, 3, 1) } else { ymd(y, m, 1) };
                ((base as i64 + off * if off % 2 == 0 { 43_200 } else { 1 }).max(0) as u64).min(END - 1)
            }),
        1 => proptest::sample::select(vec![0u64, 1, END - 1, END - 86400]),
    ]
    .boxed()
}

/// Runs every typed date header over `values`; all must agree.
type Read = fn(&Headers) -> http_types::Result<Option<SystemTime>>;
fn readers() -> [(&'static str, &'static str, Read); 6] {
    fn date(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(Date::from_headers(h)?.map(|d| d.into()))
    }
    fn exp(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(Expires::from_headers(h)?.map(|d| d.expiration()))
    }
    fn lm(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(LastModified::from_headers(h)?.map(|d| d.modified()))
    }
    fn ims(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(IfModifiedSince::from_headers(h)?.map(|d| d.modified()))
    }
    fn ius(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(IfUnmodifiedSince::from_headers(h)?.map(|d| d.modified()))
    }
    fn ra(h: &Headers) -> http_types::Result<Option<SystemTime>> {
        Ok(RetryAfter::from_headers(h)?.map(|d| d.into()))
    }
    [
        ("Date", "date", date),
        ("Expires", "expires", exp),
        ("LastModified", "last-modified", lm),
        ("IfModifiedSince", "if-modified-since", ims),
        ("IfUnmodifiedSince", "if-unmodified-since", ius),
        ("RetryAfter", "retry-after", ra),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct T {
    secs: u64,
    nanos: u32,
}

fn check_format(t: &T) -> Check {
    let when = at(t.secs, t.nanos);
    let want = imf(civil(t.secs));
    let date: Date = when.into();
    let outs: Vec<(&str, Box<dyn Fn() -> Result<String, Fail>>)> = vec![
        ("date", Box::new(|| emit(&date, "date"))),
        ("date", Box::new(move || emit(&Date::new(when), "date"))),
        ("expires", Box::new(move || emit(&Expires::new_at(when), "expires"))),
        ("last-modified", Box::new(move || emit(&LastModified::new(when), "last-modified"))),
        ("if-modified-since", Box::new(move || emit(&IfModifiedSince::new(when), "if-modified-since"))),
        ("if-unmodified-since", Box::new(move || emit(&IfUnmodifiedSince::new(when), "if-unmodified-since"))),
        ("retry-after", Box::new(move || emit(&RetryAfter::new_at(when), "retry-after"))),
    ];
    for (name, f) in outs {
        let v = f()?;
        ck_eq!(v, want, "{} for {} s", name, t.secs);
        let h = hdrs(name, &[v.as_str()]);
        for (ty, n, read) in readers() {
            if n == name {
                let back = no_err(read(&h), ty)?;
                ck_eq!(back, Some(at(t.secs, 0)), "{} read back from {:?}", ty, v);
            }
        }
    }
    ck!(date == when && Date::new(when) == when && Date::from(when) == when, "a date is the time it was made of");
    for other in [when + Duration::from_secs(1), when + Duration::from_secs(60), when + Duration::from_secs(86_400 * 365)] {
        ck!(!(date == other) && !(Date::new(other) == when), "different times compare equal");
    }
    ck_eq!(SystemTime::from(Date::new(when)), when, "the time of a date");
    // from now on
    let before = SystemTime::now();
    let (now, exp) = (SystemTime::from(Date::now()), Expires::new(Duration::new(t.secs, t.nanos)).expiration());
    let after = SystemTime::now();
    if after >= before {
        let d = Duration::new(t.secs, t.nanos);
        ck!(now >= before && now <= after, "Date::now() is {:?} between {:?} and {:?}", now, before, after);
        ck!(exp >= before + d && exp <= after + d, "expires {:?} after now: {:?}", d, exp);
    }
    let c = civil(t.secs);
    classify_if(c.m == 2 && c.d == 29, "feb 29");
    classify_if(c.y >= 2100, "year >= 2100");
    Ok(t.nanos > 0)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct P {
    secs: u64,
    pre: String,
    post: String,
    earlier: Vec<String>,
}

fn check_parse(p: &P) -> Check {
    let c = civil(p.secs);
    let mut forms = vec![("imf", imf(c)), ("asctime", asctime(c))];
    let two_digit_ok = c.y < 2070;
    if two_digit_ok {
        forms.push(("rfc850", rfc850(c)));
    }
    for (form, f) in &forms {
        let v = format!("{}{}{}", p.pre, f, p.post);
        for (ty, n, read) in readers() {
            let mut vals = p.earlier.clone();
            vals.push(v.clone());
            let h = hdrs(n, &vals);
            let got = no_err(read(&h), &format!("{} on {:?}", ty, vals))?;
            ck_eq!(got, Some(at(p.secs, 0)), "{} on {:?} ({})", ty, vals, form);
            let empty = no_err(read(&no_headers()), ty)?;
            ck_eq!(empty, None, "{} without the header", ty);
        }
    }
    classify_if(two_digit_ok, "rfc850 year");
    classify_if(c.d < 10, "single digit day");
    Ok(!p.pre.is_empty() || !p.post.is_empty() || c.d < 10)
}

/// What a text means as an HTTP date: exactly one of the three forms, or none of them.
/// Dates that have the right shape and field ranges but do not exist (31 February), or whose
/// day name contradicts the date, are left open.
#[derive(Debug, PartialEq)]
enum Meaning {
    At(u64),
    Open,
    Not,
}

fn meaning(s: &str) -> Meaning {
    let s = s.trim();
    fn num(s: &str) -> Option<u64> {
        if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None }
    }
    // decode by shape
    let f: Option<(String, String, String, String, String, String, String, usize)> = (|| {
        let b: Vec<&str> = s.split(' ').collect();
        if b.len() == 6 && b[0].len() == 4 && b[0].ends_with(',') && b[1].len() == 2 && b[2].len() == 3 && b[3].len() == 4 && b[4].len() == 8 && b[5] == "GMT" {
            let t: Vec<&str> = b[4].split(':').collect();
            if t.len() == 3 && t.iter().all(|x| x.len() == 2) {
                return Some((b[0][..3].into(), b[1].into(), b[2].into(), b[3].into(), t[0].into(), t[1].into(), t[2].into(), 3));
            }
        }
        if b.len() == 4 && b[0].ends_with(',') && b[1].len() == 9 && b[2].len() == 8 && b[3] == "GMT" {
            let d: Vec<&str> = b[1].split('-').collect();
            let t: Vec<&str> = b[2].split(':').collect();
            if d.len() == 3 && d[0].len() == 2 && d[1].len() == 3 && t.len() == 3 && t.iter().all(|x| x.len() == 2) {
                let y = match num(d[2]) {
                    Some(y) if y < 70 => (2000 + y).to_string(),
                    Some(y) => (1900 + y).to_string(),
                    None => d[2].to_string(),
                };
                return Some((b[0][..b[0].len() - 1].into(), d[0].into(), d[1].into(), y, t[0].into(), t[1].into(), t[2].into(), 0));
            }
        }
        // asctime is fixed width
        if s.len() == 24 && s.is_ascii() {
            let x = |a: usize, b: usize| s[a..b].to_string();
            if x(3, 4) == " " && x(7, 8) == " " && x(10, 11) == " " && x(13, 14) == ":" && x(16, 17) == ":" && x(19, 20) == " " {
                let d = x(8, 10);
                let d = match d.strip_prefix(' ') { Some(r) => r.to_string(), None => d };
                return Some((x(0, 3), d, x(4, 7), x(20, 24), x(11, 13), x(14, 16), x(17, 19), 3));
            }
        }
        None
    })();
    let (wd, d, mo, y, hh, mm, ss, abbr) = match f {
        Some(f) => f,
        None => return Meaning::Not,
    };
    let wdi = WD.iter().position(|w| if abbr == 3 { w[..3] == wd } else { **w == wd });
    let moi = MON.iter().position(|m| *m == mo);
    // A sign in front of a digit is tolerated by the parser in use: left open.
    let signed = |x: &str| x.starts_with('+') && num(&x[1..]).is_some();
    if [&d, &y, &hh, &mm, &ss].iter().any(|x| signed(x)) {
        return Meaning::Open;
    }
    let (wdi, moi, d, y, hh, mm, ss) = match (wdi, moi, num(&d), num(&y), num(&hh), num(&mm), num(&ss)) {
        (Some(a), Some(b), Some(c), Some(d), Some(e), Some(f), Some(g)) => (a, b as u32 + 1, c as u32, d as i64, e as u32, f as u32, g as u32),
        _ => return Meaning::Not,
    };
    if d < 1 || d > 31 || y < 1970 || hh > 23 || mm > 59 || ss > 59 {
        // a leap second is allowed by the grammar, and left open
        return if ss == 60 && d >= 1 && d <= 31 && y >= 1970 && hh <= 23 && mm <= 59 { Meaning::Open } else { Meaning::Not };
    }
    if d > mlen(y, moi) {
        return Meaning::Open;
    }
    let mut days: u64 = 0;
    for yy in 1970..y {
        days += 365 + leap(yy) as u64;
    }
    for m in 1..moi {
        days += mlen(y, m) as u64;
    }
    days += d as u64 - 1;
    if (days + 4) % 7 != wdi as u64 {
        return Meaning::Open;
    }
    Meaning::At(days * 86400 + hh as u64 * 3600 + mm as u64 * 60 + ss as u64)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct X {
    secs: u64,
    form: u8,
    edits: Vec<(u8, u16, String)>,
}

fn build(x: &X) -> String {
    let c = civil(x.secs);
    let mut s: Vec<char> = match x.form % 3 {
        0 => imf(c),
        1 => rfc850(c),
        _ => asctime(c),
    }
    .chars()
    .collect();
    for (kind, pos, text) in &x.edits {
        let p = if s.is_empty() { 0 } else { *pos as usize % s.len() };
        match kind % 4 {
            0 => {
                // replace
                for (i, ch) in text.chars().enumerate() {
                    if p + i < s.len() {
                        s[p + i] = ch;
                    }
                }
            }
            1 => {
                if !s.is_empty() {
                    s.remove(p);
                }
            }
            2 => {
                for ch in text.chars().rev() {
                    s.insert(p, ch);
                }
            }
            _ => s.truncate(p),
        }
    }
    s.into_iter().collect()
}

fn check_reject(x: &X) -> Check {
    let v = build(x);
    let m = meaning(&v);
    let delta = v.parse::<u64>().is_ok();
    for (ty, n, read) in readers() {
        if delta && n == "retry-after" {
            continue;
        }
        let got = read(&hdrs(n, &[v.as_str()]));
        match (&m, got) {
            (Meaning::At(t), Ok(got)) => ck_eq!(got, Some(at(*t, 0)), "{} on {:?}", ty, v),
            (Meaning::At(_), Err(e)) => pbt::fail!("{} rejects {:?}: {}", ty, v, e),
            (Meaning::Not, Ok(got)) => pbt::fail!("{} accepts {:?} as {:?}", ty, v, got),
            (Meaning::Not, Err(e)) => is_400(&e, &format!("{} on {:?}", ty, v))?,
            (Meaning::Open, Ok(_)) => {}
            (Meaning::Open, Err(e)) => is_400(&e, &format!("{} on {:?}", ty, v))?,
        }
    }
    classify(match m {
        Meaning::At(_) => "date",
        Meaning::Open => "open",
        Meaning::Not => "not a date",
    });
    Ok(m == Meaning::Not && v.len() >= 20)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct R {
    secs: u64,
    nanos: u32,
    zeros: usize,
}

fn check_retry(r: &R) -> Check {
    // relative form: whole seconds
    let v = emit(&RetryAfter::new(Duration::new(r.secs, r.nanos)), "retry-after")?;
    ck_eq!(v, r.secs.to_string(), "retry-after for {} s", r.secs);
    let text = format!("{}{}", "0".repeat(r.zeros), v);
    let h = hdrs("retry-after", &["Thu, 01 Jan 1970 00:00:00 GMT", text.as_str()]);
    let back = no_err(RetryAfter::from_headers(&h), "RetryAfter")?;
    ck_eq!(back, Some(RetryAfter::new(Duration::from_secs(r.secs))), "RetryAfter from {:?}", text);
    let back = back.unwrap();
    ck_eq!(back.header_value().as_str(), v, "value after a round trip");
    let over = SystemTime::now().checked_add(Duration::from_secs(r.secs)).is_none();
    let before = SystemTime::now();
    let res = no_panic(|| (back.duration_since(before), SystemTime::from(back.clone())));
    let (d, t) = match res {
        Ok(x) => x,
        Err(p) if over => {
            return Err(Fail::sig("C06/retry-after-overflow", format!("RetryAfter of {} s from a header: duration_since / SystemTime::from: {}", r.secs, p)))
        }
        Err(p) => pbt::fail!("panic: {}", p),
    };
    if over {
        return Ok(false);
    }
    let after = SystemTime::now();
    let slack = after.duration_since(before).unwrap_or_default() + Duration::from_millis(1);
    let want = Duration::from_secs(r.secs);
    let d = d.map_err(|e| Fail::new(format!("duration_since failed: {}", e)))?;
    ck!(d >= want && d <= want + slack, "duration_since gives {:?} for a delay of {:?}", d, want);
    let off = t.duration_since(before).map_err(|e| Fail::new(format!("{}", e)))?;
    ck!(off >= want && off <= want + slack, "SystemTime is {:?} ahead for a delay of {:?}", off, want);
    // absolute form: measured against any earlier instant
    let s = r.secs % END;
    let ra = RetryAfter::new_at(at(s, 0));
    let e = s / 2;
    ck_eq!(ra.duration_since(at(e, 0)).ok(), Some(Duration::from_secs(s - e)), "duration_since of an absolute time");
    ck!(ra.duration_since(at(s + 1, 0)).is_err(), "duration_since a later instant must be an error");
    Ok(r.secs > 0 && r.nanos > 0)
}

fn piece() -> BoxedStrategy<String> {
    prop_oneof![
        3 => proptest::sample::select(vec!["00", "24", "32", "60", "61", "99", "0", "+1", "-1", " 1", "1969", "1970", "0000", "GMT", "UTC", "gmt", " ", ",", "-", ":", "Mon", "Sunday", "Monday", "Jan", "feb", "Foo", "Feb", "31", "30", "29"]).prop_map(String::from),
        2 => gen::re("[0-9]{1,4}"),
        2 => "[\\x00-\\x7f]",
        1 => gen::ascii_text(4),
    ]
    .boxed()
}

fn main() {
    let t = || (secs_strategy(), 0u32..1_000_000_000).prop_map(|(secs, nanos)| T { secs, nanos });
    main_("C06", vec![
        law("format", "an instant from 1970 to 9999 with a random sub-second part, favouring month, leap day and century boundaries, through all six date headers; non-trivial: the sub-second part is not zero", 60_000, 4_000_000, t, check_format),
        law("parse", "an instant rendered in IMF-fixdate, RFC 850 (two-digit years only) and asctime, with optional whitespace and earlier values of the header; non-trivial: whitespace around it or a one-digit day", 40_000, 2_000_000,
            || (prop_oneof![secs_strategy(), 0u64..3_155_760_000], gen::ows(), gen::ows(), gen::vec(prop_oneof![gen::ascii_text(12), Just("Thu, 01 Jan 1970 00:00:00 GMT".to_string())], 0..3))
                .prop_map(|(secs, pre, post, earlier)| P { secs, pre, post, earlier }),
            check_parse),
        law("edited", "a date in one of the three forms after up to three edits (replace, delete, insert, truncate), judged by a separate reference parser; non-trivial: at least 20 bytes long and not a date", 300_000, 4_000_000,
            || (secs_strategy(), any::<u8>(), gen::vec((any::<u8>(), any::<u16>(), piece()), 0..4)).prop_map(|(secs, form, edits)| X { secs, form, edits }),
            check_reject),
        law("retry_after", "a delay in seconds; non-trivial: not zero, with a fraction of a second", 20_000, 1_000_000,
            || (prop_oneof![gen::edge_u64(), 0u64..(1 << 40)], 0u32..1_000_000_000, 0usize..3)
                .prop_map(|(secs, nanos, zeros)| R { secs, nanos, zeros }),
            check_retry),
    ]);
}
use pbt::fw::main as main_;
