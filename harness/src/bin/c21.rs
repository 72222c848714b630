//! C21: tracing headers. A trace context keeps its trace through headers and children; server timings
//! survive being written and read; whatever is malformed is a 400 and never a panic.
use http_types::headers::{Header, HeaderValue};
use http_types::trace::{Metric, ServerTiming, TraceContext};
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

const TP: &str = "traceparent";
const ST: &str = "server-timing";

// ---------------------------------------------------------------- trace context

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tr {
    version: u8,
    trace: (u64, u64),
    parent: u64,
    flags: u8,
    /// letter case of the digits, and whether leading zeros are left out
    mask: u64,
    short: bool,
    extra: Option<String>,
    steps: Vec<Option<bool>>,
}

fn parts(c: &TraceContext) -> (u8, u128, u64, u8) {
    let s = c.to_string();
    let v: Vec<&str> = s.split('-').collect();
    (
        u8::from_str_radix(v[0], 16).unwrap(),
        u128::from_str_radix(v[1], 16).unwrap(),
        u64::from_str_radix(v[2], 16).unwrap(),
        u8::from_str_radix(v[3], 16).unwrap(),
    )
}

/// What a context is, and the canonical form it is written in.
fn look(c: &TraceContext, version: u8, trace: u128, parent: Option<u64>, flags: u8, when: &str) -> Result<(), Fail> {
    ck_eq!((c.version(), c.trace_id(), c.parent_id(), c.sampled()), (version, trace, parent, flags & 1 == 1), "context {}", when);
    let want = format!("{:02x}-{:032x}-{:016x}-{:02x}", version, trace, c.id(), flags);
    ck_eq!(c.to_string(), want, "text {}", when);
    ck_eq!(emit(c, TP)?, want, "header value {}", when);
    let back = no_err(TraceContext::from_headers(hdrs(TP, &[&want])), "reading it back")?;
    let back = match back {
        Some(b) => b,
        None => fail!("{:?} is not read back", want),
    };
    ck_eq!((back.version(), back.trace_id(), back.parent_id(), back.sampled()), (version, trace, Some(c.id()), flags & 1 == 1), "read back {}", when);
    ck_eq!(parts(&back).3, flags, "flags read back {}", when);
    Ok(())
}

fn check_trace(c: &Tr) -> Check {
    let trace = (c.trace.0 as u128) << 64 | c.trace.1 as u128;
    let text = if c.short {
        format!("{:x}-{:x}-{:x}-{:x}", c.version, trace, c.parent, c.flags)
    } else {
        format!("{:02x}-{:032x}-{:016x}-{:02x}", c.version, trace, c.parent, c.flags)
    };
    let mut text = gen::recase(&text, c.mask);
    if let Some(x) = &c.extra {
        text = format!("{}-{}", text, x);
    }
    let lines = [&text];
    let cur = no_err(TraceContext::from_headers(hdrs(TP, &lines)), &format!("{:?}", lines))?;
    let mut cur = match cur {
        Some(c) => c,
        None => fail!("{:?} is not read", lines),
    };
    look(&cur, c.version, trace, Some(c.parent), c.flags, "as read")?;
    ck!(no_err(TraceContext::from_headers(no_headers()), "no header")?.is_none(), "no header");
    let fresh = TraceContext::new();
    look(&fresh, 0, fresh.trace_id(), None, 1, "when new")?;
    // two contexts are told apart by their identifiers
    let (f2, f3) = (TraceContext::new(), TraceContext::new());
    ck!(fresh.trace_id() != f2.trace_id() || f2.trace_id() != f3.trace_id(), "three new contexts share a trace id");
    let (mut parent, mut flags) = (Some(c.parent), c.flags);
    let mut ids = vec![cur.id()];
    for (i, s) in c.steps.iter().enumerate() {
        let when = format!("after step {}", i);
        match s {
            None => {
                let child = cur.child();
                parent = Some(cur.id());
                cur = child;
                ids.push(cur.id());
            }
            Some(b) => {
                let id = cur.id();
                cur.set_sampled(*b);
                flags = flags & !1 | *b as u8;
                ck_eq!(cur.id(), id, "id {}", when);
            }
        }
        look(&cur, c.version, trace, parent, flags, &when)?;
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    ck!(n < 3 || ids.len() > 1, "all {} generations have the same id", n);
    classify_if(c.extra.is_some(), "extra parts");
    classify_if(c.flags > 1, "other flags");
    Ok(!c.steps.is_empty())
}

fn hex(s: &str, digits: usize) -> bool {
    // a leading plus sign is left open
    let s = s.strip_prefix('+').unwrap_or(s);
    let t = s.trim_start_matches('0');
    !s.is_empty() && t.len() <= digits && s.bytes().all(|b| b.is_ascii_hexdigit())
}

fn check_trace_text(t: &String) -> Check {
    let p: Vec<&str> = t.split('-').collect();
    let good = p.len() >= 4 && hex(p[0], 2) && hex(p[1], 32) && hex(p[2], 16) && hex(p[3], 2);
    match TraceContext::from_headers(hdrs(TP, &[t])) {
        Ok(Some(c)) => {
            ck!(good, "{:?} is read as {}", t, c);
            Ok(true)
        }
        Ok(None) => fail!("{:?} is not read", t),
        Err(e) => {
            ck!(!good, "{:?} is refused: {}", t, e);
            is_400(&e, &format!("{:?}", t))?;
            Ok(p.len() > 2)
        }
    }
}

// ---------------------------------------------------------------- server timing

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mt {
    name: String,
    dur: Option<(u64, u32)>,
    desc: Option<String>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct St {
    metrics: Vec<Mt>,
    /// the same list as another server may write it: where lines break, and decoration
    breaks: Vec<bool>,
    deco: Vec<(String, String, u8)>,
    earlier_empty: bool,
}

fn metric(m: &Mt) -> Result<Metric, Fail> {
    no_err(Metric::new(m.name.clone(), m.dur.map(|d| Duration::new(d.0, d.1 % 1_000_000_000)), m.desc.clone()), "Metric::new")
}

/// The milliseconds of a header value are a double: exact to the nanosecond up to some days, and to one part in 10^15 beyond.
fn close(a: Option<Duration>, b: Option<Duration>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            let d = if a > b { a - b } else { b - a };
            d.as_nanos() <= b.as_nanos() / 1_000_000_000_000_000 + if b.as_secs() < 86_400 { 0 } else { 1 }
        }
        _ => false,
    }
}

fn same(got: &[Metric], want: &[Mt], what: &str) -> Result<(), Fail> {
    ck_eq!(got.iter().map(|m| m.name().clone()).collect::<Vec<_>>(), want.iter().map(|m| m.name.clone()).collect::<Vec<_>>(), "names in {}", what);
    for (g, w) in got.iter().zip(want) {
        ck_eq!(g.description(), w.desc.as_deref(), "description of {:?} in {}", w.name, what);
        let d = w.dur.map(|d| Duration::new(d.0, d.1 % 1_000_000_000));
        ck!(close(g.duration(), d), "duration of {:?} in {}: got {:?}, expected {:?}", w.name, what, g.duration(), d);
    }
    Ok(())
}

fn quote(s: &str, how: u8) -> String {
    let token = !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
    if token && how % 2 == 0 {
        return s.into();
    }
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if c == '"' || c == '\\' || how as usize >> (2 + i % 6) & 1 == 1 {
            o.push('\\');
        }
        o.push(c);
    }
    o + "\""
}

fn check_timing(c: &St) -> Check {
    let mut t = ServerTiming::new();
    for m in &c.metrics {
        let x = metric(m)?;
        ck_eq!((x.name(), x.duration(), x.description()), (&m.name, m.dur.map(|d| Duration::new(d.0, d.1 % 1_000_000_000)), m.desc.as_deref()), "metric");
        t.push(x);
    }
    let n = c.metrics.len();
    run_out(t.iter(), n, "metrics")?;
    run_out(t.iter_mut(), n, "iter_mut")?;
    let v = emit(&t, ST)?;
    let single: Vec<String> = c.metrics.iter().map(|m| metric(m).map(|m| HeaderValue::from(m).as_str().to_string())).collect::<Result<_, _>>()?;
    ck_eq!(v, single.join(", "), "header value");
    let mut all = vec![v.clone()];
    if c.earlier_empty {
        all.insert(0, " ,, ".into());
    }
    for (lines, what) in [(&all, "one line"), (&single, "a line each")] {
        if lines.is_empty() {
            continue;
        }
        let mut r = match no_err(ServerTiming::from_headers(hdrs(ST, lines)), &format!("{:?}", lines))? {
            Some(r) => r,
            None => fail!("{:?} is not read", lines),
        };
        same(&r.iter().cloned().collect::<Vec<_>>(), &c.metrics, what)?;
        same(&run_out((&r).into_iter(), n, "by reference")?.into_iter().cloned().collect::<Vec<_>>(), &c.metrics, what)?;
        same(&r.iter_mut().map(|m| m.clone()).collect::<Vec<_>>(), &c.metrics, what)?;
        same(&(&mut r).into_iter().map(|m| m.clone()).collect::<Vec<_>>(), &c.metrics, what)?;
        let again = r.header_value();
        let r2 = no_err(ServerTiming::from_headers(hdrs(ST, &[again.as_str()])), "written again")?.unwrap();
        same(&r2.into_iter().collect::<Vec<_>>(), &c.metrics, "what was written again")?;
        same(&run_out(r.into_iter(), n, "into_iter")?, &c.metrics, what)?;
    }
    ck!(no_err(ServerTiming::from_headers(no_headers()), "no header")?.is_none(), "no header");

    // written by another server, in whole microseconds
    let mut lines: Vec<String> = vec![];
    let mut want: Vec<Mt> = vec![];
    for (i, m) in c.metrics.iter().enumerate() {
        let (a, b, k) = c.deco.get(i).cloned().unwrap_or_default();
        let mut ps = vec![];
        let us = m.dur.map(|d| (d.0 % 1_000_000) * 1_000_000 + d.1 as u64 % 1_000_000);
        if let Some(us) = us {
            let ms = if us % 1000 == 0 { format!("{}", us / 1000) } else { format!("{}.{:03}", us / 1000, us % 1000) };
            ps.push(format!("{}{}={}{}", "dur", a, b, ms));
        }
        if let Some(d) = &m.desc {
            ps.push(format!("desc{}={}{}", b, a, quote(d, k)));
        }
        if k % 3 == 0 {
            ps.push("x-unknown=\"a;b, c\"".into());
        }
        if k % 2 == 0 {
            ps.reverse();
        }
        let mut e = format!("{}{}", a, m.name);
        for p in ps {
            e = format!("{}{};{}{}", e, b, a, p);
        }
        e += &b;
        want.push(Mt { name: m.name.clone(), dur: us.map(|u| (u / 1_000_000, (u % 1_000_000 * 1000) as u32)), desc: m.desc.clone() });
        match lines.last_mut() {
            Some(l) if !c.breaks.get(i).copied().unwrap_or(false) => *l = format!("{},{}", l, e),
            _ => lines.push(e),
        }
    }
    if !lines.is_empty() {
        let r = match no_err(ServerTiming::from_headers(hdrs(ST, &lines)), &format!("{:?}", lines))? {
            Some(r) => r,
            None => fail!("{:?} is not read", lines),
        };
        same(&r.into_iter().collect::<Vec<_>>(), &want, &format!("{:?}", lines))?;
    }
    classify_if(c.metrics.iter().any(|m| m.desc.as_ref().map_or(false, |d| d.contains(|c| c == ',' || c == ';' || c == '"' || c == '\\' || c == '='))), "description with a delimiter");
    classify_if(c.metrics.iter().any(|m| m.dur.map_or(false, |d| d.0 > 1 << 40)), "huge duration");
    Ok(n > 1)
}

/// Durations that are not a duration, and any text.
fn check_timing_text(t: &(String, String)) -> Check {
    let (dur, text) = t;
    let line = format!("a;dur={}", dur);
    // a reference: milliseconds in decimal, not negative, in the range of a duration
    let want = dur.trim().parse::<f64>().ok().and_then(|f| Duration::try_from_secs_f64(f / 1000.0).ok());
    if !dur.contains(|c| c == ',' || c == ';' || c == '"') {
        match (ServerTiming::from_headers(hdrs(ST, &[&line])), want) {
            (Ok(Some(r)), Some(w)) => {
                let m: Vec<Metric> = r.into_iter().collect();
                ck!(m.len() == 1 && close(m[0].duration(), Some(w)), "{:?} gives {:?}, expected {:?}", line, m, w);
            }
            (Err(e), None) => is_400(&e, &line)?,
            (r, w) => fail!("{:?} gives {:?}, expected {:?}", line, r.map_err(|e| e.to_string()), w),
        }
    }
    match ServerTiming::from_headers(hdrs(ST, &[text])) {
        Ok(Some(r)) => {
            // what was read can be written, and reads the same
            let ms: Vec<Metric> = r.iter().cloned().collect();
            let clean = ms.iter().all(|m| m.name().bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) && !m.name().is_empty() && m.description().unwrap_or("").bytes().all(|b| (0x20..0x7f).contains(&b)));
            if clean {
                let v = r.header_value();
                let r2 = no_err(ServerTiming::from_headers(hdrs(ST, &[v.as_str()])), &format!("{:?}", v))?.unwrap();
                let want: Vec<Mt> = ms.iter().map(|m| Mt { name: m.name().clone(), dur: m.duration().map(|d| (d.as_secs(), d.subsec_nanos())), desc: m.description().map(String::from) }).collect();
                same(&r2.into_iter().collect::<Vec<_>>(), &want, "what was written after reading any text")?;
            }
            classify("read");
        }
        Ok(None) => fail!("{:?} is not read", text),
        Err(e) => is_400(&e, text)?,
    }
    Ok(want.is_none())
}

/// A reader of one header line, after the grammar: the metrics, none when it is malformed, or left open.
enum Read {
    List(Vec<Mt>),
    Malformed,
    Open,
}
fn reader(line: &str) -> Read {
    if line.bytes().any(|b| !(b == b'\t' || (0x20..0x7f).contains(&b))) {
        return Read::Open;
    }
    // cut at the commas and semicolons that are not quoted
    let mut items: Vec<Vec<String>> = vec![vec![String::new()]];
    let (mut quoted, mut cs) = (false, line.chars());
    while let Some(c) = cs.next() {
        let last = items.last_mut().unwrap();
        match c {
            ',' if !quoted => {
                items.push(vec![String::new()]);
                continue;
            }
            ';' if !quoted => {
                last.push(String::new());
                continue;
            }
            '"' => quoted = !quoted,
            _ => {}
        }
        let part = last.last_mut().unwrap();
        part.push(c);
        if c == '\\' && quoted {
            part.extend(cs.next());
        }
    }
    let blank = |s: &str| s.bytes().all(|b| b == b' ' || b == b'\t');
    let (mut out, mut bad) = (vec![], false);
    for item in items {
        if item.len() == 1 && blank(&item[0]) {
            continue;
        }
        let name = item[0].trim_matches(|c| c == ' ' || c == '\t');
        bad |= name.is_empty();
        if name.contains('"') {
            return Read::Open;
        }
        let mut m = Mt { name: name.to_string(), dur: None, desc: None };
        let (mut durs, mut descs) = (0, 0);
        for p in &item[1..] {
            let (n, v) = match p.split_once('=') {
                Some((n, v)) => (n.trim_matches(|c| c == ' ' || c == '\t'), v.trim_matches(|c| c == ' ' || c == '\t')),
                None if p.contains('"') => return Read::Open,
                None => {
                    bad = true;
                    continue;
                }
            };
            match n {
                "dur" => {
                    durs += 1;
                    // numbers in other notations are left to the other half of this law
                    let digits = |s: &str| s.len() <= 12 && s.bytes().all(|b| b.is_ascii_digit());
                    let (i, f) = v.split_once('.').unwrap_or((v, "0"));
                    if !i.is_empty() && !f.is_empty() && digits(i) && digits(f) {
                        let d = Duration::try_from_secs_f64(v.parse::<f64>().unwrap() / 1000.0).unwrap();
                        m.dur = Some((d.as_secs(), d.subsec_nanos()));
                    } else if v.parse::<f64>().is_ok() || v.contains('"') {
                        return Read::Open;
                    } else {
                        bad = true;
                    }
                }
                "desc" => {
                    descs += 1;
                    m.desc = Some(v.to_string());
                    if let Some(rest) = v.strip_prefix('"') {
                        let (mut t, mut cs, mut end) = (String::new(), rest.chars(), false);
                        while let Some(c) = cs.next() {
                            match c {
                                '"' => {
                                    end = true;
                                    break;
                                }
                                '\\' => match cs.next() {
                                    Some(' ' | '\t') => return Read::Open,
                                    c => t.extend(c),
                                },
                                c => t.push(c),
                            }
                        }
                        bad |= !end || cs.next().is_some();
                        m.desc = Some(t);
                    } else {
                        bad |= v.contains('"');
                    }
                }
                _ if p.contains('"') => return Read::Open,
                _ => {}
            }
        }
        // the same parameter twice is left open
        if durs > 1 || descs > 1 {
            return Read::Open;
        }
        out.push(m);
    }
    if bad {
        Read::Malformed
    } else {
        Read::List(out)
    }
}

fn check_line(line: &String) -> Check {
    let r = reader(line);
    let got = ServerTiming::from_headers(hdrs(ST, &[line]));
    match (&r, got) {
        (Read::List(want), Ok(Some(g))) => {
            same(&g.into_iter().collect::<Vec<_>>(), want, line)?;
            classify("read");
        }
        (Read::Malformed, Err(e)) => {
            is_400(&e, line)?;
            classify("refused");
        }
        (Read::Open, g) => {
            if let Err(e) = g {
                is_400(&e, line)?;
            }
            classify("open");
        }
        (r, g) => fail!("{:?} gives {:?}, expected {}", line, g.map_err(|e| e.to_string()), match r {
            Read::List(w) => format!("{:?}", w),
            _ => "a refusal".into(),
        }),
    }
    Ok(!matches!(r, Read::Open) && line.contains('"'))
}

fn check_ascii(t: &(String, Option<String>)) -> Check {
    let ok = t.0.is_ascii() && t.1.as_ref().map_or(true, |d| d.is_ascii());
    ck_eq!(Metric::new(t.0.clone(), None, t.1.clone()).is_ok(), ok, "Metric::new of {:?}", t);
    Ok(!ok)
}

fn main() {
    let dur = || prop_oneof![
        3 => (0u64..100, 0u32..1_000_000_000),
        2 => (0u64..1_000_000, any::<u32>()),
        1 => (0u64..1 << 63, any::<u32>()),
        1 => Just(((1 << 63) - 1, 999_999_999)),
        2 => (gen::edge_u64().prop_map(|n| n >> 1), prop_oneof![Just(0), Just(1), Just(999_999_999), Just(1_000_000), (0u32..1000).prop_map(|n| n * 1_000_000), (0u32..1_000_000).prop_map(|n| n * 1000)]),
    ];
    let mt = move || (gen::re("[!#$%&'*+.^_`|~0-9A-Za-z-]{1,6}"), option::of(dur()), option::of(gen::ascii_text(7))).prop_map(|(name, dur, desc)| Mt { name, dur, desc });
    let id = || prop_oneof![1 => any::<u64>(), 2 => gen::edge_u64()];
    pbt::fw::main("C21", vec![
        law("trace_context", "a trace context over the whole range of its fields in any letter case, with extra parts, then children and sampling decisions; non-trivial: at least one step", 40_000, 2_000_000,
            move || ((any::<u8>(), (id(), id()), id(), any::<u8>()), any::<u64>(), any::<bool>(), option::of(gen::re("[0-9a-z-]{0,5}")), vec(option::of(any::<bool>()), 0..5))
                .prop_map(|((version, trace, parent, flags), mask, short, extra, steps)| Tr { version, trace, parent, flags, mask, short, extra, steps }), check_trace),
        law("trace_text", "text that may be a trace context; non-trivial: read, or with at least three parts", 40_000, 2_000_000,
            || prop_oneof![gen::re("[0-9a-fA-F]{1,3}-[0-9a-f]{30,34}-[0-9a-fg]{15,17}-[0-9a-f]{1,3}"), gen::re("[0-9a-g]{0,2}(-[0-9a-g]{0,4}){0,4}"), gen::soup(&["-", "00", "ff", "0af7651916cd43dd8448eb211c80319c", "00f067aa0ba902b7", "+", " ", "g"], 9)], check_trace_text),
        law("server_timing", "lists of metrics with durations over the whole range and descriptions of any printable text, written here, a line each, and as another server may write them; non-trivial: at least two metrics", 40_000, 2_000_000,
            move || (vec(mt(), 0..5), vec(any::<bool>(), 5), vec((gen::ows(), gen::ows(), any::<u8>()), 5), any::<bool>()).prop_map(|(metrics, breaks, deco, earlier_empty)| St { metrics, breaks, deco, earlier_empty }), check_timing),
        law("server_timing_text", "a number as a duration, and text that may be a list of metrics; non-trivial: the number is not a duration", 40_000, 2_000_000,
            || (prop_oneof![any::<f64>().prop_map(|f| f.to_string()), gen::re("-?[0-9]{0,22}(\\.[0-9]{0,5})?(e-?[0-9]{1,3})?"), "(nan|inf|-inf|infinity|-0|1e309|18446744073709551616000|-1)", gen::ascii_text(4)],
                gen::soup(&["a", "db", ";", "; ", ",", ", ", "dur", "desc", "=", "\"", "\\", "1.5", "-1", "inf", "x y", "1e30", " "], 10)), check_timing_text),
        law("server_timing_line", "a line of metrics with up to three characters edited, against a reader written after the grammar that tells lists, malformed lines and lines left open apart; non-trivial: a line with a quote that is not left open", 60_000, 3_000_000,
            || gen::edited(gen::re("[a-z]{1,3}( ?; ?(dur ?=[0-9]{1,3}(\\.[0-9]{1,2})?|desc= ?\"[a-z ,;=]{0,3}(\\\\[\"\\\\a])?[a-z]{0,1}\" ?|desc=[a-z]{1,2}|x=[a-z])){0,3}( ?, ?[a-z]{1,2}(; ?desc=\"[a-z,;]{0,3}\"|;dur=[0-9])?){0,2}"), "\"\",;= \\.a1-"), check_line),
        law("metric_text", "a name and a description of any text; non-trivial: not ASCII", 10_000, 200_000, || (gen::any_text(4), option::of(gen::any_text(4))), check_ascii),
    ]);
}
