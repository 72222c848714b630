//! C08: caching headers (Cache-Control, Clear-Site-Data, Age) round trip and parse by their grammar.
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData};
use http_types::headers::HeaderValue;
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct D {
    kind: u8,
    secs: Option<u64>,
    nanos: u32,
}

// name, takes an argument (0 no, 1 required, 2 optional), valid in request, valid in response
const DIRS: [(&str, u8, Option<bool>, Option<bool>); 15] = [
    ("immutable", 0, Some(false), Some(true)),
    ("max-age", 1, Some(true), Some(true)),
    ("max-stale", 2, Some(true), Some(false)),
    ("min-fresh", 1, Some(true), Some(false)),
    ("must-revalidate", 0, Some(false), Some(true)),
    ("no-cache", 0, Some(true), Some(true)),
    ("no-store", 0, Some(true), Some(true)),
    ("no-transform", 0, Some(true), Some(true)),
    ("only-if-cached", 0, Some(true), Some(false)),
    ("private", 0, Some(false), Some(true)),
    ("proxy-revalidate", 0, Some(false), Some(true)),
    ("public", 0, Some(false), Some(true)),
    ("s-maxage", 1, Some(false), Some(true)),
    ("stale-if-error", 1, None, Some(true)), // RFC 5861 also allows it in requests: left open
    ("stale-while-revalidate", 1, Some(false), Some(true)),
];

fn mk(kind: usize, d: Duration, opt: bool) -> CacheDirective {
    use CacheDirective::*;
    match kind {
        0 => Immutable,
        1 => MaxAge(d),
        2 => MaxStale(if opt { Some(d) } else { None }),
        3 => MinFresh(d),
        4 => MustRevalidate,
        5 => NoCache,
        6 => NoStore,
        7 => NoTransform,
        8 => OnlyIfCached,
        9 => Private,
        10 => ProxyRevalidate,
        11 => Public,
        12 => SMaxAge(d),
        13 => StaleIfError(d),
        _ => StaleWhileRevalidate(d),
    }
}

impl D {
    fn k(&self) -> usize {
        self.kind as usize % 15
    }
    fn build(&self, whole: bool) -> CacheDirective {
        mk(self.k(), Duration::new(self.secs.unwrap_or(7), if whole { 0 } else { self.nanos }), self.secs.is_some())
    }
    fn text(&self) -> String {
        let (n, arg, ..) = DIRS[self.k()];
        match arg {
            0 => n.to_string(),
            2 if self.secs.is_none() => n.to_string(),
            _ => format!("{}={}", n, self.secs.unwrap_or(7)),
        }
    }
}

fn secs() -> BoxedStrategy<u64> {
    gen::edge_u64()
}
fn dir() -> BoxedStrategy<D> {
    (any::<u8>(), proptest::option::of(secs()), 0u32..1_000_000_000).prop_map(|(kind, secs, nanos)| D { kind, secs, nanos }).boxed()
}

fn check_cc(ds: &Vec<D>) -> Check {
    let mut cc = CacheControl::new();
    for d in ds {
        cc.push(d.build(false));
    }
    let whole: Vec<CacheDirective> = ds.iter().map(|d| d.build(true)).collect();
    let exact: Vec<CacheDirective> = ds.iter().map(|d| d.build(false)).collect();
    pbt::walk!(cc, exact, |d| d.clone(), "directives");
    let v = emit(&cc, "cache-control")?;
    let want = ds.iter().map(|d| d.text()).collect::<Vec<_>>().join(", ");
    ck_eq!(v, want, "cache-control value");
    for (d, t) in ds.iter().zip(&exact) {
        ck_eq!(HeaderValue::from(t.clone()).as_str(), d.text(), "a directive as a header value");
        let (n, _, req, res) = DIRS[d.k()];
        if let Some(x) = req {
            ck_eq!(t.valid_in_req(), x, "valid_in_req of {}", n);
        }
        if let Some(x) = res {
            ck_eq!(t.valid_in_res(), x, "valid_in_res of {}", n);
        }
    }
    let back = no_err(CacheControl::from_headers(hdrs("cache-control", &[v.as_str()])), "CacheControl")?;
    let back = back.ok_or_else(|| Fail::new("None from a present header"))?;
    ck_eq!(back.iter().cloned().collect::<Vec<_>>(), whole, "directives from {:?}", v);
    ck_eq!(emit(&back, "cache-control")?, v, "second emission");
    ck_eq!(run_out(back.into_iter(), whole.len(), "into_iter")?, whole, "into_iter");
    classify_if(ds.is_empty(), "empty");
    Ok(ds.len() >= 2 && ds.iter().any(|d| d.secs.is_some() && DIRS[d.k()].1 > 0))
}

/// One element of a Cache-Control line, as text, with what it should mean.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Part {
    Known(D, u64),
    /// an argument on a directive that takes none
    Arg(u8, String),
    Unknown(String),
    Empty,
    /// a directive that needs a number, without a good one
    Bad(u8, String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lines(Vec<Vec<(String, Part, String)>>);

fn check_cc_parse(l: &Lines) -> Check {
    let mut want = Some(vec![]);
    let mut lines = vec![];
    for line in &l.0 {
        let mut parts = vec![];
        for (pre, p, post) in line {
            let t = match p {
                Part::Known(d, case) => {
                    if let Some(w) = want.as_mut() {
                        w.push(d.build(true));
                    }
                    gen::recase(&d.text(), *case)
                }
                Part::Arg(k, a) => {
                    let plain: Vec<usize> = (0..15).filter(|k| DIRS[*k].1 == 0).collect();
                    let k = plain[*k as usize % plain.len()];
                    if let Some(w) = want.as_mut() {
                        w.push(mk(k, Duration::default(), false));
                    }
                    format!("{}=\"{}\"", DIRS[k].0, a)
                }
                Part::Unknown(s) => s.clone(),
                Part::Empty => String::new(),
                Part::Bad(k, a) => {
                    let args: Vec<usize> = (0..15).filter(|k| DIRS[*k].1 > 0).collect();
                    let k = args[*k as usize % args.len()];
                    if DIRS[k].1 == 2 && a.is_empty() {
                        if let Some(w) = want.as_mut() {
                            w.push(mk(k, Duration::default(), false));
                        }
                    } else {
                        want = None;
                    }
                    format!("{}{}", DIRS[k].0, a)
                }
            };
            parts.push(format!("{}{}{}", pre, t, post));
        }
        lines.push(parts.join(","));
    }
    if lines.is_empty() {
        let none = no_err(CacheControl::from_headers(no_headers()), "CacheControl")?;
        ck!(none.is_none(), "Some without the header");
        return Ok(false);
    }
    let got = CacheControl::from_headers(hdrs("cache-control", &lines));
    match (want, got) {
        (Some(w), Ok(Some(g))) => {
            ck_eq!(g.iter().cloned().collect::<Vec<_>>(), w, "directives of {:?}", lines);
            Ok(w.len() >= 2)
        }
        (None, Err(e)) => {
            classify("malformed");
            is_400(&e, &format!("{:?}", lines))?;
            Ok(true)
        }
        (w, g) => pbt::fail!("{:?}: got {:?}, expected {:?}", lines, g, w),
    }
}

fn part() -> BoxedStrategy<Part> {
    prop_oneof![
        12 => (dir(), any::<u64>()).prop_map(|(d, c)| Part::Known(d, c)),
        2 => (any::<u8>(), gen::re("[a-z-]{0,6}")).prop_map(|(k, a)| Part::Arg(k, a)),
        2 => prop_oneof![
            proptest::sample::select(vec!["max-ages=5", "s-max-age=5", "max_age=1", "no-caches", "nocache", "x", "community=\"UCI\"", "xprivate", "privatex", "age=3", "maxage=5", "0", "="]).prop_map(String::from),
            gen::re("x[a-z0-9-]{0,8}(=[a-z0-9]{1,4})?")].prop_map(Part::Unknown),
        1 => Just(Part::Empty),
        1 => (any::<u8>(), proptest::sample::select(vec!["", "=", "=x", "=-1", "=1.5", "=\"5\"", "=18446744073709551616", "= ", "=5s", "=0x10", "=1e3", "=99999999999999999999999999"])).prop_map(|(k, a)| Part::Bad(k, a.to_string())),
    ]
    .boxed()
}

/// What a line says, read independently; `Err(false)` where the grammar leaves it open.
fn read_cc(line: &str) -> Result<Vec<CacheDirective>, bool> {
    let mut out = vec![];
    let mut bad = false;
    for e in line.split(',') {
        let e = e.trim_matches(|c| c == ' ' || c == '\t').to_ascii_lowercase();
        let (name, arg) = match e.split_once('=') {
            Some((n, a)) => (n, Some(a)),
            None => (e.as_str(), None),
        };
        if e.contains(|c: char| c == '"' || c.is_ascii_control()) || name.ends_with([' ', '\t']) {
            return Err(false);
        }
        let k = match DIRS.iter().position(|d| d.0 == name) {
            Some(k) => k,
            None => continue,
        };
        match (DIRS[k].1, arg) {
            (0, _) | (2, None) => out.push(mk(k, Duration::default(), false)),
            (_, Some(a)) if a.contains('=') || a.starts_with(['+', ' ', '\t']) => return Err(false),
            (_, Some(a)) if !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit()) => match a.parse() {
                Ok(n) => out.push(mk(k, Duration::from_secs(n), true)),
                Err(_) => bad = true,
            },
            _ => bad = true,
        }
    }
    if bad { Err(true) } else { Ok(out) }
}

fn check_cc_line(line: &String) -> Check {
    let want = read_cc(line);
    let got = CacheControl::from_headers(hdrs("cache-control", &[line.as_str()]));
    match (want, got) {
        (Err(false), _) => {
            classify("left open");
            Ok(false)
        }
        (Ok(w), Ok(Some(g))) => {
            ck_eq!(g.iter().cloned().collect::<Vec<_>>(), w, "directives of {:?}", line);
            Ok(!w.is_empty())
        }
        (Err(true), Err(e)) => {
            classify("malformed");
            is_400(&e, line)?;
            Ok(true)
        }
        (w, g) => pbt::fail!("{:?}: got {:?}, expected {:?} (an error means a refusal)", line, g, w),
    }
}

fn cc_line() -> BoxedStrategy<String> {
    let one = (gen::ows(), dir(), any::<u64>(), gen::ows()).prop_map(|(a, d, m, b)| format!("{}{}{}", a, gen::recase(&d.text(), m), b));
    gen::edited(vec(one, 1..4).prop_map(|v| v.join(",")).boxed(), ",,= \t;-_.0123459aeEsx+\"'*#!/:")
}

const CLR: [(&str, ClearDirective); 4] = [
    ("\"cache\"", ClearDirective::Cache),
    ("\"cookies\"", ClearDirective::Cookies),
    ("\"storage\"", ClearDirective::Storage),
    ("\"executionContexts\"", ClearDirective::ExecutionContexts),
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Csd {
    lines: Vec<Vec<(String, u8, String)>>,
    junk: Option<(u8, String)>,
}

fn check_csd(c: &Csd) -> Check {
    // round trip of the values as built
    let mut wild = false;
    let mut want = vec![];
    let mut lines: Vec<String> = vec![];
    for l in &c.lines {
        let mut parts = vec![];
        for (pre, k, post) in l {
            let t = match *k % 6 {
                4 => {
                    wild = true;
                    "\"*\""
                }
                5 => "",
                k => {
                    want.push(CLR[k as usize].1);
                    CLR[k as usize].0
                }
            };
            parts.push(format!("{}{}{}", pre, t, post));
        }
        lines.push(parts.join(","));
    }
    let mut csd = ClearSiteData::new();
    for d in &want {
        csd.push(*d);
    }
    ck!(!csd.wildcard(), "a new value has a wildcard");
    if wild {
        csd.set_wildcard(true);
    } else if csd.iter().count() % 2 == 1 {
        csd.set_wildcard(true);
        csd.set_wildcard(false);
    }
    let v = emit(&csd, "clear-site-data")?;
    let mut texts: Vec<&str> = want.iter().map(|d| CLR.iter().find(|c| c.1 == *d).unwrap().0).collect();
    if wild {
        texts.push("\"*\"");
    }
    ck_eq!(v, texts.join(", "), "clear-site-data value");
    for d in &want {
        ck_eq!(d.to_string(), d.as_str(), "display");
        ck_eq!(d.as_str().parse::<ClearDirective>().ok(), Some(*d), "FromStr of {}", d);
    }
    pbt::walk!(csd, want, |d| *d, "directives");
    let back = no_err(ClearSiteData::from_headers(hdrs("clear-site-data", &[v.as_str()])), "ClearSiteData")?.ok_or_else(|| Fail::new("None"))?;
    ck_eq!(back.wildcard(), wild, "wildcard from {:?}", v);
    ck_eq!(run_out(back.into_iter(), want.len(), "into_iter")?, want, "directives from {:?}", v);
    // parsing of the lines as sent
    if lines.is_empty() {
        ck!(no_err(ClearSiteData::from_headers(no_headers()), "ClearSiteData")?.is_none(), "Some without the header");
        return Ok(false);
    }
    let parsed = no_err(ClearSiteData::from_headers(hdrs("clear-site-data", &lines)), "ClearSiteData")?.ok_or_else(|| Fail::new("None"))?;
    ck_eq!(parsed.wildcard(), wild, "wildcard of {:?}", lines);
    ck_eq!((&parsed).into_iter().cloned().collect::<Vec<_>>(), want, "directives of {:?}", lines);
    // an unknown directive is ignored or refused, never turned into something else
    if let Some((at, junk)) = &c.junk {
        let i = *at as usize % lines.len();
        lines[i] = format!("{},{}", lines[i], junk);
        match ClearSiteData::from_headers(hdrs("clear-site-data", &lines)) {
            Err(e) => is_400(&e, &format!("{:?}", lines))?,
            Ok(Some(p)) => {
                ck_eq!(p.wildcard(), wild, "wildcard of {:?}", lines);
                ck_eq!(p.into_iter().collect::<Vec<_>>(), want, "directives of {:?}", lines);
            }
            Ok(None) => pbt::fail!("None from a present header"),
        }
        match junk.parse::<ClearDirective>() {
            Err(_) => {}
            Ok(d) => pbt::fail!("{:?} parses as {:?}", junk, d),
        }
    }
    Ok(want.len() >= 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct A {
    secs: u64,
    nanos: u32,
    junk: String,
    earlier: Vec<String>,
}

fn check_age(a: &A) -> Check {
    let age = Age::new(Duration::new(a.secs, a.nanos));
    ck_eq!(age.duration(), Duration::new(a.secs, a.nanos), "duration");
    let v = emit(&age, "age")?;
    ck_eq!(v, a.secs.to_string(), "age value");
    ck_eq!(Age::from_secs(a.secs).duration(), Duration::from_secs(a.secs), "from_secs");
    ck_eq!(emit(&Age::from_secs(a.secs), "age")?, v, "from_secs value");
    let mut lines = a.earlier.clone();
    lines.push(v.clone());
    let back = no_err(Age::from_headers(hdrs("age", &lines)), "Age")?;
    ck_eq!(back.map(|a| a.duration()), Some(Duration::from_secs(a.secs)), "Age from {:?}", lines);
    ck!(no_err(Age::from_headers(no_headers()), "Age")?.is_none(), "Some without the header");
    let ok = !a.junk.is_empty() && a.junk.bytes().all(|b| b.is_ascii_digit());
    let h = hdrs("age", &[a.junk.as_str()]);
    match (Age::from_headers(&h), ok) {
        (Ok(Some(g)), true) => ck_eq!(Some(g.duration()), a.junk.parse().ok().map(Duration::from_secs), "Age from {:?}", a.junk),
        (Err(e), true) => ck!(a.junk.parse::<u64>().is_err() && e.status() == 400, "Age from {:?}: {}", a.junk, e),
        (Err(e), false) => is_400(&e, &a.junk)?,
        // surrounding whitespace and a plus sign are left open
        (Ok(Some(g)), false) => ck_eq!(Some(g.duration()), a.junk.trim().trim_start_matches('+').parse().ok().map(Duration::from_secs), "Age from {:?}", a.junk),
        (Ok(None), _) => pbt::fail!("None from a present header"),
    }
    Ok(a.secs > 9 && !a.junk.is_empty())
}

fn main() {
    pbt::fw::main("C08", vec![
        law("cache_control", "a list of directives with durations over the whole u64 range, written and read back; non-trivial: at least two directives, one with a duration", 40_000, 2_000_000, || vec(dir(), 0..7), check_cc),
        law("cache_control_text", "header lines made of known directives in any letter case, unknown ones, empty elements and malformed numbers; non-trivial: at least two directives, or malformed", 60_000, 3_000_000,
            || vec(vec((gen::ows(), part(), gen::ows()), 1..6), 0..4).prop_map(Lines), check_cc_parse),
        law("cache_control_line", "lines of directives with up to three characters added, replaced, doubled or taken away, against an independent reader; non-trivial: some directive, or refused", 60_000, 4_000_000, cc_line, check_cc_line),
        law("clear_site_data", "lists of directives and wildcards over several lines, written, read back and parsed, with an unknown directive added; non-trivial: at least two directives", 30_000, 2_000_000,
            || (vec(vec((gen::ows(), any::<u8>(), gen::ows()), 1..5), 0..3),
                proptest::option::of((any::<u8>(), prop_oneof![proptest::sample::select(vec!["cache", "\"Cache\"", "*", "\"cookie\"", "\"storage", "\"*", "\"executioncontexts\"", "\"\"", "\"clientHints\""]).prop_map(String::from), gen::re("[!-+\\--~]{1,8}")]
                    .prop_filter("known", |s| !CLR.iter().any(|c| c.0 == s) && s != "\"*\"")))).prop_map(|(lines, junk)| Csd { lines, junk }),
            check_csd),
        law("age", "a number of seconds over the whole u64 range, and arbitrary text; non-trivial: at least 10 seconds and some text", 30_000, 2_000_000,
            || (secs(), 0u32..1_000_000_000, prop_oneof![gen::ascii_text(8), gen::re("[0-9]{1,25}"), gen::re("[+ -]?[0-9]{1,3}[ .]?[0-9]?")], vec(gen::ascii_text(6), 0..2)).prop_map(|(secs, nanos, junk, earlier)| A { secs, nanos, junk, earlier }),
            check_age),
    ]);
}
