//! C20: security headers. A content security policy says exactly what it was given, however often it is
//! applied; Strict-Transport-Security and Timing-Allow-Origin round trip and are read by their grammar;
//! the one-call protections set what they document and nothing else.
use http_types::headers::{HeaderValue, Headers};
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, ReportTo, Source, StrictTransportSecurity, TimingAllowOrigin};
use http_types::{Method, Request, Response, Url};
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, gen};
use pbt::gen::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

type Map = BTreeMap<String, Vec<String>>;
fn dump(h: &Headers) -> Map {
    h.iter().map(|(n, vs)| (n.as_str().to_string(), vs.iter().map(|v: &HeaderValue| v.as_str().to_string()).collect())).collect()
}

// ---------------------------------------------------------------- content security policy

const SOURCES: &[(Source, &str)] = &[
    (Source::SameOrigin, "'self'"),
    (Source::Src, "'src'"),
    (Source::None, "'none'"),
    (Source::UnsafeInline, "'unsafe-inline'"),
    (Source::Data, "data:"),
    (Source::Mediastream, "mediastream:"),
    (Source::Https, "https:"),
    (Source::Blob, "blob:"),
    (Source::Filesystem, "filesystem:"),
    (Source::StrictDynamic, "'strict-dynamic'"),
    (Source::UnsafeEval, "'unsafe-eval'"),
    (Source::Wildcard, "*"),
];
const DIRECTIVES: &[&str] = &[
    "base-uri", "connect-src", "default-src", "font-src", "form-action", "frame-ancestors", "frame-src", "img-src", "media-src", "object-src",
    "plugin-types", "require-sri-for", "report-uri", "sandbox", "script-src", "style-src", "worker-src",
];

fn directive<T: AsRef<str>>(p: &mut ContentSecurityPolicy, i: usize, s: T) {
    match i {
        0 => p.base_uri(s),
        1 => p.connect_src(s),
        2 => p.default_src(s),
        3 => p.font_src(s),
        4 => p.form_action(s),
        5 => p.frame_ancestors(s),
        6 => p.frame_src(s),
        7 => p.img_src(s),
        8 => p.media_src(s),
        9 => p.object_src(s),
        10 => p.plugin_types(s),
        11 => p.require_sri_for(s),
        12 => p.report_uri(s),
        13 => p.sandbox(s),
        14 => p.script_src(s),
        15 => p.style_src(s),
        _ => p.worker_src(s),
    };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Csp {
    Named(u8, u8),
    Text(u8, String),
    Block,
    Upgrade,
    ReportOnly,
    ReportTo(Vec<(Option<String>, i32, Vec<String>, Option<bool>)>),
    Apply(u8),
    Clone,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CspCase {
    default: bool,
    ops: Vec<Csp>,
}

fn check_csp(c: &CspCase) -> Check {
    let mut p = if c.default { ContentSecurityPolicy::default() } else { ContentSecurityPolicy::new() };
    let mut alone: Vec<String> = vec![];
    let mut dirs: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    if c.default {
        alone.push("script-src 'self'".into());
        alone.push("object-src 'self'".into());
    }
    let mut report_only = false;
    let mut applied = 0;
    let mut res = Response::new(200);
    res.insert_header("x-other", "kept").unwrap();
    let mut ops = c.ops.clone();
    ops.push(Csp::Apply(0));
    for (i, op) in ops.iter().enumerate() {
        match op {
            Csp::Named(d, s) => {
                let d = *d as usize % DIRECTIVES.len();
                let (s, t) = SOURCES[*s as usize % SOURCES.len()];
                ck_eq!(s.to_string(), t.to_string(), "text of {:?}", s);
                ck_eq!(AsRef::<str>::as_ref(&s), t, "text of {:?}", s);
                directive(&mut p, d, s);
                dirs.entry(DIRECTIVES[d]).or_default().push(t.into());
            }
            Csp::Text(d, t) => {
                let d = *d as usize % DIRECTIVES.len();
                directive(&mut p, d, t);
                dirs.entry(DIRECTIVES[d]).or_default().push(t.clone());
            }
            Csp::Block => {
                p.block_all_mixed_content();
                alone.push("block-all-mixed-content".into());
            }
            Csp::Upgrade => {
                p.upgrade_insecure_requests();
                alone.push("upgrade-insecure-requests".into());
            }
            Csp::ReportOnly => {
                p.report_only();
                report_only = true;
            }
            Csp::ReportTo(v) => {
                let mut r: Vec<ReportTo> = vec![];
                for (g, n, es, sub) in v {
                    let mut m = serde_json::json!({"max_age": n, "endpoints": es.iter().map(|e| serde_json::json!({"url": e})).collect::<Vec<_>>()});
                    if let Some(g) = g {
                        m["group"] = g.clone().into();
                    }
                    if let Some(b) = sub {
                        m["include_subdomains"] = (*b).into();
                    }
                    let x: ReportTo = serde_json::from_value(m.clone()).map_err(|e| Fail::new(e.to_string()))?;
                    ck_eq!(serde_json::to_value(&x).ok(), Some(m), "ReportTo as JSON");
                    alone.push(format!("report-to {}", serde_json::to_string(&x).unwrap()));
                    r.push(x);
                }
                p.report_to(r);
            }
            Csp::Clone => {
                let q = p.clone();
                ck!(q == p, "a cloned policy differs");
                p = q;
            }
            Csp::Apply(k) => {
                applied += 1;
                let mut other = Request::new(Method::Get, "http://a.b/");
                match k % 3 {
                    0 => p.apply(&mut res),
                    1 => p.apply(AsMut::<Headers>::as_mut(&mut res)),
                    _ => {
                        p.apply(&mut other);
                        let v: Vec<String> = dump(other.as_ref()).into_values().flatten().collect();
                        p.apply(&mut res);
                        let n = if report_only { "content-security-policy-report-only" } else { "content-security-policy" };
                        ck_eq!(Some(&v), dump(res.as_ref()).get(n), "the same policy on two messages");
                    }
                }
                let mut want = alone.clone();
                want.extend(dirs.iter().map(|(d, s)| format!("{} {}", d, s.join(" "))));
                want.sort();
                let mut m = dump(res.as_ref());
                let n = if report_only { "content-security-policy-report-only" } else { "content-security-policy" };
                let got = m.remove(n).unwrap_or_default();
                ck_eq!(got.len(), 1, "number of values of {}", n);
                let mut parts: Vec<String> = got[0].split("; ").map(String::from).collect();
                if !dirs.is_empty() && !c.default {
                    let mut s = parts.clone();
                    s.sort();
                    ck!(s == parts, "the directives of {:?} are not in order", got[0]);
                }
                parts.sort();
                if want.is_empty() {
                    want.push(String::new());
                }
                ck_eq!(parts, want, "directives after step {}", i);
                if report_only {
                    // switched over after being applied: start from a clean message again
                    m.remove("content-security-policy");
                }
                ck_eq!(m.len(), 1, "other headers");
                ck_eq!(m.get("x-other"), Some(&vec!["kept".to_string()]), "other header");
            }
        }
    }
    classify_if(report_only, "report only");
    classify_if(applied > 1, "applied more than once");
    classify_if(dirs.values().any(|v| v.len() > 1), "several sources");
    Ok(applied > 1 && !dirs.is_empty() || dirs.len() > 1)
}

/// Sources that a header cannot hold.
fn check_csp_text(t: &String) -> Check {
    let mut p = ContentSecurityPolicy::new();
    p.default_src(t);
    let mut res = Response::new(200);
    match no_panic(move || {
        p.apply(&mut res);
        res
    }) {
        Ok(r) => {
            ck_eq!(r["content-security-policy"].as_str(), &format!("default-src {}", t), "policy");
            Ok(true)
        }
        Err(e) if !t.is_ascii() => Err(Fail::sig("C20/csp-nonascii", format!("applying a policy with source {:?} panics: {}", t, e))),
        Err(e) => Err(Fail::new(format!("applying a policy with source {:?} panics: {}", t, e))),
    }
}

// ---------------------------------------------------------------- strict transport security

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sts {
    secs: u64,
    nanos: u32,
    sub: bool,
    preload: bool,
    /// directives as another server may write them, in order
    text: Vec<(u8, String, String, u64)>,
    bad: Option<String>,
    earlier: Vec<String>,
}

const STS: &str = "strict-transport-security";

fn check_sts(c: &Sts) -> Check {
    let d = Duration::new(c.secs, c.nanos % 1_000_000_000);
    let mut h = StrictTransportSecurity::from(d);
    ck_eq!((h.max_age(), h.include_subdomains(), h.preload()), (d, false, false), "new");
    ck_eq!(Duration::from(StrictTransportSecurity::new(d)), d, "into Duration");
    let def = StrictTransportSecurity::default();
    ck_eq!((def.max_age().as_secs(), def.include_subdomains(), def.preload()), (31536000, false, true), "default");
    h.set_include_subdomains(c.sub);
    h.set_preload(c.preload);
    h.set_max_age(d);
    ck_eq!((h.max_age(), h.include_subdomains(), h.preload()), (d, c.sub, c.preload), "after the setters");
    let v = emit(&h, STS)?;
    let mut lines = c.earlier.clone();
    lines.push(v.clone());
    let back = no_err(StrictTransportSecurity::from_headers(hdrs(STS, &lines)), "reading it back")?;
    match back {
        None => pbt::fail!("{:?} is not read back", v),
        Some(b) => ck_eq!((b.max_age().as_secs(), b.include_subdomains(), b.preload()), (c.secs, c.sub, c.preload), "read back from {:?}", v),
    }
    ck!(no_err(StrictTransportSecurity::from_headers(no_headers()), "no header")?.is_none(), "no header");

    // text: at most one of each directive
    let mut parts = vec![];
    let (mut age, mut sub, mut pre) = (None, false, false);
    for (k, ws, ws2, m) in &c.text {
        let s = match k % 5 {
            0 if age.is_none() => {
                age = Some(c.secs ^ m);
                let n = c.secs ^ m;
                let q = if m % 3 == 0 { format!("\"{}\"", n) } else { n.to_string() };
                format!("{}{}={}{}", gen::recase("max-age", *m), ws, ws2, q)
            }
            1 => {
                sub = true;
                gen::recase("includesubdomains", *m)
            }
            2 => {
                pre = true;
                gen::recase("preload", *m)
            }
            3 => "x-unknown=5".into(),
            _ => ["", "max-ages", "includesubdomainsx", "pre-load"][*m as usize % 4].into(),
        };
        parts.push(format!("{}{}{}", ws, s, ws2));
    }
    let text = parts.join(";");
    let r = StrictTransportSecurity::from_headers(hdrs(STS, &[&text]));
    match (r, age) {
        (Ok(Some(b)), Some(a)) => ck_eq!((b.max_age(), b.include_subdomains(), b.preload()), (Duration::from_secs(a), sub, pre), "read from {:?}", text),
        (Err(e), None) => is_400(&e, &format!("{:?}", text))?,
        (r, a) => pbt::fail!("{:?} gives {:?}, expected max-age {:?}", text, r.map_err(|e| e.to_string()), a),
    }
    if let Some(b) = &c.bad {
        let text = format!("max-age={}", b);
        if b.trim().trim_matches('"').parse::<u64>().is_err() && !b.contains(';') {
            match StrictTransportSecurity::from_headers(hdrs(STS, &[&text])) {
                Err(e) => is_400(&e, &format!("{:?}", text))?,
                Ok(r) => pbt::fail!("{:?} gives {:?}", text, r),
            }
        }
    }
    classify_if(c.sub, "subdomains");
    classify_if(age.is_none(), "text without max-age");
    Ok(c.sub || c.preload || age.is_some())
}

/// One line and what it says: None when it has to be refused, Err when the grammar leaves room.
fn read_sts(t: &str) -> Result<Option<(u64, bool, bool)>, ()> {
    let ws = |c| c == ' ' || c == '\t';
    let (mut age, mut sub, mut pre, mut bad) = (None, false, false, false);
    for d in t.split(';') {
        let d = d.trim_matches(ws);
        let (k, v) = match d.split_once('=') {
            Some((k, v)) => (k.trim_matches(ws).to_ascii_lowercase(), Some(v.trim_matches(ws))),
            None => (d.to_ascii_lowercase(), None),
        };
        if t.contains('"') && (d.matches('"').count() % 2 == 1 || k.contains('"')) {
            return Err(());
        }
        match (k.as_str(), v) {
            ("includesubdomains", None) => sub = true,
            ("preload", None) => pre = true,
            ("includesubdomains", _) | ("preload", _) => return Err(()),
            ("max-age", Some(v)) => {
                if age.is_some() || bad || v.starts_with('+') {
                    return Err(());
                }
                let n = match v.strip_prefix('"').and_then(|v| v.strip_suffix('"')) {
                    Some(n) if n.starts_with('+') || n.trim_matches(ws) != n => return Err(()),
                    Some(n) => n,
                    None => v,
                };
                match n.parse::<u64>() {
                    Ok(n) => age = Some(n),
                    Err(_) => bad = true,
                }
            }
            _ => {}
        }
    }
    Ok(if bad { None } else { age.map(|a| (a, sub, pre)) })
}

fn check_sts_line(t: &String) -> Check {
    let want = match read_sts(t) {
        Ok(w) => w,
        Err(()) => {
            classify("left open");
            return Ok(false);
        }
    };
    match (StrictTransportSecurity::from_headers(hdrs(STS, &[t])), want) {
        (Ok(Some(b)), Some(w)) => ck_eq!((b.max_age(), b.include_subdomains(), b.preload()), (Duration::from_secs(w.0), w.1, w.2), "read from {:?}", t),
        (Err(e), None) => is_400(&e, &format!("{:?}", t))?,
        (r, w) => pbt::fail!("{:?} gives {:?}, expected {:?}", t, r.map_err(|e| e.to_string()), w),
    }
    classify_if(want.is_none(), "refused");
    Ok(true)
}

fn sts_line() -> BoxedStrategy<String> {
    let d = (0u8..6, gen::edge_u64(), any::<u64>(), gen::ows(), gen::ows()).prop_map(|(k, n, m, a, b)| {
        let s = match k {
            0 | 1 => format!("{}={}", gen::recase("max-age", m), n),
            2 => format!("{}=\"{}\"", gen::recase("max-age", m), n),
            3 => gen::recase("includesubdomains", m),
            4 => gen::recase("preload", m),
            _ => "x=max-age".into(),
        };
        format!("{}{}{}", a, s, b)
    });
    gen::edited(vec(d, 1..4).prop_map(|v| v.join(";")).boxed(), "==;;;,,\"\" \t-_+.019esxX:'")
}

// ---------------------------------------------------------------- timing allow origin

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tao {
    origins: Vec<String>,
    wildcard: bool,
    /// lines of elements with whitespace: an index into the origins, or something else
    lines: Vec<Vec<(u8, String, String)>>,
    bad: String,
}
const TAO: &str = "timing-allow-origin";

fn check_tao(c: &Tao) -> Check {
    let urls: Vec<Url> = c.origins.iter().map(|o| Url::parse(o).expect("harness url")).collect();
    let mut t = TimingAllowOrigin::new();
    ck!(!t.wildcard() && t.iter().next().is_none(), "a new value is not empty");
    for u in &urls {
        t.push(u.clone());
    }
    ck!(!t.wildcard(), "a new value has a wildcard");
    if c.wildcard {
        t.set_wildcard(true);
    } else if t.iter().count() % 2 == 1 {
        t.set_wildcard(true);
        t.set_wildcard(false);
    }
    let v = emit(&t, TAO)?;
    let back = no_err(TimingAllowOrigin::from_headers(hdrs(TAO, &[&v])), "reading it back")?;
    let mut back = match back {
        Some(b) => b,
        None => pbt::fail!("{:?} is not read back", v),
    };
    ck!(back == t, "read back from {:?}: {:?} {}", v, back, back.wildcard());
    pbt::walk!(back, urls, |u| u.clone(), "origins");
    for u in back.iter_mut() {
        u.set_path("/x");
    }
    for (a, b) in (&mut back).into_iter().zip(&urls) {
        let mut b = b.clone();
        b.set_path("/x");
        ck_eq!(*a, b, "edited origin");
    }
    ck_eq!(run_out(back.into_iter(), urls.len(), "into_iter")?.into_iter().map(|u| u.host_str().map(String::from)).collect::<Vec<_>>(), urls.iter().map(|u| u.host_str().map(String::from)).collect::<Vec<_>>(), "origins by value");
    ck!(no_err(TimingAllowOrigin::from_headers(no_headers()), "no header")?.is_none(), "no header");

    let mut want = vec![];
    let mut wild = false;
    let mut lines = vec![];
    for l in &c.lines {
        let mut parts = vec![];
        for (k, a, b) in l {
            let k = *k as usize;
            let s = if k < urls.len() {
                want.push(urls[k].clone());
                c.origins[k].clone()
            } else {
                match k % 3 {
                    0 => {
                        wild = true;
                        "*".into()
                    }
                    1 => "null".into(),
                    _ => String::new(),
                }
            };
            parts.push(format!("{}{}{}", a, s, b));
        }
        lines.push(parts.join(","));
    }
    if !lines.is_empty() {
        let r = no_err(TimingAllowOrigin::from_headers(hdrs(TAO, &lines)), &format!("{:?}", lines))?;
        let r = match r {
            Some(r) => r,
            None => pbt::fail!("{:?} is not read", lines),
        };
        ck_eq!((r.wildcard(), r.iter().cloned().collect::<Vec<_>>()), (wild, want.clone()), "read from {:?}", lines);
    }
    if Url::parse(c.bad.trim()).is_err() && !["", "*", "null", "\"null\""].contains(&c.bad.trim()) && !c.bad.contains(',') {
        lines.push(format!("*, {}", c.bad));
        match TimingAllowOrigin::from_headers(hdrs(TAO, &lines)) {
            Err(e) => is_400(&e, &format!("{:?}", lines))?,
            Ok(r) => pbt::fail!("{:?} gives {:?}", lines, r),
        }
        classify("malformed");
    }
    Ok(urls.len() > 1 || want.len() > 1)
}

// ---------------------------------------------------------------- presets

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Preset {
    Default,
    Dns,
    Frame(Option<bool>),
    Powered(Option<String>),
    Hsts,
    NoSniff,
    Xss,
    Referrer(Option<u8>),
    Header(u8, u64, String),
}
const NAMES: &[&str] = &[
    "x-dns-prefetch-control", "x-frame-options", "x-powered-by", "strict-transport-security", "x-content-type-options", "x-xss-protection", "referrer-policy", "x-other", "server", "via", "set-cookie", "date", "content-security-policy", "content-type", "x-powered-by-too", "cache-control", "content-security-policy-report-only", "host", "timing-allow-origin", "content-length",
];
const REFERRER: &[(ReferrerOptions, &str)] = &[
    (ReferrerOptions::NoReferrer, "no-referrer"),
    (ReferrerOptions::NoReferrerDowngrade, "no-referrer-when-downgrade"),
    (ReferrerOptions::SameOrigin, "same-origin"),
    (ReferrerOptions::Origin, "origin"),
    (ReferrerOptions::StrictOrigin, "strict-origin"),
    (ReferrerOptions::CrossOrigin, "origin-when-cross-origin"),
    (ReferrerOptions::StrictCrossOrigin, "strict-origin-when-cross-origin"),
    (ReferrerOptions::UnsafeUrl, "unsafe-url"),
];

fn check_presets(ops: &Vec<Preset>) -> Check {
    let mut req = Request::new(Method::Get, "http://a.b/");
    let mut res = Response::new(200);
    let mut m = Map::new();
    for (i, op) in ops.iter().enumerate() {
        let mut set = |n: &str, v: &str| {
            m.insert(n.to_string(), vec![v.to_string()]);
        };
        macro_rules! both {
            ($f:expr) => {{
                $f(&mut req as &mut dyn AsMutH);
                $f(&mut res as &mut dyn AsMutH);
            }};
        }
        match op {
            Preset::Default => {
                both!(|h: &mut dyn AsMutH| security::default(h.h()));
                set(NAMES[0], "on");
                set(NAMES[4], "nosniff");
                set(NAMES[1], "sameorigin");
                set(NAMES[3], "max-age=5184000");
                set(NAMES[5], "1; mode=block");
                m.remove(NAMES[2]);
            }
            Preset::Dns => {
                both!(|h: &mut dyn AsMutH| security::dns_prefetch_control(h.h()));
                set(NAMES[0], "on");
            }
            Preset::Frame(o) => {
                let g = o.map(|d| if d { FrameOptions::Deny } else { FrameOptions::SameOrigin });
                both!(|h: &mut dyn AsMutH| security::frameguard(h.h(), g));
                set(NAMES[1], if *o == Some(true) { "deny" } else { "sameorigin" });
            }
            Preset::Powered(v) => {
                both!(|h: &mut dyn AsMutH| security::powered_by(h.h(), v.as_ref().map(|v| HeaderValue::from_bytes(v.clone().into_bytes()).unwrap())));
                match v {
                    Some(v) => set(NAMES[2], v),
                    None => {
                        m.remove(NAMES[2]);
                    }
                }
            }
            Preset::Hsts => {
                both!(|h: &mut dyn AsMutH| security::hsts(h.h()));
                set(NAMES[3], "max-age=5184000");
            }
            Preset::NoSniff => {
                both!(|h: &mut dyn AsMutH| security::nosniff(h.h()));
                set(NAMES[4], "nosniff");
            }
            Preset::Xss => {
                both!(|h: &mut dyn AsMutH| security::xss_filter(h.h()));
                set(NAMES[5], "1; mode=block");
            }
            Preset::Referrer(o) => {
                let o = o.map(|o| REFERRER[o as usize % REFERRER.len()]);
                both!(|h: &mut dyn AsMutH| security::referrer_policy(h.h(), o.map(|o| o.0)));
                // several values are allowed
                m.entry(NAMES[6].into()).or_default().push(o.map(|o| o.1).unwrap_or("no-referrer").into());
            }
            Preset::Header(n, mask, v) => {
                let n = NAMES[*n as usize % NAMES.len()];
                let name = gen::recase(n, *mask);
                req.append_header(name.as_str(), v.as_str()).unwrap();
                res.append_header(name.as_str(), v.as_str()).unwrap();
                m.entry(n.into()).or_default().push(v.clone());
            }
        }
        ck_eq!(dump(req.as_ref()), m, "request headers after step {} ({:?})", i, op);
        ck_eq!(dump(res.as_ref()), m, "response headers after step {} ({:?})", i, op);
        for n in NAMES {
            ck_eq!(res.header(*n).is_some(), m.contains_key(*n), "{} present after step {}", n, i);
        }
    }
    let headers = ops.iter().filter(|o| matches!(o, Preset::Header(..))).count();
    Ok(headers > 0 && headers < ops.len())
}

trait AsMutH {
    fn h(&mut self) -> &mut Headers;
}
impl AsMutH for Request {
    fn h(&mut self) -> &mut Headers {
        self.as_mut()
    }
}
impl AsMutH for Response {
    fn h(&mut self) -> &mut Headers {
        self.as_mut()
    }
}

fn main() {
    let src = || prop_oneof![gen::re("[a-z*.:/]{1,8}"), gen::re("'nonce-[a-zA-Z0-9]{2,6}'"), gen::re("[!-+\\--:<-~]{1,6}")];
    let csp = move || {
        prop_oneof![
            6 => (any::<u8>(), any::<u8>()).prop_map(|(d, s)| Csp::Named(d, s)),
            6 => (any::<u8>(), src()).prop_map(|(d, s)| Csp::Text(d, s)),
            1 => Just(Csp::Block),
            1 => Just(Csp::Upgrade),
            1 => Just(Csp::ReportOnly),
            1 => vec((option::of(gen::re("[a-z]{1,4}")), any::<i32>(), vec(gen::re("[a-z:/.]{0,6}"), 0..3), option::of(any::<bool>())), 0..3).prop_map(Csp::ReportTo),
            4 => any::<u8>().prop_map(Csp::Apply),
            1 => Just(Csp::Clone),
        ]
    };
    let secs = || gen::edge_u64();
    let origin = || prop_oneof![
        ("(http|https)", "(a|b|example)\\.(com|org)", option::of(1u16..65535)).prop_map(|(s, h, p)| format!("{}://{}{}", s, h, p.map(|p| format!(":{}", p)).unwrap_or_default())),
        (gen::re("[a-z]{1,8}"), "[a-z]{0,3}", "[a-z]{1,3}").prop_map(|(a, b, c)| format!("{}{}:{}", a, b, c)).prop_filter("a URL", |u| Url::parse(u).map_or(false, |p| p.as_str() == u)),
        Just("https://[::1]:8080".to_string()), Just("http://127.0.0.1".to_string()), Just("https://xn--bcher-kva.example".to_string()), Just("HTTPS://EXAMPLE.com".to_string()),
    ];
    let preset = || prop_oneof![
        Just(Preset::Default), Just(Preset::Dns), option::of(any::<bool>()).prop_map(Preset::Frame), option::of(gen::ascii_text(5)).prop_map(Preset::Powered),
        Just(Preset::Hsts), Just(Preset::NoSniff), Just(Preset::Xss), option::of(any::<u8>()).prop_map(Preset::Referrer),
        (any::<u8>(), any::<u64>(), gen::ascii_text(4)).prop_map(|(n, m, v)| Preset::Header(n, m, v)),
        (any::<u8>(), any::<u64>(), gen::ascii_text(4)).prop_map(|(n, m, v)| Preset::Header(n, m, v)),
    ];
    pbt::fw::main("C20", vec![
        law("policy", "a content security policy built from directives, sources, flags and reports, applied in between and at the end; non-trivial: at least two directives, or applied more than once", 40_000, 2_000_000,
            move || (proptest::bool::weighted(0.2), vec(csp(), 0..12)).prop_map(|(default, ops)| CspCase { default, ops }), check_csp),
        law("policy_text", "a source of any text; non-trivial: one that a header can hold", 10_000, 200_000, move || prop_oneof![2 => src(), 1 => gen::any_text(4)], check_csp_text),
        law("hsts", "a Strict-Transport-Security value over the whole range, earlier lines, directives in any order and letter case, and malformed numbers; non-trivial: more than max-age", 40_000, 2_000_000,
            move || ((secs(), any::<u32>(), any::<bool>(), any::<bool>()), vec((any::<u8>(), gen::ows(), gen::ows(), any::<u64>()), 0..6), option::of(prop_oneof![gen::re("[0-9]{18,22}"), gen::re("-?[0-9]{0,3}[a-z.]?"), gen::ascii_text(5)]), vec("(max-age=1|preload|x)", 0..2))
                .prop_map(|((secs, nanos, sub, preload), text, bad, earlier)| Sts { secs, nanos, sub, preload, text, bad, earlier }), check_sts),
        law("hsts_line", "one line of directives with up to three characters added, replaced, doubled or taken away, against an independent reader; non-trivial: not left open", 40_000, 2_000_000, sts_line, check_sts_line),
        law("timing_allow_origin", "lists of origins with wildcards, null and empty elements over several lines, and malformed elements; non-trivial: at least two origins", 40_000, 2_000_000,
            move || (vec(origin(), 0..4), any::<bool>(), vec(vec((0u8..8, gen::ows(), gen::ows()), 1..4), 0..3), prop_oneof![gen::re("[a-z.]{0,6}"), gen::ascii_text(6)])
                .prop_map(|(origins, wildcard, lines, bad)| Tao { origins, wildcard, lines, bad }), check_tao),
        law("presets", "sequences of protections on a request and a response that already have headers, against a model; non-trivial: both headers and protections", 30_000, 1_000_000,
            move || vec(preset(), 1..10), check_presets),
    ]);
}
