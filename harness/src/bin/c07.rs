//! C07: untrusted header values. Whatever the header lines of a message hold, reading them as any typed header
//! never panics, refuses as a client error, and what was read writes a value that reads back the same.
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, ClearDirective, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfModifiedSince, IfNoneMatch, IfUnmodifiedSince, LastModified, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType};
use http_types::headers::{Header, HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{ServerTiming, TraceContext};
use http_types::transfer::{TransferEncoding, TE};
use http_types::{Method, Request, Response, StatusCode, Url, Version};
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::str::FromStr;

type Read = fn(&Headers) -> Result<Option<String>, Refused>;

struct Refused {
    status: StatusCode,
    text: String,
}

impl From<http_types::Error> for Refused {
    fn from(e: http_types::Error) -> Self {
        let _ = format!("{:?} {:#?} {:?}", e, e, e.type_name());
        Refused { status: e.status(), text: e.to_string() }
    }
}

struct Kind {
    name: &'static str,
    read: Read,
    dict: &'static [&'static str],
    /// The refusal is documented as not being a client error.
    server_error: bool,
}

fn written<H: Header>(h: &H) -> String {
    let v = h.header_value();
    let mut res = Response::new(200);
    h.apply_header(&mut res);
    let applied: Vec<String> = res.header(h.header_name()).map(|vs| vs.iter().map(|v| v.as_str().to_string()).collect()).unwrap_or_default();
    assert_eq!(applied, [v.as_str()], "apply_header and header_value");
    v.as_str().to_string()
}

macro_rules! kind {
    ($t:ty, $name:expr, $dict:expr) => {
        Kind { name: $name, read: |h| Ok(<$t>::from_headers(h)?.map(|v| { let _ = format!("{:?}", v); written(&v) })), dict: $dict, server_error: false }
    };
}

const DATES: &[&str] = &["Sun, ", "Sunday, ", "Sun ", "06", "-Nov-", " Nov ", "Nov  6", "1994", "94", " 08:49:37", "24:00:00", "60", ":", " GMT", " ", "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "31 Feb 2000", "29 Feb 1900", "0000", "9999", "é", "1", "-", "\""];
const ENCODINGS: &[&str] = &["gzip", "br", "deflate", "identity", "zstd", "chunked", "trailers", "compress", "*", ", ", ",", ";q=", "; q=", ";Q=", "gzip;q", "br;foo", "*;q", "*;foo=1", "0.5", "1", "0", "1.0000", "2", "-1", "nan", "inf", "1e-1", "q", "x"];
const ETAGS: &[&str] = &["\"", "W/", "w/", "\"a\"", "W/\"b\"", "*", ", ", ",", "a", "\\", "\"\"", "W/\"", "é"];
const NUMS: &[&str] = &["0", "1", "9", "-", "+", " ", "18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999999", ".", "1e3", "a"];
const URLS: &[&str] = &["http://", "https://a.b/", "/", "..", "?q", "#f", "//h", "a", ":", "[", "]", "%", "@", "\\", " ", "data:", "\u{1}"];
const MIMES: &[&str] = &["text", "/", "html", "*", "application/json", ";", " ", "charset", "=", "utf-8", "\"", "\\", "a=b", "q=0.5", ",", ";q=", "q=2", ";q", "*/*;q", "a", "+", "\t", "text/html", "text/html; charset=utf-8", "image/*;q=0.5", "*/*"];
const FORWARDED: &[&str] = &["for=", "by=", "host=", "proto=", "For=", "10.0.0.1", "\"[::1]:80\"", "\"", "\\", ";", ",", ", ", "unknown", "_x", "x=y", "=", "a", " ", "\"a,b;c\"", "for=\"a"];

fn kinds() -> Vec<Kind> {
    vec![
        kind!(Authorization, "authorization", &["Basic", "Bearer", "basic", " ", "  ", "YTpi", "=", "x", "Digest", "\t"]),
        kind!(BasicAuth, "authorization", &["Basic", "Bearer", "basic", "BASIC", " ", "YTpi", "YTo=", "OmI=", "Og==", "gICA", "=", "YWI=", "x", "/", "+", "Basic YTpi", "Basic OmI=", "Basic Zm9vOmJhcjpiYXo="]),
        kind!(WwwAuthenticate, "www-authenticate", &["Basic", "Bearer", "Digest", " ", "realm=", "realm", "=", "\"", "\"a\"", ", ", ",", "charset=\"UTF-8\"", "charset=", "UTF-8", "x", "\\", "é", "Basic realm=\"a b\", charset=\"UTF-8\"", "Digest realm=\"x\"", "Basic realm="]),
        kind!(Age, "age", NUMS),
        kind!(CacheControl, "cache-control", &["no-cache", "max-age", "max-stale", "min-fresh", "s-maxage", "private", "public", "immutable", "stale-while-revalidate", "stale-if-error", "no-store", "no-transform", "only-if-cached", "must-revalidate", "proxy-revalidate", "=", "\"", ",", ", ", "0", "5", "-", "18446744073709551615", "18446744073709551616", "foo"]),
        kind!(ClearSiteData, "clear-site-data", &["\"cache\"", "\"cookies\"", "\"storage\"", "\"executionContexts\"", "\"*\"", "*", ",", ", ", "\"", "cache", "\"x\""]),
        kind!(Expires, "expires", DATES),
        kind!(ETag, "etag", ETAGS),
        kind!(IfMatch, "if-match", ETAGS),
        kind!(IfNoneMatch, "if-none-match", ETAGS),
        kind!(IfModifiedSince, "if-modified-since", DATES),
        kind!(IfUnmodifiedSince, "if-unmodified-since", DATES),
        kind!(LastModified, "last-modified", DATES),
        kind!(Vary, "vary", &["*", "accept", "Accept-Encoding", ",", ", ", " ", "x", "é", "\u{1}", "\"", "é"]),
        kind!(Accept, "accept", MIMES),
        kind!(AcceptEncoding, "accept-encoding", ENCODINGS),
        kind!(ContentEncoding, "content-encoding", ENCODINGS),
        kind!(ContentLength, "content-length", NUMS),
        Kind { name: "content-location", read: |h| Ok(ContentLocation::from_headers(Url::parse("http://base.example/x/y").unwrap(), h)?.map(|v| written(&v))), dict: URLS, server_error: false },
        kind!(ContentType, "content-type", MIMES),
        kind!(Date, "date", DATES),
        kind!(Expect, "expect", &["100-continue", "100-continue", "100-Continue", "100", " ", ",", "x"]),
        Kind { name: "referer", read: |h| Ok(Referer::from_headers(Url::parse("http://base.example/x/y").unwrap(), h)?.map(|v| written(&v))), dict: URLS, server_error: true },
        kind!(RetryAfter, "retry-after", &["0", "120", "18446744073709551615", "18446744073709551616", "-1", "+5", "1.5", " ", "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "a", "4294967295"]),
        Kind { name: "sourcemap", read: |h| Ok(SourceMap::from_headers(Url::parse("http://base.example/x/y").unwrap(), h)?.map(|v| written(&v))), dict: URLS, server_error: true },
        Kind { name: "forwarded", read: |h| match Forwarded::from_headers(h) {
            Ok(f) => Ok(f.map(|f| { let _ = format!("{:?}", f); let o = f.clone().into_owned(); assert_eq!(written(&o), written(&f), "into_owned"); written(&f) })),
            Err(e) => Err(http_types::Error::from(e).into()),
        }, dict: FORWARDED, server_error: true },
        kind!(StrictTransportSecurity, "strict-transport-security", &["max-age", "Max-Age", "=", "0", "5", "31536000", "\"", ";", "; ", "includeSubDomains", "preload", "max-age=5; includeSubDomains", "max-age=5", "max-age=\"7\";preload", "18446744073709551615", "18446744073709551616", "x", "-1", "1.5"]),
        kind!(TimingAllowOrigin, "timing-allow-origin", &["*", "null", ",", ", ", "https://a.b", "http://c.d/", " ", "x", ":", "http://", "https://[", "@"]),
        kind!(Allow, "allow", &["GET", "get", "POST", "PUT", ",", ", ", " ", "x", "BASELINE-CONTROL", "M-SEARCH", "DELETE"]),
        kind!(ServerTiming, "server-timing", &["a", "cache", ";", "; ", ",", ", ", "dur", "=", "desc", "1", "0.5", "-1", "nan", "inf", "1e300", "1e10", "\"", "\\", "x y", "é", "dur=2.4", "desc=\"a,b;c\""]),
        kind!(TraceContext, "traceparent", &["00", "01", "ff", "-", "0af7651916cd43dd8448eb211c80319c", "b7ad6b7169203331", "00000000000000000000000000000000", "0000000000000000", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "é", "+", "g"]),
        kind!(TransferEncoding, "transfer-encoding", ENCODINGS),
        kind!(TE, "te", ENCODINGS),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lines {
    kind: usize,
    lines: Vec<String>,
    /// another header of the same message
    #[serde(default)]
    other: Option<(String, String)>,
}

/// Methods that are allowed have no order.
fn canon(name: &str, v: &str) -> Vec<String> {
    // a trace context that was read names a new span
    if name == "traceparent" {
        return v.split('-').enumerate().filter(|(i, _)| *i != 2).map(|(_, p)| p.to_string()).collect();
    }
    if name != "allow" {
        return vec![v.to_string()];
    }
    let mut v: Vec<String> = v.split(", ").map(String::from).collect();
    v.sort();
    v
}

fn check_typed(kinds: &[Kind], c: &Lines) -> Check {
    let k = &kinds[c.kind % kinds.len()];
    let h = hdrs(k.name, &c.lines);
    let read = (k.read)(&h);
    // reading does not depend on other headers, and changes nothing
    if let Some((n, v)) = &c.other {
        if !n.eq_ignore_ascii_case(k.name) {
            let mut more = h.clone();
            more.insert(n.as_str(), v.as_str()).unwrap();
            let show = |r: &Result<Option<String>, Refused>| match r {
                Ok(v) => format!("{:?}", v.as_ref().map(|v| canon(k.name, v))),
                Err(e) => format!("refused with {:?}", e.status),
            };
            ck_eq!(show(&(k.read)(&more)), show(&read), "{} {:?} with {} {:?}", k.name, c.lines, n, v);
            ck_eq!(show(&(k.read)(&h)), show(&read), "{} {:?} read again", k.name, c.lines);
        }
    }
    let v = match read {
        Ok(Some(v)) => v,
        Ok(None) => fail!("{} {:?} is read as absent", k.name, c.lines),
        Err(e) => {
            let s = u16::from(e.status);
            ck!((400..500).contains(&s) || (k.server_error && s == 500), "{} {:?} is refused with status {}: {}", k.name, c.lines, s, e.text);
            return Ok(false);
        }
    };
    classify(k.name);
    ck!(v.is_ascii() && v.chars().all(|x| !"\r\n\0".contains(x) || c.lines.iter().any(|l| l.contains(x))), "{} {:?} is written as {:?}", k.name, c.lines, v);
    // a quote in a metric name is malformed, and left open
    if k.name == "server-timing" && ServerTiming::from_headers(&h).ok().flatten().map_or(false, |t| t.iter().any(|m| m.name().contains('"'))) {
        return Ok(true);
    }
    match (k.read)(&hdrs(k.name, &[v.as_str()])) {
        Ok(Some(w)) => ck_eq!(canon(k.name, &w), canon(k.name, &v), "{} {:?} is written as {:?}, which is read and written again", k.name, c.lines, v),
        Ok(None) => fail!("{} {:?} is written as {:?}, which is read as absent", k.name, c.lines, v),
        Err(e) => fail!("{} {:?} is written as {:?}, which is refused: {}", k.name, c.lines, v, e.text),
    }
    Ok(true)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Message {
    headers: Vec<(usize, Vec<String>)>,
    peer: Option<String>,
}

const NAMES: &[&str] = &["host", "forwarded", "x-forwarded-for", "x-forwarded-by", "x-forwarded-proto", "x-forwarded-host", "content-type", "content-length", "transfer-encoding", "trailer", "connection", "upgrade", "cookie", "set-cookie", "content-security-policy"];

/// The conveniences of messages themselves.
fn check_message(kinds: &[Kind], m: &Message) -> Check {
    let mut req = Request::new(Method::Post, "http://u.example/p");
    let mut res = Response::new(200);
    req.set_peer_addr(m.peer.as_ref());
    for (n, lines) in &m.headers {
        let n = if *n < NAMES.len() { NAMES[*n] } else { kinds[(*n - NAMES.len()) % kinds.len()].name };
        for l in lines {
            let v = HeaderValue::from_bytes(l.as_bytes().to_vec()).expect("ascii value");
            req.append_header(n, v.clone()).unwrap();
            res.append_header(n, v.clone()).unwrap();
        }
    }
    let copy = req.clone();
    let _ = (req.content_type(), res.content_type(), req.has_trailers(), res.has_trailers());
    let _ = (format!("{:?}", req), format!("{:?}", res));
    let (host, remote) = (req.host().map(String::from), req.remote().map(String::from));
    // a host or an address is something the message says, not made up
    let texts: Vec<&str> = m.headers.iter().flat_map(|h| h.1.iter().map(|s| s.as_str())).collect();
    if let Some(h) = &host {
        ck!(h == "u.example" || texts.iter().any(|t| t.contains(h.as_str())), "host {:?}", h);
    }
    if let Some(r) = &remote {
        ck!(m.peer.as_deref() == Some(r) || texts.iter().any(|t| t.contains(r.as_str())), "remote {:?}", r);
    }
    ck!(host.is_some(), "no host");
    for k in kinds {
        let _ = (k.read)(req.as_ref()).is_ok();
    }
    for h in [Forwarded::from_forwarded_header(&req).ok().flatten(), Forwarded::from_x_headers(&req).ok().flatten()].into_iter().flatten() {
        let _ = (format!("{:?}", h), written(&h), h.forwarded_for().len(), h.by(), h.host(), h.proto());
    }
    // reading leaves the message alone
    for n in copy.header_names() {
        ck_eq!(req.header(n).map(|v| v.to_string()), copy.header(n).map(|v| v.to_string()), "header {}", n);
    }
    if let Some(m) = req.content_type() {
        let _ = (m.essence().to_string(), m.to_string(), m.param("charset").map(|p| p.to_string()));
        req.set_content_type(m);
    }
    let _ = req.len();
    Ok(m.headers.len() > 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Txt {
    s: String,
    n: u16,
    bytes: Vec<u8>,
}

/// Types that are read from text or bytes directly.
fn check_text(t: &Txt) -> Check {
    let s = t.s.as_str();
    let mut ok = 0;
    macro_rules! from_str {
        ($t:ty, $show:expr) => {
            match <$t>::from_str(s) {
                Ok(v) => {
                    ok += 1;
                    let text: String = $show(&v);
                    classify(stringify!($t));
                    match <$t>::from_str(&text) {
                        Ok(w) => ck_eq!($show(&w), text, "{} of {:?}", stringify!($t), s),
                        Err(e) => fail!("{} of {:?} is {:?}, which is refused: {}", stringify!($t), s, text, e),
                    }
                }
                Err(e) => drop(format!("{} {:?}", e, e)),
            }
        };
    }
    from_str!(Mime, |m: &Mime| m.to_string());
    from_str!(Method, |m: &Method| m.to_string());
    from_str!(HeaderName, |m: &HeaderName| m.to_string());
    from_str!(HeaderValue, |m: &HeaderValue| m.to_string());
    from_str!(AuthenticationScheme, |m: &AuthenticationScheme| m.to_string());
    from_str!(ClearDirective, |m: &ClearDirective| m.to_string());
    match Forwarded::parse(s) {
        Ok(f) => ck!(written(&f).is_ascii() || !s.is_ascii(), "Forwarded {:?}", s),
        Err(e) => drop(e.to_string()),
    }
    if let Ok(c) = StatusCode::try_from(t.n) {
        ck_eq!(u16::from(c), t.n, "status");
    }
    ck_eq!(HeaderName::from_bytes(t.bytes.clone()).is_ok(), t.bytes.is_ascii(), "name of {:?}", t.bytes);
    match HeaderValue::from_bytes(t.bytes.clone()) {
        Ok(v) => ck_eq!(v.as_str().as_bytes(), &t.bytes[..], "value of {:?}", t.bytes),
        Err(e) => {
 let _ = e.to_string();
            ck!(!t.bytes.is_ascii(), "value of {:?}", t.bytes)
        }
    }
    let _ = Mime::sniff(&t.bytes).map(|m| m.to_string());
    let _ = Mime::from_extension(s);
    let _ = Version::from_str_or_none(s);
    Ok(ok > 2)
}

trait VersionText {
    fn from_str_or_none(s: &str) -> Option<String>;
}
impl VersionText for Version {
    fn from_str_or_none(s: &str) -> Option<String> {
        serde_json::from_value::<Version>(serde_json::Value::String(s.into())).ok().map(|v| v.to_string())
    }
}

fn line(dict: &'static [&'static str]) -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(proptest::sample::select(dict), 0..8).prop_map(|v| v.concat()),
        3 => gen::soup(dict, 8),
        1 => gen::ascii_any(12),
        2 => proptest::sample::select(dict).prop_map(String::from),
        // one sensible value with something cut out or repeated
        2 => (vec(proptest::sample::select(dict), 1..4), any::<u16>(), any::<u16>()).prop_map(|(v, a, b)| {
            let s: String = v.concat();
            let at = |n: u16| (0..=s.len()).filter(|i| s.is_char_boundary(*i)).cycle().nth(n as usize).unwrap_or(0);
            format!("{}{}", &s[..at(a % 40)], &s[at(b % 40)..])
        }),
        // many different elements
        1 => (proptest::sample::select(dict), proptest::sample::select(dict), proptest::sample::select(vec![",", ", ", ";", "; ", " ", "-", "/", ""]), gen::many())
            .prop_map(|(a, b, sep, n)| (0..n).map(|i| format!("{}{}{}", a, i, b)).collect::<Vec<_>>().join(sep)),
    ].prop_map(|s| s.chars().filter(|c| c.is_ascii()).collect::<String>()).boxed()
}

fn main() {
    let n = kinds().len();
    let lines = move || (0..n).prop_flat_map(|k| (Just(k), prop_oneof![4 => vec(line(kinds()[k].dict), 1), 1 => vec(line(kinds()[k].dict), 2..4)]));
    pbt::fw::main("C07", vec![
        law("typed", "1-3 header lines built from the vocabulary of one of 33 typed headers, cut up and mixed with any ASCII; non-trivial: the lines are accepted", 400_000, 40_000_000,
            move || (lines(), proptest::option::of((gen::header_name(), prop_oneof![line(FORWARDED), line(NUMS), gen::ascii_text(6)]))).prop_map(|((kind, lines), other)| Lines { kind, lines, other }), { let k = kinds(); move |c| check_typed(&k, c) }),
        law("message", "a request and a response carrying several such headers, read through every convenience; non-trivial: more than two headers", 60_000, 4_000_000,
            move || {
                let other = prop_oneof![line(FORWARDED), line(MIMES), line(NUMS), gen::ascii_any(8)];
                let h = prop_oneof![2 => lines().prop_map(|(k, l)| (k + NAMES.len(), l)), 2 => (0..NAMES.len(), vec(other, 1..3))];
                (vec(h, 0..5), proptest::option::of(gen::re("[0-9.:]{1,9}"))).prop_map(|(headers, peer)| Message { headers, peer })
            }, { let k = kinds(); move |c| check_message(&k, c) }),
        law("text", "any text and any bytes read as a media type, method, header name or value, authentication scheme, Clear-Site-Data directive, Forwarded, status code; non-trivial: more than two of them accept it", 150_000, 10_000_000,
            || (prop_oneof![gen::any_text(10), line(MIMES), line(FORWARDED), gen::token(), gen::re("(GET|get|Basic|bearer|cache|\"cache\"|\"cookies\"|[A-Z-]{3,8}|[A-Za-z-]{3,14})")], any::<u16>(), prop_oneof![vec(any::<u8>(), 0..20), vec(0u8..128, 0..20)])
                .prop_map(|(s, n, bytes)| Txt { s, n, bytes }), check_text),
    ]);
}
