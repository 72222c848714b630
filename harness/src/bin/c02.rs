//! C02: header names are ASCII and compare without case, header values are ASCII and keep their exact text.
use http_types::auth::{AuthenticationScheme, Authorization, WwwAuthenticate};
use http_types::conditional::ETag;
use http_types::content::{ContentLocation, ContentType, MediaTypeProposal};
use http_types::headers::{self, Header, HeaderName, HeaderValue, HeaderValues, Headers, ToHeaderValues};
use http_types::mime::Mime;
use http_types::other::{Referer, SourceMap};
use http_types::proxies::Forwarded;
use http_types::trace::{Metric, ServerTiming};
use http_types::cookies::Cookie;
use http_types::trailers::Trailers;
use http_types::{Method, Request, Response, Url};
use pbt::fw::*;
use pbt::{ck, ck_eq, gen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct N {
    bytes: Vec<u8>,
    text: String,
    other: String,
    mask: u64,
}

fn lower(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect()
}

fn check_name(n: &N) -> Check {
    let ascii = n.text.chars().all(|c| (c as u32) < 128);
    let a = HeaderName::from_str(&n.text);
    let b = HeaderName::from_string(n.text.clone());
    let c = HeaderName::from_bytes(n.text.clone().into_bytes());
    let d = no_panic(|| HeaderName::from(n.text.as_str()));
    for (ok, how) in [(a.is_ok(), "from_str"), (b.is_ok(), "from_string"), (c.is_ok(), "from_bytes"), (d.is_ok(), "From<&str>")] {
        ck_eq!(ok, ascii, "{} accepts {:?}", how, n.text);
    }
    let raw = HeaderName::from_bytes(n.bytes.clone());
    ck_eq!(raw.is_ok(), n.bytes.iter().all(|b| *b < 128), "from_bytes accepts {:?}", n.bytes);
    if let Ok(r) = raw {
        ck_eq!(r.as_str().as_bytes(), &n.bytes.to_ascii_lowercase()[..], "from_bytes text");
    }
    let (a, b, c, d) = match (a, b, c, d) {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        _ => {
            // a name that is not ASCII equals nothing
            let x = HeaderName::from("x");
            ck!(x != *n.text.as_str() && x != n.text.as_str() && x != n.text && x != &n.text, "equals a non-ASCII text");
            return Ok(true);
        }
    };
    let low = lower(&n.text);
    let re = gen::recase(&n.text, n.mask);
    let e = HeaderName::from_str(&re).map_err(|_| Fail::new("recased"))?;
    let f = HeaderName::from(&a);
    let g = a.clone();
    let u = unsafe { HeaderName::from_bytes_unchecked(re.clone().into_bytes()) };
    for (x, how) in [(&a, "from_str"), (&b, "from_string"), (&c, "from_bytes"), (&d, "from"), (&e, "recased"), (&f, "from ref"), (&g, "clone"), (&u, "unchecked")] {
        ck_eq!(x.as_str(), low.as_str(), "{} text", how);
        ck_eq!(x.to_string(), low, "{} Display", how);
        ck_eq!(format!("{:?}", x), format!("{:?}", low), "{} Debug", how);
        ck!(*x == a && h(x) == h(&a), "{}: not equal to, or hashes unlike, the same name", how);
        ck!(*x == *re.as_str() && *x == re.as_str() && *x == re && *x == &re, "{}: not equal to {:?}", how, re);
    }
    let same = low == lower(&n.other) && n.other.is_ascii();
    ck!((a == *n.other.as_str()) == same && (a == n.other.as_str()) == same && (a == n.other) == same && (a == &n.other) == same,
        "{:?} against text {:?}", n.text, n.other);
    if let Ok(o) = HeaderName::from_str(&n.other) {
        ck_eq!(a == o, same, "{:?} == {:?}", n.text, n.other);
    }
    // one entry, however it is spelled
    let mut res = Response::new(200);
    res.insert_header(n.text.as_str(), "1").map_err(|_| Fail::new("insert"))?;
    res.append_header(re.as_str(), "2").map_err(|_| Fail::new("append"))?;
    ck_eq!(res.header_names().count(), 1, "names after inserting {:?} and appending {:?}", n.text, re);
    ck_eq!(res.header(low.as_str()).map(|v| v.iter().count()), Some(2), "values");
    ck!(res[re.as_str()].contains(&HeaderValue::from_str("2").unwrap()), "index by {:?}", re);
    classify_if(n.text != low, "has upper case");
    Ok(n.text != low)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct V {
    bytes: Vec<u8>,
    text: String,
    other: String,
    pre: Vec<String>,
    how: u8,
}

fn dump(h: &Headers) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<_> = h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect::<Vec<_>>())).collect();
    v.sort();
    v
}

fn check_value(v: &V) -> Check {
    let ascii = v.text.chars().all(|c| (c as u32) < 128);
    let a = HeaderValue::from_str(&v.text);
    let b = HeaderValue::from_bytes(v.text.clone().into_bytes());
    let c = HeaderValue::try_from(v.text.as_str());
    let tup = no_panic(|| ("x-name", v.text.as_str()).header_value());
    for (ok, how) in [(a.is_ok(), "from_str"), (b.is_ok(), "from_bytes"), (c.is_ok(), "TryFrom"), (tup.is_ok(), "tuple")] {
        ck_eq!(ok, ascii, "{} accepts {:?}", how, v.text);
    }
    let raw = HeaderValue::from_bytes(v.bytes.clone());
    ck_eq!(raw.is_ok(), v.bytes.iter().all(|b| *b < 128), "from_bytes accepts {:?}", v.bytes);
    if let Ok(r) = raw {
        ck_eq!(r.as_str().as_bytes(), &v.bytes[..], "from_bytes text");
    }
    if let (Ok(a), Ok(b), Ok(c), Ok(t)) = (&a, &b, &c, &tup) {
        for (x, how) in [(a, "from_str"), (b, "from_bytes"), (c, "TryFrom"), (t, "tuple"), (&a.clone(), "clone")] {
            ck_eq!(x.as_str(), v.text.as_str(), "{} text", how);
            ck_eq!(x.to_string(), v.text, "{} Display", how);
            ck_eq!(format!("{:?}", x), format!("{:?}", v.text), "{} Debug", how);
            ck!(x == a && h(x) == h(a), "{}: equality", how);
            let same = v.text == v.other;
            ck!((*x == *v.other.as_str()) == same && (*x == v.other.as_str()) == same && (*x == v.other) == same && (*x == &v.other) == same,
                "{:?} against {:?}", v.text, v.other);
            ck!(*x == *v.text.as_str() && *x == v.text.as_str() && *x == v.text && *x == &v.text, "{:?} against itself", v.text);
        }
        let many = a.to_header_values().map_err(|_| Fail::new("values"))?.collect::<HeaderValues>();
        ck_eq!(HeaderValue::from(many).as_str(), v.text.as_str(), "HeaderValue from HeaderValues");
    }
    // every container refuses the whole call, or takes exactly this text
    let mut req = Request::new(Method::Get, "http://a.b/");
    let mut res = Response::new(200);
    let mut tr = Trailers::new();
    for p in &v.pre {
        req.append_header("x-a", p.as_str()).unwrap();
        res.append_header("x-a", p.as_str()).unwrap();
        tr.append("x-a", p.as_str()).unwrap();
    }
    req.append_header("x-b", "kept").unwrap();
    res.append_header("x-b", "kept").unwrap();
    tr.append("x-b", "kept").unwrap();
    let (insert, kind) = (v.how & 1 == 1, v.how >> 1);
    macro_rules! put {
        ($val:expr) => {{
            let (q, r, t) = if insert {
                (req.insert_header("X-A", $val).map(|_| ()), res.insert_header("X-A", $val).map(|_| ()), tr.insert("X-A", $val).map(|_| ()))
            } else {
                (req.append_header("X-A", $val), res.append_header("X-A", $val), tr.append("X-A", $val))
            };
            [(q.is_ok(), "request"), (r.is_ok(), "response"), (t.is_ok(), "trailers")]
        }};
    }
    let oks = match kind % 4 {
        0 => put!(v.text.as_str()),
        1 => put!(v.text.clone()),
        2 => put!(&v.text),
        _ => put!(Cow::Borrowed(v.text.as_str())),
    };
    let mut want: Vec<String> = if insert && ascii { vec![] } else { v.pre.clone() };
    if ascii {
        want.push(v.text.clone());
    }
    for ((ok, how), h) in oks.iter().zip([req.as_ref() as &Headers, res.as_ref(), &*tr]) {
        ck_eq!(*ok, ascii, "{} takes {:?}", how, v.text);
        let mut w = vec![("x-b".to_string(), vec!["kept".to_string()])];
        if !want.is_empty() {
            w.insert(0, ("x-a".to_string(), want.clone()));
        }
        ck_eq!(dump(h), w, "{} after {} {:?} (ok {})", how, if insert { "inserting" } else { "appending" }, v.text, ok);
    }
    classify_if(!ascii, "not ASCII");
    Ok(!v.text.is_empty())
}

macro_rules! consts {
    ($($n:ident)*) => { vec![$((stringify!($n), headers::$n)),*] };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct C {
    i: usize,
    mask: u64,
    value: String,
}

fn table() -> Vec<(&'static str, HeaderName)> {
    consts!(CONTENT_ENCODING CONTENT_LANGUAGE CONTENT_LENGTH CONTENT_LOCATION CONTENT_MD5 CONTENT_RANGE CONTENT_TYPE COOKIE SET_COOKIE
        TRANSFER_ENCODING DATE HOST ORIGIN ACCESS_CONTROL_MAX_AGE ACCESS_CONTROL_ALLOW_ORIGIN ACCESS_CONTROL_ALLOW_HEADERS
        ACCESS_CONTROL_ALLOW_METHODS ACCESS_CONTROL_EXPOSE_HEADERS ACCESS_CONTROL_REQUEST_METHOD ACCESS_CONTROL_REQUEST_HEADERS
        ACCESS_CONTROL_ALLOW_CREDENTIALS ACCEPT ACCEPT_CHARSET ACCEPT_ENCODING ACCEPT_LANGUAGE ACCEPT_RANGES AGE ALLOW AUTHORIZATION
        CACHE_CONTROL CLEAR_SITE_DATA CONNECTION ETAG EXPECT EXPIRES FORWARDED FROM IF_MATCH IF_MODIFIED_SINCE IF_NONE_MATCH IF_RANGE
        IF_UNMODIFIED_SINCE LAST_MODIFIED LOCATION MAX_FORWARDS PRAGMA PROXY_AUTHENTICATE PROXY_AUTHORIZATION PROXY_CONNECTION REFERER RETRY_AFTER SERVER
        SERVER_TIMING SOURCE_MAP STRICT_TRANSPORT_SECURITY TE TIMING_ALLOW_ORIGIN TRACEPARENT TRAILER UPGRADE USER_AGENT VARY VIA WARNING
        WWW_AUTHENTICATE)
}

fn check_const(c: &C) -> Check {
    let t = table();
    let (ident, name) = &t[c.i % t.len()];
    let text = match *ident {
        "SOURCE_MAP" => "sourcemap".to_string(),
        i => i.to_ascii_lowercase().replace('_', "-"),
    };
    ck_eq!(name.as_str(), text.as_str(), "text of {}", ident);
    let spelled = gen::recase(&text, c.mask);
    let mut req = Request::new(Method::Get, "http://a.b/");
    req.insert_header(name.clone(), c.value.as_str()).map_err(|_| Fail::new("insert"))?;
    ck_eq!(req.header(spelled.as_str()).map(|v| v.as_str().to_string()), Some(c.value.clone()), "{} read as {:?}", ident, spelled);
    let mut res = Response::new(200);
    res.insert_header(spelled.as_str(), c.value.as_str()).map_err(|_| Fail::new("insert"))?;
    ck_eq!(res.header(name).map(|v| v.as_str().to_string()), Some(c.value.clone()), "{:?} read as {}", spelled, ident);
    ck_eq!(res.remove_header(name).map(|v| v.as_str().to_string()), Some(c.value.clone()), "{:?} removed as {}", spelled, ident);
    ck!(res.header(spelled.as_str()).is_none(), "still there");
    Ok(spelled != text)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct T {
    kind: u8,
    text: String,
    text2: String,
}

fn check_typed(t: &T) -> Check {
    let x = t.text.clone();
    let y = t.text2.clone();
    let url = || Url::parse(&format!("http://example.com/{}?{}", x, y)).ok();
    // HeaderValues a user can get out of the typed values, with the kind of value.
    let mime = Mime::from_str(&format!("text/plain; a=\"{}\"", x.replace('"', "").replace('\\', "")));
    let (kind, v): (&str, Option<HeaderValue>) = match t.kind % 13 {
        0 => ("ETag", Some(ETag::Strong(x.clone()).header_value())),
        1 => ("Authorization", Some(Authorization::new(AuthenticationScheme::Bearer, x.clone()).header_value())),
        2 => ("WwwAuthenticate", Some(WwwAuthenticate::new(AuthenticationScheme::Basic, x.clone()).header_value())),
        3 => {
            let mut f = Forwarded::new();
            f.add_for(x.clone());
            f.set_by(y.clone());
            f.set_host(x.clone());
            f.set_proto(y.clone());
            ("Forwarded", Some(f.header_value()))
        }
        4 => ("Cookie", Some(HeaderValue::from(Cookie::new("name", x.clone())))),
        5 => ("Metric", Metric::new(x.clone(), None, Some(y.clone())).ok().map(HeaderValue::from)),
        6 => {
            let mut st = ServerTiming::new();
            match Metric::new(x.clone(), None, Some(y.clone())) {
                Ok(m) => {
                    st.push(m);
                    ("ServerTiming", Some(st.header_value()))
                }
                Err(_) => ("ServerTiming", None),
            }
        }
        7 => ("ContentLocation", url().map(|u| ContentLocation::new(u).header_value())),
        8 => ("Referer", url().map(|u| Referer::new(u).header_value())),
        9 => ("SourceMap", url().map(|u| SourceMap::new(u).header_value())),
        10 => ("Mime", mime.ok().map(HeaderValue::from)),
        11 => ("ContentType", mime.ok().map(|m| ContentType::new(m).header_value())),
        _ => ("MediaTypeProposal", mime.ok().and_then(|m| MediaTypeProposal::new(m, None).ok()).map(HeaderValue::from)),
    };
    let ascii = x.is_ascii() && y.is_ascii();
    if let Some(v) = v {
        classify(kind);
        if !v.as_str().is_ascii() {
            ck!(!ascii, "{} made from ASCII {:?} and {:?} is {:?}", kind, x, y, v.as_str());
            return Err(Fail::sig(&format!("C02/nonascii/{}", kind), format!("{} made from {:?} and {:?} is {:?}, which is not ASCII", kind, x, y, v.as_str())));
        }
        return Ok(!ascii || kind != "Cookie");
    }
    classify("refused");
    Ok(!ascii)
}

fn main() {
    let text = || prop_oneof![4 => gen::ascii_text(12), 2 => gen::ascii_any(12), 3 => gen::any_text(8), 2 => gen::re("[A-Za-z-]{1,12}"),
        1 => (gen::re("[A-Za-z-]{0,6}"), prop_oneof![Just('\u{212a}'), Just('\u{17f}'), Just('\u{130}'), Just('\u{df}'), Just('\u{80}'), Just('\u{ff}')], gen::re("[A-Za-z-]{0,6}")).prop_map(|(a, c, b)| format!("{}{}{}", a, c, b))];
    // long, with other characters only at the ends
    let text = move || prop_oneof![12 => text(), 1 => (gen::re("[\\x00-\\x20]{0,2}"), "[a-zA-Z0-9-]", gen::many(), gen::re("[\\x00-\\x20\\x7f-\\x80]{0,3}")).prop_map(|(a, c, n, b)| format!("{}{}{}", a, c.repeat(n), b))];
    let bytes = || prop_oneof![gen::vec(any::<u8>(), 0..8), gen::vec(0u8..128, 0..12), (gen::vec(0u8..128, 0..6), 128u8..=255, gen::vec(0u8..128, 0..6)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a })];
    pbt::fw::main("C02", vec![
        law("name", "text and bytes through every constructor of header names, and a second spelling; non-trivial: not ASCII, or with upper-case letters", 40_000, 4_000_000,
            move || (bytes(), text(), proptest::option::of(text()), any::<u64>()).prop_map(|(bytes, text, other, mask)| { let other = other.unwrap_or_else(|| gen::recase(&text, mask.rotate_left(7))); N { bytes, text, other, mask } }), check_name),
        law("value", "text and bytes through every constructor of header values, then inserted into or appended to a request, a response and trailers that already hold values; non-trivial: not empty", 40_000, 4_000_000,
            move || (bytes(), text(), proptest::option::of(text()), gen::vec(gen::re("[a-z]{0,4}"), 0..3), any::<u8>()).prop_map(|(bytes, text, other, pre, how)| { let other = other.unwrap_or_else(|| text.clone()); V { bytes, text, other, pre, how } }), check_value),
        law("constants", "a predefined header name and a spelling of its text; non-trivial: the spelling is not all lower case", 20_000, 1_000_000,
            || (any::<usize>(), any::<u64>(), gen::re("[a-z]{0,4}")).prop_map(|(i, mask, value)| C { i, mask, value }), check_const),
        law("typed", "text put into a typed header or value, or refused by it, then the header value made from it; non-trivial: text that is not ASCII, or a kind that quotes or encodes", 40_000, 2_000_000,
            move || (any::<u8>(), text(), text()).prop_map(|(kind, text, text2)| T { kind, text, text2 }), check_typed),
    ]);
}
