//! C13: messages keep what was set on them, and a request's remote address and host come from the
//! documented sources in the documented order.
use http_types::headers::Headers;
use http_types::{Method, Request, Response, StatusCode, Url, Version};
use pbt::fw::*;
use pbt::gen;
use pbt::ck_eq;
use pbt::gen::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    key: u8,
    value: String,
    quote: bool,
    mask: u64,
    comma: bool,
    ws: [String; 2],
    esc: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct A {
    url_host: u8,
    forwarded: Option<Vec<Pair>>,
    x_for: Option<Vec<Vec<(String, String, String)>>>,
    x_host: Option<Vec<Vec<(String, String, String)>>>,
    host: Option<String>,
    peer: Option<String>,
    mask: u64,
}

const URLS: &[(&str, Option<&str>)] = &[
    ("http://example.com/a", Some("example.com")),
    ("https://[::1]:80/", Some("[::1]")),
    ("data:text/plain,x", None),
    ("unix:/var/run", None),
    ("http://user:pw@h.example:8080/?q", Some("h.example")),
    ("http://1.2.3.4/", Some("1.2.3.4")),
];

fn check_address(a: &A) -> Check {
    let (url, url_host) = URLS[a.url_host as usize % URLS.len()];
    let mut req = Request::new(Method::Get, url);
    let (mut f_for, mut f_host) = (None, None);
    if let Some(pairs) = &a.forwarded {
        let mut text = String::new();
        for (i, p) in pairs.iter().enumerate() {
            let key = ["for", "host", "by", "proto", "ext"][p.key as usize % 5];
            if i > 0 {
                text.push(if p.comma { ',' } else { ';' });
            }
            // whitespace is allowed around commas
            text.push_str(&p.ws[0]);
            text.push_str(&gen::recase(key, p.mask));
            text.push('=');
            if !p.esc.is_empty() && !matches!(key, "for" | "host") {
                // escapes in a pair nobody asked for
                classify("escape in another pair");
                text.push('"');
                for c in p.esc.chars() {
                    if c == '"' || c == '\\' || p.mask & 1 == 1 {
                        text.push('\\');
                    }
                    text.push(c);
                }
                text.push('"');
            } else if p.quote || p.value.is_empty() || p.value.bytes().any(|c| b";,\" =".contains(&c)) {
                text.push_str(&format!("\"{}\"", p.value));
            } else {
                text.push_str(&p.value);
            }
            text.push_str(&p.ws[1]);
            match key {
                "for" if f_for.is_none() => f_for = Some(p.value.clone()),
                "host" if f_host.is_none() => f_host = Some(p.value.clone()),
                _ => {}
            }
        }
        req.insert_header(gen::recase("forwarded", a.mask).as_str(), text.as_str()).unwrap();
    }
    let xs = |req: &mut Request, name: &str, l: &Option<Vec<Vec<(String, String, String)>>>| {
        let mut first = None;
        for line in l.iter().flatten() {
            let t: Vec<String> = line.iter().map(|(a, v, b)| format!("{}{}{}", a, v, b)).collect();
            req.append_header(gen::recase(name, a.mask >> 9).as_str(), t.join(",")).unwrap();
            first = first.or_else(|| line.first().map(|x| x.1.clone()));
        }
        first
    };
    let x_for = xs(&mut req, "x-forwarded-for", &a.x_for);
    let x_host = xs(&mut req, "x-forwarded-host", &a.x_host);
    if let Some(h) = &a.host {
        req.insert_header("Host", h.as_str()).unwrap();
    }
    req.set_peer_addr(a.peer.clone());
    let sources = [f_for.is_some(), x_for.is_some(), a.peer.is_some(), f_host.is_some(), x_host.is_some(), a.host.is_some()];
    ck_eq!(req.peer_addr(), a.peer.as_deref(), "peer_addr");
    for r in [&req, &req.clone()] {
        ck_eq!(r.remote().map(String::from), f_for.clone().or(x_for.clone()).or(a.peer.clone()), "remote with {:?}", r);
        ck_eq!(r.host().map(String::from), f_host.clone().or(x_host.clone()).or(a.host.clone()).or(url_host.map(String::from)), "host with {:?}", r);
    }
    for (s, n) in sources.iter().zip(["remote: Forwarded", "remote: X-Forwarded-For", "remote: peer", "host: Forwarded", "host: X-Forwarded-Host", "host: Host"]) {
        classify_if(*s, n);
    }
    Ok(sources.iter().filter(|s| **s).count() > 1)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Method(u8),
    Status(u16),
    Version(Option<u8>),
    Url(u8),
    Path(String),
    Query(Option<String>),
    Peer(Option<String>),
    Local(Option<String>),
    Insert(u8, String),
    Append(u8, String),
    Remove(u8),
    MapInsert(u8, String),
    Ext(u32),
    Body(Option<String>),
    Clone,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct S {
    ops: Vec<Op>,
    short: u8,
}
const VERSIONS: &[Version] = &[Version::Http0_9, Version::Http1_0, Version::Http1_1, Version::Http2_0, Version::Http3_0];
const METHODS: &[Method] = &[Method::Get, Method::Head, Method::Post, Method::Put, Method::Delete, Method::Connect, Method::Options, Method::Trace, Method::Patch];
const NAMES: &[&str] = &["x-a", "x-b", "accept", "host"];

#[derive(Debug, Clone, PartialEq)]
struct M {
    method: Method,
    status: StatusCode,
    url: Url,
    version: Option<Version>,
    peer: Option<String>,
    local: Option<String>,
    headers: BTreeMap<String, Vec<String>>,
    ext: Option<u32>,
    len: Option<u64>,
}

fn dump(h: &Headers) -> BTreeMap<String, Vec<String>> {
    h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect())).collect()
}

fn check_state(s: &S) -> Check {
    let url = URLS[0].0;
    let shorts: &[(fn(&str) -> Request, Method)] = &[(|u| Request::get(u), Method::Get), (|u| Request::head(u), Method::Head), (|u| Request::post(u), Method::Post), (|u| Request::put(u), Method::Put), (|u| Request::delete(u), Method::Delete), (|u| Request::connect(u), Method::Connect), (|u| Request::options(u), Method::Options), (|u| Request::trace(u), Method::Trace), (|u| Request::patch(u), Method::Patch)];
    let (mk, method) = shorts[s.short as usize % shorts.len()];
    let mut req = mk(url);
    let mut res = Response::new(StatusCode::Ok);
    let mut m = M { method, status: StatusCode::Ok, url: Url::parse(url).unwrap(), version: None, peer: None, local: None, headers: BTreeMap::new(), ext: None, len: Some(0) };
    let mut sets = 0;
    // a few names that come up often, and any in use
    let in_use: Vec<&str> = gen::HEADER_NAMES.split_whitespace().collect();
    let names = |n: u8| if n < 160 { NAMES[n as usize % NAMES.len()] } else { in_use[((n - 160) as usize / 8 + s.short as usize) % in_use.len()] };
    for op in &s.ops {
        sets += 1;
        match op {
            Op::Method(i) => {
                m.method = METHODS[*i as usize % METHODS.len()];
                req.set_method(m.method);
            }
            Op::Status(c) => match StatusCode::try_from(*c) {
                Ok(c) => {
                    m.status = c;
                    res.set_status(c);
                }
                Err(_) => sets -= 1,
            },
            Op::Version(v) => {
                m.version = v.map(|v| VERSIONS[v as usize % VERSIONS.len()]);
                req.set_version(m.version);
                res.set_version(m.version);
            }
            Op::Url(i) => {
                m.url = Url::parse(URLS[*i as usize % URLS.len()].0).unwrap();
                *req.url_mut() = m.url.clone();
            }
            Op::Path(p) => {
                m.url.set_path(p);
                req.url_mut().set_path(p);
            }
            Op::Query(q) => {
                m.url.set_query(q.as_deref());
                req.url_mut().set_query(q.as_deref());
            }
            Op::Peer(p) => {
                m.peer = p.clone();
                req.set_peer_addr(p.clone());
                res.set_peer_addr(p.clone());
            }
            Op::Local(p) => {
                m.local = p.clone();
                req.set_local_addr(p.as_ref());
                res.set_local_addr(p.as_ref());
            }
            Op::Insert(n, v) | Op::MapInsert(n, v) => {
                let n = names(*n);
                let old = m.headers.insert(n.to_string(), vec![v.clone()]);
                let (a, b) = if matches!(op, Op::Insert(..)) {
                    (req.insert_header(n, v.as_str()).unwrap(), res.insert_header(n, v.as_str()).unwrap())
                } else {
                    let (q, r): (&mut Headers, &mut Headers) = (req.as_mut(), res.as_mut());
                    (q.insert(n, v.as_str()).unwrap(), r.insert(n, v.as_str()).unwrap())
                };
                for o in [a, b] {
                    ck_eq!(o.map(|o| o.iter().map(|v| v.to_string()).collect::<Vec<_>>()), old, "replaced values of {}", n);
                }
            }
            Op::Append(n, v) => {
                let n = names(*n);
                m.headers.entry(n.to_string()).or_default().push(v.clone());
                req.append_header(n, v.as_str()).unwrap();
                res.append_header(n, v.as_str()).unwrap();
            }
            Op::Remove(n) => {
                let n = names(*n);
                let old = m.headers.remove(n);
                for o in [req.remove_header(n), res.remove_header(n)] {
                    ck_eq!(o.map(|o| o.iter().map(|v| v.to_string()).collect::<Vec<_>>()), old, "removed values of {}", n);
                }
            }
            Op::Ext(x) => {
                ck_eq!(req.ext_mut().insert(*x), m.ext, "replaced extension");
                ck_eq!(res.ext_mut().insert(*x), m.ext, "replaced extension");
                m.ext = Some(*x);
            }
            Op::Body(b) => {
                let (a, c) = match b {
                    Some(b) => {
                        m.len = Some(b.len() as u64);
                        if !m.headers.contains_key("content-type") {
                            m.headers.insert("content-type".into(), vec!["application/octet-stream".into()]);
                        }
                        (req.replace_body(b.as_bytes()), res.replace_body(b.as_bytes()))
                    }
                    None => {
                        m.len = Some(0);
                        // whether taking the body of a message without a content type gives it one is left open
                        if m.headers.insert("content-type".into(), vec!["text/x".into()]).is_none() {
                            classify("taken without content type");
                        }
                        req.insert_header("content-type", "text/x").unwrap();
                        res.insert_header("content-type", "text/x").unwrap();
                        (req.take_body(), res.take_body())
                    }
                };
                ck_eq!(a.len(), c.len(), "old body");
            }
            Op::Clone => {
                classify("clone");
                let (q, r) = (req.clone(), res.clone());
                // a clone has the head of the message, and an empty body and no extensions
                m.ext = None;
                m.len = Some(0);
                req = q;
                res = r;
                ck_eq!(req.has_trailers() || res.has_trailers() || res.has_upgrade(), false, "trailers of a clone");
            }
        }
        ck_eq!(req.method(), m.method, "method after {:?}", op);
        ck_eq!(req.url(), &m.url, "url after {:?}", op);
        ck_eq!(res.status(), m.status, "status after {:?}", op);
        ck_eq!(req.version(), m.version, "version after {:?}", op);
        ck_eq!(res.version(), m.version, "version after {:?}", op);
        ck_eq!(req.peer_addr(), m.peer.as_deref(), "peer after {:?}", op);
        ck_eq!(res.peer_addr(), m.peer.as_deref(), "peer after {:?}", op);
        ck_eq!(req.local_addr(), m.local.as_deref(), "local after {:?}", op);
        ck_eq!(res.local_addr(), m.local.as_deref(), "local after {:?}", op);
        ck_eq!(dump(req.as_ref()), m.headers, "request headers after {:?}", op);
        ck_eq!(dump(res.as_ref()), m.headers, "response headers after {:?}", op);
        ck_eq!(req.ext().get::<u32>(), m.ext.as_ref(), "extension after {:?}", op);
        ck_eq!(res.ext().get::<u32>(), m.ext.as_ref(), "extension after {:?}", op);
        ck_eq!(req.len(), m.len, "length after {:?}", op);
        ck_eq!(res.len(), m.len, "length after {:?}", op);
        ck_eq!(req.is_empty(), m.len.map(|l| l == 0), "is_empty after {:?}", op);
        ck_eq!(res.is_empty(), m.len.map(|l| l == 0), "is_empty after {:?}", op);
    }
    ck_eq!(dump(&(&req).into_iter().fold(Response::new(200), |mut r, (n, v)| { r.insert_header(n, v).unwrap(); r }).as_ref()), m.headers, "iteration");
    Ok(sets > 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Made {
    kind: u8,
    method: u8,
    code: u16,
    url: String,
    content: String,
}

/// Every way of making a message gives one with just what was named.
fn check_made(c: &Made) -> Check {
    use futures_lite::future::block_on;
    use http_types::Body;
    // requests
    let url = Url::parse(&c.url).map_err(|_| Fail::new("harness url"))?;
    let method = ALL_METHODS.split(' ').nth(c.method as usize % 39).unwrap().parse::<Method>().map_err(|e| Fail::new(e.to_string()))?;
    type Mk<U> = &'static [(Method, fn(U) -> Request)];
    fn shorts<U: TryInto<Url>>() -> Mk<U> where U::Error: std::fmt::Debug, U: 'static {
        &[(Method::Get, |u| Request::get(u)), (Method::Head, |u| Request::head(u)), (Method::Post, |u| Request::post(u)), (Method::Put, |u| Request::put(u)), (Method::Delete, |u| Request::delete(u)), (Method::Connect, |u| Request::connect(u)), (Method::Options, |u| Request::options(u)), (Method::Trace, |u| Request::trace(u)), (Method::Patch, |u| Request::patch(u))]
    }
    let k = c.kind as usize % 10;
    let (method, req) = match (k, c.code % 2) {
        (9, 0) => (method, Request::new(method, url.clone())),
        (9, _) => (method, Request::new(method, c.url.as_str())),
        (_, 0) => (shorts::<Url>()[k].0, shorts::<Url>()[k].1(url.clone())),
        _ => (shorts::<&'static str>()[k].0, {
            let text: &'static str = Box::leak(c.url.clone().into_boxed_str());
            let r = shorts::<&'static str>()[k].1(text);
            // SAFETY: made by leaking just above, and nothing keeps it
            drop(unsafe { Box::from_raw(text as *const str as *mut str) });
            r
        }),
    };
    ck_eq!(req.method(), method, "method, kind {}", k);
    ck_eq!(req.url(), &url, "url, kind {}", k);
    ck_eq!((req.version(), req.peer_addr(), req.local_addr(), req.len(), req.is_empty(), req.has_trailers()), (None, None, None, Some(0), Some(true), false), "a new request");
    let fresh = dump(req.as_ref());
    ck_eq!(fresh, dump(Request::new(method, url.clone()).as_ref()), "headers of a new request, kind {}", k);
    // responses
    let codes: Vec<StatusCode> = (100..600u16).filter_map(|n| StatusCode::try_from(n).ok()).collect();
    let code = codes[c.code as usize % codes.len()];
    let text = c.content.as_str();
    let plain = Some("text/plain;charset=utf-8");
    let octets = Some("application/octet-stream");
    let json = || serde_json::Value::String(text.to_string());
    let (res, status, bytes, mime): (Response, _, Vec<u8>, _) = match c.kind % 12 {
        0 => (Response::new(code), code, vec![], None),
        1 => (Response::new(u16::from(code)), code, vec![], None),
        2 => (code.into(), code, vec![], None),
        3 => (().into(), StatusCode::NoContent, vec![], None),
        4 => (text.into(), StatusCode::Ok, text.into(), plain),
        5 => (text.to_string().into(), StatusCode::Ok, text.into(), plain),
        6 => (text.as_bytes().to_vec().into(), StatusCode::Ok, text.into(), octets),
        7 => (text.as_bytes().into(), StatusCode::Ok, text.into(), octets),
        8 => (json().into(), StatusCode::Ok, json().to_string().into(), Some("application/json")),
        9 => (Body::from_string(text.to_string()).into(), StatusCode::Ok, text.into(), plain),
        10 => (Body::from_bytes(text.into()).into(), StatusCode::Ok, text.into(), octets),
        _ => (Body::from_json(&text).unwrap().into(), StatusCode::Ok, json().to_string().into(), Some("application/json")),
    };
    let mut res = res;
    ck_eq!(res.status(), status, "status of a response, kind {}", c.kind % 12);
    ck_eq!((res.version(), res.peer_addr(), res.local_addr(), res.has_trailers(), res.has_upgrade()), (None, None, None, false, false), "a new response");
    ck_eq!((res.len(), res.is_empty()), (Some(bytes.len() as u64), Some(bytes.is_empty())), "length of a response, kind {}", c.kind % 12);
    if let Some(mime) = mime {
        ck_eq!(dump(res.as_ref()), BTreeMap::from([("content-type".to_string(), vec![mime.to_string()])]), "headers of a response, kind {}", c.kind % 12);
    }
    ck_eq!(block_on(res.take_body().into_bytes()).map_err(|e| Fail::new(e.to_string()))?, bytes, "content of a response, kind {}", c.kind % 12);
    Ok(!bytes.is_empty() || k == 9)
}
const ALL_METHODS: &str = "ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL";

fn main() {
    let addr = || prop_oneof![gen::re("[a-z0-9.]{1,6}"), proptest::sample::select(vec!["127.0.0.1:8001", "[2001:db8::1]:80", "unknown", "_hidden", "example.com"]).prop_map(String::from)];
    let list = move || option::weighted(0.5, vec(vec((gen::re("[ \t]{0,2}"), addr(), gen::re("[ \t]{0,2}")), 1..3), 1..3));
    let text = || prop_oneof![6 => gen::re("[a-z:0-9]{1,5}"), 1 => gen::any_text(6)];
    let value = || prop_oneof![6 => gen::re("[a-z]{0,4}"), 1 => gen::ascii_any(6)];
    pbt::fw::main("C13", vec![
        law("made", "a request and a response made in one of the many ways; non-trivial: a response with content, or a request of any method", 10_000, 400_000,
            || (any::<u8>(), any::<u8>(), any::<u16>(), (any::<u8>(), gen::re("/?[a-z/%]{0,6}"), option::of(gen::re("[a-z=&]{0,6}"))), gen::any_text(5)).prop_map(|(kind, method, code, (u, p, q), content)| {
                let mut url = Url::parse(URLS[u as usize % URLS.len()].0).unwrap();
                url.set_path(&p);
                url.set_query(q.as_deref());
                Made { kind, method, code, url: url.to_string(), content }
            }), check_made),
        law("address", "a request with any of the seven sources of an address; Forwarded with several elements, pairs, quoting and letter case; non-trivial: at least two sources present", 40_000, 3_000_000,
            move || (any::<u8>(), option::weighted(0.6, vec((any::<u8>(), prop_oneof![4 => addr(), 1 => gen::re("[a-z;,= ]{0,5}")], any::<bool>(), any::<u64>(), any::<bool>(), gen::re("[ \t]{0,2}"), gen::re("[ \t]{0,2}"), prop_oneof![2 => Just(String::new()), 1 => gen::re("[\"\\\\;,=a ]{1,4}")]).prop_map(|(key, value, quote, mask, comma, a, b, esc)| Pair { key, value, quote, mask, comma, ws: [a, b], esc }), 0..5)), list(), list(), option::of(addr()), option::of(addr()), any::<u64>())
                .prop_map(|(url_host, forwarded, x_for, x_host, host, peer, mask)| A { url_host, forwarded, x_for, x_host, host, peer, mask }), check_address),
        law("state", "a sequence of changes to a request and a response, compared after each step with a model; non-trivial: more than two changes", 20_000, 1_000_000,
            move || (vec(prop_oneof![
                any::<u8>().prop_map(Op::Method), (95u16..600).prop_map(Op::Status), option::of(any::<u8>()).prop_map(Op::Version), any::<u8>().prop_map(Op::Url), gen::re("/?[a-z/%]{0,6}").prop_map(Op::Path), option::of(gen::re("[a-z=&]{0,6}")).prop_map(Op::Query),
                option::of(text()).prop_map(Op::Peer), option::of(text()).prop_map(Op::Local), (any::<u8>(), value()).prop_map(|(a, b)| Op::Insert(a, b)), (any::<u8>(), value()).prop_map(|(a, b)| Op::Append(a, b)), any::<u8>().prop_map(Op::Remove), (any::<u8>(), gen::re("[a-z]{0,4}")).prop_map(|(a, b)| Op::MapInsert(a, b)),
                any::<u32>().prop_map(Op::Ext), option::of(gen::re("[a-z]{0,5}")).prop_map(Op::Body), Just(Op::Clone)
            ], 0..16), any::<u8>()).prop_map(|(ops, short)| S { ops, short }), check_state),
    ]);
}
