//! C16: conversions to and from the types of the `http` crate keep everything both can hold, and
//! refuse what the other cannot hold.
use futures_lite::future::block_on;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::{Body, Method, Request, Response, StatusCode, Url, Version};
use pbt::fw::*;
use pbt::gen;
use pbt::{ck, ck_eq};
use pbt::gen::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;

type Map = BTreeMap<String, Vec<String>>;
fn dump(h: &Headers) -> Map {
    h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect())).collect()
}
fn hdump(h: &http::HeaderMap) -> Map {
    let mut m = Map::new();
    for (n, v) in h.iter() {
        m.entry(n.to_string()).or_default().push(String::from_utf8_lossy(v.as_bytes()).into_owned());
    }
    m
}

/// The `http` crate's rules for what it can hold.
fn name_ok(n: &str) -> bool {
    http::HeaderName::from_bytes(n.as_bytes()).is_ok()
}
fn value_ok(v: &str) -> bool {
    http::HeaderValue::from_bytes(v.as_bytes()).is_ok()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hs {
    pairs: Vec<(String, String)>,
    bytes: Vec<u8>,
    bad: Option<(u8, bool)>,
}

fn check_headers(x: &Hs) -> Check {
    // there
    let mut ours = Response::new(200);
    let mut want = Map::new();
    let mut ok = true;
    for (n, v) in &x.pairs {
        ours.append_header(n.as_str(), v.as_str()).unwrap();
        want.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
        ok &= name_ok(n) && value_ok(v);
        let hn: Result<http::header::HeaderName, _> = HeaderName::from(n.as_str()).try_into();
        ck_eq!(hn.as_ref().ok().map(|h| h.as_str().to_string()), if name_ok(n) { Some(n.to_ascii_lowercase()) } else { None }, "HeaderName {:?}", n);
        if let Ok(h) = hn {
            ck_eq!(HeaderName::try_from(h).ok().map(|h| h.to_string()), Some(n.to_ascii_lowercase()), "HeaderName back");
        }
        let hv: Result<http::header::HeaderValue, _> = HeaderValue::from_str(v).unwrap().try_into();
        ck_eq!(hv.as_ref().ok().map(|h| h.as_bytes().to_vec()), if value_ok(v) { Some(v.clone().into_bytes()) } else { None }, "HeaderValue {:?}", v);
        if let Ok(h) = hv {
            ck_eq!(HeaderValue::try_from(h).ok().map(|h| h.to_string()), Some(v.clone()), "HeaderValue back");
        }
    }
    ck_eq!(dump(ours.as_ref()), want, "harness model");
    let h: &Headers = ours.as_ref();
    let there: Result<http::HeaderMap, _> = h.clone().try_into();
    ck_eq!(there.is_ok(), ok, "HeaderMap from {:?}", want);
    let mut map = match there {
        Ok(m) => {
            ck_eq!(hdump(&m), want, "HeaderMap");
            m
        }
        Err(_) => return Ok(true),
    };
    // and back
    let back = Headers::try_from(map.clone()).map_err(|e| Fail::new(format!("Headers from {:?}: {}", want, e)))?;
    ck_eq!(dump(&back), want, "Headers from {:?}", map);
    // a value that is not ASCII cannot come back, wherever it stands
    if let Ok(v) = http::header::HeaderValue::from_bytes(&x.bytes) {
        let ascii = x.bytes.iter().all(|b| *b < 128);
        ck_eq!(HeaderValue::try_from(v.clone()).ok().map(|h| h.as_str().as_bytes().to_vec()), if ascii { Some(x.bytes.clone()) } else { None }, "HeaderValue from {:?}", x.bytes);
        map.append(x.pairs.first().and_then(|p| p.0.parse().ok()).unwrap_or(http::header::ACCEPT), v.clone());
        ck_eq!(Headers::try_from(map.clone()).is_ok(), ascii, "Headers from {:?}", map);
        let mut hreq = http::Request::new(Body::empty());
        *hreq.uri_mut() = "http://a.b/".parse().unwrap();
        *hreq.headers_mut() = map.clone();
        ck_eq!(Request::try_from(hreq).is_ok(), ascii, "Request with headers {:?}", map);
        let mut hres = http::Response::new(Body::empty());
        *hres.headers_mut() = map.clone();
        ck_eq!(Response::try_from(hres).is_ok(), ascii, "Response with headers {:?}", map);
        classify_if(!ascii, "not ASCII");
    }
    let repeated = want.values().any(|v| v.len() > 1);
    classify_if(repeated, "repeated name");
    Ok(repeated)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Msg {
    method: u8,
    status: u8,
    version: Option<u8>,
    url: String,
    headers: Vec<(String, String)>,
    body: Option<Vec<u8>>,
    mime: Option<u8>,
    ctype: Option<String>,
    ext_method: String,
    ext_status: u16,
}

const VERSIONS: &[(Version, http::Version)] = &[
    (Version::Http0_9, http::Version::HTTP_09),
    (Version::Http1_0, http::Version::HTTP_10),
    (Version::Http1_1, http::Version::HTTP_11),
    (Version::Http2_0, http::Version::HTTP_2),
    (Version::Http3_0, http::Version::HTTP_3),
];
const METHODS: &str = "ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL";
const CODES: &[u16] = &[
    100, 101, 103, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414,
    415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511,
];
const MIMES: &[&str] = &["text/plain;charset=utf-8", "application/json", "image/png"];

fn body(m: &Msg) -> Body {
    let mut b = match &m.body {
        None => Body::empty(),
        Some(d) => Body::from_bytes(d.clone()),
    };
    if let Some(i) = m.mime {
        b.set_mime(Some(Mime::from_str(MIMES[i as usize % MIMES.len()]).unwrap()));
    }
    b
}

fn check_msg(m: &Msg) -> Check {
    let name = METHODS.split(' ').nth(m.method as usize % 39).unwrap();
    let method: Method = name.parse().unwrap();
    let code = CODES[m.status as usize % CODES.len()];
    let status = StatusCode::try_from(code).unwrap();
    let (ver, hver) = m.version.map(|v| VERSIONS[v as usize % 5]).unwrap_or(VERSIONS[2]);
    // single items
    let hm: http::Method = method.into();
    ck_eq!(hm.as_str(), name, "method");
    ck_eq!(Method::from(hm.clone()), method, "method back");
    let hs: http::StatusCode = status.into();
    ck_eq!(hs.as_u16(), code, "status");
    ck_eq!(StatusCode::from(hs), status, "status back");
    let hv: http::Version = ver.into();
    ck_eq!(hv, hver, "version");
    ck_eq!(Version::from(hver), ver, "version back");

    let url = Url::parse(&m.url).map_err(|_| Fail::new("harness url"))?;
    let mut want = Map::new();
    for (n, v) in &m.headers {
        want.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    if let Some(c) = &m.ctype {
        want.insert("content-type".into(), vec![c.clone()]);
    }
    let mut sent = m.body.clone().unwrap_or_default();

    // ours to theirs
    let mut req = Request::new(method, url.clone());
    let mut res = Response::new(status);
    for (n, v) in &m.headers {
        req.append_header(n.as_str(), v.as_str()).unwrap();
        res.append_header(n.as_str(), v.as_str()).unwrap();
    }
    if let Some(c) = &m.ctype {
        req.insert_header("content-type", c.as_str()).unwrap();
        res.insert_header("content-type", c.as_str()).unwrap();
    }
    let v = m.version.map(|_| ver);
    req.set_version(v);
    res.set_version(v);
    req.set_body(body(m));
    res.set_body(body(m));
    let ours = dump(req.as_ref());
    ck_eq!(dump(res.as_ref()), ours, "headers of request and response");
    let hreq: http::Request<Body> = req.into();
    let hres: http::Response<Body> = res.into();
    ck_eq!(hreq.method().as_str(), name, "method of the http request");
    ck_eq!(hres.status().as_u16(), code, "status of the http response");
    ck_eq!(hreq.version(), hver, "version of the http request");
    ck_eq!(hres.version(), hver, "version of the http response");
    ck_eq!(hdump(hreq.headers()), ours, "headers of the http request");
    ck_eq!(hdump(hres.headers()), ours, "headers of the http response");
    ck_eq!(Url::parse(&hreq.uri().to_string()).ok(), Some({ let mut u = url.clone(); u.set_fragment(None); u }), "URL of the http request");
    for b in [hreq.body().len(), hres.body().len()] {
        ck_eq!(b, Some(sent.len() as u64), "length");
    }

    // and back
    let mut req = Request::try_from(hreq).map_err(|e| Fail::new(format!("Request: {}", e)))?;
    let mut res = Response::try_from(hres).map_err(|e| Fail::new(format!("Response: {}", e)))?;
    ck_eq!(req.method(), method, "method back");
    ck_eq!(res.status(), status, "status back");
    ck_eq!((req.version(), res.version()), (Some(ver), Some(ver)), "version back");
    ck_eq!(req.url(), &{ let mut u = url.clone(); u.set_fragment(None); u }, "URL back");
    ck_eq!(dump(req.as_ref()), ours, "request headers back");
    ck_eq!(dump(res.as_ref()), ours, "response headers back");
    ck_eq!((req.len(), res.len()), (Some(sent.len() as u64), Some(sent.len() as u64)), "length back");
    ck_eq!(block_on(req.body_bytes()).map_err(|e| Fail::new(e.to_string()))?, sent, "body of the request back");
    ck_eq!(block_on(res.take_body().into_bytes()).map_err(|e| Fail::new(e.to_string()))?, sent, "body of the response back");

    // theirs to ours
    sent.push(b'!');
    let mut hreq = http::Request::builder().method(name).uri(url.as_str()).version(hver);
    let mut hres = http::Response::builder().status(code).version(hver);
    for (n, vs) in &want {
        for v in vs {
            hreq = hreq.header(n.as_str(), v.as_str());
            hres = hres.header(n.as_str(), v.as_str());
        }
    }
    let mut b1 = body(m);
    let b2 = body(m);
    let mime = b1.mime().expect("a body has a media type").to_string();
    if m.body.is_some() {
        b1 = Body::from_bytes(sent.clone());
        b1.set_mime(Some(Mime::from_str(&mime).unwrap()));
    } else {
        sent.clear();
    }
    let req = Request::try_from(hreq.body(b1).map_err(|e| Fail::new(e.to_string()))?).map_err(|e| Fail::new(format!("Request: {}", e)))?;
    let res = Response::try_from(hres.body(b2).map_err(|e| Fail::new(e.to_string()))?).map_err(|e| Fail::new(format!("Response: {}", e)))?;
    // a message without a content type takes that of its body
    want.entry("content-type".into()).or_insert_with(|| vec![mime]);
    ck_eq!((req.method(), res.status()), (method, status), "method and status");
    ck_eq!((req.version(), res.version()), (Some(ver), Some(ver)), "version");
    ck_eq!(dump(req.as_ref()), want, "headers of the request");
    ck_eq!(dump(res.as_ref()), want, "headers of the response");
    ck_eq!(block_on(Body::from(req).into_bytes()).map_err(|e| Fail::new(e.to_string()))?, sent, "body of the request");

    // what cannot be held here is refused
    let hreq = http::Request::builder().method(m.ext_method.as_str()).uri("http://a.b/").body(Body::empty()).map_err(|e| Fail::new(e.to_string()))?;
    let known = METHODS.split(' ').any(|n| n.eq_ignore_ascii_case(&m.ext_method));
    ck_eq!(Request::try_from(hreq).is_ok(), known, "Request with method {:?}", m.ext_method);
    let hres = http::Response::builder().status(m.ext_status).body(Body::empty()).map_err(|e| Fail::new(e.to_string()))?;
    ck_eq!(Response::try_from(hres).is_ok(), CODES.contains(&m.ext_status), "Response with status {}", m.ext_status);
    classify_if(m.ctype.is_some(), "content type");
    classify_if(!known, "unknown method");
    classify_if(url.fragment().is_some(), "fragment");
    Ok(!m.headers.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Un {
    Method(String),
    Status(u16),
    Name(String),
    Value(String),
    Url(String),
}

/// Conversions that cannot fail, of what the other side cannot hold.
fn check_unrepresentable(u: &Un) -> Check {
    let req = |n: &str, v: &str, url: &str| {
        let mut r = Request::new(Method::Get, url);
        r.insert_header(n, v).unwrap();
        no_panic(move || http::Request::<Body>::from(r)).map(|r| hdump(r.headers()))
    };
    let res = |n: &str, v: &str| {
        let mut r = Response::new(200);
        r.insert_header(n, v).unwrap();
        no_panic(move || http::Response::<Body>::from(r)).map(|r| hdump(r.headers()))
    };
    let (sig, bad, r) = match u {
        Un::Method(m) => {
            let known = METHODS.split(' ').any(|n| n.eq_ignore_ascii_case(m));
            let hm = http::Method::from_bytes(m.as_bytes()).map_err(|_| Fail::new("harness method"))?;
            let got = no_panic(|| Method::from(hm));
            if let Ok(g) = &got {
                ck!(known && g.as_ref().eq_ignore_ascii_case(m), "{:?} becomes {:?}", m, g);
            }
            ("C16/panic-method", !known, got.map(|_| ()))
        }
        Un::Status(c) => {
            let known = CODES.contains(c);
            let hs = http::StatusCode::from_u16(*c).map_err(|_| Fail::new("harness status"))?;
            let got = no_panic(|| StatusCode::from(hs));
            if let Ok(g) = &got {
                ck!(known && u16::from(*g) == *c, "{} becomes {:?}", c, g);
            }
            ("C16/panic-status", !known, got.map(|_| ()))
        }
        Un::Name(n) => {
            let a = req(n, "v", "http://a.b/").map(|_| ());
            let b = res(n, "v").map(|_| ());
            ck_eq!(a.is_ok(), b.is_ok(), "request and response with name {:?}", n);
            ("C16/panic-header", !name_ok(n), a)
        }
        Un::Value(v) => {
            let a = req("x-a", v, "http://a.b/").map(|_| ());
            let b = res("x-a", v).map(|_| ());
            ck_eq!(a.is_ok(), b.is_ok(), "request and response with value {:?}", v);
            ("C16/panic-header", !value_ok(v), a)
        }
        Un::Url(u) => {
            let hierarchical = Url::parse(u).map_err(|_| Fail::new("harness url"))?.has_host();
            ("C16/panic-url", !hierarchical, req("x", "v", u).map(|_| ()))
        }
    };
    match r {
        Ok(()) => Ok(!bad),
        Err(p) if bad => Err(Fail::sig(sig, format!("converting {:?} panics: {}", u, p))),
        Err(p) => Err(Fail::new(format!("converting {:?} panics: {}", u, p))),
    }
}

fn main() {
    let name = || prop_oneof![4 => gen::re("[a-cA-C]{1,2}"), 2 => proptest::sample::select(vec!["x-a", "X-A", "accept", "Set-Cookie", "set-cookie", "content-length"]).prop_map(String::from), 2 => gen::token(), 2 => gen::header_name()];
    let value = || prop_oneof![3 => gen::re("[a-z]{0,4}"), 2 => gen::ascii_text(8), 1 => Just("\t x ".to_string())];
    // now and then one header with a lot of values, among others
    fn many(list: impl Strategy<Value = Vec<(String, String)>>) -> impl Strategy<Value = Vec<(String, String)>> {
        (list, option::weighted(0.03, (proptest::sample::select(vec!["x-many", "accept", "Set-Cookie"]), 1usize..300, any::<bool>()))).prop_map(|(mut list, many)| {
            if let Some((n, k, front)) = many {
                let more = (0..k).map(|i| (n.to_string(), i.to_string()));
                if front { list = more.chain(list).collect() } else { list.extend(more) }
            }
            list
        })
    }
    let url = || prop_oneof![
        ("(http|https|ftp)", "(a\\.b|example\\.com:8080|u:p@h\\.example|\\[::1\\]|127\\.0\\.0\\.1:1)", gen::re("(/[a-zA-Z0-9._~%20:@!$&'()*+,;=-]{0,8})?"), option::of(gen::re("[a-z0-9=&%20+/?-]{0,6}")), option::of(gen::re("[a-z]{0,3}")))
            .prop_map(|(s, h, p, q, f)| format!("{}://{}{}{}{}", s, h, p.replace("%", "%25"), q.map(|q| format!("?{}", q.replace("%", "%41"))).unwrap_or_default(), f.map(|f| format!("#{}", f)).unwrap_or_default())),
    ];
    let codes = || prop_oneof![(100u16..1000), proptest::sample::select(CODES)];
    let meth = || prop_oneof![gen::re("[A-Z]{1,8}"), (any::<u8>(), any::<u64>()).prop_map(|(i, m)| gen::recase(METHODS.split(' ').nth(i as usize % 39).unwrap(), m)), gen::token()].prop_filter("the http crate has this method", |m| http::Method::from_bytes(m.as_bytes()).is_ok());
    pbt::fw::main("C16", vec![
        law("headers", "header lists, also of names and values the http crate cannot hold, and a value of any bytes; non-trivial: a repeated name, or a list it cannot hold", 40_000, 3_000_000,
            move || (many(vec((prop_oneof![6 => name(), 1 => gen::ascii_any(4)], prop_oneof![6 => value(), 1 => gen::ascii_any(4)]), 0..6)), prop_oneof![vec(any::<u8>(), 0..5), gen::any_text(5).prop_map(|s| s.into_bytes())]).prop_map(|(pairs, bytes)| Hs { pairs, bytes, bad: None }), check_headers),
        law("messages", "a request and a response converted to the http crate and back, the same built there, and a method and a status of the http crate; non-trivial: with headers", 30_000, 2_000_000,
            move || ((any::<u8>(), any::<u8>(), option::of(any::<u8>()), url(), many(vec((name().prop_filter("content-type is separate", |n| !n.eq_ignore_ascii_case("content-type")), value()), 0..5))), option::of(vec(any::<u8>(), 0..6)), option::of(any::<u8>()), option::of(gen::re("[a-z]{1,3}/[a-z]{1,3}")), meth(), codes())
                .prop_map(|((method, status, version, url, headers), body, mime, ctype, ext_method, ext_status)| Msg { method, status, version, url, headers, body, mime, ctype, ext_method, ext_status }), check_msg),
        law("unrepresentable", "one method, status, header or URL given to a conversion that cannot fail; non-trivial: one that both crates can hold", 10_000, 500_000,
            move || prop_oneof![meth().prop_map(Un::Method), codes().prop_map(Un::Status), prop_oneof![name(), gen::ascii_any(4)].prop_map(Un::Name), prop_oneof![value(), gen::ascii_any(4)].prop_map(Un::Value), prop_oneof![url(), gen::re("(data|mailto|unix):[a-z/]{1,5}")].prop_map(Un::Url)], check_unrepresentable),
    ]);
}
