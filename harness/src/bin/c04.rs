//! C04: setting, replacing, swapping and taking bodies on requests and responses.
use futures_lite::future::block_on;
use futures_lite::io::AsyncReadExt;
use http_types::mime::Mime;
use http_types::{Body, Request, Response};
use pbt::fw::*;
use pbt::sched::{Script, ScriptReader};
use pbt::{ck, ck_eq, gen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum B {
    Empty,
    Str(String),
    Bytes(Vec<u8>),
    Json(serde_json::Value),
    Form(BTreeMap<String, String>),
    Reader(Vec<u8>, Option<u64>, Option<String>),
    FromRequest(Box<B>),
    /// a body whose media type was overridden
    Mimed(Box<B>, Option<String>),
}

#[derive(Debug, Clone, PartialEq)]
struct W {
    bytes: Vec<u8>,
    mime: Option<String>,
    len: Option<u64>,
    left: Option<u64>,
}

const OCTET: &str = "application/octet-stream";

fn canon(m: &str) -> String {
    pbt::refmodel::mime::parse(m).unwrap().print()
}

fn build(b: &B) -> (Body, W) {
    fn w(bytes: Vec<u8>, mime: &str) -> W {
        let l = Some(bytes.len() as u64);
        W { bytes, mime: Some(mime.to_string()), len: l, left: l }
    }
    match b {
        B::Empty => (Body::empty(), w(vec![], OCTET)),
        B::Str(s) => (Body::from(s.as_str()), w(s.clone().into_bytes(), "text/plain;charset=utf-8")),
        B::Bytes(v) => (Body::from(v.clone()), w(v.clone(), OCTET)),
        B::Json(v) => (Body::from_json(v).unwrap(), w(serde_json::to_vec(v).unwrap(), "application/json")),
        B::Form(f) => (
            Body::from_form(f).unwrap(),
            w(serde_urlencoded::to_string(f).unwrap().into_bytes(), "application/x-www-form-urlencoded"),
        ),
        B::Reader(v, len, m) => {
            let mut b = Body::from_reader(ScriptReader::new(Script { data: v.clone(), ..Default::default() }), *len);
            let n = len.map_or(v.len(), |l| v.len().min(l as usize));
            b.set_mime(m.as_ref().map(|m| m.parse().unwrap()));
            (b, W { bytes: v[..n].to_vec(), mime: m.as_deref().map(canon), len: *len, left: *len })
        }
        B::FromRequest(b) => {
            let (b, w) = build(b);
            let mut r = Request::post("http://a.b/");
            r.set_body(b);
            (Body::from(r), w)
        }
        B::Mimed(b, m) => {
            let (mut b, mut w) = build(b);
            b.set_mime(m.as_ref().map(|m| m.parse().unwrap()));
            w.mime = m.as_deref().map(canon);
            (b, w)
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Set(B),
    Replace(B),
    Swap(B),
    Take,
    SetType(String),
    InsertType(Vec<String>),
    AppendType(String),
    RemoveType,
    ReadSome(u8),
    BodyBytes,
    BodyString,
    Clone,
    OtherHeader(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    response: bool,
    start: Option<B>,
    ops: Vec<Op>,
}

enum M {
    Req(Request),
    Res(Response),
}
macro_rules! on {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::Req($x) => $e,
            M::Res($x) => $e,
        }
    };
}

struct St {
    ct: Option<Vec<String>>,
    body: W,
    others: usize,
}

fn adopt(st: &mut St) {
    if st.ct.is_none() {
        st.ct = st.body.mime.clone().map(|m| vec![m]);
    }
}

fn content(b: Body) -> Result<Vec<u8>, Fail> {
    block_on(b.into_bytes()).map_err(|e| Fail::new(format!("reading failed: {}", e)))
}
fn check_body(b: Body, w: &W, what: &str) -> Result<(), Fail> {
    ck_eq!(b.mime().map(|m| m.to_string()), w.mime, "{}: media type", what);
    ck_eq!(b.len(), w.len, "{}: length", what);
    ck_eq!(content(b)?, w.bytes, "{}: content", what);
    Ok(())
}

fn check_state(m: &M, st: &St) -> Result<(), Fail> {
    on!(m, x => {
        ck_eq!(x.len(), st.body.len, "len()");
        ck_eq!(x.is_empty(), st.body.len.map(|l| l == 0), "is_empty()");
        let got = x.header("Content-Type").map(|v| v.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>());
        ck_eq!(got, st.ct, "content-type header");
        let want = st.ct.as_ref().and_then(|v| pbt::refmodel::mime::parse(v.last().unwrap()));
        let got: Option<Mime> = x.content_type();
        ck_eq!(got.as_ref().map(|m| m.to_string()), want.as_ref().map(|m| m.print()), "content_type()");
        ck_eq!(x.iter().count(), st.others.min(1) + st.ct.is_some() as usize, "number of header names");
    });
    Ok(())
}

fn empty_w() -> W {
    W { bytes: vec![], mime: Some(OCTET.into()), len: Some(0), left: Some(0) }
}

fn check(h: &Hist) -> Check {
    let mut st = St { ct: None, body: empty_w(), others: 0 };
    let mut m = match (h.response, &h.start) {
        (false, _) => M::Req(Request::get("http://a.b/")),
        (true, None) => M::Res(Response::new(200)),
        (true, Some(b)) => {
            let (b, w) = build(b);
            st.body = w;
            adopt(&mut st);
            let r: Response = b.into();
            ck_eq!(u16::from(r.status()), 200u16, "status of a response made from a body");
            M::Res(r)
        }
    };
    check_state(&m, &st)?;
    let (mut moved, mut kept) = (0, 0);
    for op in &h.ops {
        let had = st.ct.is_some();
        match op {
            Op::Set(b) => {
                let (b, w) = build(b);
                on!(&mut m, x => x.set_body(b));
                st.body = w;
                adopt(&mut st);
                kept += had as u32;
            }
            Op::Replace(b) => {
                let (b, w) = build(b);
                let old = on!(&mut m, x => x.replace_body(b));
                check_body(old, &std::mem::replace(&mut st.body, w), "replace_body's old body")?;
                adopt(&mut st);
                moved += 1;
                kept += had as u32;
            }
            Op::Swap(b) => {
                let (mut b, w) = build(b);
                on!(&mut m, x => x.swap_body(&mut b));
                check_body(b, &std::mem::replace(&mut st.body, w), "swap_body's old body")?;
                adopt(&mut st);
                moved += 1;
                kept += had as u32;
            }
            Op::Take => {
                let old = on!(&mut m, x => x.take_body());
                check_body(old, &std::mem::replace(&mut st.body, empty_w()), "take_body")?;
                adopt(&mut st);
                moved += 1;
            }
            Op::SetType(s) => {
                let old = on!(&mut m, x => x.set_content_type(s.parse().unwrap()));
                ck_eq!(old.map(|v| v.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>()), st.ct, "set_content_type returns the old value");
                st.ct = Some(vec![canon(s)]);
            }
            Op::InsertType(v) => {
                let vals: Vec<_> = v.iter().map(|s| s.parse::<http_types::headers::HeaderValue>().unwrap()).collect();
                on!(&mut m, x => x.insert_header("content-TYPE", &vals[..]).unwrap());
                st.ct = Some(v.clone());
            }
            Op::AppendType(s) => {
                on!(&mut m, x => x.append_header("Content-Type", s.as_str()).unwrap());
                st.ct.get_or_insert_with(Vec::new).push(s.clone());
            }
            Op::RemoveType => {
                on!(&mut m, x => x.remove_header("Content-Type"));
                st.ct = None;
            }
            Op::ReadSome(n) => {
                let mut buf = vec![0u8; *n as usize];
                let k = on!(&mut m, x => block_on(x.read(&mut buf)).map_err(|e| Fail::new(e.to_string()))?);
                let want: Vec<u8> = st.body.bytes[..(*n as usize).min(st.body.bytes.len())].to_vec();
                // (these readers hand out everything they have at once)
                ck_eq!(&buf[..k], &want[..], "partial read");
                st.body.bytes.drain(..k);
                st.body.left = st.body.left.map(|l| l - k as u64);
            }
            Op::BodyBytes => {
                let got = on!(&mut m, x => block_on(x.body_bytes()));
                ck_eq!(got.ok(), Some(std::mem::replace(&mut st.body, empty_w()).bytes), "body_bytes");
                adopt(&mut st);
                moved += 1;
            }
            Op::BodyString => {
                let got = on!(&mut m, x => block_on(x.body_string()));
                let want = String::from_utf8(std::mem::replace(&mut st.body, empty_w()).bytes).ok();
                ck_eq!(got.ok(), want, "body_string");
                adopt(&mut st);
            }
            Op::Clone => {
                let mut c = match &m {
                    M::Req(x) => M::Req(x.clone()),
                    M::Res(x) => M::Res(x.clone()),
                };
                // documented: the clone has an empty body; the original keeps its own
                let cst = St { ct: st.ct.clone(), body: empty_w(), others: st.others };
                check_state(&c, &cst)?;
                on!(&mut c, x => check_body(x.take_body(), &empty_w(), "body of a clone")?);
            }
            Op::OtherHeader(s) => {
                on!(&mut m, x => x.append_header("x-other", s.as_str()).unwrap());
                st.others += 1;
            }
        }
        check_state(&m, &st)?;
    }
    let last = match m {
        M::Req(x) => Body::from(x),
        M::Res(mut x) => x.take_body(),
    };
    check_body(last, &st.body, "final body")?;
    classify_if(moved > 1, "several bodies moved out");
    classify_if(kept > 0, "content type already present when a body arrives");
    Ok(moved > 0 || kept > 0)
}

fn mime_s() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(&["text/html", "application/json", "a/b;c=d", "text/plain;charset=utf-8", "image/png"][..]).prop_map(|s| s.to_string()),
        1 => (gen::token(), gen::token()).prop_map(|(a, b)| format!("{}/{}", a, b)),
    ]
    .boxed()
}
fn json(depth: u32) -> BoxedStrategy<serde_json::Value> {
    let leaf = prop_oneof![
        Just(serde_json::Value::Null),
        any::<bool>().prop_map(|b| b.into()),
        any::<i64>().prop_map(|b| b.into()),
        gen::any_text(6).prop_map(|b| b.into()),
    ];
    leaf.prop_recursive(depth, 12, 4, |i| {
        prop_oneof![
            gen::vec(i.clone(), 0..3).prop_map(|v| v.into()),
            proptest::collection::btree_map(gen::any_text(4), i, 0..3).prop_map(|m| serde_json::Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}
fn body() -> BoxedStrategy<B> {
    let leaf = prop_oneof![
        1 => Just(B::Empty),
        3 => gen::any_text(8).prop_map(B::Str),
        2 => gen::vec(any::<u8>(), 0..10).prop_map(B::Bytes),
        1 => json(2).prop_map(B::Json),
        1 => proptest::collection::btree_map(gen::any_text(4), gen::any_text(4), 0..3).prop_map(B::Form),
        2 => (gen::vec(any::<u8>(), 0..10), proptest::option::of(0u64..12), proptest::option::of(mime_s())).prop_map(|(a, b, c)| B::Reader(a, b, c)),
    ]
    .boxed();
    prop_oneof![
        8 => leaf.clone(),
        1 => leaf.clone().prop_map(|b| B::FromRequest(Box::new(b))),
        2 => (leaf, proptest::option::of(mime_s())).prop_map(|(b, m)| B::Mimed(Box::new(b), m)),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => body().prop_map(Op::Set),
        3 => body().prop_map(Op::Replace),
        3 => body().prop_map(Op::Swap),
        2 => Just(Op::Take),
        2 => mime_s().prop_map(Op::SetType),
        1 => gen::vec(prop_oneof![3 => mime_s(), 1 => gen::ascii_text(6)], 1..3).prop_map(Op::InsertType),
        1 => prop_oneof![3 => mime_s(), 1 => gen::ascii_text(6)].prop_map(Op::AppendType),
        3 => Just(Op::RemoveType),
        2 => (0u8..8).prop_map(Op::ReadSome),
        1 => Just(Op::BodyBytes),
        1 => Just(Op::BodyString),
        1 => Just(Op::Clone),
        1 => gen::ascii_text(4).prop_map(Op::OtherHeader),
    ]
    .boxed()
}

/// A fixed type the wrong-shape laws deserialise into.
#[derive(Debug, Serialize, Deserialize, PartialEq)]
struct Shape {
    name: String,
    n: i64,
}

fn laws() -> Vec<Box<dyn DynLaw>> {
    vec![
        law(
            "history",
            "histories of set/replace/swap/take body, content-type edits, partial reads, whole-body reads and clones on a Request or Response (also Response::from(body)) against a model; non-trivial = a body is moved out and compared, or arrives while a content type is present",
            120_000,
            4_000_000,
            || (any::<bool>(), proptest::option::of(body()), gen::vec(op(), 1..12)).prop_map(|(response, start, ops)| Hist { response, start, ops }),
            check,
        ),
        law(
            "json",
            "any JSON value through Body::from_json/into_json, From<Value>, Request/Response body_json; non-trivial = an array or object with content",
            40_000,
            1_000_000,
            || (json(4), 0u8..4),
            |(v, k): &(serde_json::Value, u8)| {
                let b = if k % 2 == 0 { Body::from_json(v).map_err(|e| Fail::new(e.to_string()))? } else { Body::from(v.clone()) };
                ck_eq!(b.mime().map(|m| m.to_string()), Some("application/json".to_string()), "media type");
                ck_eq!(b.len(), Some(serde_json::to_vec(v).unwrap().len() as u64), "length");
                let got: http_types::Result<serde_json::Value> = match k {
                    0 => block_on(b.into_json()),
                    1 => { let mut r = Request::post("http://a.b/"); r.set_body(b); block_on(r.body_json()) }
                    2 => { let mut r = Response::new(200); r.set_body(b); block_on(r.body_json()) }
                    _ => { let mut r: Response = Response::from(b); block_on(r.body_json()) }
                };
                match got {
                    Ok(g) => ck_eq!(g, *v, "JSON round trip"),
                    Err(e) => return Err(Fail::new(format!("JSON round trip failed: {}", e))),
                }
                Ok(matches!(v, serde_json::Value::Array(a) if !a.is_empty()) || matches!(v, serde_json::Value::Object(a) if !a.is_empty()))
            },
        ),
        law(
            "form",
            "any list of pairs, and a struct, through Body::from_form/into_form and body_form; non-trivial = at least one pair with a character that must be escaped",
            40_000,
            1_000_000,
            || (gen::vec((gen::any_text(6), gen::any_text(6)), 0..4), any::<i64>(), 0u8..3),
            |(v, n, k): &(Vec<(String, String)>, i64, u8)| {
                let b = Body::from_form(v).map_err(|e| Fail::new(e.to_string()))?;
                ck_eq!(b.mime().map(|m| m.to_string()), Some("application/x-www-form-urlencoded".to_string()), "media type");
                let got: http_types::Result<Vec<(String, String)>> = match k {
                    0 => block_on(b.into_form()),
                    1 => { let mut r = Request::post("http://a.b/"); r.set_body(b); block_on(r.body_form()) }
                    _ => { let mut r = Response::new(200); r.set_body(b); block_on(r.body_form()) }
                };
                ck_eq!(got.ok(), Some(v.clone()), "form round trip");
                let s = Shape { name: v.get(0).map(|x| x.1.clone()).unwrap_or_default(), n: *n };
                let got: http_types::Result<Shape> = block_on(Body::from_form(&s).map_err(|e| Fail::new(e.to_string()))?.into_form());
                ck_eq!(got.ok(), Some(s), "form round trip of a struct");
                Ok(v.iter().any(|(a, b)| a.bytes().chain(b.bytes()).any(|c| !c.is_ascii_alphanumeric())))
            },
        ),
        law(
            "wrong_shape",
            "arbitrary bytes read as JSON, form or text: the result agrees with the format's own parser and a refusal is a 422; non-trivial = refused",
            120_000,
            4_000_000,
            || prop_oneof![
                2 => gen::vec(any::<u8>(), 0..12),
                2 => json(2).prop_map(|v| serde_json::to_vec(&v).unwrap()),
                2 => (gen::ascii_text(4), any::<i64>()).prop_map(|(s, n)| serde_json::to_vec(&Shape { name: s, n }).unwrap()),
                2 => (gen::token(), any::<i32>()).prop_map(|(s, n)| format!("name={}&n={}", s, n).into_bytes()),
                4 => gen::soup(&["name=", "n=5", "n", "name=a&n=1", "&", "=", "%41", "%", "+", " ", "\n", "\t", "5", "-1", "{", "}", "\"name\":\"x\"", "\"n\":1", ",", "\u{feff}", "\0"], 8).prop_map(|s| s.into_bytes()),
            ],
            |v: &Vec<u8>| {
                let mut refused = false;
                let j: http_types::Result<Shape> = block_on(Body::from(v.clone()).into_json());
                let rj = serde_json::from_slice::<Shape>(v).ok();
                if let Err(e) = &j {
                    ck_eq!(u16::from(e.status()), 422u16, "status of malformed JSON");
                    refused = true;
                }
                ck_eq!(j.ok(), rj, "JSON");
                let f: http_types::Result<Shape> = block_on(Body::from(v.clone()).into_form());
                let rf = std::str::from_utf8(v).ok().and_then(|s| serde_urlencoded::from_str::<Shape>(s).ok());
                if let Err(e) = &f {
                    ck_eq!(u16::from(e.status()), 422u16, "status of a malformed form");
                    refused = true;
                }
                ck_eq!(f.ok(), rf, "form");
                let f: http_types::Result<Vec<(String, String)>> = block_on(Body::from(v.clone()).into_form());
                let rf = std::str::from_utf8(v).ok().and_then(|s| serde_urlencoded::from_str::<Vec<(String, String)>>(s).ok());
                ck_eq!(f.ok(), rf, "form as pairs");
                let j: http_types::Result<serde_json::Value> = block_on(Body::from(v.clone()).into_json());
                ck_eq!(j.ok(), serde_json::from_slice(v).ok(), "any JSON");
                let s = block_on(Body::from(v.clone()).into_string());
                if let Err(e) = &s {
                    ck_eq!(u16::from(e.status()), 422u16, "status of text that is not UTF-8");
                    refused = true;
                }
                ck_eq!(s.ok(), String::from_utf8(v.clone()).ok(), "text");
                ck!(block_on(Body::from(v.clone()).into_bytes()).ok().as_ref() == Some(v), "bytes");
                Ok(refused)
            },
        ),
    ]
}

fn main() {
    pbt::fw::main("C04", laws())
}
