//! C03: a body delivers exactly its bytes, under every read schedule.
use futures_lite::io::{AsyncBufRead, AsyncBufReadExt, AsyncReadExt};
use std::pin::Pin;
use http_types::{Body, Request, Response};
use pbt::fw::*;
use pbt::sched::*;
use pbt::{ck, ck_eq, fail, gen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Src {
    Empty,
    Bytes(Vec<u8>),
    Slice(Vec<u8>),
    Str(String),
    Owned(String),
    Reader(Script, Option<u64>),
    /// left and right, each partly read first
    Chain(Box<Src>, Vec<ROp>, Box<Src>, Vec<ROp>),
    /// moved through a request or response
    Via(u8, Box<Src>),
}

/// What a body should deliver: bytes, then end or failure; and what it declares.
#[derive(Debug, Clone)]
struct Want {
    bytes: Vec<u8>,
    err: Option<std::io::ErrorKind>,
    /// declared length that is still to come
    left: Option<u64>,
    /// what len() reports
    len: Option<u64>,
    octet: Option<&'static str>,
}

fn plain(b: &[u8], mime: &'static str) -> Want {
    Want { bytes: b.to_vec(), err: None, left: Some(b.len() as u64), len: Some(b.len() as u64), octet: Some(mime) }
}

fn build(s: &Src) -> Result<(Body, Want), Fail> {
    Ok(match s {
        Src::Empty => (Body::empty(), plain(b"", OCTET)),
        Src::Bytes(b) => (Body::from(b.clone()), plain(b, OCTET)),
        Src::Slice(b) => (Body::from(&b[..]), plain(b, OCTET)),
        Src::Str(s) => (Body::from(s.as_str()), plain(s.as_bytes(), "text/plain;charset=utf-8")),
        Src::Owned(s) => (Body::from(s.clone()), plain(s.as_bytes(), "text/plain;charset=utf-8")),
        Src::Reader(sc, len) => {
            let b = Body::from_reader(ScriptReader::new(sc.clone()), *len);
            let fail_at = sc.err_at.map(|e| e.min(sc.data.len()));
            let avail = fail_at.unwrap_or(sc.data.len());
            let n = len.map_or(avail, |l| (l.min(avail as u64)) as usize);
            // a failure beyond the declared length is never reached
            let err = if fail_at.is_some() && len.map_or(true, |l| l > avail as u64) { Some(sc.kind()) } else { None };
            (b, Want { bytes: sc.data[..n].to_vec(), err, left: *len, len: *len, octet: Some(OCTET) })
        }
        Src::Chain(l, lops, r, rops) => {
            let (mut lb, mut lw) = build(l)?;
            pre_read(&mut lb, &mut lw, lops)?;
            let (mut rb, mut rw) = build(r)?;
            pre_read(&mut rb, &mut rw, rops)?;
            let b = lb.chain(rb);
            let left = match (lw.left, rw.left) {
                (Some(a), Some(b)) => a.checked_add(b),
                _ => None,
            };
            let mut bytes = lw.bytes.clone();
            if lw.err.is_none() {
                bytes.extend_from_slice(&rw.bytes);
            }
            let mime = if lw.octet == rw.octet { lw.octet } else { Some(OCTET) };
            (b, Want { bytes, err: lw.err.or(rw.err), left, len: left, octet: mime })
        }
        Src::Via(k, s) => {
            let (b, w) = build(s)?;
            let b = match k % 4 {
                0 => {
                    let mut r = Request::get("http://a.b/");
                    r.set_body(b);
                    Body::from(r)
                }
                1 => {
                    let mut r = Request::get("http://a.b/");
                    r.set_body(b);
                    r.take_body()
                }
                2 => {
                    let mut r = Response::new(200);
                    r.set_body(b);
                    r.take_body()
                }
                _ => {
                    let mut r: Response = b.into();
                    r.replace_body("x")
                }
            };
            (b, w)
        }
    })
}
const OCTET: &str = "application/octet-stream";

/// Read part of a body before using it; updates what is still wanted.
fn pre_read(b: &mut Body, w: &mut Want, ops: &[ROp]) -> Result<(), Fail> {
    let (got, end) = run_schedule(b, ops, false).map_err(Fail::new)?;
    ck!(w.bytes.starts_with(&got), "partial read delivered {:?}, which is not a prefix of {:?}", brief(&got), brief(&w.bytes));
    w.bytes.drain(..got.len());
    w.left = w.left.map(|l| l - got.len() as u64);
    match end {
        End::Eof => ck!(w.bytes.is_empty() && w.err.is_none(), "partial read ended early: {:?} still expected", brief(&w.bytes)),
        End::Error(k, _) => {
            ck!(w.bytes.is_empty() && w.err == Some(k), "unexpected read failure {:?}", k);
        }
        End::Stopped => {}
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Drain {
    Schedule(Vec<ROp>),
    ReadToEnd,
    ReadUntil(u8),
    FuturesCopy,
    AsyncStdCopy,
    IntoBytes,
    IntoString,
    AsRequest(Vec<ROp>),
    AsResponse(Vec<ROp>),
    ReqBytes,
    ResBytes,
    ReqString,
    ResString,
    IntoReader,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    src: Src,
    pre: Vec<ROp>,
    drain: Drain,
}

fn check_sched<R: futures_lite::io::AsyncBufRead + Unpin>(r: &mut R, ops: &[ROp], w: &Want) -> Result<(), Fail> {
    let (got, end) = run_schedule(r, ops, true).map_err(Fail::new)?;
    finish(&got, w, &end)?;
    if end == End::Eof {
        // the end is final
        for op in [ROp::Read(9), ROp::Fill(3), ROp::Read(1)] {
            let (more, e) = run_schedule(r, &[op], true).map_err(Fail::new)?;
            ck!(more.is_empty() && e == End::Eof, "read {:?} after the end ({:?})", brief(&more), e);
        }
    }
    Ok(())
}

fn finish(got: &[u8], w: &Want, end: &End) -> Result<(), Fail> {
    ck!(got == &w.bytes[..], "delivered {:?}, expected {:?} (ended by {:?})", brief(got), brief(&w.bytes), end);
    match end {
        End::Eof => ck!(w.err.is_none(), "a read failure was swallowed"),
        End::Error(k, m) => {
            ck!(w.err.is_some(), "failed with {:?} {:?} though the content is complete", k, m);
            ck!(Some(*k) == w.err && m.contains(ERR_TEXT), "the reader's error became {:?} {:?}", k, m);
        }
        End::Stopped => fail!("stopped"),
    }
    Ok(())
}

/// Enough of the content for a message.
fn brief(b: &[u8]) -> String {
    let n = b.len().min(80);
    format!("{} bytes {:?}{}", b.len(), &b[..n], if n < b.len() { "..." } else { "" })
}

fn as_end(e: std::io::Error) -> End {
    End::Error(e.kind(), e.to_string())
}

fn whole(r: Result<Vec<u8>, http_types::Error>, w: &Want) -> Result<(), Fail> {
    match r {
        Ok(b) => {
            ck!(w.err.is_none(), "a read failure was swallowed");
            ck!(b == w.bytes, "whole body: {:?}, expected {:?}", brief(&b), brief(&w.bytes));
        }
        Err(e) => {
            ck!(w.err.is_some(), "failed with {} though the content is complete", e);
            ck_eq!(u16::from(e.status()), 422u16, "status of a failed body read");
        }
    }
    Ok(())
}
fn whole_str(r: Result<String, http_types::Error>, w: &Want) -> Result<(), Fail> {
    match r {
        Ok(s) => {
            ck!(w.err.is_none(), "a read failure was swallowed");
            ck!(s.as_bytes() == &w.bytes[..], "whole body: {:?}, expected {:?}", brief(s.as_bytes()), brief(&w.bytes));
        }
        Err(e) => {
            ck!(w.err.is_some() || std::str::from_utf8(&w.bytes).is_err(), "valid text rejected: {}", e);
            ck_eq!(u16::from(e.status()), 422u16, "status of a failed body read");
        }
    }
    Ok(())
}

fn check(c: &Case) -> Check {
    let (mut b, mut w) = build(&c.src)?;
    ck_eq!(b.len(), w.len, "declared length");
    ck_eq!(b.is_empty(), w.len.map(|l| l == 0), "is_empty");
    ck_eq!(b.mime().map(|m| m.to_string()), w.octet.map(|m| m.to_string()), "fallback media type");
    let total = w.bytes.len();
    pre_read(&mut b, &mut w, &c.pre)?;
    let partly = w.bytes.len() != total;
    match &c.drain {
        Drain::Schedule(ops) => check_sched(&mut b, ops, &w)?,
        Drain::AsRequest(ops) => {
            let mut r = Request::post("http://a.b/");
            r.set_body(b);
            ck_eq!(r.len(), w.len, "Request::len");
            ck_eq!(r.is_empty(), w.len.map(|l| l == 0), "Request::is_empty");
            check_sched(&mut r, ops, &w)?
        }
        Drain::AsResponse(ops) => {
            let mut r = Response::new(200);
            r.set_body(b);
            ck_eq!(r.len(), w.len, "Response::len");
            ck_eq!(r.is_empty(), w.len.map(|l| l == 0), "Response::is_empty");
            check_sched(&mut r, ops, &w)?
        }
        Drain::ReadToEnd => {
            let mut v = vec![];
            let r = drive(b.read_to_end(&mut v)).map_err(Fail::new)?;
            finish(&v, &w, &r.map(|_| End::Eof).unwrap_or_else(as_end))?
        }
        Drain::ReadUntil(d) => {
            let mut v = vec![];
            loop {
                let mut one = vec![];
                let r = drive(b.read_until(*d, &mut one)).map_err(Fail::new)?;
                let n = one.len();
                ck!(!one[..n.saturating_sub(1)].contains(d), "read_until went past the delimiter");
                v.extend(one);
                match r {
                    Ok(0) => {
                        finish(&v, &w, &End::Eof)?;
                        break;
                    }
                    Ok(_) => {}
                    Err(e) => {
                        finish(&v, &w, &as_end(e))?;
                        break;
                    }
                }
            }
        }
        Drain::FuturesCopy => {
            let mut v = vec![];
            let r = drive(futures_lite::io::copy(&mut b, &mut v)).map_err(Fail::new)?;
            if let Ok(n) = r {
                ck_eq!(n as usize, v.len(), "copy count");
            }
            finish(&v, &w, &r.map(|_| End::Eof).unwrap_or_else(as_end))?
        }
        Drain::AsyncStdCopy => {
            let mut v = vec![];
            let r = drive(async_std::io::copy(&mut b, &mut v)).map_err(Fail::new)?;
            if let Ok(n) = r {
                ck_eq!(n as usize, v.len(), "copy count");
            }
            // async_std's copy puts its own text around the reader's error, keeping the kind
            let end = r.map(|_| End::Eof).unwrap_or_else(|e| End::Error(e.kind(), ERR_TEXT.into()));
            finish(&v, &w, &end)?
        }
        Drain::IntoReader => {
            let mut src = &c.src;
            while let Src::Via(_, s) = src {
                src = s;
            }
            let lim = matches!(src, Src::Reader(s, Some(l)) if *l as usize != s.data.len() || s.err_at.is_some());
            let mut r = b.into_reader();
            // the reader below knows of no declared length
            if !lim {
                check_sched(&mut r, &c.pre, &w)?
            }
        }
        Drain::IntoBytes => whole(drive(b.into_bytes()).map_err(Fail::new)?, &w)?,
        Drain::IntoString => whole_str(drive(b.into_string()).map_err(Fail::new)?, &w)?,
        Drain::ReqBytes | Drain::ReqString => {
            let mut r = Request::post("http://a.b/");
            r.set_body(b);
            if let Drain::ReqBytes = c.drain {
                whole(drive(r.body_bytes()).map_err(Fail::new)?, &w)?
            } else {
                whole_str(drive(r.body_string()).map_err(Fail::new)?, &w)?
            }
            check_sched(&mut r, &[], &plain(b"", OCTET))?;
        }
        Drain::ResBytes | Drain::ResString => {
            let mut r = Response::new(200);
            r.set_body(b);
            if let Drain::ResBytes = c.drain {
                whole(drive(r.body_bytes()).map_err(Fail::new)?, &w)?
            } else {
                whole_str(drive(r.body_string()).map_err(Fail::new)?, &w)?
            }
            check_sched(&mut r, &[], &plain(b"", OCTET))?;
        }
    }
    classify_if(matches!(&c.src, Src::Reader(..)), "single reader");
    let lim = matches!(&c.src, Src::Reader(s, Some(l)) if (*l as usize) < s.data.len());
    classify_if(lim, "declared length shorter than content");
    classify_if(matches!(&c.src, Src::Chain(..)), "chain");
    classify_if(w.err.is_some(), "reader fails");
    classify_if(partly, "partly read before");
    Ok(total > 1)
}

fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 0..max),
        2 => gen::any_text(max / 2).prop_map(|s| s.into_bytes()),
        1 => gen::re("[a\n]{0,20}").prop_map(|s| s.into_bytes()),
    ]
    .boxed()
}
fn script() -> BoxedStrategy<Script> {
    (
        bytes(40),
        proptest::collection::vec(prop_oneof![4 => 0u32..6, 1 => 0u32..256], 0..4),
        proptest::collection::vec(any::<bool>(), 0..6),
        prop_oneof![5 => Just(None), 1 => (0usize..40).prop_map(Some)],
        any::<u8>(),
    )
        .prop_map(|(data, chunks, pending, err_at, err_kind)| Script { data, chunks, pending, err_at, err_kind })
        .boxed()
}
fn rops(max: usize) -> BoxedStrategy<Vec<ROp>> {
    let n = prop_oneof![6 => 0u32..9, 1 => 0u32..256];
    proptest::collection::vec(
        prop_oneof![4 => n.clone().prop_map(ROp::Read), 4 => n.prop_map(ROp::Fill), 1 => Just(ROp::Peek)],
        0..max,
    )
    .boxed()
}
fn src() -> BoxedStrategy<Src> {
    let leaf = prop_oneof![
        1 => Just(Src::Empty),
        2 => bytes(40).prop_map(Src::Bytes),
        1 => bytes(40).prop_map(Src::Slice),
        1 => gen::any_text(20).prop_map(Src::Str),
        1 => gen::any_text(20).prop_map(Src::Owned),
        8 => (script(), prop_oneof![
                2 => Just(None),
                6 => (0u64..45).prop_map(Some),
                1 => Just(Some(u64::MAX)),
                1 => gen::edge_u64().prop_map(Some)]).prop_map(|(s, l)| Src::Reader(s, l)),
    ];
    let leaf = leaf.boxed();
    let rec = leaf.clone().prop_recursive(3, 8, 2, |inner| {
        prop_oneof![
            3 => (inner.clone(), rops(3), inner.clone(), rops(3)).prop_map(|(a, x, b, y)| Src::Chain(Box::new(a), x, Box::new(b), y)),
            1 => (any::<u8>(), inner).prop_map(|(k, s)| Src::Via(k, Box::new(s))),
        ]
    });
    prop_oneof![leaf, rec].boxed()
}
fn drain() -> BoxedStrategy<Drain> {
    prop_oneof![
        6 => rops(8).prop_map(Drain::Schedule),
        1 => rops(8).prop_map(Drain::AsRequest),
        1 => rops(8).prop_map(Drain::AsResponse),
        1 => Just(Drain::ReadToEnd),
        1 => prop_oneof![Just(b'\n'), any::<u8>()].prop_map(Drain::ReadUntil),
        1 => Just(Drain::FuturesCopy),
        1 => Just(Drain::AsyncStdCopy),
        1 => Just(Drain::IntoBytes),
        1 => Just(Drain::IntoString),
        1 => Just(Drain::IntoReader),
        1 => Just(Drain::ReqBytes),
        1 => Just(Drain::ResBytes),
        1 => Just(Drain::ReqString),
        1 => Just(Drain::ResString),
    ]
    .boxed()
}

/// One piece of a large body.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Piece {
    kind: u8,
    len: u32,
    salt: u8,
    declared: Option<i64>,
    chunks: Vec<u32>,
    pending: Vec<bool>,
    err_at: Option<u32>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Large {
    pieces: Vec<(Piece, Vec<ROp>)>,
    pre: Vec<ROp>,
    drain: Drain,
}

fn expand(p: &Piece) -> Src {
    // no period that divides a power of two, and text now and then
    let data: Vec<u8> = (0..p.len as usize).map(|i| (i % 251) as u8 ^ (i / 251) as u8 ^ p.salt).collect();
    match p.kind % 5 {
        0 => Src::Bytes(data),
        1 => Src::Owned(data.iter().map(|b| (b % 0x60 + 0x20) as char).collect()),
        _ => {
            let declared = p.declared.map(|d| if d > 1 << 40 { d as u64 } else { (p.len as i64 + d).max(0) as u64 });
            let data = if p.kind % 5 == 2 { data.iter().map(|b| b & 0x7f).collect() } else { data };
            Src::Reader(Script { data, chunks: p.chunks.clone(), pending: p.pending.clone(), err_at: p.err_at.map(|e| e as usize), err_kind: p.salt }, declared)
        }
    }
}

fn check_large(l: &Large) -> Check {
    let mut src = Src::Empty;
    let mut total = 0;
    for (i, (p, ops)) in l.pieces.iter().enumerate() {
        total += p.len;
        src = if i == 0 { expand(p) } else { Src::Chain(Box::new(src), vec![], Box::new(expand(p)), ops.clone()) };
    }
    check(&Case { src, pre: l.pre.clone(), drain: l.drain.clone() })?;
    Ok(total > 65_536)
}

fn large() -> BoxedStrategy<Large> {
    let size = || prop_oneof![3 => 0u32..300_000, 2 => (0u32..5, -2i32..3).prop_map(|(p, d)| ((4096i32 << p) + d) as u32), 1 => Just(65_536u32), 1 => Just(262_144u32), 1 => 0u32..10];
    let piece = move || {
        (
            any::<u8>(), size(), any::<u8>(),
            prop_oneof![2 => Just(None), 3 => (-70_000i64..70_000).prop_map(Some), 2 => (-2i64..3).prop_map(Some), 1 => (41u32..63, 0i64..2).prop_map(|(b, d)| Some((1i64 << b) + d)), 1 => Just(Some(i64::MAX))],
            proptest::collection::vec(prop_oneof![1 => 500u32..5000, 2 => size().prop_map(|s| s.max(500))], 0..3),
            proptest::collection::vec(any::<bool>(), 0..4),
            prop_oneof![4 => Just(None), 1 => size().prop_map(Some)],
        )
            .prop_map(|(kind, len, salt, declared, chunks, pending, err_at)| Piece { kind, len, salt, declared, chunks, pending, err_at })
    };
    let ops = move |max: usize| {
        let n = move || prop_oneof![3 => size(), 1 => 1u32..2000];
        proptest::collection::vec(prop_oneof![n().prop_map(ROp::Read), n().prop_map(ROp::Fill), Just(ROp::Fill(u32::MAX)), Just(ROp::Peek)], 0..max)
    };
    let full = move || ops(4).prop_map(|mut v| { v.push(ROp::Read(40_000)); v });
    let drain = prop_oneof![
        4 => full().prop_map(Drain::Schedule),
        1 => full().prop_map(Drain::AsRequest),
        1 => full().prop_map(Drain::AsResponse),
        5 => proptest::sample::select(vec![Drain::ReadToEnd, Drain::FuturesCopy, Drain::AsyncStdCopy, Drain::IntoBytes, Drain::IntoString, Drain::ReqBytes, Drain::ResBytes, Drain::ReqString, Drain::ResString]),
    ];
    (proptest::collection::vec((piece(), ops(3)), 1..4), ops(3), drain).prop_map(|(pieces, pre, drain)| Large { pieces, pre, drain }).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FileCase {
    data: Vec<u8>,
    ext: String,
    #[serde(default)]
    stem: String,
    mode: u8,
    ops: Vec<ROp>,
    seek: u16,
}
const EXTS: &[&str] = &[
    "txt", "html", "json", "mp3", "xml", "exe", "svgz", "zzz", "", "7z", "atom", "avi", "bin", "dll", "iso", "img", "bmp", "css", "ico", "js", "mjs", "jsonp",
    "m4a", "mid", "midi", "kar", "mp4", "mpeg", "mpg", "ogg", "otf", "rss", "svg", "ttf", "wasm", "webm", "webp", "woff", "woff2", "zip", "TXT", "gz", "tar",
];

fn check_file(c: &FileCase) -> Check {
    let dir = std::env::temp_dir().join(format!("pbt-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "_"));
    std::fs::create_dir_all(&dir).map_err(|e| Fail::new(format!("harness: {}", e)))?;
    let r = check_file_in(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn check_file_in(c: &FileCase, dir: &std::path::Path) -> Check {
    let data = &c.data;
    let stem = if c.stem.is_empty() { "file" } else { c.stem.as_str() };
    let p = dir.join(if c.ext.is_empty() { stem.replace('.', "_") } else { format!("{}.{}", stem, c.ext) });
    std::fs::write(&p, data).map_err(|e| Fail::new(format!("harness: {}", e)))?;
    // what cannot be read is an error, sooner or later
    if c.seek % 8 == 1 {
        for bad in [dir.to_path_buf(), dir.join("missing"), p.join("below")] {
            let got = futures_lite::future::block_on(async {
                match Body::from_path(&bad).await {
                    Ok(b) => b.into_bytes().await.ok(),
                    Err(_) => None,
                }
            });
            ck!(got.is_none(), "{:?} is delivered as {} bytes", bad, got.map_or(0, |g| g.len()));
        }
        let got = futures_lite::future::block_on(async {
            let f = async_std::fs::OpenOptions::new().append(true).open(&p).await?;
            Body::from_file(f).await?.into_bytes().await
        });
        ck!(got.is_err(), "a file opened for writing only is delivered");
        classify("unreadable");
    }
    let b = futures_lite::future::block_on(async {
        match c.mode % 3 {
            0 => Body::from_path(&p).await,
            m => {
                // an open file whose cursor may be anywhere
                let mut f = async_std::fs::File::open(&p).await?;
                if c.seek > 0 {
                    let mut skip = vec![0; c.seek as usize % (data.len() + 5)];
                    let _ = async_std::io::ReadExt::read(&mut f, &mut skip).await?;
                }
                if m == 1 {
                    Body::from_file_with_path(f, &p).await
                } else {
                    Body::from_file(f).await
                }
            }
        }
    });
    let mut b = match b {
        Ok(b) => b,
        Err(e) => fail!("cannot open: {}", e),
    };
    // the first 300 bytes decide at least; whether more do is not specified
    let by_content = |n: usize| http_types::mime::Mime::sniff(&data[..n.min(data.len())]).ok();
    let (head, all) = (by_content(300), by_content(data.len()));
    if head == all {
        let ext = if c.mode % 3 == 2 { "" } else { c.ext.as_str() };
        let want = head.clone().or_else(|| http_types::mime::Mime::from_extension(ext)).map_or(OCTET.to_string(), |m| m.to_string());
        ck_eq!(b.mime().map(|m| m.to_string()), Some(want), "media type of the file body");
    }
    ck_eq!(b.len(), Some(data.len() as u64), "length of the file body");
    let got: Result<Vec<u8>, String> = futures_lite::future::block_on(async {
        let mut v = vec![];
        for op in &c.ops {
            if let ROp::Read(n) = op {
                let mut buf = vec![0; *n as usize];
                let k = b.read(&mut buf).await.map_err(|e| e.to_string())?;
                v.extend_from_slice(&buf[..k]);
            }
            if let ROp::Fill(n) = op {
                let have = futures_lite::future::poll_fn(|cx| Pin::new(&mut b).poll_fill_buf(cx).map(|r| r.map(|s| s.to_vec())))
                    .await
                    .map_err(|e| e.to_string())?;
                let k = (*n as usize).min(have.len());
                v.extend_from_slice(&have[..k]);
                b.consume(k);
            }
        }
        b.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
        Ok(v)
    });
    let got = got.map_err(Fail::new)?;
    ck!(got == *data, "file body delivered {} bytes that differ from the file's {} (first difference at {:?})", got.len(), data.len(), got.iter().zip(data).position(|(a, b)| a != b));
    Ok(data.len() > 300 || head.is_some())
}

fn laws() -> Vec<Box<dyn DynLaw>> {
    vec![
        law(
            "stream",
            "bodies from bytes, text, scripted readers (short pieces, not-ready polls, injected failures, declared length absent/short/exact/long/huge), nested chains of partly read bodies and moves through requests/responses, read by a generated schedule of poll_read/fill_buf/consume or a whole-body call; non-trivial = at least two bytes of content",
            300_000,
            8_000_000,
            || (src(), rops(3), drain()).prop_map(|(src, pre, drain)| Case { src, pre, drain }),
            check,
        ),
        law(
            "large",
            "as stream, with up to three pieces of up to 300 KB, reads and buffered reads of that size, and declared lengths around the real one, and around every power of two from 2^41; non-trivial = more than 64 KiB of content",
            1_200,
            100_000,
            large,
            check_large,
        ),
        law(
            "file",
            "bodies made from real files in a scratch directory: bytes, length and media type (content, then extension, then fallback); non-trivial = longer than the sniffed prefix, or with a magic number",
            6_000,
            40_000,
            || (
                pbt::magic::content(prop_oneof![proptest::collection::vec(any::<u8>(), 0..60), proptest::collection::vec(any::<u8>(), 250..400), proptest::collection::vec(any::<u8>(), 8000..9000), (60_000usize..80_000, any::<u8>()).prop_map(|(n, s)| (0..n).map(|i| (i % 253) as u8 ^ s).collect())].boxed()),
                proptest::sample::select(EXTS),
                any::<u8>(),
                rops(5),
                (prop_oneof![2 => Just(0u16), 1 => any::<u16>()], proptest::sample::select(&["", "a.b", "a.html", ".json", "x.tar", "..", "é ü", "txt", "a.txt.xml", "-"][..])),
            ).prop_map(|(data, e, mode, ops, (seek, stem))| FileCase { stem: stem.to_string(), data, ext: e.to_string(), mode, ops, seek }),
            check_file,
        ),
    ]
}

fn main() {
    pbt::fw::main("C03", laws())
}
