//! C10: the message-framing and resource headers: Content-Length, Content-Type, Content-Encoding, Transfer-Encoding,
//! Content-Location, Referer, SourceMap, Allow, Expect.
use http_types::content::{self, ContentEncoding, ContentLength, ContentLocation, ContentType};
use http_types::headers::Headers;
use http_types::other::{Expect, Referer, SourceMap};
use http_types::server::Allow;
use http_types::transfer::{self, TransferEncoding};
use http_types::mime::Mime;
use http_types::{Method, Url};
use pbt::fw::*;
use pbt::hx::*;
use pbt::refmodel::mime as refmime;
use pbt::{ck, ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::str::FromStr;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct N {
    len: u64,
    set: u64,
    raw: String,
    earlier: Vec<String>,
}

fn check_len(n: &N) -> Check {
    let mut c = ContentLength::new(n.len);
    ck_eq!(c.len(), n.len, "len");
    let v = emit(&c, "content-length")?;
    ck_eq!(v, n.len.to_string(), "value");
    c.set_len(n.set);
    ck_eq!(c.len(), n.set, "set_len");
    ck_eq!(emit(&c, "content-length")?, n.set.to_string(), "value after set_len");
    let mut lines = n.earlier.clone();
    lines.push(v);
    let back = no_err(ContentLength::from_headers(hdrs("content-length", &lines)), "ContentLength")?;
    ck_eq!(back.map(|c| c.len()), Some(n.len), "from {:?}", lines);
    ck!(no_err(ContentLength::from_headers(no_headers()), "ContentLength")?.is_none(), "Some without the header");
    lines.push(n.raw.clone());
    let digits = !n.raw.is_empty() && n.raw.bytes().all(|b| b.is_ascii_digit());
    match ContentLength::from_headers(hdrs("content-length", &lines)) {
        Ok(Some(c)) => {
            // optional whitespace, and a leading plus sign, are left open
            let t = n.raw.trim();
            let t = t.strip_prefix('+').unwrap_or(t);
            ck_eq!(Some(c.len()), t.parse::<u64>().ok(), "from {:?}", n.raw);
            ck!(t.bytes().all(|b| b.is_ascii_digit()), "accepted {:?}", n.raw);
        }
        Ok(None) => fail!("None from a present header"),
        Err(e) => {
            ck!(!(digits && n.raw.parse::<u64>().is_ok()), "rejected {:?}", n.raw);
            is_400(&e, &n.raw)?;
        }
    }
    Ok(n.len > 9 && !n.raw.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ct {
    raw: String,
    earlier: Vec<String>,
}

fn check_ct(c: &Ct) -> Check {
    let r = refmime::parse(&c.raw);
    let mut lines = c.earlier.clone();
    lines.push(c.raw.clone());
    match (ContentType::from_headers(hdrs("content-type", &lines)), &r) {
        (Ok(Some(g)), Some(r)) => {
            let m = Mime::from_str(&c.raw).map_err(|e| Fail::new(e.to_string()))?;
            ck!(g == m, "ContentType from {:?} is {:?}", lines, g);
            let v = emit(&g, "content-type")?;
            match refmime::parse(&v) {
                None => fail!("emitted {:?} is not a media type", v),
                Some(p) => ck!(p.same(r), "emitted {:?}, expected the meaning of {:?}", v, c.raw),
            }
            let direct = ContentType::from(m.clone());
            ck_eq!(emit(&direct, "content-type")?, v, "value from the media type");
            ck_eq!(emit(&ContentType::new(m.clone()), "content-type")?, v, "value from new");
            let back = no_err(ContentType::from_headers(hdrs("content-type", &[v.as_str()])), "ContentType")?;
            ck!(back.map_or(false, |b| b == m), "{:?} does not read back as {:?}", v, c.raw);
            Ok(!r.params.is_empty())
        }
        (Err(e), None) => {
            is_400(&e, &c.raw)?;
            classify("refused");
            Ok(false)
        }
        (g, r) => fail!("ContentType from {:?}: got {:?}, expected {:?}", lines, g, r),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Enc {
    lines: Vec<(String, String, String)>,
}
const ENC: [(&str, content::Encoding); 5] = [
    ("gzip", content::Encoding::Gzip),
    ("deflate", content::Encoding::Deflate),
    ("br", content::Encoding::Brotli),
    ("zstd", content::Encoding::Zstd),
    ("identity", content::Encoding::Identity),
];
const TENC: [(&str, transfer::Encoding); 6] = [
    ("chunked", transfer::Encoding::Chunked),
    ("gzip", transfer::Encoding::Gzip),
    ("deflate", transfer::Encoding::Deflate),
    ("br", transfer::Encoding::Brotli),
    ("zstd", transfer::Encoding::Zstd),
    ("identity", transfer::Encoding::Identity),
];

fn check_enc(e: &Enc) -> Check {
    for (n, x) in ENC {
        let c = ContentEncoding::new(x);
        ck_eq!(emit(&c, "content-encoding")?, n, "{:?}", x);
        ck_eq!(x.to_string(), n, "display of {:?}", x);
        ck!(c == x && c.encoding() == x && *c == x && ContentEncoding::from(x) == x && ContentEncoding::from(&x) == x, "{:?} is not itself", x);
        for (m, y) in ENC {
            ck_eq!(c == y, n == m, "{} == {}", n, m);
        }
    }
    for (n, x) in TENC {
        let c = TransferEncoding::new(x);
        ck_eq!(emit(&c, "transfer-encoding")?, n, "{:?}", x);
        ck_eq!(x.to_string(), n, "display of {:?}", x);
        ck!(c == x && c.encoding() == x && *c == x && TransferEncoding::from(x) == x && TransferEncoding::from(&x) == x, "{:?} is not itself", x);
        for (m, y) in TENC {
            ck_eq!(c == y, n == m, "{} == {}", n, m);
        }
    }
    let lines: Vec<String> = e.lines.iter().map(|(a, b, c)| format!("{}{}{}", a, b, c)).collect();
    // codings in another letter case are left open
    let open = e.lines.iter().any(|l| l.1.bytes().any(|b| b.is_ascii_uppercase()) || l.1.contains(','));
    if lines.is_empty() {
        ck!(no_err(ContentEncoding::from_headers(no_headers()), "ContentEncoding")?.is_none(), "Some without the header");
        ck!(no_err(TransferEncoding::from_headers(no_headers()), "TransferEncoding")?.is_none(), "Some without the header");
        return Ok(false);
    }
    let want = e.lines.iter().rev().find_map(|l| ENC.iter().find(|x| x.0 == l.1)).map(|x| x.1);
    let twant = e.lines.iter().rev().find_map(|l| TENC.iter().find(|x| x.0 == l.1)).map(|x| x.1);
    let got = ContentEncoding::from_headers(hdrs("content-encoding", &lines));
    let tgot = TransferEncoding::from_headers(hdrs("transfer-encoding", &lines));
    if open {
        classify("open");
        return Ok(false);
    }
    match (got, want) {
        (Ok(Some(g)), Some(w)) => ck!(g == w, "ContentEncoding from {:?}: {:?}", lines, g),
        (Err(x), None) => is_400(&x, &format!("ContentEncoding from {:?}", lines))?,
        (g, w) => fail!("ContentEncoding from {:?}: got {:?}, expected {:?}", lines, g, w),
    }
    match (tgot, twant) {
        (Ok(Some(g)), Some(w)) => ck!(g == w, "TransferEncoding from {:?}: {:?}", lines, g),
        (Err(x), None) => is_400(&x, &format!("TransferEncoding from {:?}", lines))?,
        (g, w) => fail!("TransferEncoding from {:?}: got {:?}, expected {:?}", lines, g, w),
    }
    Ok(want.is_some() && lines.len() >= 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct U {
    base: String,
    val: String,
    pre: String,
    post: String,
    set: String,
}

type RdUrl = fn(Url, &Headers) -> http_types::Result<Option<Url>>;
type RdStr = fn(&str, &Headers) -> http_types::Result<Option<Url>>;

fn check_url(u: &U) -> Check {
    let base = Url::parse(&u.base).map_err(|e| Fail::new(format!("generator: {}", e)))?;
    let readers: [(&str, RdUrl, RdStr, u16); 3] = [
        ("content-location", |b, h| Ok(ContentLocation::from_headers(b, h)?.map(|l| l.location().clone())), |b, h| Ok(ContentLocation::from_headers(b, h)?.map(|l| l.location().clone())), 400),
        ("referer", |b, h| Ok(Referer::from_headers(b, h)?.map(|l| l.location().clone())), |b, h| Ok(Referer::from_headers(b, h)?.map(|l| l.location().clone())), 500),
        ("sourcemap", |b, h| Ok(SourceMap::from_headers(b, h)?.map(|l| l.location().clone())), |b, h| Ok(SourceMap::from_headers(b, h)?.map(|l| l.location().clone())), 500),
    ];
    // the URL standard resolves an absolute URL independently of the base, except for
    // special schemes without slashes, which `join` covers
    let want = base.join(u.val.trim());
    let raw = format!("{}{}{}", u.pre, u.val, u.post);
    for (name, read, read_s, status) in readers {
        for (how, got) in [("Url", read(base.clone(), &hdrs(name, &["https://other.test/earlier", raw.as_str()]))), ("str", read_s(&u.base, &hdrs(name, &["https://other.test/earlier", raw.as_str()])))] {
            match (got, &want) {
                (Ok(Some(g)), Ok(w)) => {
                    // "https:x" style references are resolved differently by the two parsers: left open
                    if name != "content-location" && Url::parse(u.val.trim()).map_or(false, |p| p != *w) {
                        classify("scheme-relative oddity");
                        continue;
                    }
                    ck_eq!(g, *w, "{} from {:?} against {:?} ({})", name, raw, u.base, how)
                }
                (Err(e), Err(_)) => ck_eq!(u16::from(e.status()), status, "status for {:?}", raw),
                (Ok(g), Err(e)) => {
                    ck!(name != "content-location" && Url::parse(u.val.trim()).is_ok(), "{} from {:?}: {:?}, expected error {}", name, raw, g, e)
                }
                (g, w) => fail!("{} from {:?} against {:?}: got {:?}, expected {:?}", name, raw, u.base, g, w),
            }
        }
        ck_eq!(no_err(read(base.clone(), &no_headers()), name)?, None, "{} without the header", name);
        // an unusable base only matters where it is used
        match read_s("not a base", &hdrs(name, &[raw.as_str()])) {
            Ok(g) => ck!(name != "content-location" && g == Url::parse(raw.trim()).ok(), "{} from {:?} against a bad base: {:?}", name, raw, g),
            Err(e) => ck!(e.status().is_client_error() || e.status().is_server_error(), "status {}", e.status()),
        }
    }
    // written and read back
    let set = Url::parse(&u.set).map_err(|e| Fail::new(format!("generator: {}", e)))?;
    let mut cl = ContentLocation::new(base.clone());
    let mut rf = Referer::new(base.clone());
    let mut sm = SourceMap::new(base.clone());
    for (i, url) in [&base, &set].iter().enumerate() {
        if i == 1 {
            cl.set_location(u.set.as_str());
            rf.set_location(u.set.as_str()).map_err(|e| Fail::new(e.to_string()))?;
            sm.set_location(u.set.as_str()).map_err(|e| Fail::new(e.to_string()))?;
        }
        ck_eq!(cl.location(), *url, "location");
        ck_eq!(rf.location(), *url, "location");
        ck_eq!(sm.location(), *url, "location");
        for (n, v) in [("content-location", emit(&cl, "content-location")?), ("referer", emit(&rf, "referer")?), ("sourcemap", emit(&sm, "sourcemap")?)] {
            ck_eq!(v, url.as_str(), "{} value", n);
            for (name, read, _, _) in readers {
                if n == name {
                    let other = Url::parse("http://unrelated.test/a/b?c").unwrap();
                    ck_eq!(no_err(read(other, &hdrs(n, &[v.as_str()])), n)?.as_ref(), Some(*url), "{} read back", n);
                }
            }
        }
    }
    ck!(rf.set_location("::bad::").is_err() && rf.location() == &set, "a bad location must be refused and change nothing");
    ck!(sm.set_location("::bad::").is_err() && sm.location() == &set, "a bad location must be refused and change nothing");
    classify_if(want.is_err(), "unresolvable");
    Ok(want.is_ok() && Url::parse(u.val.trim()).is_err())
}

fn url_text() -> BoxedStrategy<String> {
    ("(https?|ftp|ws|custom)", gen::re("[a-z]{1,6}(\\.[a-z]{2,4})?(:[1-9][0-9]{1,3})?"), gen::re("(/[a-zA-Z0-9%._~!-]{0,5}){0,4}"), gen::re("(\\?[a-z=&%+0-9]{0,6})?"), gen::re("(#[a-z0-9]{0,4})?"))
        .prop_filter_map("url", |(s, h, p, q, f)| {
            let t = format!("{}://{}{}{}{}", s, h, p, q, f);
            Url::parse(&t).ok().map(|u| u.to_string())
        })
        .boxed()
}

const METHODS: &str = "ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL";

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Al {
    lines: Vec<Vec<(String, u8, u64, String)>>,
    bad: Option<String>,
}

fn check_allow(a: &Al) -> Check {
    let names: Vec<&str> = METHODS.split(' ').collect();
    let mut set: BTreeSet<&str> = BTreeSet::new();
    let mut lines = vec![];
    for l in &a.lines {
        let mut parts = vec![];
        for (x, k, case, y) in l {
            let k = *k as usize % (names.len() + 2);
            let t = if k >= names.len() {
                String::new()
            } else {
                set.insert(names[k]);
                gen::recase(names[k], *case | if case % 2 == 0 { u64::MAX } else { 0 })
            };
            parts.push(format!("{}{}{}", x, t, y));
        }
        lines.push(parts.join(","));
    }
    let mut allow = Allow::new();
    for n in &set {
        allow.insert(Method::from_str(n).map_err(|e| Fail::new(e.to_string()))?);
        allow.insert(Method::from_str(n).unwrap());
    }
    let check = |al: &Allow, what: &str| -> Result<(), Fail> {
        for n in &names {
            ck_eq!(al.contains(Method::from_str(n).unwrap()), set.contains(n), "{}: contains {}", what, n);
        }
        let got: Vec<String> = al.iter().map(|m| m.to_string()).collect();
        ck_eq!(got.len(), set.len(), "{}: number of methods {:?}", what, got);
        ck_eq!(got.iter().map(|s| s.as_str()).collect::<BTreeSet<_>>(), set, "{}: methods", what);
        ck_eq!(run_out(al.into_iter(), set.len(), what)?.into_iter().map(|m| m.to_string()).collect::<Vec<_>>(), got, "{}: by reference", what);
        run_out(al.iter(), set.len(), what)?;
        Ok(())
    };
    check(&allow, "built")?;
    let v = emit(&allow, "allow")?;
    ck_eq!(v.split(", ").filter(|s| !s.is_empty()).collect::<BTreeSet<_>>(), set, "value {:?}", v);
    ck_eq!(v.split(", ").filter(|s| !s.is_empty()).count(), set.len(), "value {:?}: number of methods", v);
    let back = no_err(Allow::from_headers(hdrs("allow", &[v.as_str()])), "Allow")?.ok_or_else(|| Fail::new("None"))?;
    check(&back, &format!("from {:?}", v))?;
    ck_eq!(run_out(back.into_iter(), set.len(), "into_iter")?.into_iter().map(|m| m.to_string()).collect::<BTreeSet<_>>(), set.iter().map(|s| s.to_string()).collect(), "into_iter");
    if lines.is_empty() {
        ck!(no_err(Allow::from_headers(no_headers()), "Allow")?.is_none(), "Some without the header");
        return Ok(false);
    }
    let parsed = no_err(Allow::from_headers(hdrs("allow", &lines)), "Allow")?.ok_or_else(|| Fail::new("None"))?;
    check(&parsed, &format!("from {:?}", lines))?;
    if let Some(b) = &a.bad {
        let n = lines.len() - 1;
        lines[n] = format!("{} , {}", lines[n], b);
        match Allow::from_headers(hdrs("allow", &lines)) {
            Err(e) => is_400(&e, &format!("{:?}", lines))?,
            Ok(g) => fail!("Allow from {:?}: {:?}", lines, g.map(|g| g.iter().map(|m| m.to_string()).collect::<Vec<_>>())),
        }
    }
    Ok(set.len() >= 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct X {
    lines: Vec<String>,
}

fn check_expect(x: &X) -> Check {
    ck_eq!(emit(&Expect::new(), "expect")?, "100-continue", "expect value");
    match (Expect::from_headers(hdrs("expect", &x.lines)), x.lines.last()) {
        (Ok(None), None) => Ok(false),
        (Ok(Some(e)), Some(l)) => {
            ck!(l.trim().eq_ignore_ascii_case("100-continue"), "Expect from {:?}", x.lines);
            ck_eq!(e, Expect::new(), "Expect");
            Ok(x.lines.len() > 1)
        }
        (Err(e), Some(l)) => {
            ck!(l != "100-continue", "refused {:?}", x.lines);
            is_400(&e, l)?;
            Ok(true)
        }
        (g, _) => fail!("Expect from {:?}: {:?}", x.lines, g),
    }
}

fn main() {
    pbt::fw::main("C10", vec![
        law("content_length", "a length over the whole u64 range, and arbitrary text; non-trivial: at least 10, and some text", 40_000, 2_000_000,
            || (gen::edge_u64(), gen::edge_u64(), prop_oneof![gen::ascii_text(8), gen::re("[0-9]{1,25}"), gen::re("[+ -]?[0-9]{1,3}[ .,]?[0-9]?")], vec(gen::ascii_text(6), 0..2)).prop_map(|(len, set, raw, earlier)| N { len, set, raw, earlier }), check_len),
        law("content_type", "text that may be a media type, judged by a reference parser; non-trivial: accepted, with parameters", 40_000, 2_000_000,
            || (prop_oneof![
                    4 => (gen::re("[a-z]{1,6}/[a-z.+*-]{1,6}"), vec((gen::ows(), gen::re("(charset|boundary|q|[a-z]{1,4})"), prop_oneof![gen::re("[a-zA-Z0-9-]{1,6}"), "\"([ !#-\\[\\]-~]|\\\\[\"\\\\a-z]){0,6}\"", Just("utf-8".to_string()), Just("UTF-8".to_string())]), 0..4))
                        .prop_map(|(e, ps)| ps.iter().fold(e, |a, (w, k, v)| format!("{};{}{}={}", a, w, k, v))),
                    2 => gen::soup(&["text", "/", "html", ";", "charset=", "utf-8", "\"", "\\", " ", "=", "a", "*"], 8)],
                vec(gen::ascii_text(6), 0..2)).prop_map(|(raw, earlier)| Ct { raw, earlier }), check_ct),
        law("codings", "header lines of known and unknown codings with whitespace, for Content-Encoding and Transfer-Encoding; non-trivial: at least two lines, one known", 30_000, 1_000_000,
            || vec((gen::ows(), prop_oneof![6 => proptest::sample::select(vec!["gzip", "deflate", "br", "zstd", "identity", "chunked"]).prop_map(String::from), 2 => proptest::sample::select(vec!["", "x-gzip", "gzi", "gzipp", "brotli", "compress", "GZIP", "gzip, br", "*", "none"]).prop_map(String::from), 1 => gen::ascii_text(6)], gen::ows()), 0..5).prop_map(|lines| Enc { lines }), check_enc),
        law("urls", "a base URL and a reference (relative, absolute, or malformed) for Content-Location, Referer and SourceMap; non-trivial: a relative reference that resolves", 30_000, 1_000_000,
            || (url_text(), prop_oneof![2 => url_text(), 4 => gen::re("(\\.\\./|\\./|/|//[a-z]{1,3})?[a-z]{0,4}(/[a-z.]{0,3}){0,3}(\\?[a-z=]{0,4})?(#[a-z]{0,2})?"), 1 => gen::soup(&["http:", "//", "/", "[", "]", ":", "99999", "a", "@", "?", "#", "%", "..", "custom:", "\\"], 6)], gen::ows(), gen::ows(), url_text())
                .prop_map(|(base, val, pre, post, set)| U { base, val, pre, post, set }), check_url),
        law("allow", "sets of methods over several lines in any letter case with empty elements, and an unknown method; non-trivial: at least two methods", 20_000, 1_000_000,
            || (vec(vec((gen::ows(), any::<u8>(), any::<u64>(), gen::ows()), 1..6), 0..3), proptest::option::of(proptest::sample::select(vec!["GETS", "GE", "FOO", "G ET", "*", "GET;q=1", "\"GET\"", "POST/"]).prop_map(String::from))).prop_map(|(lines, bad)| Al { lines, bad }), check_allow),
        law("expect", "lines of text, often near 100-continue; non-trivial: refused, or several lines", 20_000, 500_000,
            || vec(prop_oneof![3 => Just("100-continue".to_string()), 1 => proptest::sample::select(vec!["100-Continue", " 100-continue", "100-continue, x", "100", "continue", "100-continuee", "", "200-ok"]).prop_map(String::from), 1 => gen::ascii_text(5)], 0..4).prop_map(|lines| X { lines }), check_expect),
    ]);
}
