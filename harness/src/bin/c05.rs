//! C05: media types parse, print and compare by the WHATWG algorithm.
use http_types::mime::{self, Mime};
use pbt::fw::*;
use pbt::{ck, ck_eq, gen};
use pbt::refmodel::mime::{RefMime, parse as ref_parse};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct In {
    s: String,
    probe: String,
}

fn same(m: &Mime, r: &RefMime, what: &str) -> Result<(), Fail> {
    ck_eq!(m.basetype(), r.base.as_str(), "{}: basetype", what);
    ck_eq!(m.subtype(), r.sub.as_str(), "{}: subtype", what);
    ck_eq!(m.essence(), format!("{}/{}", r.base, r.sub), "{}: essence", what);
    for (i, (k, v)) in r.params.iter().enumerate() {
        ck_eq!(m.param(k.as_str()).map(|v| v.as_str()), Some(v.as_str()), "{}: param {:?}", what, k);
        let p = m.param(k.as_str()).unwrap();
        ck_eq!(p.to_string(), *v, "{}: printed param {:?}", what, k);
        let other = format!("{}x", v);
        ck!(p == v.as_str() && *p == *v.as_str() && *p == v.as_str() && p != other.as_str() && *p != *other.as_str() && v.is_empty() == (p == ""), "{}: param {:?} compared with text", what, k);
        for o in [gen::recase(v, 0x3c5a ^ i as u64), v.trim().to_string(), format!("\"{}\"", v), v.chars().skip(1).collect()] {
            ck!((p == o.as_str()) == (*v == o) && (*p == *o.as_str()) == (*v == o) && (*p == o.as_str()) == (*v == o), "{}: param {:?} compared with {:?}", what, k, o);
        }
        let alt = gen::recase(k, 0x5a5a ^ i as u64);
        ck_eq!(m.param(alt.as_str()).map(|v| v.as_str()), Some(v.as_str()), "{}: param {:?}", what, alt);
    }
    for k in ["charset", "q", "nope", "x"] {
        ck_eq!(m.param(k).map(|v| v.as_str()), r.get(k), "{}: param {:?}", what, k);
    }
    Ok(())
}

fn check_parse(i: &In) -> Check {
    let r = ref_parse(&i.s);
    let m = Mime::from_str(&i.s);
    let (m, r) = match (m, r) {
        (Err(_), None) => {
            classify("rejected");
            return Ok(false);
        }
        (Ok(m), None) => return Err(Fail::new(format!("accepted {:?} as {:?}", i.s, m.to_string()))),
        (Err(e), Some(r)) => return Err(Fail::new(format!("rejected {:?} ({}), expected {:?}", i.s, e, r))),
        (Ok(m), Some(r)) => (m, r),
    };
    same(&m, &r, "parsed")?;
    if i.probe.is_ascii() {
        ck_eq!(
            m.param(i.probe.as_str()).map(|v| v.as_str().to_string()),
            r.get(&i.probe.to_ascii_lowercase()).map(|s| s.to_string()),
            "param {:?}",
            i.probe
        );
    }
    // printing: the reference parser reads the printed form as the same media type,
    // and the printed form is canonical.
    let printed = m.to_string();
    match ref_parse(&printed) {
        None => return Err(Fail::new(format!("printed form {:?} is not a media type", printed))),
        Some(p) => ck!(p.same(&r), "printed form {:?} means {:?}, not {:?}", printed, p, r),
    }
    ck_eq!(printed.len(), r.print().len(), "printed form {:?} vs canonical {:?}: length", printed, r.print());
    if r.get("charset") != Some("utf-8") {
        ck_eq!(printed, r.print(), "printed form");
    }
    let again = Mime::from_str(&printed);
    match again {
        Ok(a) => {
            ck!(a == m, "parse(print(m)) != m for {:?}", printed);
            ck_eq!(a.to_string(), printed, "print is not idempotent");
        }
        Err(e) => return Err(Fail::new(format!("printed form {:?} rejected: {}", printed, e))),
    }
    classify_if(r.params.len() > 1, "several params");
    classify_if(r.get("charset") == Some("utf-8"), "utf-8");
    classify_if(printed.contains('"'), "quoted on output");
    Ok(!r.params.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rm {
    s: String,
    rm: Vec<String>,
}

fn check_remove(i: &Rm) -> Check {
    let (mut m, mut r) = match (Mime::from_str(&i.s), ref_parse(&i.s)) {
        (Ok(m), Some(r)) => (m, r),
        _ => return Ok(false),
    };
    let mut hit = 0;
    for k in &i.rm {
        let want = r.remove(&k.to_ascii_lowercase());
        hit += want.is_some() as u32;
        ck_eq!(m.remove_param(k.as_str()).map(|v| v.as_str().to_string()), want, "remove_param({:?})", k);
        same(&m, &r, "after remove_param")?;
        let p = ref_parse(&m.to_string());
        ck!(p.as_ref().map_or(false, |p| p.same(&r)), "after remove_param prints {:?}, expected {:?}", m.to_string(), r);
    }
    Ok(hit > 0)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sub {
    a: String,
    b: String,
    c: String,
}

fn check_subset(i: &Sub) -> Check {
    let all = [&i.a, &i.b, &i.c];
    let mut v = vec![];
    for s in all {
        match (Mime::from_str(s), ref_parse(s)) {
            (Ok(m), Some(r)) => v.push((m, r)),
            _ => return Ok(false),
        }
    }
    let mut pos = 0;
    for (m, r) in &v {
        ck!(m.subset_eq(m), "{} is not a subset of itself", m);
        for (m2, r2) in &v {
            let want = r.subset_eq(r2);
            pos += want as u32;
            ck_eq!(m.subset_eq(m2), want, "{:?} subset_eq {:?}", m.to_string(), m2.to_string());
        }
    }
    classify_if(pos > 3, "some proper subset");
    Ok(pos > 3)
}

fn pname() -> BoxedStrategy<String> {
    prop_oneof![
        5 => (prop::sample::select(&["charset", "q", "x", "level", "boundary"][..]), any::<u64>()).prop_map(|(s, m)| gen::recase(s, m & (m >> 7) & (m >> 13))),
        2 => gen::token(),
        1 => gen::re("[ a-z(\u{e9}]{0,3}"),
    ]
    .boxed()
}
fn pval() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::sample::select(&["utf-8", "UTF-8", "gbk", "1", "0.5", "a", ""][..]).prop_map(|s| s.to_string()),
        2 => gen::token(),
        2 => gen::re("[ -~\t\u{80}\u{e9}\u{ff}]{0,6}").prop_map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))),
        2 => gen::re("\"[ -~]{0,6}"),
        1 => gen::any_text(5),
        1 => gen::any_text(5).prop_map(|s| format!("\"{}\"", s)),
    ]
    .boxed()
}
fn ws() -> BoxedStrategy<String> {
    prop_oneof![16 => Just("".to_string()), 6 => Just(" ".to_string()), 2 => gen::re("[ \t\r\n]{1,3}"), 1 => "[\u{b}\u{c}\u{a0}]"].boxed()
}
fn essence() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (prop::sample::select(&["text/html", "application/json", "*/*", "text/*", "image/svg+xml", "a/b"][..]), any::<u64>()).prop_map(|(s, m)| gen::recase(s, m & (m >> 3))),
        2 => (gen::token(), gen::token()).prop_map(|(a, b)| format!("{}/{}", a, b)),
        2 => (gen::token(), gen::token()).prop_map(|(a, b)| format!("{}/{}", a, b)),
        1 => gen::re("[a-z/ ;]{0,6}"),
    ]
    .boxed()
}
fn structured() -> BoxedStrategy<String> {
    (
        ws(),
        essence(),
        gen::vec((ws(), ws(), pname(), pval(), ws(), 0..12), 0..5),
        ws(),
    )
        .prop_map(|(w, e, ps, w2)| {
            let mut s = format!("{}{}", w, e);
            for (a, b, n, v, c, k) in ps {
                match k {
                    9 => s.push_str(&format!("{};{}charset=utf-8", a, b)),
                    10 => s.push_str(&format!("{};{}CharSet=\"utf\\-8\"", a, b)),
                    0 => s.push_str(&format!("{};{}{}{}", a, b, n, c)),
                    1 => s.push_str(&format!("{};{}{} ={}{}", a, b, n, v, c)),
                    _ => s.push_str(&format!("{};{}{}={}{}", a, b, n, v, c)),
                }
            }
            s + &w2
        })
        .boxed()
}
const DICT: &[&str] = &[
    "text", "/", "html", ";", "=", "\"", "\\", " ", "charset", "utf-8", "gbk", "*", "a", "b", "\t", "\n", "\u{e9}", "\u{fffd}", "\u{80}", "q", "0.5", ",", "application/json",
];
fn any_mime() -> BoxedStrategy<String> {
    prop_oneof![
        6 => structured(),
        2 => gen::soup(DICT, 14),
        2 => (gen::soup(DICT, 8)).prop_map(|s| format!("text/html;{}", s)),
        1 => gen::any_text(12),
    ]
    .boxed()
}
/// Small universe, so that subset relations really occur.
fn small_mime() -> BoxedStrategy<String> {
    (
        prop::sample::select(&["*/*", "text/*", "text/html", "text/css", "image/*", "*/html"][..]),
        gen::vec(
            prop::sample::select(&[";charset=utf-8", ";charset=gbk", ";a=1", ";a=2", ";b=1", ";charset=UTF-8"][..]),
            0..3,
        ),
    )
        .prop_map(|(e, p)| format!("{}{}", e, p.concat()))
        .boxed()
}

fn consts() -> Vec<(Mime, &'static str)> {
    vec![
        (mime::JAVASCRIPT, "text/javascript;charset=utf-8"),
        (mime::CSS, "text/css;charset=utf-8"),
        (mime::HTML, "text/html;charset=utf-8"),
        (mime::PLAIN, "text/plain;charset=utf-8"),
        (mime::XML, "application/xml;charset=utf-8"),
        (mime::RSS, "application/rss+xml;charset=utf-8"),
        (mime::ATOM, "application/atom+xml;charset=utf-8"),
        (mime::ANY, "*/*"),
        (mime::JSON, "application/json"),
        (mime::SSE, "text/event-stream"),
        (mime::BYTE_STREAM, "application/octet-stream"),
        (mime::FORM, "application/x-www-form-urlencoded"),
        (mime::MULTIPART_FORM, "multipart/form-data"),
        (mime::WASM, "application/wasm"),
        (mime::BMP, "image/bmp"),
        (mime::JPEG, "image/jpeg"),
        (mime::PNG, "image/png"),
        (mime::SVG, "image/svg+xml"),
        (mime::WEBP, "image/webp"),
        (mime::MIDI, "audio/midi"),
        (mime::MP3, "audio/mpeg"),
        (mime::OGG, "audio/ogg"),
        (mime::OPUS, "audio/opus"),
        (mime::M4A, "audio/mp4"),
        (mime::MP4, "video/mp4"),
        (mime::MPEG, "video/mpeg"),
        (mime::WEBM, "video/webm"),
        (mime::AVI, "video/x-msvideo"),
        (mime::ICO, "image/x-icon"),
        (mime::OTF, "font/otf"),
        (mime::TTF, "font/ttf"),
        (mime::WOFF, "font/woff"),
        (mime::WOFF2, "font/woff2"),
        (mime::ZIP, "application/zip"),
        (mime::SEVENZIP, "application/x-7z-compressed"),
    ]
}

/// extension -> essence, from the documentation of the constants above
const EXT: &[(&str, &str)] = &[
    ("7z", "application/x-7z-compressed"), ("atom", "application/atom+xml"), ("avi", "video/x-msvideo"),
    ("bin", "application/octet-stream"), ("exe", "application/octet-stream"), ("dll", "application/octet-stream"),
    ("iso", "application/octet-stream"), ("img", "application/octet-stream"), ("bmp", "image/bmp"), ("css", "text/css"),
    ("html", "text/html"), ("ico", "image/x-icon"), ("js", "text/javascript"), ("mjs", "text/javascript"),
    ("jsonp", "text/javascript"), ("json", "application/json"), ("m4a", "audio/mp4"), ("mid", "audio/midi"),
    ("midi", "audio/midi"), ("kar", "audio/midi"), ("mp3", "audio/mpeg"), ("mp4", "video/mp4"), ("mpeg", "video/mpeg"),
    ("mpg", "video/mpeg"), ("ogg", "audio/ogg"), ("otf", "font/otf"), ("rss", "application/rss+xml"), ("svg", "image/svg+xml"),
    ("svgz", "image/svg+xml"), ("ttf", "font/ttf"), ("txt", "text/plain"), ("wasm", "application/wasm"),
    ("webm", "video/webm"), ("webp", "image/webp"), ("woff", "font/woff"), ("woff2", "font/woff2"), ("xml", "application/xml"),
    ("zip", "application/zip"),
];

fn laws() -> Vec<Box<dyn DynLaw>> {
    vec![
        law(
            "parse_print",
            "structured, dictionary-soup and arbitrary unicode strings against an independent WHATWG parser/serialiser, plus parse(print)=id; non-trivial = accepted with at least one parameter",
            160_000,
            6_000_000,
            || (any_mime(), gen::token()).prop_map(|(s, probe)| In { s, probe }),
            check_parse,
        ),
        law(
            "remove_param",
            "sequences of remove_param on parsed media types against the model; non-trivial = removes a present parameter",
            60_000,
            2_000_000,
            || (prop_oneof![2 => structured(), 2 => small_mime(), 3 => (gen::re("(charset|a|q|x|level)=[a-z0-9]{1,5}"), gen::vec(gen::re("(; ?|;)(charset|a|q|x|level)=(utf-8|[a-z0-9]{0,2}|\"[a-z ;]{0,3}\")"), 1..6)).prop_map(|(a, v)| format!("text/html;{}{}", a, v.concat()))], proptest::collection::vec(prop_oneof![3 => prop::sample::select(&["charset", "CHARSET", "a", "q", "x", "X", "level"][..]).prop_map(|s| s.to_string()), 1 => gen::token()], 1..5)).prop_map(|(s, rm)| Rm { s, rm }),
            check_remove,
        ),
        law(
            "subset",
            "triples of media types from a small universe against the reference subset relation, reflexivity included; non-trivial = a proper subset pair among them",
            40_000,
            1_000_000,
            || prop_oneof![4 => (small_mime(), small_mime(), small_mime()), 1 => (structured(), structured(), small_mime())].prop_map(|(a, b, c)| Sub { a, b, c }),
            check_subset,
        ),
        law(
            "constants",
            "each predefined media type: documented text, accessors, reparse; every index is drawn many times; non-trivial = all",
            2_000,
            10_000,
            || 0usize..35,
            |i: &usize| {
                let (m, txt) = consts().swap_remove(*i);
                ck_eq!(m.to_string(), txt, "constant text");
                same(&m, &ref_parse(txt).unwrap(), "constant")?;
                ck!(Mime::from_str(txt).map_or(false, |x| x == m), "constant {} differs from its parsed text", txt);
                ck!(Mime::from(txt) == m, "From<&str>");
                Ok(true)
            },
        ),
        law(
            "extension",
            "documented file extensions and arbitrary strings; non-trivial = a known extension",
            10_000,
            100_000,
            || prop_oneof![3 => (0usize..EXT.len()).prop_map(|i| EXT[i].0.to_string()), 1 => gen::re("[a-z0-9]{0,5}")],
            |e: &String| {
                let got = Mime::from_extension(e);
                match EXT.iter().find(|x| x.0 == e) {
                    Some((_, w)) => {
                        ck_eq!(got.map(|m| m.essence().to_string()), Some(w.to_string()), "from_extension({:?})", e);
                        Ok(true)
                    }
                    None => {
                        // an unlisted extension may only be guessed as something well formed
                        if let Some(m) = got {
                            ck!(ref_parse(&m.to_string()).is_some(), "guess {:?}", m);
                        }
                        Ok(false)
                    }
                }
            },
        ),
        law(
            "sniff",
            "contents with a magic number at its place - complete, cut off or with more behind it - and others; non-trivial = one of the 39 in the table",
            20_000,
            400_000,
            || prop_oneof![6 => pbt::magic::content(prop_oneof![3 => proptest::collection::vec(any::<u8>(), 0..60), 1 => proptest::collection::vec(any::<u8>(), 200..700)].boxed()), 1 => pbt::magic::office()],
            |b: &Vec<u8>| {
                let got = match no_panic(|| Mime::sniff(b)) {
                    Ok(got) => got,
                    // what the inferring crate does with the size of the first part of an office document
                    Err(e) if b.starts_with(b"PK\x03\x04") && b.len() >= 22 && u32::from_le_bytes([b[18], b[19], b[20], b[21]]) > u32::MAX - 49 => {
                        return Err(Fail::sig("C05/sniff-office-size", format!("sniffing a document whose first part has a size near 2^32 panics: {}", e)))
                    }
                    Err(e) => return Err(Fail::new(format!("sniffing {:?} panics: {}", b, e))),
                };
                if let (Some(w), false) = (pbt::magic::known(b), pbt::magic::compound(b)) {
                    ck_eq!(got.as_ref().ok().map(|m| m.to_string()), Some(w.to_string()), "sniff");
                    classify(w);
                    return Ok(true);
                }
                if let Ok(m) = got {
                    ck!(Mime::from_str(&m.to_string()).map_or(false, |x| x == m), "sniffed {} does not reparse", m);
                }
                Ok(false)
            },
        ),
    ]
}

fn main() {
    pbt::fw::main("C05", laws())
}
