//! C11: content negotiation. The entry with the highest weight wins, later entries win ties, entries without a weight
//! come last, a weight of zero refuses, and a wildcard takes what is left.
use http_types::content::{self, Accept, AcceptEncoding, MediaTypeProposal};
use http_types::mime::Mime;
use http_types::transfer::{self, TE};
use http_types::{Method, StatusCode};
use pbt::fw::*;
use pbt::hx::*;
use pbt::refmodel::mime as refmime;
use pbt::{ck, ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

/// weight in thousandths
type W = Option<u16>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    entries: Vec<(u8, W)>,
    wildcard: bool,
    available: Vec<u8>,
    /// text form: separator whitespace, weight spelling, unknown entries and line breaks per entry
    deco: Vec<(String, String, u8, u8)>,
    star_weight: Option<u16>,
    star_at: u8,
}

fn wtext(k: u16, style: u8) -> String {
    let full = format!("{}.{:03}", k / 1000, k % 1000);
    match style % 3 {
        0 => full,
        _ => {
            let t = full.trim_end_matches('0');
            let t = t.trim_end_matches('.');
            if t.is_empty() { "0".into() } else { t.to_string() }
        }
    }
}

/// The order in which entries are considered: indices.
fn order(ws: &[W]) -> Vec<usize> {
    let mut idx: Vec<usize> = (0..ws.len()).collect();
    idx.sort_by(|a, b| {
        let k = |i: usize| ws[i].map_or(-1i32, |w| w as i32);
        k(*b).cmp(&k(*a)).then(b.cmp(a))
    });
    idx
}

/// Which available index is picked. `matches(entry, available)`.
fn pick(ws: &[W], wildcard: bool, avail: usize, matches: &dyn Fn(usize, usize) -> bool) -> Option<usize> {
    for i in order(ws) {
        if ws[i] == Some(0) {
            continue;
        }
        for a in 0..avail {
            if matches(i, a) {
                return Some(a);
            }
        }
    }
    if wildcard {
        for a in 0..avail {
            if !(0..ws.len()).any(|i| ws[i] == Some(0) && matches(i, a)) {
                return Some(a);
            }
        }
    }
    None
}

/// Writes the wildcard, with its weight and any whitespace, as the next element of the last line.
fn star(w: Option<u16>, deco: &[(String, String, u8, u8)], lines: &mut [String], first: &mut bool) {
    let d = deco.last().cloned().unwrap_or_default();
    let l = lines.last_mut().unwrap();
    if !*first && !l.is_empty() {
        l.push(',');
    }
    *first = false;
    l.push_str(&d.1);
    l.push('*');
    if let Some(k) = w {
        l.push_str(&format!("{};{}{}={}", d.0, d.1, if d.2 & 8 == 0 { "q" } else { "Q" }, wtext(k, d.2)));
    }
    l.push_str(&d.0);
}

const UNKNOWN: [&str; 5] = ["x-gzip", "compress;q=0.9", "", "gzipped", "sdch; q=1"];

macro_rules! coding_law {
    ($fname:ident, $m:ident, $ty:ident, $name:expr, $out:expr, $encs:expr) => {
        fn $fname(c: &Case) -> Check {
            use $m::{Encoding, EncodingProposal};
            let encs: Vec<(&str, Encoding)> = $encs;
            let e = |k: u8| encs[k as usize % encs.len()];
            let ents: Vec<(&str, Encoding, W)> = c.entries.iter().map(|(k, w)| (e(*k).0, e(*k).1, *w)).collect();
            let ws: Vec<W> = ents.iter().map(|x| x.2).collect();
            let avail: Vec<(&str, Encoding)> = c.available.iter().map(|k| e(*k)).collect();
            let avail_e: Vec<Encoding> = avail.iter().map(|a| a.1).collect();
            let mut list = $ty::new();
            for (_, enc, w) in &ents {
                match w {
                    None => list.push(*enc),
                    Some(k) => {
                        let f = *k as f32 / 1000.0;
                        let p = no_err(EncodingProposal::new(*enc, Some(f)), "proposal")?;
                        ck_eq!(p.weight(), Some(f), "weight");
                        ck!(*p.encoding() == *enc && p == *enc, "encoding");
                        list.push(p)
                    }
                }
            }
            ck!(!list.wildcard(), "a new list has a wildcard");
            if c.wildcard || c.entries.len() % 2 == 0 {
                list.set_wildcard(c.wildcard);
            }
            // written
            let v = emit(&list, $name)?;
            let mut parts: Vec<String> = ents.iter().map(|(n, _, w)| match w {
                None => n.to_string(),
                Some(k) => format!("{};q={}", n, wtext(*k, 0)),
            }).collect();
            if c.wildcard {
                parts.push("*".into());
            }
            ck_eq!(v, parts.join(", "), "{} value", $name);
            // as text
            let mut lines: Vec<String> = vec![String::new()];
            let mut first = true;
            let star_at = c.star_at as usize % (ents.len() + 1);
            for (i, (n, _, w)) in ents.iter().enumerate() {
                if c.wildcard && i == star_at {
                    star(c.star_weight, &c.deco, &mut lines, &mut first);
                }
                let d = c.deco.get(i).cloned().unwrap_or_default();
                let t = match w {
                    None => n.to_string(),
                    Some(k) => format!("{}{};{}{}={}", n, d.1, d.0, if d.2 & 4 == 0 { "q" } else { "Q" }, wtext(*k, d.2)),
                };
                if !first {
                    if d.3 % 5 == 0 { lines.push(String::new()) } else { lines.last_mut().unwrap().push(',') }
                }
                first = false;
                let l = lines.last_mut().unwrap();
                l.push_str(&format!("{}{}{}", d.1, t, d.0));
                if d.3 % 7 == 1 {
                    l.push(',');
                    l.push_str(UNKNOWN[d.2 as usize % 5]);
                }
            }
            let mut text_wild = c.wildcard;
            if c.wildcard {
                if star_at == ents.len() {
                    star(c.star_weight, &c.deco, &mut lines, &mut first);
                }
                text_wild = c.star_weight != Some(0);
            }
            let read = no_err($ty::from_headers(hdrs($name, &lines)), &format!("{:?}", lines))?.ok_or_else(|| Fail::new("None"))?;
            let reread = no_err($ty::from_headers(hdrs($name, &[v.as_str()])), &v)?.ok_or_else(|| Fail::new("None"))?;
            ck!(no_err($ty::from_headers(no_headers()), $name)?.is_none(), "Some without the header");
            for (mut l, wild, how) in [(list, c.wildcard, "built".to_string()), (reread, c.wildcard, format!("{:?}", v)), (read, text_wild, format!("{:?}", lines))] {
                ck_eq!(l.wildcard(), wild, "wildcard of {}", how);
                let show = |p: &EncodingProposal| (*p.encoding(), p.weight().map(|w| (w * 1000.0).round() as u16));
                let want: Vec<(Encoding, W)> = ents.iter().map(|x| (x.1, x.2)).collect();
                pbt::walk!(l, want, |p| show(p), format!("entries of {}", how));
                let w = pick(&ws, wild, avail.len(), &|i, a| ents[i].1 == avail[a].1);
                for time in ["first", "second"] {
                    match (l.negotiate(&avail_e), w) {
                        (Ok(g), Some(a)) => {
                            ck!(g == avail[a].1, "negotiating {} with {:?} ({} time): {:?}, expected {}", how, avail_e, time, g, avail[a].0);
                            ck_eq!(emit(&g, $out)?, avail[a].0, "negotiated value");
                        }
                        (Err(e), None) => ck_eq!(e.status(), StatusCode::NotAcceptable, "status when nothing matches"),
                        (g, w) => fail!("negotiating {} with {:?} ({} time): {:?}, expected {:?}", how, avail_e, time, g, w.map(|a| avail[a].0)),
                    }
                }
                // an earlier negotiation must not have changed the declared list, sort() orders it
                l.sort();
                let sorted: Vec<(Encoding, W)> = order(&ws).into_iter().map(|i| want[i]).collect();
                if ws.iter().collect::<std::collections::HashSet<_>>().len() == ws.len() || how == "built" {
                    ck_eq!(l.iter().map(show).collect::<Vec<_>>(), sorted, "sorted entries of {}", how);
                }
                let mut own: Vec<(Encoding, W)> = run_out(l.into_iter(), want.len(), "into_iter")?.iter().map(show).collect();
                let mut all = want.clone();
                own.sort_by_key(|x| (x.0.to_string(), x.1));
                all.sort_by_key(|x| (x.0.to_string(), x.1));
                ck_eq!(own, all, "into_iter of {}", how);
            }
            let distinct_avail = avail.iter().filter(|a| ents.iter().any(|e| e.1 == a.1)).count();
            classify_if(ws.iter().any(|w| *w == Some(0)), "weight zero");
            classify_if(text_wild != c.wildcard, "wildcard with weight zero");
            Ok(ents.len() >= 2 && distinct_avail >= 2)
        }
    };
}

coding_law!(check_ae, content, AcceptEncoding, "accept-encoding", "content-encoding", vec![
    ("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli), ("zstd", Encoding::Zstd), ("identity", Encoding::Identity)]);
coding_law!(check_te, transfer, TE, "te", "transfer-encoding", vec![
    ("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli), ("zstd", Encoding::Zstd), ("identity", Encoding::Identity), ("chunked", Encoding::Chunked)]);

#[derive(Debug, Clone, Serialize, Deserialize)]
struct M {
    base: u8,
    sub: u8,
    params: u8,
}
const BASES: [&str; 4] = ["text", "application", "image", "*"];
const SUBS: [&str; 4] = ["html", "json", "xml", "*"];
const PARAMS: [&[(&str, &str)]; 8] = [&[], &[], &[("charset", "utf-8")], &[("charset", "latin1")], &[("v", "1")], &[("x", "a,b")], &[("x", "a\",b\\")], &[("charset", "utf-8"), ("v", "1")]];

impl M {
    fn r(&self, concrete: bool) -> refmime::RefMime {
        let n = if concrete { 3 } else { 4 };
        refmime::RefMime {
            base: BASES[self.base as usize % n].into(),
            sub: SUBS[self.sub as usize % n].into(),
            params: PARAMS[self.params as usize % 8].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Acc {
    entries: Vec<(M, W, bool)>,
    wildcard: bool,
    available: Vec<M>,
    deco: Vec<(String, String, u8, u8)>,
    star_weight: Option<u16>,
    star_at: u8,
}

fn check_accept(c: &Acc) -> Check {
    let ents: Vec<(refmime::RefMime, W, bool)> = c.entries.iter().map(|(m, w, d)| (m.r(false), *w, *d)).collect();
    let avail: Vec<refmime::RefMime> = c.available.iter().map(|m| m.r(true)).collect();
    let avail_m: Vec<Mime> = avail.iter().map(|r| Mime::from_str(&r.print()).map_err(|e| Fail::new(e.to_string()))).collect::<Result<_, _>>()?;
    let mut list = Accept::new();
    let mut built_w = vec![];
    for (r, w, direct) in &ents {
        let m = Mime::from_str(&r.print()).map_err(|e| Fail::new(e.to_string()))?;
        if *direct && w.is_none() {
            list.push(m);
            built_w.push(None);
        } else {
            let p = no_err(MediaTypeProposal::new(m.clone(), w.map(|k| k as f32 / 1000.0)), "proposal")?;
            ck!(*p.media_type() == m && p == m, "media type");
            list.push(p);
            // no weight means a weight of 1 here
            built_w.push(Some(w.unwrap_or(1000)));
        }
    }
    ck!(!list.wildcard(), "a new list has a wildcard");
    if c.wildcard || c.entries.len() % 2 == 0 {
        list.set_wildcard(c.wildcard);
    }
    let v = emit(&list, "accept")?;
    // as text: a missing weight is a weight of 1
    let text_w: Vec<W> = ents.iter().map(|e| Some(e.1.unwrap_or(1000))).collect();
    let mut lines: Vec<String> = vec![String::new()];
    let mut first = true;
    let star_at = c.star_at as usize % (ents.len() + 1);
    for (i, (r, w, _)) in ents.iter().enumerate() {
        if c.wildcard && i == star_at {
            star(c.star_weight, &c.deco, &mut lines, &mut first);
        }
        let d = c.deco.get(i).cloned().unwrap_or_default();
        let t = match w {
            None => r.print(),
            Some(k) => format!("{}{};{}{}={}", r.print(), d.1, d.0, if d.2 & 4 == 0 { "q" } else { "Q" }, wtext(*k, d.2)),
        };
        if !first {
            if d.3 % 5 == 0 { lines.push(String::new()) } else { lines.last_mut().unwrap().push(',') }
        }
        first = false;
        let l = lines.last_mut().unwrap();
        l.push_str(&format!("{}{}{}", d.1, t, d.0));
        if d.3 % 7 == 1 {
            l.push_str(", ");
        }
    }
    let mut text_wild = c.wildcard;
    if c.wildcard {
        if star_at == ents.len() {
            star(c.star_weight, &c.deco, &mut lines, &mut first);
        }
        text_wild = c.star_weight != Some(0);
    }
    let read = no_err(Accept::from_headers(hdrs("accept", &lines)), &format!("{:?}", lines))?.ok_or_else(|| Fail::new("None"))?;
    let reread = no_err(Accept::from_headers(hdrs("accept", &[v.as_str()])), &v)?.ok_or_else(|| Fail::new("None"))?;
    let back_w: Vec<W> = built_w.iter().map(|w| Some(w.unwrap_or(1000))).collect();
    for (mut l, wild, ws, how) in [(list, c.wildcard, &built_w, "built".to_string()), (reread, c.wildcard, &back_w, format!("{:?}", v)), (read, text_wild, &text_w, format!("{:?}", lines))] {
        ck_eq!(l.wildcard(), wild, "wildcard of {}", how);
        let show = |p: &MediaTypeProposal| -> (String, W) {
            let mut m = refmime::parse(&p.media_type().to_string()).unwrap_or(refmime::RefMime { base: "?".into(), sub: "?".into(), params: vec![] });
            m.params.sort();
            (m.print(), p.weight().map(|w| (w * 1000.0).round() as u16))
        };
        let want: Vec<(String, W)> = ents.iter().zip(ws.iter()).map(|(e, w)| {
            let mut m = e.0.clone();
            m.params.sort();
            (m.print(), *w)
        }).collect();
        pbt::walk!(l, want, |p| show(p), format!("entries of {}", how));
        // A more specific refusal next to a wider acceptance (text/*, text/html;q=0) is left open.
        let refused = |a: &refmime::RefMime| ents.iter().zip(ws.iter()).any(|(e, w)| *w == Some(0) && a.subset_eq(&e.0));
        let w = pick(ws, wild, avail.len(), &|i, a| avail[a].subset_eq(&ents[i].0));
        let open = w.map_or(false, |a| refused(&avail[a]));
        for time in ["first", "second"] {
            match (l.negotiate(&avail_m), w) {
                _ if open => classify("open"),
                (Ok(g), Some(a)) => {
                    ck!(g == avail_m[a], "negotiating {} with {:?} ({} time): {:?}, expected {:?}", how, avail_m, time, g, avail_m[a]);
                    let t = emit(&g, "content-type")?;
                    ck!(refmime::parse(&t).map_or(false, |m| m.same(&avail[a])), "negotiated value {:?}", t);
                }
                (Err(e), None) => ck_eq!(e.status(), StatusCode::NotAcceptable, "status when nothing matches"),
                (g, w) => fail!("negotiating {} with {:?} ({} time): {:?}, expected {:?}", how, avail_m, time, g, w),
            }
        }
        l.sort();
        if how == "built" {
            let sorted: Vec<(String, W)> = order(ws).into_iter().map(|i| want[i].clone()).collect();
            ck_eq!(l.iter().map(show).collect::<Vec<_>>(), sorted, "sorted entries of {}", how);
        }
        ck_eq!(l.into_iter().count(), want.len(), "into_iter of {}", how);
    }
    ck!(no_err(Accept::from_headers(no_headers()), "Accept")?.is_none(), "Some without the header");
    classify_if(ents.iter().any(|e| e.0.params.iter().any(|p| p.1.contains(','))), "quoted comma");
    Ok(ents.len() >= 2 && avail.iter().filter(|a| ents.iter().any(|e| a.subset_eq(&e.0))).count() >= 2)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bw {
    bits: u32,
    text: String,
    at: u8,
}

/// Whether a text is a weight, and whether it must be refused as one.
fn qvalue(t: &str) -> (bool, bool) {
    // qvalue = ( "0" [ "." 0*3DIGIT ] ) / ( "1" [ "." 0*3("0") ] )
    let (i, f) = match t.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (t, None),
    };
    let f = f.unwrap_or("");
    let q = f.len() <= 3 && f.bytes().all(|c| c.is_ascii_digit()) && (i == "0" || (i == "1" && f.bytes().all(|c| c == b'0')));
    let must_fail = match t.parse::<f32>() {
        Ok(x) => !(x >= 0.0 && x <= 1.0) || t.starts_with('-'),
        Err(_) => true,
    };
    (q, must_fail)
}

#[derive(Debug, PartialEq)]
enum Said {
    Open,
    Refused,
    List(Vec<(String, Option<u32>)>, bool),
}

/// What one line says, read independently of the code.
fn read_line(which: u8, line: &str) -> Said {
    let ws = |c| c == ' ' || c == '\t';
    // elements; in Accept a quoted parameter value may hold commas
    let mut els = vec![String::new()];
    let (mut quoted, mut escaped, mut param) = (false, false, String::new());
    for c in line.chars() {
        let cur = els.last_mut().unwrap();
        if quoted {
            cur.push(c);
            quoted = c != '"' || escaped;
            escaped = c == '\\' && !escaped;
            continue;
        }
        match c {
            ',' => {
                param.clear();
                els.push(String::new());
                continue;
            }
            ';' => param.clear(),
            '"' if which == 2 => {
                if !param.ends_with('=') || param.matches('=').count() != 1 || !cur.contains(';') {
                    return Said::Open;
                }
                quoted = true;
                escaped = false;
                param.push(c);
            }
            c => param.push(c),
        }
        cur.push(c);
    }
    if quoted {
        return Said::Open;
    }
    let known = ["gzip", "deflate", "br", "zstd", "identity", "chunked"];
    let mut out = vec![];
    let mut star = None;
    let (mut open, mut bad) = (false, false);
    for e in &els {
        let e = e.trim_matches(ws);
        if e.is_empty() {
            continue;
        }
        let parts: Vec<&str> = e.split(';').collect();
        let name = parts[0].trim_matches(ws);
        // the weight as text, if there is one
        let weight = if which == 2 && name != "*" {
            let mut m = match refmime::parse(e) {
                Some(m) => m,
                None => {
                    bad = true;
                    continue;
                }
            };
            let w = m.params.iter().find(|p| p.0 == "q").map(|p| p.1.clone());
            m.params.retain(|p| p.0 != "q");
            m.params.sort();
            out.push((m.print(), None));
            w
        } else {
            if name != "*" && !known[..5 + which as usize].contains(&name) {
                let plain = |p: &str| p.trim_matches(ws).strip_prefix("q=").map_or(false, |w| qvalue(w).0);
                open |= known.contains(&&*name.to_ascii_lowercase()) || parts.len() > 2 || !parts[1..].iter().all(|p| plain(p));
                continue;
            }
            open |= parts.len() > 2;
            if name != "*" {
                out.push((name.to_string(), None));
            }
            match parts.get(1).map(|p| p.trim_matches(ws)) {
                None => None,
                Some(p) => match p.split_once('=') {
                    Some(("q" | "Q", v)) => Some(v.to_string()),
                    Some((n, _)) if ["q", "Q"].contains(&n.trim_matches(ws)) => return Said::Open,
                    _ => {
                        bad = true;
                        continue;
                    }
                },
            }
        };
        if name == "*" {
            let takes = weight.as_ref().map_or(true, |w| w.parse::<f32>().map_or(false, |w| w > 0.0));
            open |= star.map_or(false, |s| s != takes);
            star = Some(takes);
        }
        if let Some(w) = weight {
            match qvalue(&w) {
                (true, _) if name == "*" => {}
                (true, _) => out.last_mut().unwrap().1 = Some((w.parse::<f32>().unwrap() * 1000.0).round() as u32),
                (_, true) if w.trim_matches(ws) == w && !(name == "*" && w.parse::<f32>().is_ok()) => bad = true,
                _ => open = true,
            }
        } else if which == 2 && name != "*" {
            out.last_mut().unwrap().1 = Some(1000);
        }
    }
    match (open, bad) {
        (true, _) => Said::Open,
        (_, true) => Said::Refused,
        _ => Said::List(out, star.unwrap_or(false)),
    }
}

fn check_line((which, line): &(u8, String)) -> Check {
    let which = which % 3;
    let h = |n: &str| hdrs(n, &[line.as_str()]);
    let w = |w: Option<f32>| w.map(|w| (w * 1000.0).round() as u32);
    let got = match which {
        0 => AcceptEncoding::from_headers(h("accept-encoding")).map(|l| l.map(|l| (l.iter().map(|p| (p.encoding().to_string(), w(p.weight()))).collect(), l.wildcard()))),
        1 => TE::from_headers(h("te")).map(|l| l.map(|l| (l.iter().map(|p| (p.encoding().to_string(), w(p.weight()))).collect(), l.wildcard()))),
        _ => Accept::from_headers(h("accept")).map(|l| l.map(|l| (l.iter().map(|p| {
            let t = p.media_type().to_string();
            let mut m = refmime::parse(&t).unwrap_or(refmime::RefMime { base: t, sub: "?".into(), params: vec![] });
            m.params.sort();
            (m.print(), w(p.weight()))
        }).collect(), l.wildcard()))),
    };
    let want = read_line(which, line);
    match (got, want) {
        (_, Said::Open) => {
            classify("left open");
            Ok(false)
        }
        (Ok(Some((g, star))), w @ Said::List(..)) => {
            let g = Said::List(g, star);
            ck_eq!(g, w, "{:?}", line);
            Ok(true)
        }
        (Err(e), Said::Refused) => {
            classify("malformed");
            is_400(&e, line)?;
            Ok(true)
        }
        (g, w) => fail!("{:?} ({}): got {:?}, expected {:?}", line, which, g, w),
    }
}

fn line() -> BoxedStrategy<(u8, String)> {
    (0u8..3).prop_flat_map(|which| {
        let name = if which == 2 {
            prop_oneof![9 => m().prop_map(|m| m.r(false).print()), 1 => Just("*".to_string())].boxed()
        } else {
            proptest::sample::select(vec!["gzip", "deflate", "br", "zstd", "identity", "chunked", "*", "x", "compress"]).prop_map(String::from).boxed()
        };
        let one = (gen::ows(), name, weight(), any::<u8>(), gen::ows())
            .prop_map(|(a, n, w, style, b)| format!("{}{}{}{}", a, n, w.map_or(String::new(), |k| format!(";{}q={}", a, wtext(k, style))), b));
        (Just(which), gen::edited(vec(one, 1..4).prop_map(|v| v.join(",")).boxed(), ",,;;==qQ \t.019-e\"\\*/xz+"))
    })
    .boxed()
}

/// Weights outside [0, 1] are refused everywhere.
fn check_weights(b: &Bw) -> Check {
    let w = f32::from_bits(b.bits);
    let ok = w.is_sign_positive() && w <= 1.0;
    for (got, what) in [
        (content::EncodingProposal::new(content::Encoding::Gzip, Some(w)).map(|p| p.weight()), "content"),
        (transfer::EncodingProposal::new(transfer::Encoding::Gzip, Some(w)).map(|p| p.weight()), "transfer"),
        (MediaTypeProposal::new(http_types::mime::HTML, Some(w)).map(|p| p.weight()), "media type"),
    ] {
        match (got, ok) {
            (Ok(g), true) => ck_eq!(g, Some(w), "{} weight", what),
            (Err(_), false) => {}
            (g, _) => fail!("{} proposal with weight {:?}: {:?}", what, w, g),
        }
    }
    let t = b.text.as_str();
    let (q, must_fail) = qvalue(t);
    for (name, item) in [("accept-encoding", "gzip"), ("te", "gzip"), ("accept", "text/html")] {
        let line = match b.at % 3 {
            0 => format!("{};q={}", item, t),
            1 => format!("{}, {};q={}", item, item, t),
            _ => format!("{};q={},{}", item, t, item),
        };
        let h = hdrs(name, &[line.as_str()]);
        let got: http_types::Result<Vec<Option<f32>>> = match name {
            "accept-encoding" => AcceptEncoding::from_headers(&h).map(|o| o.map_or(vec![], |l| l.iter().map(|p| p.weight()).collect())),
            "te" => TE::from_headers(&h).map(|o| o.map_or(vec![], |l| l.iter().map(|p| p.weight()).collect())),
            _ => Accept::from_headers(&h).map(|o| o.map_or(vec![], |l| l.iter().map(|p| p.weight()).collect())),
        };
        match got {
            Ok(g) => {
                // an empty or blank parameter value is dropped by the media type parser
                if name == "accept" && t.trim().is_empty() {
                    continue;
                }
                ck!(!must_fail, "{} accepts {:?} as {:?}", name, line, g);
                for w in g.iter().flatten() {
                    ck!(*w >= 0.0 && *w <= 1.0, "{} {:?}: weight {}", name, line, w);
                }
                if q {
                    let i = (b.at % 3 == 1) as usize;
                    ck_eq!(g.get(i).copied().flatten(), t.parse::<f32>().ok(), "weight of {:?}", line);
                }
            }
            Err(e) => {
                ck!(!q, "{} refuses {:?}: {}", name, line, e);
                is_400(&e, &line)?;
            }
        }
    }
    classify_if(q, "valid weight");
    Ok(must_fail && !t.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wrap {
    e: u8,
    to: u8,
    m: M,
    n: M,
    w: W,
}

/// A coding or media type keeps what it is through every form a proposal and a chosen coding take.
fn check_wrap(c: &Wrap) -> Check {
    let w = c.w.map(|k| k as f32 / 1000.0);
    macro_rules! codings {
        ($m:ident, $ty:ident, $name:expr, $all:expr) => {{
            use $m::{Encoding, EncodingProposal, $ty};
            let all: Vec<(&str, Encoding)> = $all;
            let (e, other) = (all[c.e as usize % all.len()], all[c.to as usize % all.len()]);
            ck_eq!(e.1.to_string(), e.0, "text of a coding");
            ck_eq!(http_types::headers::HeaderValue::from(e.1).as_str(), e.0, "a coding as a value");
            let p = no_err(EncodingProposal::new(e.1, w), "proposal")?;
            ck_eq!(p.weight(), w, "weight");
            let bare = EncodingProposal::from(e.1);
            ck_eq!(bare.weight(), None, "weight of a bare coding");
            for mut p in [p, bare] {
                ck!(*p.encoding() == e.1 && *p == e.1 && (p == e.1) && (&p == e.1), "{:?} is not {}", p, e.0);
                ck_eq!(p == other.1, e.0 == other.0, "{:?} against {}", p, other.0);
                ck_eq!(&p == other.1, e.0 == other.0, "{:?} against {}", p, other.0);
                for chosen in [$ty::from(p), $ty::from(&p), $ty::from(e.1), $ty::from(&e.1), $ty::new(e.1)] {
                    ck_eq!(chosen.encoding(), e.1, "chosen coding");
                    ck!(*chosen == e.1, "chosen coding, dereferenced");
                    ck_eq!(chosen == other.1, e.0 == other.0, "{:?} against {}", chosen, other.0);
                    ck_eq!(chosen == &other.1, e.0 == other.0, "{:?} against {}", chosen, other.0);
                    ck_eq!(emit(&chosen, $name)?, e.0, "value of the chosen coding");
                    let mut chosen = no_err($ty::from_headers(hdrs($name, &[e.0])), e.0)?.ok_or_else(|| Fail::new("None"))?;
                    ck_eq!(chosen.encoding(), e.1, "coding read back");
                    *chosen = other.1;
                    ck_eq!(chosen.encoding(), other.1, "coding put in its place");
                    ck_eq!(emit(&chosen, $name)?, other.0, "value after that");
                }
                let before = p.weight();
                *p = other.1;
                ck_eq!((*p.encoding(), p.weight()), (other.1, before), "another coding in the proposal");
            }
        }};
    }
    codings!(content, ContentEncoding, "content-encoding", {
        use content::Encoding::*;
        vec![("gzip", Gzip), ("deflate", Deflate), ("br", Brotli), ("zstd", Zstd), ("identity", Identity)]
    });
    codings!(transfer, TransferEncoding, "transfer-encoding", {
        use transfer::Encoding::*;
        vec![("gzip", Gzip), ("deflate", Deflate), ("br", Brotli), ("zstd", Zstd), ("identity", Identity), ("chunked", Chunked)]
    });
    let (m, n) = (c.m.r(false), c.n.r(false));
    let mime = |r: &refmime::RefMime| Mime::from_str(&r.print()).map_err(|e| Fail::new(e.to_string()));
    let (m, n) = (mime(&m)?, mime(&n)?);
    let p = no_err(MediaTypeProposal::new(m.clone(), w), "proposal")?;
    // without a weight it is as wanted as can be
    ck!(p.weight() == w || (w.is_none() && p.weight() == Some(1.0)), "weight {:?} for {:?}", p.weight(), w);
    for mut p in [p, MediaTypeProposal::from(m.clone())] {
        ck!(*p.media_type() == m && *p == m && p == m && &p == m, "{:?} is not {}", p, m);
        ck_eq!(p == n, m == n, "{:?} against {}", p, n);
        ck_eq!(&p == n, m == n, "{:?} against {}", p, n);
        ck_eq!(p.essence(), m.essence(), "through the dereference");
        ck_eq!(Mime::from(p.clone()), m, "the media type of a proposal");
        let before = p.weight();
        *p = n.clone();
        ck!(*p.media_type() == n && p.weight() == before, "another media type in the proposal: {:?}", p);
    }
    let ct = content::ContentType::new(m.clone());

    ck_eq!(ct == n, m == n, "content type {} against {}", m, n);
    ck_eq!(ct == &n, m == n, "content type {} against {}", m, n);
    ck_eq!(emit(&ct, "content-type")?, m.to_string(), "value of the content type");
    ck_eq!(http_types::headers::HeaderValue::from(m.clone()).as_str(), m.to_string(), "a media type as a value");
    ck_eq!(http_types::headers::HeaderValue::from(&m).as_str(), m.to_string(), "a media type as a value, by reference");
    Ok(c.w.is_some() && c.e != c.to)
}

fn weight() -> BoxedStrategy<W> {
    prop_oneof![3 => Just(None), 2 => Just(Some(0)), 2 => Just(Some(1000)), 3 => proptest::sample::select(vec![Some(500), Some(501), Some(999), Some(1)]), 3 => (0u16..1001).prop_map(Some)].boxed()
}
fn deco() -> BoxedStrategy<Vec<(String, String, u8, u8)>> {
    vec((gen::ows(), gen::ows(), any::<u8>(), any::<u8>()), 0..7).boxed()
}
fn m() -> BoxedStrategy<M> {
    (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(base, sub, params)| M { base, sub, params }).boxed()
}

fn main() {
    let _ = Method::Get;
    let case = || (prop_oneof![30 => vec((any::<u8>(), weight()), 0..7), 1 => vec((any::<u8>(), weight()), 20..60)], prop::bool::weighted(0.4), vec(any::<u8>(), 0..6), deco(), proptest::option::weighted(0.4, 0u16..1001).prop_map(|k| k.map(|k| if k < 300 { 0 } else if k < 400 { 1 } else { k })), any::<u8>())
        .prop_map(|(entries, wildcard, available, deco, star_weight, star_at)| Case { entries, wildcard, available, deco, star_weight, star_at });
    pbt::fw::main("C11", vec![
        law("accept_encoding", "a list of weighted codings and a list of available ones, built, written and read back, and read from decorated text over several lines; non-trivial: at least two entries and two available codings that are listed", 40_000, 2_000_000, case, check_ae),
        law("te", "the same for TE", 40_000, 2_000_000, case, check_te),
        law("accept", "a list of weighted media ranges and a list of available media types, in the same three forms; non-trivial: at least two entries and two available types that match one", 40_000, 2_000_000,
            || (prop_oneof![30 => vec((m(), weight(), any::<bool>()), 0..6), 1 => vec((m(), weight(), any::<bool>()), 20..60)], prop::bool::weighted(0.4), vec(m(), 0..6), deco(), proptest::option::weighted(0.4, 0u16..1001).prop_map(|k| k.map(|k| if k < 300 { 0 } else if k < 400 { 1 } else { k })), any::<u8>())
                .prop_map(|(entries, wildcard, available, deco, star_weight, star_at)| Acc { entries, wildcard, available, deco, star_weight, star_at }), check_accept),
        law("line", "one line of Accept, Accept-Encoding or TE with up to three characters added, replaced, doubled or taken away, against an independent reader; non-trivial: not left open", 60_000, 3_000_000, line, check_line),
        law("wrappers", "codings and media types through proposals, chosen codings, comparisons and replacement; non-trivial: a weight and two codings", 20_000, 400_000,
            || (any::<u8>(), any::<u8>(), m(), m(), weight()).prop_map(|(e, to, m, n, w)| Wrap { e, to, m, n, w }), check_wrap),
        law("weights", "a float and a text as weights; non-trivial: text that is not a weight", 40_000, 2_000_000,
            || (prop_oneof![any::<u32>(), (0u32..1100).prop_map(|k| (k as f32 / 1000.0).to_bits()), Just((-0.0f32).to_bits()), Just(1.0000001f32.to_bits())],
                prop_oneof![gen::re("[01](\\.[0-9]{0,4})?"), gen::re("[-+]?[0-9]{0,2}\\.?[0-9]{0,3}"), proptest::sample::select(vec!["nan", "inf", "-inf", "infinity", "1e5", "-0", "-0.0", "x", "", "1.001", "2", "1e-1", "0x1"]).prop_map(String::from), gen::re("[!#-+\\--:<-\\[\\]-~]{1,5}")], any::<u8>())
                .prop_map(|(bits, text, at)| Bw { bits, text, at }), check_weights),
    ]);
}
