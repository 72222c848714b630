//! C12: Forwarded. What is built is written and read back unchanged, what a proxy writes is read
//! field by field, and no text makes parsing panic.
use http_types::headers::Header;
use http_types::proxies::Forwarded;
use http_types::{Method, Request, Response};
use pbt::fw::*;
use pbt::gen;
use pbt::hx::*;
use pbt::{ck, ck_eq};
use pbt::gen::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;

fn is_tchar(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}

/// Reference reader of `key=value` pairs separated by `;`, with `,` between `for` pairs.
#[derive(Debug, Default, Clone, PartialEq, Serialize, Deserialize)]
struct F {
    by: Option<String>,
    fors: Vec<String>,
    host: Option<String>,
    proto: Option<String>,
}

/// Strict reading of written values: every value a token or a quoted string. None if not well formed.
fn strict(s: &str) -> Option<Vec<(String, String)>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    if b.is_empty() {
        return Some(out);
    }
    loop {
        let k0 = i;
        while i < b.len() && is_tchar(b[i]) {
            i += 1;
        }
        if i == k0 || i >= b.len() || b[i] != b'=' {
            return None;
        }
        let k = s[k0..i].to_ascii_lowercase();
        i += 1;
        let mut v = String::new();
        if i < b.len() && b[i] == b'"' {
            i += 1;
            loop {
                match b.get(i)? {
                    b'"' => break,
                    b'\\' => {
                        i += 1;
                        v.push(*b.get(i)? as char);
                    }
                    c if *c == b'\t' || (0x20..0x7f).contains(c) => v.push(*c as char),
                    _ => return None,
                }
                i += 1;
            }
            i += 1;
        } else {
            while i < b.len() && is_tchar(b[i]) {
                v.push(b[i] as char);
                i += 1;
            }
            if v.is_empty() {
                return None;
            }
        }
        out.push((k, v));
        match b.get(i) {
            None => return Some(out),
            Some(b';') => i += 1,
            Some(b',') => {
                i += 1;
                while i < b.len() && (b[i] == b' ' || b[i] == b'\t') {
                    i += 1;
                }
            }
            _ => return None,
        }
    }
}

fn fields(f: &Forwarded<'_>) -> F {
    F {
        by: f.by().map(String::from),
        fors: f.forwarded_for().iter().map(|s| s.to_string()).collect(),
        host: f.host().map(String::from),
        proto: f.proto().map(String::from),
    }
}

fn build(f: &F) -> Forwarded<'static> {
    let mut w = Forwarded::new();
    for x in &f.fors {
        w.add_for(x.clone());
    }
    if let Some(x) = &f.by {
        w.set_by(x.clone());
    }
    if let Some(x) = &f.host {
        w.set_host(x.clone());
    }
    if let Some(x) = &f.proto {
        w.set_proto(x.clone());
    }
    w
}

fn check_build(f: &F) -> Check {
    let w = build(f);
    ck_eq!(fields(&w), *f, "fields of what was built");
    let text = emit(&w, "forwarded")?;
    ck_eq!(w.to_string(), text, "Display");
    let pairs = match strict(&text) {
        Some(p) => p,
        None => pbt::fail!("{:?} is written as {:?}, which is not well formed", f, text),
    };
    let mut seen = F::default();
    for (k, v) in pairs {
        match k.as_str() {
            "by" => seen.by = Some(v),
            "for" => seen.fors.push(v),
            "host" => seen.host = Some(v),
            "proto" => seen.proto = Some(v),
            k => pbt::fail!("{:?} writes a pair {:?}", text, k),
        }
    }
    ck_eq!(seen, *f, "pairs of {:?}", text);
    let back = Forwarded::parse(&text).map_err(|e| Fail::new(format!("parse({:?}): {}", text, e)))?;
    ck_eq!(fields(&back), *f, "parse({:?})", text);
    ck!(back == w, "parse({:?}) is not equal to what was written", text);
    let tf = Forwarded::try_from(text.as_str()).map_err(|e| Fail::new(e.to_string()))?;
    ck!(tf == w, "try_from");
    let owned = {
        let mut req = Request::new(Method::Get, "http://a.b/");
        req.insert_header("forwarded", text.as_str()).unwrap();
        let mut res = Response::new(200);
        w.apply_header(&mut res);
        let a = Forwarded::from_headers(&req).map_err(|e| Fail::new(e.to_string()))?.map(|f| f.into_owned());
        let b = Forwarded::from_forwarded_header(&res).map_err(|e| Fail::new(e.to_string()))?.map(|f| f.into_owned());
        ck!(a == b, "request and response disagree");
        ck!(Forwarded::from_x_headers(&req).map_err(|e| Fail::new(e.to_string()))?.is_none(), "from_x_headers sees Forwarded");
        a
    };
    ck!(owned.as_ref() == Some(&w), "from_headers: {:?}", owned);
    let quoted = text.contains('"');
    classify_if(quoted, "quoted");
    classify_if(text.contains('\\'), "escaped");
    classify_if(f.fors.is_empty(), "no for");
    Ok(quoted)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    key: u8,
    ext: String,
    value: String,
    mask: u64,
    quote: bool,
    esc: u64,
    ws: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct P {
    pairs: Vec<Pair>,
    trailing: bool,
}

fn print_value(v: &str, quote: bool, esc: u64) -> String {
    if !quote && !v.is_empty() && v.bytes().all(is_tchar) {
        return v.to_string();
    }
    let mut s = String::from("\"");
    for (i, c) in v.chars().enumerate() {
        if c == '"' || c == '\\' || esc >> (i % 64) & 1 == 1 {
            s.push('\\');
        }
        s.push(c);
    }
    s.push('"');
    s
}

/// Text a proxy may write; adjacent `for` pairs are joined by a comma, and everything else by `;`.
fn check_parse(p: &P) -> Check {
    let keys = ["for", "by", "host", "proto", "ext"];
    let mut text = String::new();
    let mut want = F::default();
    let mut dup = false;
    let mut prev_for = false;
    for (i, x) in p.pairs.iter().enumerate() {
        let k = keys[x.key as usize % 5];
        if i > 0 {
            if prev_for && k == "for" && x.esc & 1 == 0 {
                text.push(',');
                text.push_str(&x.ws);
            } else {
                text.push(';');
            }
        }
        let name = if k == "ext" { format!("x{}", x.ext) } else { k.to_string() };
        text.push_str(&gen::recase(&name, x.mask));
        text.push('=');
        text.push_str(&print_value(&x.value, x.quote, x.esc));
        let slot = match k {
            "for" => {
                want.fors.push(x.value.clone());
                None
            }
            "by" => Some(&mut want.by),
            "host" => Some(&mut want.host),
            "proto" => Some(&mut want.proto),
            _ => None,
        };
        if let Some(s) = slot {
            dup |= s.is_some();
            *s = Some(x.value.clone());
        }
        prev_for = k == "for";
    }
    if p.trailing && !text.is_empty() {
        text.push(';');
    }
    match Forwarded::parse(&text) {
        Err(e) => ck!(dup, "parse({:?}): {}", text, e),
        Ok(f) => {
            ck!(!dup, "parse({:?}) accepts a repeated pair as {:?}", text, f);
            ck_eq!(fields(&f), want, "parse({:?})", text);
            let again = f.to_string();
            let g = Forwarded::parse(&again).map_err(|e| Fail::new(format!("parse({:?}): {}", again, e)))?;
            ck!(g == f, "{:?} is written as {:?}, which means something else", text, again);
        }
    }
    let mut res = Response::new(200);
    res.insert_header("Forwarded", text.as_str()).unwrap();
    match Forwarded::from_headers(&res) {
        Err(_) => ck!(dup, "from_headers({:?}) fails", text),
        Ok(f) => ck_eq!(f.as_ref().map(fields), Some(want.clone()), "from_headers({:?})", text),
    }
    classify_if(dup, "repeated");
    Ok(p.pairs.len() > 1)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct S {
    text: String,
}

fn check_any(s: &S) -> Check {
    let st = strict(&s.text);
    match Forwarded::parse(&s.text) {
        Ok(f) => {
            classify("accepted");
            ck!(f.forwarded_for().len() + 3 <= s.text.len() + 3, "more elements than text");
            if s.text.is_ascii() {
                let again = f.to_string();
                let g = Forwarded::parse(&again).map_err(|e| Fail::new(format!("{:?} is read, but written as {:?}: {}", s.text, again, e)))?;
                ck!(g == f, "{:?} is written as {:?}, which means something else", s.text, again);
            }
            if let Some(pairs) = st {
                let last = |k: &str| pairs.iter().rev().find(|p| p.0 == k).map(|p| p.1.clone());
                let want = F { by: last("by"), fors: pairs.iter().filter(|p| p.0 == "for").map(|p| p.1.clone()).collect(), host: last("host"), proto: last("proto") };
                ck_eq!(fields(&f), want, "parse({:?})", s.text);
            }
            Ok(f != Forwarded::new())
        }
        Err(e) => {
            ck!(e.to_string().starts_with("unable to parse forwarded header"), "message");
            Ok(s.text.len() > 4)
        }
    }
}

#[derive(Debug, PartialEq)]
enum Said {
    Open,
    Refused,
    Fields(F),
}

/// What a text says, or that it must be refused, or that the grammar leaves room.
fn read_line(s: &str) -> Said {
    let b = s.as_bytes();
    if b.iter().any(|c| !(0x20..0x7f).contains(c)) {
        return Said::Open;
    }
    let token = |mut i: usize| {
        while i < b.len() && is_tchar(b[i]) {
            i += 1;
        }
        i
    };
    let mut f = F::default();
    let mut i = 0;
    let mut listed = false;
    while i < b.len() {
        let e = token(i);
        // empty pairs, and blanks around anything
        if b[i] == b';' || b[i] == b' ' || b.get(e) == Some(&b' ') {
            return Said::Open;
        }
        if e == i || b.get(e) != Some(&b'=') {
            return Said::Refused;
        }
        let key = s[i..e].to_ascii_lowercase();
        if listed && key != "for" {
            return Said::Open;
        }
        i = e + 1;
        let mut v = String::new();
        let quoted = b.get(i) == Some(&b'"');
        if quoted {
            i += 1;
            loop {
                match b.get(i) {
                    Some(b'"') => break,
                    Some(b'\\') if i + 1 < b.len() => {
                        i += 1;
                        v.push(b[i] as char);
                    }
                    Some(b'\\') | None => return Said::Refused,
                    Some(c) => v.push(*c as char),
                }
                i += 1;
            }
            i += 1;
        } else {
            let e = token(i);
            if b.get(e) == Some(&b' ') {
                return Said::Open;
            }
            if e == i {
                return Said::Refused;
            }
            v.push_str(&s[i..e]);
            i = e;
        }
        let slot = match key.as_str() {
            "for" => {
                f.fors.push(v.clone());
                None
            }
            "by" => Some(&mut f.by),
            "host" => Some(&mut f.host),
            "proto" => Some(&mut f.proto),
            _ => None,
        };
        if let Some(slot) = slot {
            if slot.is_some() {
                return Said::Refused;
            }
            *slot = Some(v);
        }
        listed = false;
        match b.get(i) {
            None => {}
            Some(b';') => i += 1,
            Some(b',') if key == "for" => {
                i += 1;
                while b.get(i) == Some(&b' ') {
                    i += 1;
                }
                if i == b.len() {
                    return Said::Open;
                }
                listed = true;
            }
            Some(b',') => return Said::Open,
            Some(_) if quoted => return Said::Open,
            Some(_) => return Said::Refused,
        }
    }
    Said::Fields(f)
}

fn check_line(text: &String) -> Check {
    let want = read_line(text);
    if want == Said::Open {
        classify("left open");
        return Ok(false);
    }
    for from in ["text", "header"] {
        let h = hdrs("forwarded", &[text.as_str()]);
        let got = match from {
            "text" => Forwarded::parse(text).map(Some),
            _ => Forwarded::from_headers(&h),
        };
        match (got, &want) {
            (Ok(Some(g)), Said::Fields(w)) => ck_eq!(fields(&g), *w, "{:?} as {}", text, from),
            (Err(_), Said::Refused) => classify("malformed"),
            (g, w) => pbt::fail!("{:?} as {}: got {:?}, expected {:?}", text, from, g, w),
        }
    }
    Ok(want == Said::Refused || want != Said::Fields(F::default()))
}

fn line() -> BoxedStrategy<String> {
    let pair = |k: BoxedStrategy<String>| (k, value(), any::<u64>(), any::<bool>(), 0u64..16)
        .prop_map(|(k, v, m, q, esc)| format!("{}={}", gen::recase(&k, m), print_value(&v, q, esc))).boxed();
    let fors = vec(pair(Just("for".to_string()).boxed()), 1..4).prop_map(|v| v.join(", "));
    let other = pair(proptest::sample::select(vec!["by", "host", "proto", "ext", "secret", "forr"]).prop_map(String::from).boxed());
    gen::edited(vec(prop_oneof![1 => fors, 2 => other], 0..5).prop_map(|v| v.join(";")).boxed(), "==;;,,\"\"\"\\\\ forbyhstpFa1:[!/(")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct X {
    fors: Option<Vec<(String, String, String)>>,
    by: Option<String>,
    host: Option<String>,
    proto: Option<String>,
    forwarded: Option<String>,
}

fn check_x(x: &X) -> Check {
    let mut req = Request::new(Method::Get, "http://a.b/");
    let mut want = F::default();
    if let Some(l) = &x.fors {
        let mut t = vec![];
        for (name, a, b) in l {
            t.push(format!("{}{}{}", a, name, b));
            // an IPv6 address is given in brackets, whatever its spelling
            want.fors.push(name.parse::<std::net::Ipv6Addr>().map_or(name.clone(), |a| format!("[{}]", a)));
        }
        req.insert_header("X-Forwarded-For", t.join(",")).unwrap();
    }
    for (h, v, slot) in [("X-Forwarded-By", &x.by, &mut want.by), ("X-Forwarded-Host", &x.host, &mut want.host), ("X-Forwarded-Proto", &x.proto, &mut want.proto)] {
        if let Some(v) = v {
            req.insert_header(h, v.as_str()).unwrap();
            *slot = Some(v.clone());
        }
    }
    let any = want != F::default();
    let fx = Forwarded::from_x_headers(&req).map_err(|e| Fail::new(e.to_string()))?.map(|f| f.into_owned());
    // the spelling of the addresses is left open
    let spelled = |mut f: F| {
        for t in &mut f.fors {
            if let Some(a) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')).and_then(|t| t.parse::<std::net::Ipv6Addr>().ok()) {
                *t = format!("[{}]", a);
            }
        }
        f
    };
    let want = spelled(want);
    ck_eq!(fx.as_ref().map(fields).map(spelled), if any { Some(want.clone()) } else { None }, "from_x_headers");
    ck!(Forwarded::from_forwarded_header(&req).map_err(|e| Fail::new(e.to_string()))?.is_none(), "from_forwarded_header sees x- headers");
    let f = Forwarded::from_headers(&req).map_err(|e| Fail::new(e.to_string()))?.map(|f| f.into_owned());
    ck_eq!(f, fx, "from_headers without Forwarded");
    if let Some(f) = &f {
        let t = emit(f, "forwarded")?;
        ck_eq!(Forwarded::parse(&t).ok().as_ref(), Some(f), "normalised to {:?}", t);
    }
    if let Some(t) = &x.forwarded {
        req.insert_header("Forwarded", format!("for={}", t)).unwrap();
        let f = Forwarded::from_headers(&req).map_err(|e| Fail::new(e.to_string()))?.map(|f| fields(&f));
        ck_eq!(f, Some(F { fors: vec![t.clone()], ..F::default() }), "Forwarded wins over the x- headers");
        // the x- headers are not used instead of a Forwarded that does not parse
        req.insert_header("Forwarded", "for=\"open").unwrap();
        ck!(Forwarded::from_headers(&req).is_err(), "a Forwarded that does not parse is ignored");
    }
    Ok(any)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lines {
    lines: Vec<Vec<String>>,
}

/// Several Forwarded lines mean the same as one line with their elements joined by commas.
fn check_lines(l: &Lines) -> Check {
    let ls: Vec<String> = l.lines.iter().map(|x| x.iter().map(|v| format!("for={}", v)).collect::<Vec<_>>().join(", ")).collect();
    let h = hdrs("forwarded", &ls);
    let want: Vec<String> = l.lines.concat();
    let got = Forwarded::from_headers(&h).map_err(|e| Fail::new(e.to_string()))?.map(|f| fields(&f).fors).unwrap_or_default();
    if got != want && got == l.lines[0] {
        return Err(Fail::sig("C12/later-lines", format!("Forwarded lines {:?} are read as {:?}", ls, got)));
    }
    ck_eq!(got, want, "Forwarded lines {:?}", ls);
    Ok(ls.len() == 1 || l.lines[0].len() > 1)
}

/// An element of X-Forwarded-For: an address in some spelling, or a name.
fn node() -> BoxedStrategy<String> {
    let part = || prop_oneof![3 => Just(0u16), 1 => Just(0xffff), 1 => 0u16..0x20, 1 => any::<u16>()];
    let v6 = (proptest::array::uniform8(part()), 0..4, any::<u64>()).prop_map(|(mut p, how, m)| {
        if how == 3 {
            p[..6].copy_from_slice(&[0, 0, 0, 0, 0, if m % 2 == 0 { 0xffff } else { 0 }]);
        }
        let a = std::net::Ipv6Addr::from(p);
        match how {
            1 => p.iter().map(|p| format!("{:04x}", p)).collect::<Vec<_>>().join(":"),
            2 => gen::recase(&a.to_string(), m),
            _ => a.to_string(),
        }
    });
    let v4 = any::<[u8; 4]>().prop_map(|a| std::net::Ipv4Addr::from(a).to_string());
    prop_oneof![
        3 => v6,
        1 => v4,
        3 => gen::re("[a-z_][a-z0-9.]{0,6}"),
        1 => gen::re("[!-+\\--~]{1,8}"),
        1 => proptest::sample::select(vec!["1.2.3.4:80", "[2001:db8::1]", "[::1]:80", "[2001:DB8::1]", "010.1.1.1", "1.2.3", "_Hidden", "Unknown", "fe80::1%eth0", "::1/128", "1::2::3", "\"[::1]\"", "for=a", "256.1.1.1"]).prop_map(String::from),
    ].boxed()
}

fn value() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::token(),
        2 => proptest::sample::select(vec!["192.0.2.43", "[2001:db8:cafe::17]", "[2001:db8:cafe::17]:4711", "unknown", "_gazonk", "example.com:80", "https", "", "a!b c", "\"", "\\", "a;proto=b", "a, for=b"]).prop_map(String::from),
        2 => gen::ascii_text(8),
        1 => gen::re("[\"\\\\ \t!;,=a]{0,6}"),
    ].boxed()
}

fn main() {
    static DICT: &[&str] = &["for=", "For=", "by=", "host=", "proto=", "x=", ";", ",", ", ", "=", "\"", "\"a\"", "\"a;b\"", "\\", "a", "unknown", "192.0.2.1", "[::1]", " ", "\t", "!", "é", "Ģ", "fo", "f", "for"];
    pbt::fw::main("C12", vec![
        law("build", "a Forwarded made of any printable text; non-trivial: a value needs quoting", 40_000, 4_000_000,
            || (option::of(value()), vec(value(), 0..4), option::of(value()), option::of(value())).prop_map(|(by, fors, host, proto)| F { by, fors, host, proto }), check_build),
        law("parse", "pairs in any order, with extension pairs, letter case, quoting and escapes, possibly repeated; non-trivial: more than one pair", 40_000, 4_000_000,
            || (vec((prop_oneof![Just(0u8), any::<u8>()], gen::re("[a-z]{0,3}"), value(), any::<u64>(), any::<bool>(), any::<u64>(), gen::re("[ \t]{0,2}")).prop_map(|(key, ext, value, mask, quote, esc, ws)| Pair { key, ext, value, mask, quote, esc, ws }), 0..6), any::<bool>()).prop_map(|(pairs, trailing)| P { pairs, trailing }), check_parse),
        law("any_text", "pieces of the grammar and any text, also not ASCII; non-trivial: read as something, or longer than four bytes", 60_000, 6_000_000,
            || prop_oneof![4 => gen::soup(DICT, 9), 1 => gen::any_text(12)].prop_map(|text| S { text }), check_any),
        law("line", "pairs with up to three characters added, replaced, doubled or taken away, against an independent reader; non-trivial: not left open, and not empty", 60_000, 4_000_000, line, check_line),
        law("x_headers", "the X-Forwarded- headers, and Forwarded beside them; non-trivial: at least one of them", 20_000, 2_000_000,
            || (option::of(vec((node(), gen::re("[ \t]{0,2}"), gen::re("[ \t]{0,2}")), 1..4)), option::of(value()), option::of(value()), option::of(value()), option::of(gen::re("[a-z]{1,4}")))
                .prop_map(|(fors, by, host, proto, forwarded)| X { fors, by, host, proto, forwarded }), check_x),
        law("lines", "one to three Forwarded lines of `for` elements; non-trivial: one line, or a first line of several elements", 10_000, 500_000,
            || vec(vec(gen::re("[a-z0-9.]{1,4}"), 1..3), 1..4).prop_map(|lines| Lines { lines }), check_lines),
    ]);
}
