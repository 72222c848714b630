//! C22: query strings. What is put into the query of a request's URL is read back unchanged, nothing else
//! of the URL changes, and a query of another shape is a 400.
use http_types::{Method, Request, Url};
use pbt::fw::*;
use pbt::hx::is_400;
use pbt::{ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::collection::btree_map;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Kind {
    First,
    #[serde(rename = "second one")]
    Second,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Inner {
    a: String,
    b: Option<i64>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Q {
    text: String,
    n: i64,
    u: u8,
    flag: bool,
    c: char,
    kind: Kind,
    opt: Option<String>,
    #[serde(default)]
    list: Vec<String>,
    #[serde(default)]
    nums: Vec<u32>,
    #[serde(default)]
    map: BTreeMap<String, String>,
    inner: Inner,
    #[serde(default)]
    inners: Vec<Inner>,
}

/// Everything optional: an absent query is an empty one.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
struct Opt {
    page: Option<u32>,
    #[serde(default)]
    tags: Vec<String>,
    name: Option<String>,
}

/// Borrowed from the URL.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Borrowed<'q> {
    name: &'q str,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    url: (String, String, String, Option<String>, Option<String>),
    q: Q,
    o: Opt,
    map: BTreeMap<String, String>,
}

fn url(c: &Case) -> Url {
    let (s, h, p, q, f) = &c.url;
    let q = q.as_ref().map(|q| format!("?{}", q)).unwrap_or_default();
    let f = f.as_ref().map(|f| format!("#{}", f)).unwrap_or_default();
    Url::parse(&format!("{}://{}{}{}{}", s, h, p, q, f)).expect("harness url")
}

fn rest(u: &Url) -> (String, String, Option<String>, String, Option<u16>, String, Option<String>) {
    (u.scheme().into(), u.username().into(), u.password().map(String::from), u.host_str().unwrap_or("").into(), u.port(), u.path().into(), u.fragment().map(String::from))
}

/// The reference: percent decoding of key=value pairs, in order.
fn pairs(u: &Url) -> Vec<(String, String)> {
    u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect()
}

fn check(c: &Case) -> Check {
    let mut r = Request::new(Method::Get, url(c));
    let before = rest(r.url());
    r.insert_header("x-a", "b").unwrap();
    r.set_query(&c.q).map_err(|e| Fail::new(format!("set_query: {}", e)))?;
    ck_eq!(rest(r.url()), before, "the rest of the URL");
    let back: Q = r.query().map_err(|e| Fail::new(format!("query {:?}: {}", r.url().query(), e)))?;
    ck_eq!(back, c.q, "read back from {:?}", r.url().query());
    // on its way as text
    let again = Request::new(Method::Post, Url::parse(r.url().as_str()).map_err(|e| Fail::new(e.to_string()))?);
    let back: Q = again.query().map_err(|e| Fail::new(format!("query of the text: {}", e)))?;
    ck_eq!(back, c.q, "read back from the text of the URL");
    // another reader of query strings sees the same values
    let ps = pairs(r.url());
    let find = |k: &str| ps.iter().find(|p| p.0 == k).map(|p| p.1.clone());
    ck_eq!(find("text"), Some(c.q.text.clone()), "text as a pair");
    ck_eq!(find("n"), Some(c.q.n.to_string()), "number as a pair");
    ck_eq!(find("opt"), c.q.opt.clone(), "option as a pair");
    ck_eq!(find("inner[a]"), Some(c.q.inner.a.clone()), "nested value as a pair");
    for (i, v) in c.q.list.iter().enumerate() {
        ck_eq!(find(&format!("list[{}]", i)), Some(v.clone()), "list element as a pair");
    }
    // a query replaces the one before it, and nothing is left of that
    r.set_query(&c.o).map_err(|e| Fail::new(format!("set_query: {}", e)))?;
    let back: Opt = r.query().map_err(|e| Fail::new(format!("query {:?}: {}", r.url().query(), e)))?;
    ck_eq!(back, c.o, "the second query");
    ck_eq!(pairs(r.url()).iter().filter(|p| !p.0.is_empty()).count(), c.o.page.iter().count() + c.o.tags.len() + c.o.name.iter().count(), "pairs of the second query");
    r.set_query(&c.map).map_err(|e| Fail::new(format!("set_query: {}", e)))?;
    let back: BTreeMap<String, String> = r.query().map_err(|e| Fail::new(format!("query {:?}: {}", r.url().query(), e)))?;
    ck_eq!(back, c.map, "a map");
    ck_eq!(rest(r.url()), before, "the rest of the URL");
    ck_eq!(r.header("x-a").map(|v| v.as_str() == "b"), Some(true), "header");
    // what has no names to put in a query is refused, and leaves the query alone
    let text = r.url().to_string();
    for e in [r.set_query(&c.q.n).err(), r.set_query(&c.q.text.as_str()).err(), r.set_query(&c.q.flag).err(), r.set_query(&c.q.c).err()] {
        match e {
            Some(e) => is_400(&e, "a query without names")?,
            None => fail!("a value without a name is accepted as a query"),
        }
    }
    ck_eq!(r.url().as_str(), text, "the URL after refused queries");
    // without a query
    let mut u = url(c);
    u.set_query(None);
    let r = Request::new(Method::Get, u);
    ck_eq!(r.query::<Opt>().ok(), Some(Opt::default()), "no query");
    match r.query::<Q>() {
        Ok(q) => fail!("no query is read as {:?}", q),
        Err(e) => is_400(&e, "no query")?,
    }
    Ok(!c.q.list.is_empty() || !c.map.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    q: String,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Flat {
    a: String,
    n: i32,
    #[serde(default)]
    l: Vec<u8>,
    o: Option<bool>,
}

/// Any query text: what is read agrees with the pairs of the URL; a refusal is a 400.
fn check_text(t: &Text) -> Check {
    let mut u = Url::parse("http://a.b/").unwrap();
    u.set_query(Some(&t.q));
    let q = u.query().unwrap_or("").to_string();
    let ps = pairs(&u);
    let r = Request::new(Method::Get, u);
    let want: Result<Flat, _> = serde_qs::from_str(&q);
    let got: http_types::Result<Flat> = r.query();
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ck_eq!(g, w, "query {:?}", q);
            let simple = ps.iter().all(|p| !p.0.contains('[')) && ps.iter().filter(|p| p.0 == "a").count() == 1;
            if simple {
                ck_eq!(ps.iter().find(|p| p.0 == "a").map(|p| p.1.clone()), Some(g.a), "text in {:?}", q);
            }
            classify("read");
        }
        (Err(e), Err(_)) => is_400(&e, &q)?,
        (g, w) => fail!("{:?} gives {:?}, expected {:?}", q, g.map_err(|e| e.to_string()), w.map_err(|e| e.to_string())),
    }
    // borrowing gives the text as it stands in the URL, or refuses
    match r.query::<Borrowed<'_>>() {
        Ok(b) => {
            if ps.iter().any(|p| p.0.contains('[') || p.0.contains(']')) || ps.iter().filter(|p| p.0 == "name").count() != 1 {
                return Ok(true);
            }
            let name = ps.iter().find(|p| p.0 == "name").map(|p| p.1.clone());
            ck_eq!(Some(b.name.to_string()), name, "borrowed value in {:?}", q);
            classify("borrowed");
        }
        Err(e) => is_400(&e, &q)?,
    }
    // a map of everything: when no name is nested or repeated it is exactly the pairs
    let want: Result<BTreeMap<String, String>, _> = serde_qs::from_str(&q);
    let got: http_types::Result<BTreeMap<String, String>> = r.query();
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ck_eq!(g, w, "query {:?} as a map", q);
            let m: BTreeMap<String, String> = ps.iter().cloned().collect();
            if m.len() == ps.len() && !q.split('&').any(|p| p.is_empty() || !p.contains('=') || p.starts_with('=')) && !ps.iter().any(|p| p.0.contains('[') || p.0.contains(']') || p.0.contains(char::REPLACEMENT_CHARACTER) || p.1.contains(char::REPLACEMENT_CHARACTER)) {
                ck_eq!(g, m, "query {:?} as a map of its pairs", q);
                classify("map of pairs");
            }
        }
        (Err(e), Err(_)) => is_400(&e, &q)?,
        (g, w) => fail!("{:?} as a map gives {:?}, expected {:?}", q, g.map_err(|e| e.to_string()), w.map_err(|e| e.to_string())),
    }
    let want: Result<Opt, _> = serde_qs::from_str(&q);
    let got: http_types::Result<Opt> = r.query();
    match (got, want) {
        (Ok(g), Ok(w)) => ck_eq!(g, w, "query {:?} as options", q),
        (Err(e), Err(_)) => is_400(&e, &q)?,
        (g, w) => fail!("{:?} as options gives {:?}, expected {:?}", q, g.map_err(|e| e.to_string()), w.map_err(|e| e.to_string())),
    }
    Ok(!ps.is_empty())
}

fn main() {
    let text = || prop_oneof![3 => gen::any_text(5), 2 => gen::re("[a-z&=+%#?\\[\\];/ ]{0,6}"), 1 => Just(String::new())];
    let nested = || gen::re("[a-z][a-z0-9_ &=%+.]{0,4}");
    let key = || prop_oneof![2 => gen::re("[a-z][a-z0-9_ &=%+.]{0,4}"), 1 => gen::re("[?!&=+%#;/.~ :@,$'\"é-][a-z?&=%+ ]{0,3}"), 1 => gen::any_text(3).prop_map(|t| t.replace(['[', ']'], "k") + "k")];
    // an option holding an empty text reads back as none: the format has no way to tell them apart
    let full = move || text().prop_map(|t| if t.is_empty() { "x".to_string() } else { t });
    let inner = move || (text(), option::of(any::<i64>())).prop_map(|(a, b)| Inner { a, b });
    let url = || (
        "(http|https|ftp)", "(a\\.b|u:p@h\\.example:8080|\\[::1\\])", gen::re("(/[a-z0-9.~:@!$,;=-]{0,8}){1,2}"), option::of(gen::re("[a-z0-9=&+/-]{0,8}")), option::of(gen::re("[a-z=&/?-]{0,4}")),
    );
    let q = move || (
        (text(), any::<i64>(), any::<u8>(), any::<bool>(), any::<char>(), prop_oneof![Just(Kind::First), Just(Kind::Second)]),
        option::of(full()), vec(text(), 0..12), vec(any::<u32>(), 0..3), btree_map(nested(), text(), 0..3), inner(), vec(inner(), 0..3),
    ).prop_map(|((text, n, u, flag, c, kind), opt, list, nums, map, inner, inners)| Q { text, n, u, flag, c, kind, opt, list, nums, map, inner, inners });
    let o = move || (option::of(any::<u32>()), vec(text(), 0..3), option::of(full())).prop_map(|(page, tags, name)| Opt { page, tags, name });
    pbt::fw::main("C22", vec![
        law("round_trip", "a structure with text, numbers, options, lists, maps and nesting put into the query of any URL and read back, then replaced; non-trivial: a list or map with elements", 30_000, 1_500_000,
            move || (url(), q(), o(), btree_map(key(), text(), 0..4)).prop_map(|(url, q, o, map)| Case { url, q, o, map }), check),
        law("text", "any query text against the pairs of the URL; non-trivial: at least one pair", 40_000, 2_000_000,
            || prop_oneof![
                // many pairs, with repeated names in any order
                (gen::many(), any::<u64>(), vec((0u8..8, gen::re("[a-z0-9%+]{0,2}"), any::<u8>()), 1..10)).prop_map(|(n, m, kinds)| {
                    let mut q = vec![];
                    for i in 0..n.min(60) {
                        let (k, t, v) = &kinds[(i as u64 ^ (m >> (i % 60))) as usize % kinds.len()];
                        q.push(match k {
                            0 | 1 => format!("l[]={}", v.wrapping_sub(i as u8)),
                            2 => format!("l[{}]={}", (i as u64 ^ m) % n as u64, v.wrapping_add(i as u8)),
                            3 | 4 => format!("tags[]={}{}", t, m % 97 * i as u64 % 89),
                            5 => format!("k{}={}", v.wrapping_mul(i as u8), t),
                            6 => format!("tags={}", t),
                            _ => format!("x{}[]={}", v % 2, t),
                        });
                    }
                    if m % 3 != 0 {
                        q.insert(m as usize % (q.len() + 1), "a=1".into());
                        q.insert((m >> 8) as usize % (q.len() + 1), format!("n={}", m % 100));
                    }
                    Text { q: q.join("&") }
                }),
                gen::re("(a=[a-z%+]{0,3}|a=%4[0-9]|a=é)(&n=-?[0-9]{1,3})(&l\\[\\]=[0-9]{1,3}|&l\\[[01]\\]=[0-9]){0,2}(&o=(true|false|x))?(&name=[a-z%+]{0,3})?").prop_map(|q| Text { q }), gen::soup(&["a", "=", "&", "n=1", "n", "-5", "l[]=1", "l[0]=2", "o=true", "%41", "%", "+", "a=b", "name=", "name", "[", "]", "é"], 10).prop_map(|q| Text { q }), gen::any_text(8).prop_map(|q| Text { q }), gen::re("([?&+%;/#!~. ]{0,2}[a-z%+?;.é]{1,3}=[a-z%+?;.=é]{0,3}){1,1}(&[?+%;/#!~. ]{0,2}[a-z?]{1,3}=[a-z%+?;.=é ]{0,4}){0,4}").prop_map(|q| Text { q })], check_text),
    ]);
}
