//! C09: validators. ETags keep strength and text; If-Match / If-None-Match / Vary lists keep their elements.
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::headers::{HeaderName, Headers};
use pbt::fw::*;
use pbt::hx::*;
use pbt::{ck, ck_eq, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Tag {
    weak: bool,
    text: String,
}
impl Tag {
    fn build(&self) -> ETag {
        if self.weak { ETag::Weak(self.text.clone()) } else { ETag::Strong(self.text.clone()) }
    }
    fn print(&self) -> String {
        format!("{}\"{}\"", if self.weak { "W/" } else { "" }, self.text)
    }
}
fn tag_text() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::re("[a-zA-Z0-9]{0,8}"), 2 => gen::re("[!#-~]{0,8}"), 1 => gen::re("[,*W/]{0,5}")].boxed()
}
fn tag() -> BoxedStrategy<Tag> {
    (any::<bool>(), tag_text()).prop_map(|(weak, text)| Tag { weak, text }).boxed()
}

/// RFC 7232: entity-tag = [ "W/" ] DQUOTE *etagc DQUOTE
fn ref_etag(s: &str) -> Option<Tag> {
    let (weak, r) = match s.strip_prefix("W/") {
        Some(r) => (true, r),
        None => (false, s),
    };
    let b = r.as_bytes();
    if b.len() < 2 || b[0] != b'"' || b[b.len() - 1] != b'"' {
        return None;
    }
    let inner = &r[1..r.len() - 1];
    if inner.bytes().all(|c| c == 0x21 || (0x23..=0x7e).contains(&c)) {
        Some(Tag { weak, text: inner.to_string() })
    } else {
        None
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct E1 {
    tag: Tag,
    other: Tag,
    raw: String,
    earlier: Vec<String>,
}

fn check_etag(e: &E1) -> Check {
    let t = e.tag.build();
    ck_eq!(t.is_strong(), !e.tag.weak, "is_strong");
    ck_eq!(t.is_weak(), e.tag.weak, "is_weak");
    if !e.tag.text.contains('\\') {
        let n = if e.tag.weak { ETag::new_weak(e.tag.text.clone()) } else { ETag::new(e.tag.text.clone()) };
        ck_eq!(n, t, "constructor");
    }
    ck_eq!(t == e.other.build(), e.tag == e.other, "equality of {:?} and {:?}", e.tag, e.other);
    let v = emit(&t, "etag")?;
    ck_eq!(v, e.tag.print(), "etag value");
    let mut lines = e.earlier.clone();
    lines.push(v);
    let back = no_err(ETag::from_headers(hdrs("etag", &lines)), "ETag")?;
    ck_eq!(back, Some(t), "ETag from {:?}", lines);
    ck!(no_err(ETag::from_headers(no_headers()), "ETag")?.is_none(), "Some without the header");
    lines.push(e.raw.clone());
    match (ETag::from_headers(hdrs("etag", &lines)), ref_etag(&e.raw)) {
        (Ok(Some(g)), Some(w)) => {
            classify("raw accepted");
            ck_eq!(g, w.build(), "ETag from {:?}", e.raw)
        }
        (Err(x), None) => is_400(&x, &e.raw)?,
        (g, w) => pbt::fail!("ETag from {:?}: got {:?}, expected {:?}", e.raw, g, w),
    }
    Ok(!e.tag.text.is_empty() && !e.raw.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum El {
    Tag(Tag),
    Star,
    Empty,
    Bad(String),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct L {
    lines: Vec<Vec<(String, El, String)>>,
    none: bool,
}

type Built = (Vec<ETag>, bool);
/// Reads a list header back, exercising every iterator.
macro_rules! list_ops {
    ($ty:ident, $name:expr) => {{
        fn read(h: &Headers) -> http_types::Result<Option<Built>> {
            Ok(match $ty::from_headers(h)? {
                None => None,
                Some(l) => {
                    let a: Vec<ETag> = l.iter().cloned().collect();
                    let w = l.wildcard();
                    let ways = |mut l: $ty| -> Result<(), Fail> {
                        pbt::walk!(l, a, |t| t.clone(), "tags");
                        ck_eq!(run_out(l.into_iter(), a.len(), "into_iter")?, a, "into_iter");
                        Ok(())
                    };
                    if let Err(f) = ways(l) {
                        panic!("iterators disagree: {:?}", f);
                    }
                    Some((a, w))
                }
            })
        }
        fn write(b: &Built) -> Result<String, Fail> {
            let mut l = $ty::new();
            for t in &b.0 {
                l.push(t.clone());
            }
            ck!(!l.wildcard(), "a new value has a wildcard");
            if b.1 {
                l.set_wildcard(true);
            } else if l.iter().count() % 2 == 1 {
                l.set_wildcard(true);
                l.set_wildcard(false);
            }
            emit(&l, $name)
        }
        ($name, read as fn(&Headers) -> http_types::Result<Option<Built>>, write as fn(&Built) -> Result<String, Fail>)
    }};
}

fn check_list(l: &L) -> Check {
    let (name, read, write) = if l.none { list_ops!(IfNoneMatch, "if-none-match") } else { list_ops!(IfMatch, "if-match") };
    let mut tags = vec![];
    let mut star = false;
    let mut bad = false;
    let mut lines = vec![];
    for line in &l.lines {
        let mut parts = vec![];
        for (a, el, b) in line {
            let t = match el {
                El::Tag(t) => {
                    tags.push(t.build());
                    t.print()
                }
                El::Star => {
                    star = true;
                    "*".into()
                }
                El::Empty => String::new(),
                El::Bad(s) => {
                    bad = true;
                    s.clone()
                }
            };
            parts.push(format!("{}{}{}", a, t, b));
        }
        lines.push(parts.join(","));
    }
    let built = (tags, star);
    // written and read back
    let v = write(&built)?;
    let mut want: Vec<String> = built.0.iter().map(|t| t.to_string()).collect();
    if star {
        want.push("*".into());
    }
    ck_eq!(v, want.join(", "), "{} value", name);
    let back = no_err(read(&hdrs(name, &[v.as_str()])), name)?;
    ck_eq!(back.as_ref(), Some(&built), "{} from {:?}", name, v);
    // the text as sent
    if lines.is_empty() {
        ck!(no_err(read(&no_headers()), name)?.is_none(), "Some without the header");
        return Ok(false);
    }
    match read(&hdrs(name, &lines)) {
        Ok(g) if !bad => ck_eq!(g.as_ref(), Some(&built), "{} from {:?}", name, lines),
        Err(e) if bad => is_400(&e, &format!("{:?}", lines))?,
        g => pbt::fail!("{} from {:?}: {:?}", name, lines, g),
    }
    classify_if(bad, "malformed");
    classify_if(built.0.iter().any(|t| t.to_string().contains(',')), "comma in a tag");
    Ok(built.0.len() >= 2)
}

fn el() -> BoxedStrategy<El> {
    prop_oneof![
        10 => tag().prop_map(El::Tag),
        1 => Just(El::Star),
        1 => Just(El::Empty),
    ]
    .boxed()
}
fn bad_el() -> BoxedStrategy<El> {
    // not entity tags, with balanced quotes, and without the list separator
    prop_oneof![
        12 => el(),
        1 => proptest::sample::select(vec!["abc", "w/\"a\"", "W/", "W/abc", "\"a\"b", "a\"b\"", "\"a\"\"b\"", "**", "*\"a\"", "W/W/\"a\"", "\"a b\"", "\"\x7f\"", "/\"\"", "W \"x\"", "\"a\t\""]).prop_map(|s| El::Bad(s.to_string())),
    ]
    .boxed()
}

/// What a list says, read independently of the code; None when it is malformed.
fn ref_list(s: &str) -> Option<Built> {
    let mut parts = vec![String::new()];
    let mut quoted = false;
    for c in s.chars() {
        quoted ^= c == '"';
        if c == ',' && !quoted {
            parts.push(String::new());
        } else {
            parts.last_mut().unwrap().push(c);
        }
    }
    let mut out = (vec![], false);
    for p in parts {
        match p.trim_matches(|c| c == ' ' || c == '\t') {
            "" => {}
            "*" => out.1 = true,
            p => out.0.push(ref_etag(p)?.build()),
        }
    }
    Some(out)
}

fn check_list_line((none, s): &(bool, String)) -> Check {
    let (name, read, _) = if *none { list_ops!(IfNoneMatch, "if-none-match") } else { list_ops!(IfMatch, "if-match") };
    let want = ref_list(s);
    match (read(&hdrs(name, &[s.as_str()])), &want) {
        (Ok(g), Some(_)) => ck_eq!(g, want, "{} from {:?}", name, s),
        (Err(e), None) => {
            classify("malformed");
            is_400(&e, s)?
        }
        (g, _) => pbt::fail!("{} from {:?}: got {:?}, expected {:?}", name, s, g, want),
    }
    Ok(want.map_or(true, |w| !w.0.is_empty() || w.1))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct V {
    lines: Vec<Vec<(String, Option<String>, String)>>,
}

fn check_vary(v: &V) -> Check {
    let mut names = vec![];
    let mut star = false;
    let mut lines = vec![];
    for l in &v.lines {
        let mut parts = vec![];
        for (a, n, b) in l {
            match n {
                Some(n) if !n.is_empty() => names.push(n.clone()),
                Some(_) => {}
                None => star = true,
            }
            parts.push(format!("{}{}{}", a, n.as_deref().unwrap_or("*"), b));
        }
        lines.push(parts.join(","));
    }
    let want: Vec<HeaderName> = names.iter().map(|n| HeaderName::from_str(n).unwrap()).collect();
    let mut vary = Vary::new();
    for n in &names {
        no_err(vary.push(n.as_str()), "push")?;
    }
    ck!(!vary.wildcard(), "a new value has a wildcard");
    if star {
        vary.set_wildcard(true);
    } else if vary.iter().count() % 2 == 1 {
        vary.set_wildcard(true);
        vary.set_wildcard(false);
    }
    ck_eq!(vary.wildcard(), star, "wildcard");
    pbt::walk!(vary, want, |n| n.clone(), "names");
    let text = emit(&vary, "vary")?;
    let mut w: Vec<String> = names.iter().map(|n| n.to_ascii_lowercase()).collect();
    if star {
        w.push("*".into());
    }
    ck_eq!(text, w.join(", "), "vary value");
    for (ls, how) in [(vec![text.clone()], "written"), (lines.clone(), "sent")] {
        if ls.is_empty() {
            continue;
        }
        let back = no_err(Vary::from_headers(hdrs("vary", &ls)), "Vary")?.ok_or_else(|| Fail::new("None"))?;
        ck_eq!(back.wildcard(), star, "wildcard from {:?} ({})", ls, how);
        ck_eq!((&back).into_iter().cloned().collect::<Vec<_>>(), want, "names from {:?} ({})", ls, how);
        ck_eq!(run_out(back.into_iter(), names.len(), "into_iter")?.into_iter().map(|n| n.as_str().to_string()).collect::<Vec<_>>(), names.iter().map(|n| n.to_ascii_lowercase()).collect::<Vec<_>>(), "into_iter from {:?}", ls);
    }
    ck!(no_err(Vary::from_headers(no_headers()), "Vary")?.is_none(), "Some without the header");
    Ok(names.len() >= 2)
}

fn main() {
    pbt::fw::main("C09", vec![
        law("etag", "an entity tag over the whole grammar, another one, and arbitrary text judged by a reference parser; non-trivial: a non-empty tag and text", 60_000, 3_000_000,
            || (tag(), tag(), prop_oneof![tag().prop_map(|t| t.print()), gen::soup(&["W/", "\"", "\"", "w/", "a", "!", " ", "\\", ",", "\x7f", "#"], 6), gen::ascii_any(8)], vec(gen::ascii_any(5), 0..2))
                .prop_map(|(tag, other, raw, earlier)| E1 { other: if raw.len() % 3 == 0 { tag.clone() } else { other }, tag, raw, earlier }),
            check_etag),
        law("match_lists", "If-Match and If-None-Match lists over several lines with wildcards and empty elements, written and read back; non-trivial: at least two tags", 50_000, 3_000_000,
            || (vec(vec((gen::ows(), bad_el(), gen::ows()), 1..5), 0..4), any::<bool>()).prop_map(|(lines, none)| L { lines, none }), check_list),
        law("match_line", "one line of entity tags and wildcards with up to three characters added, replaced, doubled or taken away, against an independent reader; non-trivial: a tag or wildcard, or refused", 40_000, 3_000_000,
            || (any::<bool>(), gen::edited(vec((gen::ows(), el(), gen::ows()), 1..4).prop_map(|v| v.into_iter().map(|(a, e, b)| a + &match e {
                El::Tag(t) => t.print(),
                El::Star => "*".into(),
                _ => String::new(),
            } + &b).collect::<Vec<_>>().join(",")).boxed(), "\"\"\"\",,**WW//w \t\\;='a1!#\x7f\x01~")), check_list_line),
        law("vary", "lists of header names with wildcards and empty elements over several lines; non-trivial: at least two names", 40_000, 2_000_000,
            || vec(vec((gen::ows(), prop_oneof![8 => gen::token().prop_filter("star", |s| s != "*").prop_map(Some), 1 => Just(None), 1 => Just(Some(String::new()))], gen::ows()), 1..5), 0..4).prop_map(|lines| V { lines }), check_vary),
    ]);
}
