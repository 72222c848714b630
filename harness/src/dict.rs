//! A fuzzing dictionary: the text, characters and numbers that stand in the source of the crate under test. It steers
//! the generators towards values some code may treat differently (as AFL's and Go's dictionaries do); no oracle uses it.
use regex_syntax::hir::{Class, Hir, HirKind};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};

#[derive(Default)]
pub struct Words {
    /// text of string literals, whole and in pieces
    pub text: Vec<String>,
    pub chars: Vec<char>,
    /// numbers and their neighbours
    pub numbers: Vec<u64>,
}

/// Words of the files a property is anchored in, and of all files.
pub struct Dict {
    pub near: Words,
    pub all: Words,
}

static PROPERTY: OnceLock<String> = OnceLock::new();

/// Says which property is checked, before the first use of the dictionary.
pub fn set_property(p: &str) {
    let _ = PROPERTY.set(p.to_string());
}

fn repo() -> PathBuf {
    std::env::var_os("PBT_REPO").map(PathBuf::from).unwrap_or_else(|| "/repo".into())
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(&repo().join("src"), &mut files);
        files.sort();
        let anchors = anchors(PROPERTY.get().map(|s| s.as_str()).unwrap_or(""));
        let (mut near, mut all) = (Raw::default(), Raw::default());
        for f in &files {
            // in pieces, so that damaged text cannot lose the rest
            let src = std::fs::read(f).unwrap_or_default();
            let src = String::from_utf8_lossy(&src);
            let rel = f.strip_prefix(repo()).unwrap_or(f).to_string_lossy().into_owned();
            scan(&src, &mut all);
            if anchors.iter().any(|a| rel.starts_with(a.as_str())) {
                scan(&src, &mut near);
            }
        }
        let all = all.finish();
        let near = near.finish();
        Dict { near, all }
    })
}

fn anchors(property: &str) -> Vec<String> {
    let Ok(text) = std::fs::read_to_string(crate::fw::verif_dir().join("properties.jsonl")) else { return vec![] };
    for l in text.lines() {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
            if v["id"] == property {
                return v["anchors"]["files"].as_array().map(|a| a.iter().filter_map(|f| f.as_str().map(|s| s.trim_end_matches('/').to_string())).collect()).unwrap_or_default();
            }
        }
    }
    vec![]
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p)
            }
        }
    }
}

#[derive(Default)]
struct Raw {
    text: BTreeSet<String>,
    chars: BTreeSet<char>,
    numbers: BTreeSet<u64>,
}

impl Raw {
    fn add_text(&mut self, s: &str) {
        if s.is_empty() || s.chars().count() > 60 {
            return;
        }
        self.text.insert(s.to_string());
        for sep in [&[' ', ',', ';', '\n'][..], &['/', '=', ':', '-', '{', '}', '"', '\'', '.', ' ', ',', ';', '\n'][..]] {
            for p in s.split(sep) {
                if !p.is_empty() {
                    self.text.insert(p.to_string());
                }
            }
        }
        self.chars.extend(s.chars().filter(|c| !c.is_ascii_alphanumeric()));
    }
    fn finish(mut self) -> Words {
        for n in self.numbers.clone() {
            self.numbers.insert(n.wrapping_add(1));
            self.numbers.insert(n.wrapping_sub(1));
            self.text.insert(n.to_string());
        }
        Words { text: self.text.into_iter().collect(), chars: self.chars.into_iter().collect(), numbers: self.numbers.into_iter().collect() }
    }
}

/// A rough reading of Rust source: comments and unit tests are passed over.
fn scan(src: &str, out: &mut Raw) {
    let src = match src.find("#[cfg(test)]") {
        Some(i) => &src[..i],
        None => src,
    };
    let s: Vec<char> = src.chars().collect();
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut shift = None;
    while i < s.len() {
        let c = s[i];
        if c == '/' && at(i + 1) == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < s.len() && !(s[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#' && at(i + 3) == '"')) && !(i > 0 && (s[i - 1].is_alphanumeric() && s[i - 1] != 'b' || s[i - 1] == '_')) {
            let mut h = 0;
            i += 1;
            while at(i) == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            let start = i;
            while i < s.len() && !(s[i] == '"' && (1..=h).all(|k| at(i + k) == '#')) {
                i += 1;
            }
            out.add_text(&s[start..i.min(s.len())].iter().collect::<String>());
            i += 1 + h;
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            while i < s.len() && s[i] != '"' {
                if s[i] == '\\' {
                    let (e, n) = escape(&s, i + 1);
                    t.extend(e);
                    i += 1 + n;
                } else {
                    t.push(s[i]);
                    i += 1;
                }
            }
            i += 1;
            out.add_text(&t);
        } else if c == '\'' {
            if at(i + 1) == '\\' {
                let (e, n) = escape(&s, i + 2);
                out.chars.extend(e);
                i += 3 + n;
            } else if at(i + 2) == '\'' {
                out.chars.insert(at(i + 1));
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && !(i > 0 && (s[i - 1].is_alphanumeric() || s[i - 1] == '_')) {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let t: String = s[start..i].iter().filter(|c| **c != '_').collect();
            let n = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else {
                let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(n) = n {
                if let Some(base) = shift.take() {
                    let v: u64 = base;
                    out.numbers.insert(v.checked_shl(n as u32).unwrap_or(0));
                }
                out.numbers.insert(n);
                let mut j = i;
                while at(j) == ' ' {
                    j += 1;
                }
                if at(j) == '<' && at(j + 1) == '<' {
                    shift = Some(n);
                } else if at(j) == '*' {
                    // products of two literals
                    let mut k = j + 1;
                    while at(k) == ' ' {
                        k += 1;
                    }
                    let m: String = s[k..].iter().take_while(|c| c.is_ascii_digit() || **c == '_').filter(|c| **c != '_').collect();
                    if let Ok(m) = m.parse::<u64>() {
                        out.numbers.insert(n.wrapping_mul(m));
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

/// What an escape stands for and its length after the backslash.
fn escape(s: &[char], i: usize) -> (Option<char>, usize) {
    match s.get(i) {
        Some('n') => (Some('\n'), 1),
        Some('r') => (Some('\r'), 1),
        Some('t') => (Some('\t'), 1),
        Some('0') => (Some('\0'), 1),
        Some('x') => {
            let h: String = s[i + 1..].iter().take(2).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 3)
        }
        Some('u') => {
            let h: String = s[i + 1..].iter().take_while(|c| **c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
            let n = s[i + 1..].iter().take_while(|c| **c != '}').count();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), n + 2)
        }
        Some('\n') => (None, 1 + s[i + 1..].iter().take_while(|c| c.is_whitespace()).count()),
        Some(c) => (Some(*c), 1),
        None => (None, 0),
    }
}

/// Ends of the matches of the expression at `at`.
fn ends(h: &Hir, s: &[char], at: usize) -> BTreeSet<usize> {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => BTreeSet::from([at]),
        HirKind::Literal(l) => {
            let t: Vec<char> = String::from_utf8_lossy(&l.0).chars().collect();
            if s[at..].starts_with(&t) { BTreeSet::from([at + t.len()]) } else { BTreeSet::new() }
        }
        HirKind::Class(c) => {
            let ok = s.get(at).map_or(false, |x| match c {
                Class::Unicode(u) => u.iter().any(|r| r.start() <= *x && *x <= r.end()),
                Class::Bytes(b) => b.iter().any(|r| (r.start() as u32..=r.end() as u32).contains(&(*x as u32))),
            });
            if ok { BTreeSet::from([at + 1]) } else { BTreeSet::new() }
        }
        HirKind::Repetition(r) => {
            let mut out = BTreeSet::new();
            let mut now = BTreeSet::from([at]);
            for n in 0.. {
                if n >= r.min {
                    out.extend(now.iter().copied());
                }
                if Some(n) == r.max || now.is_empty() || n as usize > s.len() + 1 {
                    break;
                }
                now = now.iter().flat_map(|p| ends(&r.sub, s, *p)).collect();
            }
            out
        }
        HirKind::Capture(c) => ends(&c.sub, s, at),
        HirKind::Concat(v) => {
            let mut now = BTreeSet::from([at]);
            for x in v {
                now = now.iter().flat_map(|p| ends(x, s, *p)).collect();
            }
            now
        }
        HirKind::Alternation(v) => v.iter().flat_map(|x| ends(x, s, at)).collect(),
    }
}

/// The words that match all of an expression, in several letter cases: of the near files, of all files.
pub fn matching(pattern: &str) -> &'static (Vec<String>, Vec<String>) {
    static CACHE: Mutex<BTreeMap<String, &'static (Vec<String>, Vec<String>)>> = Mutex::new(BTreeMap::new());
    if let Some(v) = CACHE.lock().unwrap().get(pattern) {
        return v;
    }
    let h = regex_syntax::parse(pattern).expect("a pattern of the harness");
    let pick = |w: &Words| {
        let mut out = BTreeSet::new();
        for t in &w.text {
            for t in [t.clone(), t.to_ascii_lowercase(), t.to_ascii_uppercase()] {
                let s: Vec<char> = t.chars().collect();
                if ends(&h, &s, 0).contains(&s.len()) {
                    out.insert(t);
                }
            }
        }
        out.into_iter().collect::<Vec<_>>()
    };
    let d = dict();
    let v: &'static _ = Box::leak(Box::new((pick(&d.near), pick(&d.all))));
    CACHE.lock().unwrap().insert(pattern.to_string(), v);
    v
}
