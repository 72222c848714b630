//! C01: header collections are case-insensitive ordered multimaps.
use http_types::headers::{Header, HeaderName, HeaderValue, HeaderValues, Headers, ToHeaderValues};
use http_types::trailers::Trailers;
use http_types::{Method, Request, Response, StatusCode, Url};
use pbt::fw::*;
use pbt::{ck, ck_eq, gen};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Vals {
    Str(String),
    Owned(String),
    OwnedRef(String),
    Cow(String),
    Value(String),
    Slice(Vec<String>),
    List(Vec<String>),
    Typed(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Nm {
    Str(String),
    Name(String),
    NameRef(String),
    Typed(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Insert(Nm, Vals),
    Append(Nm, Vals),
    Remove(Nm),
    Get(Nm),
    MutAppend(Nm, Vec<String>),
    MutReplace(Nm, usize, String),
    IterMutReplaceFirst(String),
    ApplyTyped(String, String),
    CloneCheck,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Carrier {
    Request,
    Response,
    Trailers,
    HeadersOfRequest,
    HeadersOfResponse,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    carrier: Carrier,
    ops: Vec<Op>,
}

fn hv(s: &str) -> HeaderValue {
    HeaderValue::from_bytes(s.as_bytes().to_vec()).unwrap()
}
fn hvs(v: &[String]) -> Vec<HeaderValue> {
    v.iter().map(|s| hv(s)).collect()
}

/// One object that has headers, driven through its own API.
enum Obj {
    Req(Request),
    Res(Response),
    Tr(Trailers),
    HReq(Request),
    HRes(Response),
}

impl Obj {
    fn new(c: Carrier) -> Obj {
        let r = || Request::new(Method::Get, Url::parse("http://a.b/").unwrap());
        match c {
            Carrier::Request => Obj::Req(r()),
            Carrier::Response => Obj::Res(Response::new(StatusCode::Ok)),
            Carrier::Trailers => Obj::Tr(Trailers::new()),
            Carrier::HeadersOfRequest => Obj::HReq(r()),
            Carrier::HeadersOfResponse => Obj::HRes(Response::new(StatusCode::Ok)),
        }
    }
    fn h(&self) -> &Headers {
        match self {
            Obj::Req(x) | Obj::HReq(x) => x.as_ref(),
            Obj::Res(x) | Obj::HRes(x) => x.as_ref(),
            Obj::Tr(t) => t,
        }
    }
    fn insert(&mut self, n: impl Into<HeaderName>, v: impl ToHeaderValues) -> http_types::Result<Option<HeaderValues>> {
        match self {
            Obj::Req(x) => x.insert_header(n, v),
            Obj::Res(x) => x.insert_header(n, v),
            Obj::Tr(x) => x.insert(n, v),
            Obj::HReq(x) => AsMut::<Headers>::as_mut(x).insert(n, v),
            Obj::HRes(x) => AsMut::<Headers>::as_mut(x).insert(n, v),
        }
    }
    fn append(&mut self, n: impl Into<HeaderName>, v: impl ToHeaderValues) -> http_types::Result<()> {
        match self {
            Obj::Req(x) => x.append_header(n, v),
            Obj::Res(x) => x.append_header(n, v),
            Obj::Tr(x) => x.append(n, v),
            Obj::HReq(x) => AsMut::<Headers>::as_mut(x).append(n, v),
            Obj::HRes(x) => AsMut::<Headers>::as_mut(x).append(n, v),
        }
    }
    fn remove(&mut self, n: impl Into<HeaderName>) -> Option<HeaderValues> {
        match self {
            Obj::Req(x) => x.remove_header(n),
            Obj::Res(x) => x.remove_header(n),
            Obj::Tr(x) => x.remove(n),
            Obj::HReq(x) => AsMut::<Headers>::as_mut(x).remove(n),
            Obj::HRes(x) => AsMut::<Headers>::as_mut(x).remove(n),
        }
    }
    fn get(&self, n: impl Into<HeaderName>) -> Option<&HeaderValues> {
        match self {
            Obj::Req(x) => x.header(n),
            Obj::Res(x) => x.header(n),
            Obj::Tr(x) => x.get(n),
            Obj::HReq(x) => AsRef::<Headers>::as_ref(x).get(n),
            Obj::HRes(x) => AsRef::<Headers>::as_ref(x).get(n),
        }
    }
    fn get_mut(&mut self, n: impl Into<HeaderName>) -> Option<&mut HeaderValues> {
        match self {
            Obj::Req(x) => x.header_mut(n),
            Obj::Res(x) => x.header_mut(n),
            Obj::Tr(x) => x.get_mut(n),
            Obj::HReq(x) => AsMut::<Headers>::as_mut(x).get_mut(n),
            Obj::HRes(x) => AsMut::<Headers>::as_mut(x).get_mut(n),
        }
    }
    fn index_str(&self, n: &str) -> &HeaderValues {
        match self {
            Obj::Req(x) => &x[n],
            Obj::Res(x) => &x[n],
            Obj::Tr(x) => &x[n],
            Obj::HReq(x) => &AsRef::<Headers>::as_ref(x)[n],
            Obj::HRes(x) => &AsRef::<Headers>::as_ref(x)[n],
        }
    }
    fn index_name(&self, n: HeaderName) -> &HeaderValues {
        match self {
            Obj::Req(x) => &x[n],
            Obj::Res(x) => &x[n],
            Obj::Tr(x) => &x[n],
            Obj::HReq(x) => &AsRef::<Headers>::as_ref(x)[n],
            Obj::HRes(x) => &AsRef::<Headers>::as_ref(x)[n],
        }
    }
    fn names(&self) -> Vec<String> {
        let f = |n: &HeaderName| n.as_str().to_string();
        match self {
            Obj::Req(x) => x.header_names().map(f).collect(),
            Obj::Res(x) => x.header_names().map(f).collect(),
            Obj::Tr(x) => x.names().map(f).collect(),
            Obj::HReq(_) | Obj::HRes(_) => self.h().names().map(f).collect(),
        }
    }
    fn values(&self) -> Result<Vec<String>, Fail> {
        match self {
            Obj::Req(x) => hinted(x.header_values(), "header_values"),
            Obj::Res(x) => hinted(x.header_values(), "header_values"),
            Obj::Tr(x) => hinted(x.values(), "values"),
            Obj::HReq(_) | Obj::HRes(_) => hinted(self.h().values(), "values"),
        }
    }
    fn pairs(&self) -> Vec<(String, Vec<String>)> {
        let f = |(n, v): (&HeaderName, &HeaderValues)| (n.as_str().to_string(), strs(v));
        match self {
            Obj::Req(x) => x.iter().map(f).collect(),
            Obj::Res(x) => x.iter().map(f).collect(),
            Obj::Tr(x) => x.iter().map(f).collect(),
            Obj::HReq(x) => x.into_iter().map(f).collect(),
            Obj::HRes(x) => x.into_iter().map(f).collect(),
        }
    }
    fn iter_mut_first(&mut self, s: &str) {
        // every other time through the other way to the first value
        if s.len() % 2 == 1 {
            let f = |v: &mut HeaderValues| *AsMut::<HeaderValue>::as_mut(v) = hv(s);
            return match self {
                Obj::Req(x) => x.iter_mut().for_each(|(_, v)| f(v)),
                Obj::Res(x) => x.iter_mut().for_each(|(_, v)| f(v)),
                Obj::Tr(x) => x.iter_mut().for_each(|(_, v)| f(v)),
                Obj::HReq(x) => x.into_iter().for_each(|(_, v)| f(v)),
                Obj::HRes(x) => x.into_iter().for_each(|(_, v)| f(v)),
            };
        }
        match self {
            Obj::Req(x) => x.iter_mut().for_each(|(_, v)| **v = hv(s)),
            Obj::Res(x) => x.iter_mut().for_each(|(_, v)| **v = hv(s)),
            Obj::Tr(x) => x.iter_mut().for_each(|(_, v)| **v = hv(s)),
            Obj::HReq(x) => x.into_iter().for_each(|(_, v)| **v = hv(s)),
            Obj::HRes(x) => x.into_iter().for_each(|(_, v)| **v = hv(s)),
        }
    }
    fn dup(&self) -> Obj {
        match self {
            Obj::Req(x) => Obj::Req(x.clone()),
            Obj::Res(x) => Obj::Res(x.clone()),
            Obj::Tr(x) => Obj::Tr(x.clone()),
            Obj::HReq(x) => Obj::HReq(x.clone()),
            Obj::HRes(x) => Obj::HRes(x.clone()),
        }
    }
    fn into_pairs(self) -> Vec<(String, Vec<String>)> {
        let f = |(n, v): (HeaderName, HeaderValues)| (n.as_str().to_string(), v.into_iter().map(|v| v.as_str().to_string()).collect());
        match self {
            Obj::Req(x) | Obj::HReq(x) => x.into_iter().map(f).collect(),
            Obj::Res(x) | Obj::HRes(x) => x.into_iter().map(f).collect(),
            Obj::Tr(t) => {
                let h: Headers = (*t).clone();
                h.into_iter().map(f).collect()
            }
        }
    }
    fn apply(&mut self, n: &str, v: &str) {
        match self {
            Obj::Req(x) | Obj::HReq(x) => (n, v).apply_header(x),
            Obj::Res(x) | Obj::HRes(x) => (n, v).apply_header(x),
            Obj::Tr(t) => (n, v).apply_header(&mut **t),
        }
    }
}

fn strs(v: &HeaderValues) -> Vec<String> {
    v.iter().map(|v| v.as_str().to_string()).collect()
}

/// Drain an iterator, checking at every step that size_hint bounds what is really left.
fn hinted<'a, I: Iterator<Item = &'a HeaderValue>>(mut it: I, what: &str) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(v) = it.next() {
        out.push(v.as_str().to_string());
        hints.push(it.size_hint());
    }
    ck!(it.next().is_none(), "{}: iterator yields again after its end", what);
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len() - i;
        ck!(*lo <= left, "{}: size_hint lower bound {} but {} items were left", what, lo, left);
        if let Some(h) = hi {
            ck!(*h >= left, "{}: size_hint upper bound {} but {} items were left", what, h, left);
        }
    }
    Ok(out)
}

fn with_name<R>(n: &Nm, f: impl FnOnce(HeaderName) -> R) -> R {
    match n {
        Nm::Str(s) => f(HeaderName::from(s.as_str())),
        Nm::Name(s) => f(HeaderName::from_str(s).unwrap()),
        Nm::NameRef(s) => f(HeaderName::from(&HeaderName::from_string(s.clone()).unwrap())),
        Nm::Typed(s) => f(HeaderName::from((s.as_str(), "x"))),
    }
}
fn nkey(n: &Nm) -> String {
    match n {
        Nm::Str(s) | Nm::Name(s) | Nm::NameRef(s) | Nm::Typed(s) => s.to_ascii_lowercase(),
    }
}
fn vlist(v: &Vals) -> Option<Vec<String>> {
    match v {
        Vals::Str(s) | Vals::Owned(s) | Vals::OwnedRef(s) | Vals::Cow(s) => s.is_ascii().then(|| vec![s.clone()]),
        Vals::Value(s) | Vals::Typed(s) => Some(vec![s.clone()]),
        Vals::Slice(v) | Vals::List(v) => Some(v.clone()),
    }
}

fn put(o: &mut Obj, append: bool, n: &Nm, v: &Vals) -> http_types::Result<Option<HeaderValues>> {
    fn go(o: &mut Obj, append: bool, n: HeaderName, v: impl ToHeaderValues) -> http_types::Result<Option<HeaderValues>> {
        if append {
            o.append(n, v).map(|_| None)
        } else {
            o.insert(n, v)
        }
    }
    with_name(n, |n| match v {
        Vals::Str(s) => go(o, append, n, s.as_str()),
        Vals::Owned(s) => go(o, append, n, s.clone()),
        Vals::OwnedRef(s) => go(o, append, n, s),
        Vals::Cow(s) => go(o, append, n, Cow::Borrowed(s.as_str())),
        Vals::Value(s) => go(o, append, n, hv(s)),
        Vals::Typed(s) => go(o, append, n, ("unused", s.as_str())),
        Vals::Slice(v) => go(o, append, n, &hvs(v)[..]),
        Vals::List(v) => go(o, append, n, &HeaderValues::from(hvs(v))),
    })
}

type Model = BTreeMap<String, Vec<String>>;

fn check_state(o: &Obj, m: &Model, probe: &[String]) -> Result<(), Fail> {
    let mut names = o.names();
    let n_names = names.len();
    names.sort();
    ck_eq!(names, m.keys().cloned().collect::<Vec<_>>(), "header names");
    ck_eq!(n_names, names.iter().collect::<BTreeSet<_>>().len(), "distinct names");
    let mut pairs = o.pairs();
    pairs.sort();
    ck_eq!(pairs, m.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), "name/value pairs");
    let mut by_ref: Vec<_> = o.h().into_iter().map(|(n, v)| (n.as_str().to_string(), strs(v))).collect();
    by_ref.sort();
    ck_eq!(by_ref, pairs, "name/value pairs of a reference");
    let mut vs = o.values()?;
    vs.sort();
    let mut want: Vec<String> = m.values().flatten().cloned().collect();
    want.sort();
    ck_eq!(vs, want, "all values");
    for p in probe.iter().collect::<BTreeSet<_>>() {
        let key = p.to_ascii_lowercase();
        let got = o.get(p.as_str()).map(strs);
        ck_eq!(got, m.get(&key).cloned(), "get({:?})", p);
        if let Some(w) = m.get(&key) {
            ck_eq!(strs(o.index_str(p)), *w, "[{:?}]", p);
            ck_eq!(strs(o.index_name(HeaderName::from(p.as_str()))), *w, "[HeaderName {:?}]", p);
            let v = o.index_str(p);
            check_list(v, w)?;
        }
    }
    Ok(())
}

/// Everything observable about one non-empty list of values.
fn check_list(v: &HeaderValues, w: &[String]) -> Result<(), Fail> {
    ck!(!w.is_empty(), "a stored header has no value at all");
    ck_eq!(v.last().as_str(), w.last().unwrap().as_str(), "last()");
    ck_eq!(v.as_str(), w[0].as_str(), "deref: first value");
    let r: &HeaderValue = v.as_ref();
    ck_eq!(r.as_str(), w[0].as_str(), "as_ref: first value");
    ck_eq!(HeaderValue::from(v.clone()).as_str(), w[0].as_str(), "HeaderValue::from(values)");
    for i in 0..w.len() + 2 {
        ck_eq!(v.get(i).map(|x| x.as_str()), w.get(i).map(|x| x.as_str()), "get({})", i);
        if i < w.len() {
            ck_eq!(v[i].as_str(), w[i].as_str(), "[{}]", i);
            ck!(v.contains(&hv(&w[i])), "contains {:?}", w[i]);
        }
    }
    ck!(!v.contains(&hv("\u{1}never generated\u{1}")), "contains a value that is not there");
    ck_eq!(hinted(v.iter(), "HeaderValues::iter")?, w.to_vec(), "iter");
    ck_eq!(v.into_iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>(), w.to_vec(), "into_iter(&)");
    let refs: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
    ck!(*v == refs[..], "== [&str]");
    let mut longer = refs.clone();
    longer.push(refs[0]);
    ck!(!(*v == longer[..]), "equal to a longer list");
    ck!(!(*v == refs[..refs.len() - 1]), "equal to a shorter list");
    for s in w {
        let one = w.len() == 1 && *s == w[0];
        ck_eq!(*v == **s, one, "== str {:?}", s);
        ck_eq!(*v == s.as_str(), one, "== &str {:?}", s);
        ck_eq!(*v == *s, one, "== String {:?}", s);
        ck_eq!(*v == s, one, "== &String {:?}", s);
    }
    Ok(())
}

fn check_hist(h: &Hist) -> Check {
    let mut o = Obj::new(h.carrier);
    let mut m: Model = BTreeMap::new();
    let mut probe: Vec<String> = vec!["never-set".into()];
    let (mut replaced, mut multi, mut removed, mut recased) = (false, false, false, false);
    check_state(&o, &m, &probe)?;
    for (at, op) in h.ops.iter().enumerate() {
        match op {
            Op::Insert(n, v) => {
                let k = nkey(n);
                let r = put(&mut o, false, n, v);
                match vlist(v) {
                    None => ck!(r.is_err(), "insert accepted the non-ASCII value {:?}", v),
                    Some(l) => {
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => return Err(Fail::new(format!("insert refused {:?}: {}", v, e))),
                        };
                        replaced |= m.contains_key(&k);
                        let old = if l.is_empty() { m.remove(&k) } else { m.insert(k.clone(), l) };
                        ck_eq!(r.as_ref().map(strs), old, "insert({:?}) returns the previous values", n);
                    }
                }
                probe.push(name_str(n));
                recased |= name_str(n) != k;
            }
            Op::Append(n, v) => {
                let k = nkey(n);
                let r = put(&mut o, true, n, v);
                match vlist(v) {
                    None => ck!(r.is_err(), "append accepted the non-ASCII value {:?}", v),
                    Some(l) => {
                        ck!(r.is_ok(), "append refused {:?}", v);
                        if !l.is_empty() {
                            let e = m.entry(k).or_default();
                            e.extend(l);
                            multi |= e.len() > 1;
                        }
                    }
                }
                probe.push(name_str(n));
            }
            Op::Remove(n) => {
                let r = with_name(n, |n| o.remove(n));
                let w = m.remove(&nkey(n));
                removed |= w.is_some();
                ck_eq!(r.as_ref().map(strs), w, "remove({:?}) returns the values", n);
                probe.push(name_str(n));
            }
            Op::Get(n) => {
                let r = with_name(n, |n| o.get(n).map(strs));
                ck_eq!(r, m.get(&nkey(n)).cloned(), "get({:?})", n);
                let r = with_name(n, |n| o.get_mut(n).map(|v| strs(v)));
                ck_eq!(r, m.get(&nkey(n)).cloned(), "get_mut({:?})", n);
            }
            Op::MutAppend(n, vs) => {
                let mut extra: HeaderValues = hvs(vs).into_iter().collect();
                let present = with_name(n, |n| match o.get_mut(n) {
                    Some(l) => {
                        l.append(&mut extra);
                        true
                    }
                    None => false,
                });
                ck_eq!(present, m.contains_key(&nkey(n)), "get_mut({:?}) presence", n);
                if present {
                    m.get_mut(&nkey(n)).unwrap().extend(vs.iter().cloned());
                    ck!(extra.get(0).is_none(), "HeaderValues::append leaves values behind");
                }
            }
            Op::MutReplace(n, i, s) => {
                let done = with_name(n, |n| match o.get_mut(n).and_then(|l| l.get_mut(*i)) {
                    Some(x) => {
                        *x = hv(s);
                        true
                    }
                    None => false,
                });
                let want = m.get_mut(&nkey(n)).and_then(|l| l.get_mut(*i));
                ck_eq!(done, want.is_some(), "get_mut({:?}).get_mut({})", n, i);
                if let Some(w) = want {
                    *w = s.clone();
                }
            }
            Op::IterMutReplaceFirst(s) => {
                o.iter_mut_first(s);
                for l in m.values_mut() {
                    l[0] = s.clone();
                }
            }
            Op::ApplyTyped(n, v) => {
                o.apply(n, v);
                m.insert(n.to_ascii_lowercase(), vec![v.clone()]);
                probe.push(n.clone());
            }
            Op::CloneCheck => {
                let mut d = o.dup();
                check_state(&d, &m, &probe)?;
                // a clone is independent
                d.insert("x-only-in-clone", "1").unwrap();
                if let Some(k) = m.keys().next() {
                    d.remove(k.as_str());
                }
            }
        }
        // all of it after every operation of a short history, now and then in a long one
        if at < 24 || at % 37 == 0 || at + 1 == h.ops.len() {
            check_state(&o, &m, &probe)?;
        }
    }
    let mut pairs = o.into_pairs();
    pairs.sort();
    ck_eq!(pairs, m.into_iter().collect::<Vec<_>>(), "owning iterator");
    classify_if(replaced, "insert over existing");
    classify_if(multi, "multi-valued");
    classify_if(removed, "removed existing");
    Ok(h.ops.len() >= 3 && (replaced || multi || removed || recased))
}

fn name_str(n: &Nm) -> String {
    match n {
        Nm::Str(s) | Nm::Name(s) | Nm::NameRef(s) | Nm::Typed(s) => s.clone(),
    }
}

fn raw_name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => (prop::sample::select(&["a", "bb", "content-type", "x-y", "set-cookie", "etag", "host"][..]), any::<u64>())
            .prop_map(|(s, m)| gen::recase(s, m)),
        1 => gen::token(),
        1 => gen::ascii_any(6),
        1 => gen::header_name(),
    ]
    .boxed()
}
fn name() -> BoxedStrategy<Nm> {
    (raw_name(), 0..4)
        .prop_map(|(s, k)| match k {
            0 => Nm::Str(s),
            1 => Nm::Name(s),
            2 => Nm::NameRef(s),
            _ => Nm::Typed(s),
        })
        .boxed()
}
fn val() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::re("[a-c]{0,2}"), 2 => gen::ascii_any(8)].boxed()
}
fn vals() -> BoxedStrategy<Vals> {
    prop_oneof![
        4 => (val(), 0..6).prop_map(|(s, k)| match k {
            0 => Vals::Str(s), 1 => Vals::Owned(s), 2 => Vals::OwnedRef(s), 3 => Vals::Cow(s),
            4 => Vals::Value(s), _ => Vals::Typed(s)
        }),
        1 => (gen::any_text(6), 0..4).prop_map(|(s, k)| match k {
            0 => Vals::Str(s), 1 => Vals::Owned(s), 2 => Vals::OwnedRef(s), _ => Vals::Cow(s)
        }),
        3 => (gen::vec(val(), 0..4), any::<bool>()).prop_map(|(v, b)| if b { Vals::Slice(v) } else { Vals::List(v) }),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (name(), vals()).prop_map(|(n, v)| Op::Insert(n, v)),
        6 => (name(), vals()).prop_map(|(n, v)| Op::Append(n, v)),
        3 => name().prop_map(Op::Remove),
        2 => name().prop_map(Op::Get),
        2 => (name(), gen::vec(val(), 0..3)).prop_map(|(n, v)| Op::MutAppend(n, v)),
        2 => (name(), 0usize..3, val()).prop_map(|(n, i, v)| Op::MutReplace(n, i, v)),
        1 => val().prop_map(Op::IterMutReplaceFirst),
        1 => (raw_name(), val()).prop_map(|(n, v)| Op::ApplyTyped(n, v)),
        1 => Just(Op::CloneCheck),
    ]
    .boxed()
}
fn hist(max: usize) -> BoxedStrategy<Hist> {
    (
        prop::sample::select(
            &[Carrier::Request, Carrier::Response, Carrier::Trailers, Carrier::HeadersOfRequest, Carrier::HeadersOfResponse][..],
        ),
        gen::vec(op(), 1..max),
        proptest::option::of(gen::header_name()),
    )
        .prop_map(|(carrier, mut ops, other)| {
            // one of the few names that come up again and again is any header name in use
            if let Some(o) = other {
                for op in &mut ops {
                    let s = match op {
                        Op::Insert(n, _) | Op::Append(n, _) | Op::Remove(n) | Op::Get(n) | Op::MutAppend(n, _) | Op::MutReplace(n, _, _) => match n {
                            Nm::Str(s) | Nm::Name(s) | Nm::NameRef(s) | Nm::Typed(s) => s,
                        },
                        Op::ApplyTyped(s, _) => s,
                        _ => continue,
                    };
                    if s.eq_ignore_ascii_case("x-y") {
                        *s = if s.starts_with('X') { o.clone() } else { o.to_ascii_lowercase() };
                    }
                }
            }
            Hist { carrier, ops }
        })
        .boxed()
}

fn laws() -> Vec<Box<dyn DynLaw>> {
    vec![
        law(
            "history",
            "random histories of insert/append/remove/get/get_mut/iter_mut/clone over Request, Response, Trailers and Headers against a sorted-map model, all reads compared after every step; non-trivial = at least 3 operations, with an overwrite, a multi-valued name, a removal of a present name or a mixed-case name",
            24_000,
            2_000_000,
            || hist(14),
            check_hist,
        ),
        law(
            "long_history",
            "as history, up to 120 operations; same rule",
            800,
            60_000,
            || hist(120),
            check_hist,
        ),
        law(
            "many",
            "as history, most of the operations appending to the same name, or every operation on a name of its own, up to 400; same rule",
            1_000,
            30_000,
            || (hist(4), 1usize..400, any::<bool>(), vals(), proptest::collection::vec((0usize..420, val()), 0..4), proptest::collection::vec(op(), 0..6)).prop_map(|(mut h, n, own, v, edits, more)| {
                for i in 0..n {
                    let name = if own { format!("x-{}", i) } else { "a".to_string() };
                    let v = if i % 7 == 0 { v.clone() } else { Vals::Str(format!("{}", i)) };
                    h.ops.push(if i % 31 == 30 { Op::Remove(Nm::Str(format!("x-{}", i / 2))) } else { Op::Append(Nm::Str(name), v) });
                }
                for (i, v) in edits {
                    h.ops.push(if own { Op::MutReplace(Nm::Str(format!("X-{}", i)), 0, v) } else { Op::MutReplace(Nm::Str("a".into()), i, v) });
                }
                h.ops.extend(more);
                h
            }),
            check_hist,
        ),
        law(
            "value_list",
            "HeaderValues built from a vector, from an iterator and by appending pieces, compared with a Vec; non-trivial = two or more values",
            12_000,
            400_000,
            || (gen::vec(gen::vec(val(), 0..4), 1..4), val()),
            |(parts, first): &(Vec<Vec<String>>, String)| {
                let mut all = vec![first.clone()];
                let mut l = HeaderValues::from(hv(first));
                for p in parts {
                    let mut x: HeaderValues = hvs(p).into_iter().collect();
                    l.append(&mut x);
                    ck!(x.get(0).is_none(), "append leaves the source empty");
                    all.extend(p.iter().cloned());
                }
                check_list(&l, &all)?;
                check_list(&HeaderValues::from(hvs(&all)), &all)?;
                check_list(&hvs(&all).into_iter().collect(), &all)?;
                check_list(&l.clone(), &all)?;
                ck_eq!(l.into_iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>(), all, "into_iter");
                Ok(all.len() > 1)
            },
        ),
    ]
}

fn main() {
    pbt::fw::main("C01", laws())
}
