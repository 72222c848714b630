//! C18: typed extensions are a map from type to value: one value per type, returned as it was put in,
//! never seen through another type, dropped exactly once.
use http_types::{Body, Method, Request, Response, StatusCode};
use pbt::fw::*;
use pbt::{ck, ck_eq};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// Every value carries a number; the ledger knows which are alive.
#[derive(Debug, Default)]
struct Ledger {
    alive: BTreeSet<u32>,
    error: Option<String>,
}
type L = Arc<Mutex<Ledger>>;

#[derive(Debug)]
struct Tracked {
    id: u32,
    v: u32,
    l: L,
}
impl Tracked {
    fn new(id: u32, v: u32, l: &L) -> Tracked {
        l.lock().unwrap().alive.insert(id);
        Tracked { id, v, l: l.clone() }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let mut l = self.l.lock().unwrap();
        if !l.alive.remove(&self.id) {
            l.error = Some(format!("value {} dropped twice", self.id));
        }
    }
}

// Types that look alike, and some that do not.
#[derive(Debug)]
struct A(Tracked);
#[derive(Debug)]
struct B(Tracked);
#[derive(Debug)]
#[repr(transparent)]
struct W<T>(T);
#[derive(Debug)]
struct Big(Tracked, #[allow(dead_code)] [u64; 40]);
#[derive(Debug)]
struct G<const N: usize>(Tracked);

trait Slot: Send + Sync + 'static {
    fn make(t: Tracked) -> Self;
    fn t(&self) -> &Tracked;
    fn tm(&mut self) -> &mut Tracked;
}
macro_rules! slot {
    ($t:ty, $x:ident => $mk:expr, $s:ident => $get:expr, $m:ident => $getm:expr) => {
        impl Slot for $t {
            fn make($x: Tracked) -> Self {
                $mk
            }
            fn t(&self) -> &Tracked {
                let $s = self;
                $get
            }
            fn tm(&mut self) -> &mut Tracked {
                let $m = self;
                $getm
            }
        }
    };
}
slot!(Tracked, x => x, s => s, m => m);
slot!(A, x => A(x), s => &s.0, m => &mut m.0);
slot!(B, x => B(x), s => &s.0, m => &mut m.0);
slot!(W<Tracked>, x => W(x), s => &s.0, m => &mut m.0);
slot!(W<A>, x => W(A(x)), s => &(s.0).0, m => &mut (m.0).0);
slot!(Big, x => Big(x, [7; 40]), s => &s.0, m => &mut m.0);
impl<const N: usize> Slot for G<N> {
    fn make(x: Tracked) -> Self {
        G(x)
    }
    fn t(&self) -> &Tracked {
        &self.0
    }
    fn tm(&mut self) -> &mut Tracked {
        &mut self.0
    }
}
slot!(Vec<Tracked>, x => vec![x], s => &s[0], m => &mut m[0]);
slot!(Box<A>, x => Box::new(A(x)), s => &s.0, m => &mut m.0);
slot!((Tracked, ()), x => (x, ()), s => &s.0, m => &mut m.0);
slot!(Option<B>, x => Some(B(x)), s => &s.as_ref().unwrap().0, m => &mut m.as_mut().unwrap().0);

/// What can be done with one type; values are seen as (id, number).
struct Ops {
    insert: fn(&mut Msg, Tracked) -> Option<(u32, u32)>,
    get: fn(&Msg) -> Option<(u32, u32)>,
    edit: fn(&mut Msg, u32) -> Option<u32>,
    remove: fn(&mut Msg) -> Option<(u32, u32)>,
    contains: fn(&Msg) -> bool,
}
fn ops<T: Slot>() -> Ops {
    fn see<T: Slot>(x: T) -> (u32, u32) {
        (x.t().id, x.t().v)
    }
    Ops {
        insert: |m, t| m.ext_mut().insert(T::make(t)).map(see::<T>),
        get: |m| m.ext().get::<T>().map(|x| (x.t().id, x.t().v)),
        edit: |m, v| {
            m.ext_mut().get_mut::<T>().map(|x| {
                let t = x.tm();
                t.v = v;
                t.id
            })
        },
        remove: |m| m.ext_mut().remove::<T>().map(see::<T>),
        contains: |m| m.ext().contains::<T>(),
    }
}
/// The types that come up in every history.
const FEW: u8 = 12;
fn table() -> &'static [Ops] {
    static T: std::sync::OnceLock<Vec<Ops>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        macro_rules! family {
            ($v:ident: $($a:literal)* ; $($b:literal)*) => { family!(@ $v [$($a)*] [$($b)*]) };
            (@ $v:ident [$($a:literal)*] $bs:tt) => { $( family!(@@ $v $a $bs); )* };
            (@@ $v:ident $a:literal [$($b:literal)*]) => { $( $v.push(ops::<G<{ 100 + $a * 16 + $b }>>()); )* };
        }
        let mut v = vec![
            ops::<Tracked>(), ops::<A>(), ops::<B>(), ops::<W<Tracked>>(), ops::<W<A>>(), ops::<Big>(), ops::<G<1>>(), ops::<G<2>>(),
            ops::<Vec<Tracked>>(), ops::<Box<A>>(), ops::<(Tracked, ())>(), ops::<Option<B>>(),
        ];
        family!(v: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 ; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        v
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Insert(u8, u32),
    Get(u8),
    Edit(u8, u32),
    Remove(u8),
    Contains(u8),
    Clear,
    Swap,
    Touch,
    CloneMsg,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    response: bool,
    ops: Vec<Op>,
}

enum Msg {
    Req(Request),
    Res(Response),
}
impl Msg {
    fn new(response: bool) -> Msg {
        if response { Msg::Res(Response::new(StatusCode::Ok)) } else { Msg::Req(Request::new(Method::Get, "http://a.b/")) }
    }
    fn ext(&self) -> &http_types::Extensions {
        match self {
            Msg::Req(r) => r.ext(),
            Msg::Res(r) => r.ext(),
        }
    }
    fn ext_mut(&mut self) -> &mut http_types::Extensions {
        match self {
            Msg::Req(r) => r.ext_mut(),
            Msg::Res(r) => r.ext_mut(),
        }
    }
}

type Model = BTreeMap<u8, (u32, u32)>;

fn compare(m: &Msg, model: &Model, all: bool, when: &str) -> Result<(), Fail> {
    let t = table();
    for (k, o) in t.iter().enumerate().take(if all { t.len() } else { FEW as usize }) {
        let k = k as u8;
        ck_eq!((o.get)(m), model.get(&k).copied(), "type {} {}", k, when);
        ck_eq!((o.contains)(m), model.contains_key(&k), "contains type {} {}", k, when);
    }
    ck!(m.ext().get::<u64>().is_none() && !m.ext().contains::<&'static str>(), "a type never inserted {}", when);
    Ok(())
}

fn check(h: &Hist) -> Check {
    let l: L = Default::default();
    let mut cur = Msg::new(h.response);
    let mut other = Msg::new(!h.response);
    let (mut model, mut model2) = (Model::new(), Model::new());
    let mut next = 0;
    let (mut replaced, mut removed) = (0, 0);
    for (i, op) in h.ops.iter().enumerate() {
        let when = format!("after step {} ({:?})", i, op);
        match op {
            Op::Insert(k, v) => {
                let k = k % table().len() as u8;
                let o = &table()[k as usize];
                next += 1;
                let old = (o.insert)(&mut cur, Tracked::new(next, *v, &l));
                let want = model.insert(k, (next, *v));
                replaced += want.is_some() as u32;
                ck_eq!(old, want, "value returned by insert {}", when);
            }
            Op::Get(k) => {
                let k = k % table().len() as u8;
                let o = &table()[k as usize];
                ck_eq!((o.get)(&cur), model.get(&k).copied(), "get {}", when);
            }
            Op::Edit(k, v) => {
                let k = k % table().len() as u8;
                let o = &table()[k as usize];
                let got = (o.edit)(&mut cur, *v);
                let want = model.get_mut(&k).map(|e| {
                    e.1 = *v;
                    e.0
                });
                ck_eq!(got, want, "get_mut {}", when);
            }
            Op::Remove(k) => {
                let k = k % table().len() as u8;
                let o = &table()[k as usize];
                let got = (o.remove)(&mut cur);
                let want = model.remove(&k);
                removed += want.is_some() as u32;
                ck_eq!(got, want, "remove {}", when);
            }
            Op::Contains(k) => {
                let k = k % table().len() as u8;
                let o = &table()[k as usize];
                ck_eq!((o.contains)(&cur), model.contains_key(&k), "contains {}", when);
            }
            Op::Clear => {
                cur.ext_mut().clear();
                model.clear();
            }
            Op::Swap => {
                std::mem::swap(&mut cur, &mut other);
                std::mem::swap(&mut model, &mut model2);
            }
            // changing anything else about the message leaves the extensions alone
            Op::Touch => match &mut cur {
                Msg::Req(r) => {
                    r.set_body("x");
                    r.insert_header("x-a", "b").unwrap();
                    r.set_method(Method::Put);
                    let b = r.take_body();
                    r.replace_body(b);
                }
                Msg::Res(r) => {
                    r.set_body("x");
                    r.append_header("x-a", "b").unwrap();
                    r.set_status(StatusCode::NotFound);
                    let mut b = Body::empty();
                    r.swap_body(&mut b);
                }
            },
            // a clone has no extensions
            Op::CloneMsg => {
                let c = match &cur {
                    Msg::Req(r) => Msg::Req(r.clone()),
                    Msg::Res(r) => Msg::Res(r.clone()),
                };
                compare(&c, &Model::new(), true, &format!("in the clone {}", when))?;
            }
        }
        let all = i % 16 == 0 || i + 1 == h.ops.len();
        compare(&cur, &model, all, &when)?;
        compare(&other, &model2, all, &format!("in the other message {}", when))?;
        let want: BTreeSet<u32> = model.values().chain(model2.values()).map(|x| x.0).collect();
        let led = l.lock().unwrap();
        ck_eq!(led.error, None, "drops {}", when);
        ck_eq!(led.alive, want, "values alive {}", when);
    }
    drop(cur);
    drop(other);
    let led = l.lock().unwrap();
    ck_eq!(led.error, None, "drops at the end");
    ck!(led.alive.is_empty(), "values {:?} are never dropped", led.alive);
    classify_if(replaced > 0, "replaced");
    classify_if(removed > 0, "removed");
    classify_if(model.len() + model2.len() > 3, "more than three types at the end");
    Ok(replaced > 0 || removed > 0)
}

// Values of every shape: without a size, without an alignment to speak of, large, pointers, functions, types
// the crate keeps in extensions itself. Seen through their Debug text.
trait Plain: std::fmt::Debug + Send + Sync + 'static {
    fn mk(v: u32) -> Self;
}
macro_rules! plain {
    ($($t:ty, $v:ident => $e:expr;)*) => { $(impl Plain for $t { #[allow(unused_variables)] fn mk($v: u32) -> Self { $e } })* fn shapes() -> &'static [Shape] {
        static T: std::sync::OnceLock<Vec<Shape>> = std::sync::OnceLock::new();
        T.get_or_init(|| vec![$(shape::<$t>()),*])
    } };
}
#[derive(Debug)]
struct Unit;
#[derive(Debug)]
struct Other;
#[derive(Debug)]
#[repr(align(64))]
struct Aligned(u8);
#[derive(Debug)]
#[repr(align(128))]
struct Aligned128(u8);
#[derive(Debug)]
#[repr(align(4096))]
struct Page(#[allow(dead_code)] u8);
#[derive(Debug)]
#[repr(packed)]
struct Packed(#[allow(dead_code)] u8, #[allow(dead_code)] u32);
#[derive(Debug)]
#[repr(align(32))]
struct AlignedNothing;
mod twin {
    #[derive(Debug)]
    pub struct Aligned(#[allow(dead_code)] pub u8);
    #[derive(Debug)]
    pub struct Unit;
}
#[derive(Debug)]
struct Never(std::marker::PhantomData<fn(u8)>);
#[derive(Debug)]
enum Choice {
    None,
    Some(String),
}
plain! {
    (), v => ();
    Unit, v => Unit;
    Other, v => Other;
    [u8; 0], v => [];
    [Unit; 3], v => [Unit, Unit, Unit];
    Never, v => Never(std::marker::PhantomData);
    u8, v => v as u8;
    i8, v => v as i8;
    bool, v => v % 2 == 0;
    char, v => char::from_u32(v).unwrap_or('x');
    u16, v => v as u16;
    u32, v => v;
    i32, v => v as i32;
    u64, v => (v as u64) << 16;
    u128, v => (v as u128) << 80;
    usize, v => v as usize;
    f64, v => v as f64;
    [u8; 3], v => [v as u8; 3];
    [u64; 200], v => [v as u64; 200];
    Aligned, v => Aligned(v as u8);
    Aligned128, v => Aligned128(v as u8);
    Page, v => Page(v as u8);
    Packed, v => Packed(v as u8, v);
    AlignedNothing, v => AlignedNothing;
    twin::Aligned, v => twin::Aligned(v as u8);
    twin::Unit, v => twin::Unit;
    [u64; 3000], v => [v as u64; 3000];
    i64, v => -(v as i64);
    i128, v => -(v as i128) << 70;
    isize, v => v as isize;
    f32, v => v as f32;
    [[u8; 2]; 2], v => [[v as u8; 2]; 2];
    [Page; 0], v => [];
    std::marker::PhantomData<u8>, v => std::marker::PhantomData;
    std::marker::PhantomData<u16>, v => std::marker::PhantomData;
    std::num::Wrapping<u32>, v => std::num::Wrapping(v);
    std::cmp::Reverse<u32>, v => std::cmp::Reverse(v);
    std::ops::Range<u32>, v => 0..v;
    std::any::TypeId, v => if v % 2 == 0 { std::any::TypeId::of::<u8>() } else { std::any::TypeId::of::<u16>() };
    std::sync::Mutex<u32>, v => std::sync::Mutex::new(v);
    std::sync::atomic::AtomicU32, v => v.into();
    Box<dyn std::error::Error + Send + Sync>, v => v.to_string().into();
    Box<dyn std::any::Any + Send + Sync>, v => Box::new(v);
    Box<Box<u32>>, v => Box::new(Box::new(v));
    std::sync::Weak<u32>, v => std::sync::Weak::new();
    &'static [u8], v => &[1, 2, 3][..v as usize % 4];
    fn(u32) -> u32, v => if v % 2 == 0 { f_even } else { f_odd };
    http_types::Error, v => http_types::Error::from_str(if v % 2 == 0 { 500 } else { 404 }, "e");
    http_types::Body, v => http_types::Body::from_string("x".repeat(v as usize % 50));
    http_types::headers::HeaderName, v => format!("x-{}", v).as_str().into();
    http_types::cookies::Cookie<'static>, v => http_types::cookies::Cookie::new("c", v.to_string());
    String, v => v.to_string();
    &'static str, v => ["", "a", "b"][v as usize % 3];
    Box<str>, v => v.to_string().into();
    Vec<u8>, v => v.to_be_bytes().to_vec();
    Vec<()>, v => vec![(); v as usize % 100];
    Box<u32>, v => Box::new(v);
    Box<()>, v => Box::new(());
    Arc<u32>, v => Arc::new(v);
    Option<u32>, v => (v % 2 == 0).then_some(v);
    Option<()>, v => (v % 2 == 0).then_some(());
    Result<u8, String>, v => if v % 2 == 0 { Ok(v as u8) } else { Err(v.to_string()) };
    Choice, v => if v % 2 == 0 { Choice::None } else { Choice::Some(v.to_string()) };
    (u32, String), v => (v, v.to_string());
    std::time::Duration, v => std::time::Duration::from_nanos(v as u64);
    std::num::NonZeroU32, v => std::num::NonZeroU32::new(v | 1).unwrap();
    std::collections::BTreeMap<u32, u32>, v => [(v, v)].into_iter().collect();
    std::borrow::Cow<'static, str>, v => if v % 2 == 0 { "c".into() } else { v.to_string().into() };
    std::net::IpAddr, v => std::net::Ipv4Addr::from(v).into();
    StatusCode, v => if v % 2 == 0 { StatusCode::Ok } else { StatusCode::NotFound };
    Method, v => if v % 2 == 0 { Method::Get } else { Method::Patch };
    http_types::Version, v => if v % 2 == 0 { http_types::Version::Http1_1 } else { http_types::Version::Http2_0 };
    http_types::mime::Mime, v => if v % 2 == 0 { http_types::mime::PLAIN } else { http_types::mime::HTML };
    http_types::Url, v => http_types::Url::parse(&format!("http://a.b/{}", v)).unwrap();
    http_types::headers::HeaderValue, v => v.to_string().parse().unwrap();
    http_types::headers::HeaderValues, v => http_types::headers::HeaderValue::from(http_types::mime::PLAIN).into();
    http_types::Request, v => Request::new(Method::Get, format!("http://a.b/{}", v).as_str());
    http_types::Response, v => Response::new(if v % 2 == 0 { 200 } else { 404 });
}

fn f_even(v: u32) -> u32 {
    v
}
fn f_odd(v: u32) -> u32 {
    v ^ 1
}

struct Shape {
    show: fn(u32) -> String,
    insert: fn(&mut Msg, u32) -> Option<String>,
    get: fn(&Msg) -> Option<String>,
    set: fn(&mut Msg, u32) -> Option<String>,
    remove: fn(&mut Msg) -> Option<String>,
    contains: fn(&Msg) -> bool,
}
fn shape<T: Plain>() -> Shape {
    fn d<T: std::fmt::Debug>(t: T) -> String {
        format!("{:?}", t)
    }
    Shape {
        show: |v| d(T::mk(v)),
        insert: |m, v| m.ext_mut().insert(T::mk(v)).map(d),
        get: |m| m.ext().get::<T>().map(d),
        set: |m, v| m.ext_mut().get_mut::<T>().map(|x| d(std::mem::replace(x, T::mk(v)))),
        remove: |m| m.ext_mut().remove::<T>().map(d),
        contains: |m| m.ext().contains::<T>(),
    }
}

fn check_shapes(h: &Hist) -> Check {
    let t = shapes();
    let mut m = Msg::new(h.response);
    let mut model: BTreeMap<usize, String> = BTreeMap::new();
    let mut replaced = false;
    for (i, op) in h.ops.iter().enumerate() {
        let at = |k: &u8| (*k as usize * 13 / 7) % t.len();
        match op {
            Op::Insert(k, v) => {
                let k = at(k);
                let want = model.insert(k, (t[k].show)(*v));
                replaced |= want.is_some();
                ck_eq!((t[k].insert)(&mut m, *v), want, "insert returns, step {} ({:?})", i, op);
            }
            Op::Edit(k, v) => {
                let k = at(k);
                let want = model.get_mut(&k).map(|x| std::mem::replace(x, (t[k].show)(*v)));
                ck_eq!((t[k].set)(&mut m, *v), want, "get_mut, step {} ({:?})", i, op);
            }
            Op::Remove(k) => {
                let k = at(k);
                ck_eq!((t[k].remove)(&mut m), model.remove(&k), "remove, step {} ({:?})", i, op);
            }
            Op::Clear => {
                m.ext_mut().clear();
                model.clear();
            }
            Op::Get(k) | Op::Contains(k) => {
                let k = at(k);
                ck_eq!((t[k].contains)(&m), model.contains_key(&k), "contains, step {} ({:?})", i, op);
            }
            Op::Swap | Op::Touch | Op::CloneMsg => {}
        }
        if i % 8 == 0 || i + 1 == h.ops.len() {
            for (k, o) in t.iter().enumerate() {
                ck_eq!((o.get)(&m), model.get(&k).cloned(), "shape {} after step {} ({:?})", k, i, op);
                ck_eq!((o.contains)(&m), model.contains_key(&k), "contains shape {} after step {} ({:?})", k, i, op);
            }
        }
    }
    classify_if(replaced, "replaced");
    Ok(replaced)
}

fn main() {
    let few = || prop_oneof![3 => 0u8..4, 1 => 0u8..FEW].boxed();
    let any_k = || any::<u8>().boxed();
    let op = move |k: fn() -> BoxedStrategy<u8>, inserts: u32| {
        prop_oneof![
            inserts => (k(), any::<u32>()).prop_map(|(k, v)| Op::Insert(k, v)),
            1 => k().prop_map(Op::Get),
            2 => (k(), any::<u32>()).prop_map(|(k, v)| Op::Edit(k, v)),
            3 => k().prop_map(Op::Remove),
            1 => k().prop_map(Op::Contains),
            1 => Just(Op::Clear),
            1 => Just(Op::Swap),
            1 => Just(Op::Touch),
            1 => Just(Op::CloneMsg),
        ]
    };
    pbt::fw::main("C18", vec![
        law("history", "operations on the extensions of a request and a response over twelve types, some of them alike, against one map per message and a ledger of drops; non-trivial: a value was replaced or removed", 60_000, 3_000_000,
            move || (any::<bool>(), vec(op(few, 5), 1..25)).prop_map(|(response, ops)| Hist { response, ops }), check),
        law("shapes", "the same operations over 78 types of every shape - without a size, aligned, large, pointers, functions, types of the crate - against a map from type to the text of its value; non-trivial: a value was replaced", 20_000, 1_000_000,
            move || (any::<bool>(), vec(prop_oneof![2 => op(any_k, 6), 1 => op(few, 6)], 1..40)).prop_map(|(response, ops)| Hist { response, ops }), check_shapes),
        law("many", "the same over 252 types, with more insertions, up to 400 operations; same rule", 400, 20_000,
            move || (any::<bool>(), prop_oneof![5u32..60, 200u32..500]).prop_flat_map(move |(response, n)| (Just(response), proptest::collection::vec(op(any_k, n), 20..400))).prop_map(|(response, ops)| Hist { response, ops }), check),
    ]);
}
