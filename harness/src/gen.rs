//! Generators shared between properties. All randomness comes from proptest strategies.
use crate::dict::{dict, Words};
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

/// RFC 7230 token characters.
pub const TCHAR: &str = "[!#$%&'*+.^_`|~0-9A-Za-z-]";

/// Numbers of the dictionary up to `max`.
fn dict_numbers(max: u64) -> &'static [u64] {
    static CACHE: Mutex<BTreeMap<u64, &'static [u64]>> = Mutex::new(BTreeMap::new());
    CACHE.lock().unwrap().entry(max).or_insert_with(|| {
        let of = |w: &Words| w.numbers.iter().copied().filter(|n| *n <= max).collect::<Vec<_>>();
        let mut v = of(&dict().near);
        if v.is_empty() {
            v = of(&dict().all);
        }
        v.push(2);
        Vec::leak(v)
    })
}

/// A word of the dictionary as it is, or nearly so, of characters that may stand where it is needed.
fn word(kind: &'static str, ok: fn(char) -> bool) -> BoxedStrategy<String> {
    static CACHE: Mutex<BTreeMap<&'static str, (&'static [String], &'static [String])>> = Mutex::new(BTreeMap::new());
    let (near, all) = *CACHE.lock().unwrap().entry(kind).or_insert_with(|| {
        let of = |w: &Words| {
            let mut v: Vec<String> = w.text.iter().filter(|t| t.chars().all(ok)).cloned().collect();
            v.push("x".into());
            &*Vec::leak(v)
        };
        (of(&dict().near), of(&dict().all))
    });
    let one = || prop_oneof![2 => proptest::sample::select(near), 1 => proptest::sample::select(all)];
    let c = prop_oneof![
        2 => proptest::sample::select(" ,;=\"\t-_/*.ax0é\u{a0}".chars().collect::<Vec<_>>()),
        1 => proptest::sample::select({ let mut v = dict().all.chars.clone(); v.push('z'); v }),
    ];
    (0u8..12, one(), one(), any::<u64>(), c)
        .prop_map(move |(k, mut w, o, m, c)| {
            let c = if ok(c) { Some(c) } else { None };
            match k {
                0 => w.make_ascii_uppercase(),
                1 => w = recase(&w, m),
                2 => w.extend(c),
                3 => w = c.into_iter().chain(w.chars()).collect(),
                4 => {
                    w.pop();
                }
                5 => {
                    w.extend(c);
                    w.push_str(&o);
                }
                _ => {}
            }
            if w.is_empty() { "x".into() } else { w }
        })
        .boxed()
}

/// Text that matches a pattern, now and then a word of the dictionary that does.
pub fn re(pattern: &'static str) -> BoxedStrategy<String> {
    let (near, all) = crate::dict::matching(pattern);
    let mut arms = vec![(30, pattern.boxed())];
    if !near.is_empty() {
        arms.push((2, proptest::sample::select(&near[..]).boxed()));
    }
    if !all.is_empty() {
        arms.push((1, proptest::sample::select(&all[..]).boxed()));
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}

fn tchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+.^_`|~-".contains(c)
}

pub fn token() -> BoxedStrategy<String> {
    prop_oneof![
        6 => word("token", tchar),
        64 => "[a-zA-Z][a-zA-Z0-9-]{0,8}",
        16 => "[!#$%&'*+.^_`|~0-9A-Za-z-]{1,10}",
        1 => "[!#$%&'*+.^_`|~0-9A-Za-z-]{11,140}",
    ]
    .boxed()
}

/// Header names in use.
pub const HEADER_NAMES: &str = "accept accept-ch accept-charset accept-encoding accept-language accept-patch accept-ranges \
    access-control-allow-credentials access-control-allow-headers access-control-allow-methods \
    access-control-allow-origin access-control-expose-headers access-control-max-age \
    access-control-request-headers access-control-request-method age allow alt-svc alt-used authorization \
    cache-control cache-status cdn-cache-control clear-site-data connection content-disposition content-encoding \
    content-language content-length content-location content-md5 content-range content-security-policy \
    content-security-policy-report-only content-type cookie cookie2 cross-origin-embedder-policy \
    cross-origin-opener-policy cross-origin-resource-policy date dnt early-data etag expect expect-ct expires \
    feature-policy forwarded from host http2-settings if-match if-modified-since if-none-match if-range \
    if-unmodified-since keep-alive last-modified link location max-forwards mime-version nel origin p3p \
    permissions-policy pragma prefer proxy-authenticate proxy-authentication-info proxy-authorization \
    proxy-connection public-key-pins range referer referrer-policy refresh report-to retry-after save-data \
    sec-fetch-dest sec-fetch-mode sec-fetch-site sec-websocket-accept sec-websocket-extensions sec-websocket-key \
    sec-websocket-protocol sec-websocket-version server server-timing set-cookie set-cookie2 sourcemap status \
    strict-transport-security te timing-allow-origin tk traceparent tracestate trailer transfer-encoding upgrade \
    upgrade-insecure-requests user-agent vary via warning www-authenticate x-content-type-options x-correlation-id \
    x-dns-prefetch-control x-forwarded-by x-forwarded-for x-forwarded-host x-forwarded-port x-forwarded-proto \
    x-frame-options x-http-method-override x-powered-by x-real-ip x-request-id x-requested-with x-sourcemap \
    x-ua-compatible x-xss-protection";

/// One of the header names in use, in any letter case.
pub fn header_name() -> BoxedStrategy<String> {
    let names: Vec<&str> = HEADER_NAMES.split_whitespace().collect();
    (proptest::sample::select(names), any::<u64>(), 0u8..3)
        .prop_map(|(n, m, k)| match k {
            0 => n.to_string(),
            1 => recase(n, 1 | m & (m >> 7) & (m >> 13)),
            _ => recase(n, m),
        })
        .boxed()
}

/// Numbers with the corners in: very small ones, powers of two and of ten and their neighbours, the largest ones.
pub fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => 0u64..4,
        3 => 0u64..100_000,
        3 => (0u32..64, 0u64..5).prop_map(|(b, d)| (1u64 << b).wrapping_add(d).wrapping_sub(2)),
        2 => (0u32..20, 0u64..5).prop_map(|(b, d)| 10u64.pow(b).wrapping_add(d).wrapping_sub(2)),
        1 => (0u64..4).prop_map(|d| u64::MAX - d),
        2 => any::<u64>(),
        1 => proptest::sample::select(dict_numbers(u64::MAX)),
        1 => (0u32..64, any::<u64>()).prop_map(|(b, n)| n >> b),
    ]
    .boxed()
}

/// Mostly up to `max`, now and then much longer.
fn len(max: usize) -> BoxedStrategy<usize> {
    let max = max.max(1);
    prop_oneof![
        240 => 0..max,
        4 => 0..max * 6,
        4 => 60usize..300,
        1 => proptest::sample::select(dict_numbers(9000)).prop_map(|n| n as usize),
    ]
    .boxed()
}

/// How many elements: mostly some, now and then hundreds.
pub fn many() -> BoxedStrategy<usize> {
    prop_oneof![
        24 => 1usize..12,
        3 => 12usize..120,
        1 => 120usize..700,
        1 => proptest::sample::select(dict_numbers(3000)).prop_map(|n| n as usize),
    ]
    .boxed()
}

/// A length, or a range of them.
pub trait Len {
    fn bounds(self) -> (usize, usize);
}
impl Len for usize {
    fn bounds(self) -> (usize, usize) {
        (self, self + 1)
    }
}
impl Len for std::ops::Range<usize> {
    fn bounds(self) -> (usize, usize) {
        (self.start, self.end)
    }
}

/// A list whose length is usually within the range, now and then several times that, and rarely very long.
pub fn vec<S: Strategy + 'static>(s: S, len: impl Len) -> BoxedStrategy<Vec<S::Value>> {
    let (a, b) = len.bounds();
    if b == a + 1 {
        return proptest::collection::vec(s, a).boxed();
    }
    let n = prop_oneof![
        180 => a..b,
        6 => a..b * 5,
        3 => 30usize..140,
        1 => proptest::sample::select(dict_numbers(300)).prop_map(move |n| a.max(n as usize)),
    ];
    let s = s.boxed();
    n.prop_flat_map(move |n| proptest::collection::vec(s.clone(), n)).boxed()
}

/// Sometimes repeats one of the elements a few times in place.
fn runs<T: Clone>(mut v: Vec<T>, r: u16) -> Vec<T> {
    if r % 8 == 0 && !v.is_empty() {
        let at = (r >> 3) as usize % v.len();
        let c = v[at].clone();
        for _ in 0..1 + (r >> 8) % 3 {
            v.insert(at, c.clone());
        }
    }
    v
}

/// A long run of one letter with one or two other characters in it, often at the end.
fn needle(c: BoxedStrategy<char>) -> BoxedStrategy<String> {
    let n = prop_oneof![
        8 => 1usize..600,
        1 => proptest::sample::select(vec![1023usize, 1024, 1025, 4096, 8192, 8193]),
        4 => proptest::sample::select(dict_numbers(9000)).prop_map(|n| n as usize),
    ];
    ("[a-zA-Z0-9 ]", n, c.clone(), proptest::option::of((c, any::<u16>())), prop_oneof![Just(u16::MAX), any::<u16>()])
        .prop_map(|(fill, n, c, other, at)| {
            let mut s = fill.repeat(n);
            s.insert((n * at as usize + 65534) / 65535, c);
            if let Some((o, at)) = other {
                let mut at = s.len() * at as usize / 65536;
                while !s.is_char_boundary(at) {
                    at += 1;
                }
                s.insert(at, o);
            }
            s
        })
        .boxed()
}

/// Any ASCII (0..=127) string, often with structure.
pub fn ascii_any(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        24 => ascii_text(max),
        1 => word("ascii", |c| c.is_ascii()),
        1 => needle((0u8..0x80).prop_map(char::from).boxed()),
        8 => (proptest::collection::vec(0u8..0x80, 0..max), any::<u16>()).prop_map(|(v, r)| String::from_utf8(runs(v, r)).unwrap()),
    ]
    .boxed()
}

/// Visible ASCII plus space, no control characters.
pub fn ascii_text(max: usize) -> BoxedStrategy<String> {
    let text = (len(max).prop_flat_map(|n| proptest::collection::vec(0x20u8..0x7f, n)), any::<u16>())
        .prop_map(|(v, r)| String::from_utf8(runs(v, r)).unwrap());
    prop_oneof![
        120 => text,
        5 => word("visible", |c| (' '..='~').contains(&c)),
        1 => needle((0x20u8..0x7f).prop_map(char::from).boxed()),
    ]
    .boxed()
}

/// Characters at encoding boundaries, and ones that some code treats as white space, line ends or letters.
const CORNER_CHARS: [u32; 25] = [
    0, 9, 10, 13, 0x1f, 0x7f, 0x80, 0xe9, 0x85, 0xa0, 0xad, 0xff, 0x130, 0x131, 0x17f, 0x7ff, 0x800, 0x2028, 0x3000, 0x212a,
    0xd7ff, 0xfeff, 0xffff, 0x10000, 0x10ffff,
];

/// Any text: ASCII, latin-1, BMP, astral.
pub fn any_text(max: usize) -> BoxedStrategy<String> {
    let c = || {
        prop_oneof![
            6 => 0x20u32..0x7f,
            1 => 0x0u32..0x20,
            1 => 0x80u32..0x100,
            1 => 0x100u32..0xd800,
            1 => 0xe000u32..0x110000,
            1 => proptest::sample::select(&CORNER_CHARS[..]),
        ]
    };
    let text = (len(max).prop_flat_map(move |n| proptest::collection::vec(c(), n)), any::<u16>())
        .prop_map(|(v, r)| runs(v, r).into_iter().filter_map(char::from_u32).collect());
    let odd = prop_oneof![
        2 => proptest::sample::select(&CORNER_CHARS[..]).prop_map(|c| char::from_u32(c).unwrap()),
        1 => any::<char>(),
    ];
    prop_oneof![120 => text, 5 => word("any", |_| true), 1 => needle(odd.boxed())].boxed()
}

/// Rewrites ASCII letter case by mask.
pub fn recase(s: &str, mask: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| {
            if mask >> (i % 64) & 1 == 1 {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}

/// Optional whitespace.
pub fn ows() -> BoxedStrategy<String> {
    prop_oneof![6 => Just(String::new()), 3 => Just(" ".to_string()), 1 => "[ \t]{1,3}"].boxed()
}

/// A sequence of pieces from a dictionary mixed with arbitrary ASCII: deep inputs for parsers.
pub fn soup(dict: &'static [&'static str], max: usize) -> BoxedStrategy<String> {
    proptest::collection::vec(
        prop_oneof![
            6 => proptest::sample::select(dict).prop_map(|s| s.to_string()),
            1 => ascii_any(4),
        ],
        0..max,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

/// Texts of `s` with up to three characters added, replaced, doubled or taken away.
pub fn edited(s: BoxedStrategy<String>, chars: &'static str) -> BoxedStrategy<String> {
    let cs: Vec<char> = chars.chars().collect();
    (s, proptest::collection::vec((any::<u16>(), 0u8..5, proptest::sample::select(cs)), 0..4))
        .prop_map(|(t, edits)| {
            let mut t: Vec<char> = t.chars().collect();
            for (at, how, c) in edits {
                let i = at as usize % (t.len() + 1);
                match how {
                    0 | 1 => t.insert(i, c),
                    2 if i < t.len() => t[i] = c,
                    3 if i < t.len() => t.insert(i, t[i]),
                    4 if i < t.len() => {
                        t.remove(i);
                    }
                    _ => t.push(c),
                }
            }
            t.into_iter().collect()
        })
        .boxed()
}
