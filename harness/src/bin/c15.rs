//! C15: status codes, methods and versions: text and numbers convert both ways over the whole range,
//! and the predicates on them follow from their number or name.
use http_types::{Method, Response, StatusCode, Version};
use pbt::fw::*;
use pbt::gen;
use pbt::{ck, ck_eq};
use proptest::prelude::*;
use serde::de::value::{Error as VErr, I16Deserializer, I32Deserializer, I64Deserializer, I8Deserializer, StrDeserializer, StringDeserializer, U16Deserializer, U32Deserializer, U64Deserializer, U8Deserializer};
use serde::de::{Deserialize as De, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::str::FromStr;

const CODES: &[(u16, &str)] = &[
    (100, "Continue"), (101, "Switching Protocols"), (103, "Early Hints"), (200, "OK"), (201, "Created"), (202, "Accepted"),
    (203, "Non Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"), (207, "Multi-Status"),
    (226, "Im Used"), (300, "Multiple Choice"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"), (304, "Not Modified"),
    (307, "Temporary Redirect"), (308, "Permanent Redirect"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"),
    (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"),
    (408, "Request Timeout"), (409, "Conflict"), (410, "Gone"), (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"),
    (414, "URI Too Long"), (415, "Unsupported Media Type"), (416, "Requested Range Not Satisfiable"), (417, "Expectation Failed"), (418, "I'm a teapot"),
    (421, "Misdirected Request"), (422, "Unprocessable Entity"), (423, "Locked"), (424, "Failed Dependency"), (425, "Too Early"), (426, "Upgrade Required"),
    (428, "Precondition Required"), (429, "Too Many Requests"), (431, "Request Header Fields Too Large"), (451, "Unavailable For Legal Reasons"),
    (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Gateway Timeout"),
    (505, "HTTP Version Not Supported"), (506, "Variant Also Negotiates"), (507, "Insufficient Storage"), (508, "Loop Detected"), (510, "Not Extended"),
    (511, "Network Authentication Required"),
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Num {
    n: i128,
}

fn check_status(x: &Num) -> Check {
    let n = x.n;
    let entry = CODES.iter().find(|c| c.0 as i128 == n);
    if let Ok(k) = u16::try_from(n) {
        let got = StatusCode::try_from(k);
        ck_eq!(got.is_ok(), entry.is_some(), "try_from({})", k);
        ck_eq!(no_panic(|| Response::new(k).status() == k).ok(), entry.map(|_| true), "Response::new({})", k);
        if let (Ok(s), Some((_, reason))) = (got, entry) {
            ck_eq!(u16::from(s), k, "number of {:?}", s);
            ck!(s == k && k == s, "{:?} == {}", s, k);
            for d in [1u16, 100, 256] {
                ck!(s != k + d && k + d != s, "{:?} == {}", s, k + d);
            }
            ck_eq!(s.canonical_reason(), *reason, "reason of {}", k);
            ck_eq!(s.to_string(), format!("{}: {}", k, reason), "Display");
            ck_eq!(format!("{:?}", s), format!("{}: {}", k, reason), "Debug");
            ck_eq!([s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()],
                [k / 100 == 1, k / 100 == 2, k / 100 == 3, k / 100 == 4, k / 100 == 5], "classes of {}", k);
            ck_eq!(serde_json::to_string(&s).ok(), Some(k.to_string()), "JSON");
            for (c, _) in CODES {
                ck_eq!(StatusCode::try_from(*c).ok() == Some(s), *c == k, "{} equal to {:?}", c, s);
            }
        }
    }
    // deserialising takes exactly the numbers of status codes, whatever their type
    let mut got: Vec<(&str, Option<u16>)> = vec![];
    macro_rules! de {
        ($t:ty, $d:ident) => {
            if let Ok(v) = <$t>::try_from(n) {
                let d: $d<VErr> = v.into_deserializer();
                got.push((stringify!($t), StatusCode::deserialize(d).ok().map(u16::from)));
            }
        };
    }
    de!(u8, U8Deserializer);
    de!(u16, U16Deserializer);
    de!(u32, U32Deserializer);
    de!(u64, U64Deserializer);
    de!(i8, I8Deserializer);
    de!(i16, I16Deserializer);
    de!(i32, I32Deserializer);
    de!(i64, I64Deserializer);
    got.push(("JSON", serde_json::from_str::<StatusCode>(&n.to_string()).ok().map(u16::from)));
    for (t, g) in got {
        ck_eq!(g, entry.map(|e| e.0), "deserialising {} as {}", n, t);
    }
    classify_if(entry.is_some(), "a status code");
    Ok(entry.is_some() || u16::try_from(n).is_err())
}

const METHODS: &str = "ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL";
const SAFE: &str = "GET HEAD OPTIONS PRI PROPFIND REPORT SEARCH TRACE";

macro_rules! variants {
    ($($v:ident)*) => { [$((Method::$v, stringify!($v))),*] };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Me {
    i: u8,
    mask: u64,
    raw: String,
}

fn check_method(m: &Me) -> Check {
    let vs = variants!(Acl BaselineControl Bind Checkin Checkout Connect Copy Delete Get Head Label Link Lock Merge MkActivity MkCalendar MkCol MkRedirectRef MkWorkspace Move Options OrderPatch Patch Post Pri PropFind PropPatch Put Rebind Report Search Trace Unbind Uncheckout Unlink Unlock Update UpdateRedirectRef VersionControl);
    let names: Vec<&str> = METHODS.split(' ').collect();
    assert_eq!(vs.len(), names.len());
    let k = m.i as usize % vs.len();
    let (v, ident) = vs[k];
    let name = names[k];
    assert_eq!(name.replace('-', ""), ident.to_ascii_uppercase(), "harness table");
    ck_eq!(v.to_string(), name, "Display of {}", ident);
    ck_eq!(v.as_ref(), name, "as_ref of {}", ident);
    ck_eq!(format!("{:?}", v), ident, "Debug");
    ck_eq!(v.is_safe(), SAFE.split(' ').any(|s| s == name), "is_safe of {}", name);
    ck_eq!(serde_json::to_string(&v).ok(), Some(format!("\"{}\"", name)), "JSON of {}", name);
    let set: HashSet<Method> = vs.iter().map(|x| x.0).collect();
    ck_eq!(set.len(), vs.len(), "different methods");
    let spelled = gen::recase(name, m.mask);
    for t in [spelled.as_str(), m.raw.as_str()] {
        let want = names.iter().position(|n| n.eq_ignore_ascii_case(t)).map(|i| vs[i].0);
        ck_eq!(Method::from_str(t).ok(), want, "from_str({:?})", t);
        ck_eq!(Method::try_from(t).ok(), want, "try_from({:?})", t);
        ck_eq!(serde_json::from_str::<Method>(&serde_json::to_string(t).unwrap()).ok(), want, "JSON {:?}", t);
        ck_eq!(serde_json::from_value::<Method>(t.into()).ok(), want, "JSON value {:?}", t);
        let d: StrDeserializer<VErr> = t.into_deserializer();
        ck_eq!(Method::deserialize(d).ok(), want, "deserialising {:?}", t);
        let d: StringDeserializer<VErr> = t.to_string().into_deserializer();
        ck_eq!(Method::deserialize(d).ok(), want, "deserialising owned {:?}", t);
    }
    ck_eq!(Method::from_str(&spelled).ok(), Some(v), "from_str({:?})", spelled);
    Ok(spelled != name || !m.raw.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ve {
    i: u8,
    j: u8,
    raw: String,
}

fn check_version(x: &Ve) -> Check {
    let vs = [(Version::Http0_9, "HTTP/0.9"), (Version::Http1_0, "HTTP/1.0"), (Version::Http1_1, "HTTP/1.1"), (Version::Http2_0, "HTTP/2"), (Version::Http3_0, "HTTP/3")];
    let (i, j) = (x.i as usize % 5, x.j as usize % 5);
    let (v, name) = vs[i];
    ck_eq!(v.to_string(), name, "Display");
    ck_eq!(v.as_ref(), name, "as_ref");
    ck_eq!(v.cmp(&vs[j].0), i.cmp(&j), "order of {:?} and {:?}", v, vs[j].0);
    ck_eq!(v.partial_cmp(&vs[j].0), Some(i.cmp(&j)), "order of {:?} and {:?}", v, vs[j].0);
    ck_eq!(v == vs[j].0, i == j, "equality of {:?} and {:?}", v, vs[j].0);
    ck_eq!(serde_json::to_string(&v).ok(), Some(format!("\"{}\"", name)), "JSON");
    for t in [name, x.raw.as_str()] {
        let want = vs.iter().find(|y| y.1 == t).map(|y| y.0);
        ck_eq!(serde_json::from_str::<Version>(&serde_json::to_string(t).unwrap()).ok(), want, "JSON {:?}", t);
        ck_eq!(serde_json::from_value::<Version>(t.into()).ok(), want, "JSON value {:?}", t);
        let d: StringDeserializer<VErr> = t.to_string().into_deserializer();
        ck_eq!(Version::deserialize(d).ok(), want, "deserialising owned {:?}", t);
    }
    Ok(i != j)
}

fn main() {
    pbt::fw::main("C15", vec![
        law("status", "an integer: a status code, one close to it, one congruent to it modulo a power of two, or any; non-trivial: a status code, or a number that does not fit 16 bits", 40_000, 2_000_000,
            || prop_oneof![
                4 => (0u16..=650).prop_map(|n| n as i128), 2 => proptest::sample::select(CODES).prop_map(|c| c.0 as i128),
                2 => any::<u16>().prop_map(|n| n as i128),
                3 => (proptest::sample::select(CODES), proptest::sample::select(vec![8u32, 15, 16, 31, 32, 48, 63]), 1i128..4, any::<bool>()).prop_map(|(c, s, k, neg)| c.0 as i128 + (k << s) * if neg { -1 } else { 1 }).prop_filter("in range of JSON", |n| *n >= i64::MIN as i128 && *n <= u64::MAX as i128),
                1 => any::<i64>().prop_map(|n| n as i128), 1 => any::<u64>().prop_map(|n| n as i128),
            ].prop_map(|n| Num { n }), check_status),
        law("method", "a method in any letter case, and text that may be one; non-trivial: another letter case or text not empty", 40_000, 2_000_000,
            || (any::<u8>(), any::<u64>(), prop_oneof![Just(String::new()), gen::token(), (any::<u8>(), "[ -~]").prop_map(|(i, c)| format!("{}{}", METHODS.split(' ').nth(i as usize % 39).unwrap(), c)), (any::<u8>(), any::<u8>()).prop_map(|(i, c)| { let mut s = METHODS.split(' ').nth(i as usize % 39).unwrap().to_string(); let at = c as usize % s.len(); s.remove(at); s }),
                // one letter or the dash written in another way
                (any::<u8>(), any::<u8>(), proptest::sample::select(vec!["_", " ", "", "--", "\u{2010}", "\u{ad}", "\u{17f}", "\u{212a}", "\u{131}", "0", "1", "5", ".", "+", "%2D", "/", "*", "\0"])).prop_map(|(i, c, w)| {
                    let mut names: Vec<&str> = METHODS.split(' ').collect();
                    names.extend(["BASELINE-CONTROL", "VERSION-CONTROL"].repeat(12));
                    let n = names[i as usize % names.len()];
                    let c = n.chars().nth(c as usize % n.len()).filter(|_| c % 2 == 0).unwrap_or('-');
                    n.replace(c, w)
                }),
                gen::edited((any::<u8>(), any::<u64>()).prop_map(|(i, m)| gen::recase(METHODS.split(' ').nth(i as usize % 39).unwrap(), m)).boxed(), "-_ \t\0\n\r/.*+0:SKIſKıE\u{2010}"), gen::any_text(5)])
                .prop_map(|(i, mask, raw)| Me { i, mask, raw }), check_method),
        law("version", "two versions and text that may be one; non-trivial: different versions", 10_000, 500_000,
            || (any::<u8>(), any::<u8>(), prop_oneof![Just(String::new()), "HTTP/[0-9](\\.[0-9])?", "http/[1-3]", gen::edited("(HTTP|http)/(0\\.9|1\\.0|1\\.1|2|3|2\\.0|3\\.0)".boxed(), "/.0123 HTPv,_\n"), gen::any_text(5)]).prop_map(|(i, j, raw)| Ve { i, j, raw }), check_version),
    ]);
}
