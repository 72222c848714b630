//! C14: authentication. Credentials and realms survive being written and read, whatever is malformed
//! is a 400, and basic credentials are split at the first colon only.
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use pbt::fw::*;
use pbt::gen;
use pbt::hx::*;
use pbt::{ck, ck_eq};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use AuthenticationScheme as AS;
const SCHEMES: &[(AS, &str)] = &[
    (AS::Basic, "Basic"),
    (AS::Bearer, "Bearer"),
    (AS::Digest, "Digest"),
    (AS::Hoba, "HOBA"),
    (AS::Mutual, "Mutual"),
    (AS::Negotiate, "Negotiate"),
    (AS::OAuth, "OAuth"),
    (AS::ScramSha1, "SCRAM-SHA-1"),
    (AS::ScramSha256, "SCRAM-SHA-256"),
    (AS::Vapid, "vapid"),
];
fn scheme(i: u8) -> (AS, &'static str) {
    SCHEMES[i as usize % SCHEMES.len()]
}

fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            s.push(if k <= c.len() { T[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' });
        }
    }
    s
}

/// What `s` decodes to as base64, if every character but trailing `=` is of its alphabet.
fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    let end = s.len() - s.iter().rev().take_while(|c| **c == b'=').count();
    let (mut out, mut n, mut bits) = (vec![], 0u32, 0);
    for b in &s[..end] {
        let v = match b {
            b'A'..=b'Z' => b - b'A',
            b'a'..=b'z' => b - b'a' + 26,
            b'0'..=b'9' => b - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        n = (n << 6 | v as u32) & 0xffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((n >> bits) as u8);
        }
    }
    if bits == 6 { None } else { Some(out) }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sc {
    i: u8,
    mask: u64,
    raw: String,
}

fn check_scheme(s: &Sc) -> Check {
    let (v, name) = scheme(s.i);
    ck_eq!(v.to_string(), name, "Display");
    let spelled = gen::recase(name, s.mask);
    ck_eq!(no_err(spelled.parse::<AS>(), &spelled)?, v, "parse({:?})", spelled);
    let want = SCHEMES.iter().find(|(_, n)| n.eq_ignore_ascii_case(&s.raw)).map(|x| x.0);
    match s.raw.parse::<AS>() {
        Ok(g) => ck_eq!(Some(g), want, "parse({:?})", s.raw),
        Err(e) => {
            ck!(want.is_none(), "parse({:?}) fails", s.raw);
            is_400(&e, &s.raw)?;
        }
    }
    for (h, _) in SCHEMES {
        ck_eq!(*h == v, h.to_string() == name, "equality of {:?} and {:?}", h, v);
    }
    Ok(want.is_none() && !s.raw.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct B {
    user: String,
    pass: String,
    mask: u64,
    other: u8,
    earlier: Vec<String>,
}

fn check_basic(b: &B) -> Check {
    let user = b.user.replace(':', ";");
    let w = BasicAuth::new(&user, &b.pass);
    ck_eq!((w.username(), w.password()), (user.as_str(), b.pass.as_str()), "what was given");
    let v = emit(&w, "authorization")?;
    let cred = b64(format!("{}:{}", user, b.pass).as_bytes());
    ck_eq!(v, format!("Basic {}", cred), "value for {:?} {:?}", user, b.pass);
    let mut lines = b.earlier.clone();
    lines.push(format!("{} {}", gen::recase("Basic", b.mask), cred));
    let h = hdrs("authorization", &lines);
    let r = no_err(BasicAuth::from_headers(&h), "BasicAuth")?.ok_or_else(|| Fail::new("None"))?;
    ck_eq!((r.username(), r.password()), (user.as_str(), b.pass.as_str()), "read from {:?}", lines);
    let c = no_err(BasicAuth::from_credentials(cred.as_bytes()), "from_credentials")?;
    ck_eq!((c.username(), c.password()), (user.as_str(), b.pass.as_str()), "from_credentials({:?})", cred);
    let a = no_err(Authorization::from_headers(&h), "Authorization")?.ok_or_else(|| Fail::new("None"))?;
    ck_eq!((a.scheme(), a.credentials()), (AS::Basic, cred.as_str()), "Authorization");
    // the last line decides; another scheme is not basic authentication
    let (s, name) = scheme(b.other);
    lines.push(format!("{} {}", name, cred));
    match BasicAuth::from_headers(hdrs("authorization", &lines)) {
        Ok(r) => ck!(s == AS::Basic && r.is_some(), "BasicAuth from {:?}", lines),
        Err(e) => {
            ck!(s != AS::Basic, "BasicAuth from {:?} fails", lines);
            is_400(&e, "another scheme")?;
        }
    }
    ck!(no_err(BasicAuth::from_headers(no_headers()), "absent")?.is_none(), "Some without the header");
    classify_if(b.pass.contains(':'), "colon in password");
    classify_if(!user.is_ascii() || !b.pass.is_ascii(), "not ASCII");
    Ok(b.pass.contains(':') || !user.is_ascii() || !b.pass.is_ascii() || user.is_empty() || b.pass.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
    data: Vec<u8>,
    cut: u8,
    junk: String,
    at: u8,
}

fn check_credentials(r: &Raw) -> Check {
    let mut s = b64(&r.data).into_bytes();
    s.truncate(s.len() - (r.cut as usize % 4).min(s.len()));
    let at = r.at as usize % (s.len() + 1);
    s.splice(at..at, r.junk.bytes());
    let dec = unb64(&s).and_then(|d| String::from_utf8(d).ok()).and_then(|t| t.find(':').map(|i| (t[..i].to_string(), t[i + 1..].to_string())));
    match BasicAuth::from_credentials(&s) {
        Ok(b) => {
            classify("accepted");
            match dec {
                Some(d) => ck_eq!((b.username().to_string(), b.password().to_string()), d, "from_credentials"),
                None => pbt::fail!("from_credentials({:?}) gives {:?}", String::from_utf8_lossy(&s), b),
            }
        }
        Err(e) => {
            // base64 without its padding, or with bits left over, may be refused
            let exact = unb64(&s).map_or(false, |d| b64(&d).as_bytes() == &s[..]);
            ck!(dec.is_none() || !exact, "from_credentials({:?}) fails", String::from_utf8_lossy(&s));
            is_400(&e, "credentials")?;
        }
    }
    if s.is_ascii() {
        let line = format!("Basic {}", String::from_utf8_lossy(&s));
        if let Err(e) = BasicAuth::from_headers(hdrs("authorization", &[line.as_str()])) {
            is_400(&e, &line)?;
        }
    }
    Ok(!s.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Au {
    i: u8,
    j: u8,
    mask: u64,
    cred: String,
    cred2: String,
    raw: String,
    earlier: Vec<String>,
}

fn check_authorization(a: &Au) -> Check {
    let (s, name) = scheme(a.i);
    let (s2, name2) = scheme(a.j);
    let mut w = Authorization::new(s, a.cred.clone());
    ck_eq!((w.scheme(), w.credentials()), (s, a.cred.as_str()), "what was given");
    ck_eq!(emit(&w, "authorization")?, format!("{} {}", name, a.cred), "value");
    let mut lines = a.earlier.clone();
    lines.push(format!("{} {}", gen::recase(name, a.mask), a.cred));
    let r = no_err(Authorization::from_headers(hdrs("authorization", &lines)), "Authorization")?.ok_or_else(|| Fail::new("None"))?;
    ck_eq!((r.scheme(), r.credentials()), (s, a.cred.as_str()), "read from {:?}", lines);
    w.set_scheme(s2);
    w.set_credentials(a.cred2.clone());
    ck_eq!((w.scheme(), w.credentials()), (s2, a.cred2.as_str()), "after the setters");
    ck_eq!(emit(&w, "authorization")?, format!("{} {}", name2, a.cred2), "value after the setters");
    ck!(no_err(Authorization::from_headers(no_headers()), "absent")?.is_none(), "Some without the header");
    // anything else
    lines.push(a.raw.clone());
    let want = a.raw.find(' ').and_then(|i| SCHEMES.iter().find(|x| x.1.eq_ignore_ascii_case(&a.raw[..i])).map(|x| (x.0, &a.raw[i + 1..])));
    match (Authorization::from_headers(hdrs("authorization", &lines)), want) {
        // whether further spaces before the credentials belong to them is left open
        (Ok(Some(g)), Some((s, c))) => ck_eq!((g.scheme(), g.credentials().trim_start_matches(' ')), (s, c.trim_start_matches(' ')), "from {:?}", a.raw),
        (Err(e), None) => is_400(&e, &a.raw)?,
        (g, w) => pbt::fail!("from {:?}: got {:?}, expected {:?}", a.raw, g, w),
    }
    Ok(!a.cred.is_empty())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct W {
    i: u8,
    j: u8,
    mask: u64,
    realm: String,
    esc: u64,
    ws: String,
    tail: String,
    raw: String,
    earlier: Vec<String>,
}

fn check_www(a: &W) -> Check {
    let (s, name) = scheme(a.i);
    let (s2, _) = scheme(a.j);
    let mut w = WwwAuthenticate::new(s, a.realm.clone());
    ck_eq!((w.scheme(), w.realm()), (s, a.realm.as_str()), "what was given");
    let quoted: String = a.realm.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
    let v = emit(&w, "www-authenticate")?;
    ck_eq!(v, format!("{} realm=\"{}\", charset=\"UTF-8\"", name, quoted), "value for realm {:?}", a.realm);
    // as another server may write it
    let other: String = a.realm.chars().enumerate().flat_map(|(i, c)| if c == '"' || c == '\\' || a.esc >> (i % 64) & 1 == 1 { vec!['\\', c] } else { vec![c] }).collect();
    for line in [v, format!("{} {}realm=\"{}\"{}", gen::recase(name, a.mask), a.ws, other, a.tail)] {
        let mut lines = a.earlier.clone();
        lines.push(line);
        let r = no_err(WwwAuthenticate::from_headers(hdrs("www-authenticate", &lines)), &lines[lines.len() - 1])?.ok_or_else(|| Fail::new("None"))?;
        ck_eq!((r.scheme(), r.realm()), (s, a.realm.as_str()), "read from {:?}", lines);
    }
    w.set_scheme(s2);
    w.set_realm("other".into());
    ck_eq!((w.scheme(), w.realm()), (s2, "other"), "after the setters");
    ck!(no_err(WwwAuthenticate::from_headers(no_headers()), "absent")?.is_none(), "Some without the header");
    match WwwAuthenticate::from_headers(hdrs("www-authenticate", &[a.raw.as_str()])) {
        Ok(g) => {
            classify("raw accepted");
            let g = g.ok_or_else(|| Fail::new("None"))?;
            ck!(a.raw.to_ascii_lowercase().starts_with(&g.scheme().to_string().to_ascii_lowercase()), "{:?} is read as {:?}", a.raw, g);
            ck!(a.raw.to_ascii_lowercase().contains("realm"), "{:?} is read as {:?}", a.raw, g);
            ck!(a.raw.matches('"').count() >= 2, "{:?} is read as {:?}", a.raw, g);
        }
        Err(e) => is_400(&e, &a.raw)?,
    }
    classify_if(quoted != a.realm, "escaped");
    Ok(!a.realm.is_empty())
}

fn main() {
    static DICT: &[&str] = &["Basic", "basic", "Bearer", "vapid", " ", "realm=", "\"", "\\", "a", ",", "realm", "=", "charset=\"UTF-8\"", "Realm=\"x\"", "abc=="];
    let earlier = || vec(prop_oneof![Just("Basic".to_string()), Just("nonsense".to_string()), Just("Bearer x".to_string()), Just(String::new())], 0..3);
    let schemish = || prop_oneof![Just(String::new()), gen::re("[a-zA-Z-]{1,9}"), (any::<u8>(), any::<u64>()).prop_map(|(i, m)| gen::recase(scheme(i).1, m)), (any::<u8>(), "[ a-z]").prop_map(|(i, m)| format!("{}{}", scheme(i).1, m)), gen::any_text(5)];
    pbt::fw::main("C14", vec![
        law("scheme", "a scheme in any letter case, and text that may be one; non-trivial: text that is none", 20_000, 1_000_000,
            move || (any::<u8>(), any::<u64>(), schemish()).prop_map(|(i, mask, raw)| Sc { i, mask, raw }), check_scheme),
        law("basic", "a user name without colons and a password of any text; non-trivial: a colon in the password, text that is not ASCII, or an empty part", 40_000, 3_000_000,
            move || (gen::any_text(8), gen::any_text(10), any::<u64>(), any::<u8>(), earlier()).prop_map(|(user, pass, mask, other, earlier)| B { user, pass, mask, other, earlier }), check_basic),
        law("credentials", "base64 of text or bytes, possibly cut short or with other characters put in, against an independent decoder; non-trivial: not empty", 40_000, 3_000_000,
            || (prop_oneof![2 => vec(any::<u8>(), 0..10), 3 => vec(prop_oneof![Just(b':'), 0x20u8..0x7f], 0..10), 1 => gen::any_text(6).prop_map(|s| s.into_bytes())], prop_oneof![4 => Just(0u8), 1 => any::<u8>()], prop_oneof![4 => Just(String::new()), 1 => gen::re("[-_ =:A/+\n]{1,2}"), 1 => gen::any_text(2)], any::<u8>()).prop_map(|(data, cut, junk, at)| Raw { data, cut, junk, at }), check_credentials),
        law("authorization", "a scheme and credentials, changed through the setters, and text that may be neither; non-trivial: credentials not empty", 40_000, 2_000_000,
            move || (any::<u8>(), any::<u8>(), any::<u64>(), gen::re("[!-~]([ -~]{0,8}[!-~])?|"), gen::re("[!-~]{0,6}"), prop_oneof![gen::soup(DICT, 4), (any::<u8>(), gen::ascii_text(6)).prop_map(|(i, t)| format!("{} {}", scheme(i).1, t))], earlier()).prop_map(|(i, j, mask, cred, cred2, raw, earlier)| Au { i, j, mask, cred, cred2, raw, earlier }), check_authorization),
        law("www_authenticate", "a scheme and a realm of any printable text, written here or by another server, and text that may be neither; non-trivial: realm not empty", 40_000, 2_000_000,
            move || (any::<u8>(), any::<u8>(), any::<u64>(), prop_oneof![gen::ascii_text(10), gen::re("[\"\\\\a ,=]{0,6}")], any::<u64>(), gen::re("[ ]{0,2}"), proptest::sample::select(vec!["", ", charset=\"UTF-8\"", ",charset=x", " , a=\"b\\\"c\""]).prop_map(String::from), gen::soup(DICT, 7), earlier())
                .prop_map(|(i, j, mask, realm, esc, ws, tail, raw, earlier)| W { i, j, mask, realm, esc, ws, tail, raw, earlier }), check_www),
    ]);
}
