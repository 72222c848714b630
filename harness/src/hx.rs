//! Helpers for typed headers.
use crate::fw::Fail;
use crate::{ck, ck_eq};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::{Response, StatusCode};

/// A header map holding `values` under `name`, in order. Values must be ASCII.
pub fn hdrs<S: AsRef<str>>(name: &str, values: &[S]) -> Headers {
    let mut res = Response::new(200);
    for v in values {
        let v = HeaderValue::from_bytes(v.as_ref().as_bytes().to_vec()).expect("ascii value");
        res.append_header(name, v).expect("append");
    }
    let h: &mut Headers = res.as_mut();
    h.clone()
}

/// An empty header map.
pub fn no_headers() -> Headers {
    hdrs::<&str>("x", &[])
}

/// The value a typed header serialises to; checks that every way of putting it into a message agrees,
/// that it replaces what was there, and that it is ASCII under its own name.
pub fn emit<H: Header>(h: &H, name: &str) -> Result<String, Fail> {
    ck_eq!(h.header_name().as_str(), name, "header name");
    let v = h.header_value();
    ck!(v.as_str().is_ascii(), "{} header value {:?} is not ASCII", name, v.as_str());
    ck!(
        !v.as_str().contains(|c| c == '\r' || c == '\n' || c == '\0'),
        "{} header value {:?} contains a line break or NUL",
        name,
        v.as_str()
    );
    let mut res = Response::new(200);
    res.append_header(name, "previous-1").unwrap();
    res.append_header(name, "previous-2").unwrap();
    res.append_header("x-other", "kept").unwrap();
    h.apply_header(&mut res);
    let mut res2 = Response::new(200);
    res2.insert_header(h, h).map_err(|e| Fail::new(format!("insert_header: {}", e)))?;
    for (r, how) in [(&res, "apply_header"), (&res2, "insert_header")] {
        let vs: Vec<&str> = match r.header(name) {
            Some(vs) => vs.iter().map(|v| v.as_str()).collect(),
            None => vec![],
        };
        ck_eq!(vs, vec![v.as_str()], "{} after {}", name, how);
    }
    ck_eq!(res.header("x-other").map(|v| v.as_str() == "kept"), Some(true), "other header after apply_header");
    Ok(v.as_str().to_string())
}

/// A malformed header must be answered as a client error.
pub fn is_400(e: &http_types::Error, what: &str) -> Result<(), Fail> {
    ck_eq!(e.status(), StatusCode::BadRequest, "status of the error for {}", what);
    Ok(())
}

pub fn no_err<T>(r: http_types::Result<T>, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::new(format!("{}: error {} {:?}", what, e.status(), e.to_string())))
}

/// Runs an iterator to its end: it gives `n` items, and at every step its size hint bounds what is left.
pub fn run_out<I: Iterator>(mut it: I, n: usize, what: &str) -> Result<Vec<I::Item>, Fail> {
    let mut out = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        let left = n - out.len();
        ck!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size hint {:?} with {} items left", what, (lo, hi), left);
        match it.next() {
            Some(x) => out.push(x),
            None => break,
        }
        ck!(out.len() <= n, "{}: more than {} items", what, n);
    }
    ck_eq!(out.len(), n, "{}: number of items", what);
    Ok(out)
}

/// Every way of walking a list gives the same items in the same order.
#[macro_export]
macro_rules! walk {
    ($l:expr, $want:expr, |$x:ident| $show:expr, $what:expr) => {{
        let l = &mut $l;
        let n = $want.len();
        let what = $what;
        let got: Vec<_> = $crate::hx::run_out(l.iter(), n, &format!("{}, iter", what))?.into_iter().map(|$x| $show).collect();
        $crate::ck_eq!(got, $want, "{}, iter", what);
        let got: Vec<_> = $crate::hx::run_out((&*l).into_iter(), n, &format!("{}, by reference", what))?.into_iter().map(|$x| $show).collect();
        $crate::ck_eq!(got, $want, "{}, by reference", what);
        let got: Vec<_> = $crate::hx::run_out(l.iter_mut(), n, &format!("{}, iter_mut", what))?.into_iter().map(|$x| { let $x = &*$x; $show }).collect();
        $crate::ck_eq!(got, $want, "{}, iter_mut", what);
        let got: Vec<_> = $crate::hx::run_out((&mut *l).into_iter(), n, &format!("{}, by mutable reference", what))?.into_iter().map(|$x| { let $x = &*$x; $show }).collect();
        $crate::ck_eq!(got, $want, "{}, by mutable reference", what);
    }};
}
