//! C17: errors. The status, the message, the cause and the concrete type of an error survive every
//! way of making, wrapping and converting it; success is never turned into an error.
use http_types::{bail, bail_status, ensure, ensure_eq, ensure_eq_status, ensure_status, format_err, format_err_status, Error, Status, StatusCode};
use pbt::fw::*;
use pbt::{ck, ck_eq, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::fmt;
use std::io;

#[derive(Debug, Clone, PartialEq)]
struct Custom {
    text: String,
    n: i64,
    cause: Option<Box<Custom>>,
}
impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.n % 3 {
            0 => write!(f, "{}", self.text),
            1 => write!(f, "{}{}", self.n, self.text),
            _ => write!(f, "<{}:{}>", self.text, self.n),
        }
    }
}
impl StdError for Custom {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.cause.as_ref().map(|c| &**c as &(dyn StdError + 'static))
    }
}
fn custom(text: &str, n: i64, depth: u8) -> Custom {
    Custom { text: text.to_string(), n, cause: (depth > 0).then(|| Box::new(custom(text, n.wrapping_add(1), depth - 1))) }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum How {
    NewIo,
    NewCustom,
    NewAnyhow,
    FromStr,
    FromIo,
    FromCustom,
    FromAnyhow,
    NewContext,
    FromContext,
    FromDisplay,
    FromDebug,
    FormatErr,
    FormatErrExpr,
    Bail,
    Ensure,
    EnsureEq,
    ResultStatus,
    ResultWithStatus,
    OptionStatus,
    OptionWithStatus,
}
const HOWS: &[How] = &[
    How::NewIo, How::NewCustom, How::NewAnyhow, How::FromStr, How::FromIo, How::FromCustom, How::FromAnyhow, How::NewContext, How::FromContext, How::FromDisplay, How::FromDebug,
    How::FormatErr, How::FormatErrExpr, How::Bail, How::Ensure, How::EnsureEq, How::ResultStatus, How::ResultWithStatus, How::OptionStatus, How::OptionWithStatus,
];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Set(u16),
    AsMut(u16),
    ResultStatus(u16),
    ResultWith(u16),
    Question,
    WrongDowncast,
    Edit(i64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    how: How,
    code: u16,
    text: String,
    n: i64,
    depth: u8,
    steps: Vec<Step>,
    end: u8,
}

/// What the error is: its text, and the custom value inside it, if that is what it holds.
struct Want {
    code: u16,
    text: String,
    custom: Option<Custom>,
    io: bool,
    chain: Vec<String>,
    type_name: Option<String>,
    /// the type name is not specified
    any_type: bool,
    /// the custom value is under a context
    context: bool,
}

fn sc(n: u16) -> StatusCode {
    StatusCode::try_from(n).expect("a status code")
}

fn chain_of(c: &Custom) -> Vec<String> {
    let mut v = vec![];
    let mut c = c.cause.as_ref();
    while let Some(x) = c {
        v.push(x.to_string());
        c = x.cause.as_ref();
    }
    v
}

fn make(c: &Case) -> Result<(Error, Want), Fail> {
    let cu = custom(&c.text, c.n, c.depth);
    let ioe = || io::Error::new(io::ErrorKind::NotFound, c.text.clone());
    let mut w = Want { code: c.code, text: c.text.clone(), custom: None, io: false, chain: vec![], type_name: None, any_type: false, context: false };
    let by_custom = |w: &mut Want, cu: &Custom| {
        w.text = cu.to_string();
        w.chain = chain_of(cu);
        w.custom = Some(cu.clone());
        w.type_name = Some(std::any::type_name::<Custom>().to_string());
    };
    let e = match c.how {
        How::NewIo => {
            w.io = true;
            w.type_name = Some(std::any::type_name::<io::Error>().to_string());
            Error::new(c.code, ioe())
        }
        How::NewCustom => {
            by_custom(&mut w, &cu);
            Error::new(sc(c.code), cu)
        }
        How::NewAnyhow => {
            by_custom(&mut w, &cu);
            w.type_name = Some(std::any::type_name::<anyhow::Error>().to_string());
            Error::new(c.code, anyhow::Error::from(cu))
        }
        How::FromStr => Error::from_str(c.code, c.text.clone()),
        How::FromIo => {
            w.code = 500;
            w.io = true;
            w.type_name = Some(std::any::type_name::<io::Error>().to_string());
            ioe().into()
        }
        How::FromCustom => {
            by_custom(&mut w, &cu);
            w.code = 500;
            let run = || -> http_types::Result<()> {
                Err(cu)?;
                Ok(())
            };
            run().unwrap_err()
        }
        How::FromAnyhow => {
            by_custom(&mut w, &cu);
            w.code = 500;
            w.type_name = Some(std::any::type_name::<anyhow::Error>().to_string());
            anyhow::Error::from(cu).into()
        }
        How::NewContext | How::FromContext => {
            by_custom(&mut w, &cu);
            w.chain.insert(0, w.text.clone());
            w.text = format!("while {}", c.text);
            w.context = true;
            w.type_name = Some(std::any::type_name::<anyhow::Error>().to_string());
            let e = anyhow::Error::from(cu).context(w.text.clone());
            if let How::NewContext = c.how {
                Error::new(c.code, e)
            } else {
                w.code = 500;
                e.into()
            }
        }
        How::FromDisplay => {
            w.code = 500;
            w.text = cu.to_string();
            w.any_type = true;
            Error::from_display(cu)
        }
        How::FromDebug => {
            w.code = 500;
            w.text = format!("{:?}", cu);
            w.any_type = true;
            Error::from_debug(cu)
        }
        How::FormatErr => {
            w.code = 500;
            match c.n.rem_euclid(4) {
                0 => {
                    w.text = "just text".into();
                    format_err!("just text")
                }
                1 => {
                    w.text = format!("{} and {:?}", c.text, c.n);
                    format_err!("{} and {:?}", c.text, c.n)
                }
                2 => {
                    w.code = 418;
                    w.text = format!("{} and {:?}", c.text, c.n);
                    format_err_status!(418, "{} and {:?}", c.text, c.n)
                }
                _ => {
                    w.code = 503;
                    w.text = "just text".into();
                    format_err_status!(503, "just text")
                }
            }
        }
        How::FormatErrExpr => {
            if c.n % 2 == 0 {
                w.code = 500;
                format_err!(c.text.clone())
            } else {
                w.code = 404;
                format_err_status!(404, c.text.clone())
            }
        }
        How::Bail => {
            let kind = c.n.rem_euclid(6);
            w.code = [500, 500, 500, 402, 201, 504][kind as usize];
            w.text = match kind % 3 {
                0 => "literal".to_string(),
                1 => c.text.clone(),
                _ => format!("{}!{}", c.n, c.text),
            };
            let run = || -> http_types::Result<()> {
                match kind {
                    0 => bail!("literal"),
                    1 => bail!(c.text.clone()),
                    2 => bail!("{}!{}", c.n, c.text),
                    3 => bail_status!(402, "literal"),
                    4 => bail_status!(201, c.text.clone()),
                    _ => bail_status!(504, "{}!{}", c.n, c.text),
                }
            };
            run().unwrap_err()
        }
        How::Ensure => {
            let kind = c.n.rem_euclid(6);
            w.code = [500, 500, 500, 402, 404, 504][kind as usize];
            w.text = match kind % 3 {
                0 => "literal".to_string(),
                1 => c.text.clone(),
                _ => format!("no {}", c.text),
            };
            let run = |b: bool| -> http_types::Result<i64> {
                match kind {
                    0 => ensure!(b, "literal"),
                    1 => ensure!(b, c.text.clone()),
                    2 => ensure!(b, "no {}", c.text),
                    3 => ensure_status!(b, 402, "literal"),
                    4 => ensure_status!(b, 404, c.text.clone()),
                    _ => ensure_status!(b, 504, "no {}", c.text),
                }
                Ok(c.n)
            };
            ck_eq!(run(true).ok(), Some(c.n), "ensure of what holds, kind {}", kind);
            let e = run(false);
            ck!(e.is_err(), "ensure of what does not hold, kind {}", kind);
            e.unwrap_err()
        }
        How::EnsureEq => {
            let kind = c.n.rem_euclid(6);
            w.code = [500, 500, 500, 402, 404, 504][kind as usize];
            w.text = match kind % 3 {
                0 => "literal".to_string(),
                1 => c.text.clone(),
                _ => format!("differs: {}", c.text),
            };
            let run = |a: i64, b: i64| -> http_types::Result<i64> {
                match kind {
                    0 => ensure_eq!(a, b, "literal"),
                    1 => ensure_eq!(a, b, c.text.clone()),
                    2 => ensure_eq!(a, b, "differs: {}", c.text),
                    3 => ensure_eq_status!(a, b, 402, "literal"),
                    4 => ensure_eq_status!(a, b, 404, c.text.clone()),
                    _ => ensure_eq_status!(a, b, 504, "differs: {}", c.text),
                }
                Ok(c.n)
            };
            ck_eq!(run(c.n, c.n).ok(), Some(c.n), "ensure_eq of equal values, kind {}", kind);
            let e = run(c.n, c.n.wrapping_add(1));
            ck!(e.is_err(), "ensure_eq of different values, kind {}", kind);
            e.unwrap_err()
        }
        How::ResultStatus => {
            by_custom(&mut w, &cu);
            Err::<(), _>(cu).status(c.code).unwrap_err()
        }
        How::ResultWithStatus => {
            by_custom(&mut w, &cu);
            let mut calls = 0;
            let e = Err::<(), _>(cu).with_status(|| {
                calls += 1;
                sc(c.code)
            });
            ck_eq!(calls, 1, "calls of the closure for an error");
            e.unwrap_err()
        }
        How::OptionStatus => {
            w.text = "NoneError".into();
            None::<()>.status(sc(c.code)).unwrap_err()
        }
        How::OptionWithStatus => {
            w.text = "NoneError".into();
            None::<()>.with_status(|| c.code).unwrap_err()
        }
    };
    Ok((e, w))
}

fn causes(d: &(dyn StdError + 'static)) -> Vec<String> {
    anyhow::Chain::new(d).skip(1).map(|e| e.to_string()).collect()
}

fn look(e: &Error, w: &Want, when: &str) -> Result<(), Fail> {
    ck_eq!(u16::from(e.status()), w.code, "status {}", when);
    ck_eq!(*AsRef::<StatusCode>::as_ref(e), sc(w.code), "AsRef<StatusCode> {}", when);
    ck_eq!(e.to_string(), w.text, "text {}", when);
    ck_eq!(e.downcast_ref::<Custom>(), w.custom.as_ref(), "downcast_ref to the custom type {}", when);
    ck_eq!(e.downcast_ref::<io::Error>().map(|e| e.to_string()), w.io.then(|| w.text.clone()), "downcast_ref to io::Error {}", when);
    ck!(e.downcast_ref::<fmt::Error>().is_none(), "downcast_ref to another type {}", when);
    if !w.any_type {
        ck_eq!(e.type_name().map(String::from), w.type_name, "type name {}", when);
    }
    let inner: &anyhow::Error = e.as_ref();
    ck_eq!(inner.to_string(), w.text, "text of the inner error {}", when);
    ck_eq!(format!("{:?}", e), format!("{:?}", inner), "debug text {}", when);
    ck_eq!(format!("{:#}", e), format!("{:#}", inner), "alternate text {}", when);
    for (d, how) in [
        (AsRef::<dyn StdError + Send + Sync>::as_ref(e) as &dyn StdError, "Send + Sync"),
        (AsRef::<dyn StdError>::as_ref(e), "plain"),
    ] {
        ck_eq!(d.to_string(), w.text, "text of the {} error trait object {}", how, when);
        ck_eq!(causes(d), w.chain, "causes of the {} error trait object {}", how, when);
        if !w.any_type && !w.context {
            ck_eq!(d.downcast_ref::<Custom>(), w.custom.as_ref(), "downcast of the {} error trait object {}", how, when);
            ck_eq!(d.downcast_ref::<io::Error>().is_some(), w.io, "downcast of the {} error trait object to io::Error {}", how, when);
        }
    }
    Ok(())
}

fn check(c: &Case) -> Check {
    let (mut e, mut w) = make(c)?;
    look(&e, &w, "when made")?;
    for (i, s) in c.steps.iter().enumerate() {
        let when = format!("after step {}", i);
        match s {
            Step::Set(n) => {
                if n % 2 == 0 { e.set_status(*n) } else { e.set_status(sc(*n)) }
                w.code = *n;
            }
            Step::AsMut(n) => {
                *AsMut::<StatusCode>::as_mut(&mut e) = sc(*n);
                w.code = *n;
            }
            Step::ResultStatus(n) => {
                e = Err::<(), Error>(e).status(*n).unwrap_err();
                w.code = *n;
            }
            Step::ResultWith(n) => {
                let mut calls = 0;
                e = Err::<u8, Error>(e)
                    .with_status(|| {
                        calls += 1;
                        *n
                    })
                    .unwrap_err();
                ck_eq!(calls, 1, "calls of the closure for an error");
                w.code = *n;
            }
            Step::Question => {
                let f = |e: Error| -> http_types::Result<()> {
                    Err(e)?;
                    Ok(())
                };
                e = f(e).unwrap_err();
            }
            Step::WrongDowncast => {
                e = match e.downcast::<fmt::Error>() {
                    Ok(_) => pbt::fail!("downcast to another type"),
                    Err(e) => e,
                };
            }
            Step::Edit(n) => {
                ck!(e.downcast_mut::<fmt::Error>().is_none(), "downcast_mut to another type");
                match (e.downcast_mut::<Custom>(), &mut w.custom) {
                    (Some(a), Some(b)) => {
                        a.n = *n;
                        b.n = *n;
                        if w.context {
                            w.chain[0] = b.to_string();
                        } else {
                            w.text = b.to_string();
                        }
                    }
                    (None, None) => {}
                    (a, b) => pbt::fail!("downcast_mut: got {:?}, expected {:?}", a, b),
                }
            }
        }
        look(&e, &w, &when)?;
    }
    match c.end % 4 {
        0 => {
            let i = e.into_inner();
            ck_eq!(i.to_string(), w.text, "into_inner");
            ck_eq!(i.chain().skip(1).map(|e| e.to_string()).collect::<Vec<_>>(), w.chain, "causes of into_inner");
            ck_eq!(i.downcast_ref::<Custom>(), w.custom.as_ref(), "downcast of into_inner");
        }
        1 => {
            let b: Box<dyn StdError + Send + Sync> = e.into();
            ck_eq!(b.to_string(), w.text, "boxed");
            ck_eq!(causes(&*b), w.chain, "causes of the boxed Send + Sync error");
        }
        2 => {
            let b: Box<dyn StdError> = e.into();
            ck_eq!(b.to_string(), w.text, "boxed");
            ck_eq!(causes(&*b), w.chain, "causes of the boxed plain error");
        }
        _ => match (e.downcast::<Custom>(), &w.custom) {
            (Ok(a), Some(b)) => ck_eq!(&a, b, "downcast"),
            (Err(e), None) => look(&e, &w, "after a downcast that fails")?,
            (Ok(a), None) => pbt::fail!("downcast gives {:?}", a),
            (Err(_), Some(b)) => pbt::fail!("downcast does not give {:?}", b),
        },
    }
    classify(&format!("{:?}", c.how));
    Ok(w.custom.is_some() && !c.steps.is_empty() || c.steps.len() > 1)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct OkCase {
    value: String,
    code: u16,
}

/// Success and presence pass through, whatever the status says, and the closure is not called.
fn check_ok(c: &OkCase) -> Check {
    let valid = StatusCode::try_from(c.code).is_ok();
    let v = &c.value;
    let a: http_types::Result<String> = no_panic(|| Ok::<String, io::Error>(v.clone()).status(c.code)).map_err(Fail::new)?;
    ck_eq!(a.as_ref().ok(), Some(v), "Ok(_).status");
    let b = no_panic(|| Ok::<String, Error>(v.clone()).status(c.code)).map_err(Fail::new)?;
    ck_eq!(b.as_ref().ok(), Some(v), "Ok(_).status of a Result with an HTTP error");
    let o = no_panic(|| Some(v.clone()).status(c.code)).map_err(Fail::new)?;
    ck_eq!(o.as_ref().ok(), Some(v), "Some(_).status");
    let mut calls = 0;
    let mut f = || {
        calls += 1;
        c.code
    };
    ck_eq!(Ok::<String, io::Error>(v.clone()).with_status(&mut f).ok().as_ref(), Some(v), "Ok(_).with_status");
    ck_eq!(Ok::<String, Error>(v.clone()).with_status(&mut f).ok().as_ref(), Some(v), "Ok(_).with_status of a Result with an HTTP error");
    ck_eq!(Some(v.clone()).with_status(&mut f).ok().as_ref(), Some(v), "Some(_).with_status");
    ck_eq!(calls, 0, "calls of the closure without an error");
    // a status that does not exist panics, as documented, exactly when it is needed
    let e = || fmt::Error;
    for (r, how) in [
        (no_panic(|| Err::<(), _>(e()).status(c.code)), "Err(_).status"),
        (no_panic(|| Err::<(), _>(e()).with_status(|| c.code)), "Err(_).with_status"),
        (no_panic(|| None::<()>.status(c.code)), "None.status"),
        (no_panic(|| None::<()>.with_status(|| c.code)), "None.with_status"),
        (no_panic(|| Err::<(), _>(Error::new(c.code, e()))), "Error::new"),
        (no_panic(|| Err::<(), _>(Error::from_str(c.code, "x"))), "Error::from_str"),
        (no_panic(|| Err::<(), _>(Error::from(e())).status(c.code)), "Err(Error).status"),
        (no_panic(|| Err::<(), _>(Error::from(e())).with_status(|| c.code)), "Err(Error).with_status"),
    ] {
        match r {
            Ok(Err(e)) => {
                ck!(valid, "{} with {} does not panic", how, c.code);
                ck_eq!(u16::from(e.status()), c.code, "{}", how);
            }
            Ok(Ok(_)) => pbt::fail!("{} is Ok", how),
            Err(p) => ck!(!valid, "{} with {} panics: {}", how, c.code, p),
        }
    }
    classify_if(!valid, "not a status code");
    Ok(!valid)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct MacroCase {
    kind: u8,
    left: f64,
    right: f64,
    text: String,
}

/// `ensure!` and its kin are `if !cond { return Err(..) }`: the condition or the operands are
/// evaluated once, left before right, the message only when it is needed, and the code after them
/// runs exactly when what they ask for holds.
fn check_macro(c: &MacroCase) -> Check {
    use std::cell::RefCell;
    let log = RefCell::new(vec![]);
    let after = RefCell::new(false);
    let say = |x: &'static str| log.borrow_mut().push(x);
    let (l, r) = (|| { say("left"); c.left }, || { say("right"); c.right });
    let lt = || { say("left"); say("right"); c.left < c.right };
    let msg = || { say("message"); c.text.clone() };
    let kind = c.kind % 12;
    let run = || -> http_types::Result<f64> {
        match kind {
            0 => ensure!(lt(), "literal"),
            1 => ensure!(lt(), msg()),
            2 => ensure!(lt(), "{}", msg()),
            3 => ensure_status!(lt(), 404, "literal"),
            4 => ensure_status!(lt(), 404, msg()),
            5 => ensure_status!(lt(), 404, "{}", msg()),
            6 => ensure_eq!(l(), r(), "literal"),
            7 => ensure_eq!(l(), r(), msg()),
            8 => ensure_eq!(l(), r(), "{}", msg()),
            9 => ensure_eq_status!(l(), r(), 404, "literal"),
            10 => ensure_eq_status!(l(), r(), 404, msg()),
            _ => ensure_eq_status!(l(), r(), 404, "{}", msg()),
        }
        *after.borrow_mut() = true;
        Ok(c.left)
    };
    let got = run();
    let holds = if kind < 6 { c.left < c.right } else { !(c.left != c.right) };
    let mut want = vec!["left", "right"];
    if !holds && kind % 3 != 0 {
        want.push("message");
    }
    ck_eq!(*log.borrow(), want, "what is evaluated, kind {}", kind);
    ck_eq!(*after.borrow(), holds, "whether the code after the macro runs, kind {}", kind);
    match got {
        Ok(v) => {
            ck!(holds, "kind {} lets pass what does not hold", kind);
            ck_eq!(v.to_bits(), c.left.to_bits(), "the value returned, kind {}", kind);
        }
        Err(e) => {
            ck!(!holds, "kind {} refuses what holds", kind);
            ck_eq!(u16::from(e.status()), if kind % 6 < 3 { 500 } else { 404 }, "status, kind {}", kind);
            ck_eq!(e.to_string(), if kind % 3 == 0 { "literal".to_string() } else { c.text.clone() }, "text, kind {}", kind);
        }
    }
    classify(if holds { "holds" } else { "does not hold" });
    Ok(!holds)
}

/// An error that some other code made: the standard library, or a crate this one uses.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Foreign {
    which: u8,
    kind: u8,
    code: u16,
    text: String,
    how: u8,
}

fn foreign_one<E: StdError + Send + Sync + 'static>(c: &Foreign, mk: impl Fn() -> E) -> Check {
    let x = mk();
    let (text, debug) = (x.to_string(), format!("{:?}", x));
    let chain = causes(&x);
    let name = std::any::type_name::<E>();
    let (e, code) = match c.how % 6 {
        0 => (Error::from(mk()), 500),
        1 => (Error::new(c.code, mk()), c.code),
        2 => (Error::new(sc(c.code), mk()), c.code),
        3 => (Err::<(), _>(mk()).status(c.code).unwrap_err(), c.code),
        4 => (Err::<(), _>(mk()).with_status(|| c.code).unwrap_err(), c.code),
        _ => {
            let run = || -> http_types::Result<()> { Err(mk())? };
            (run().unwrap_err(), 500)
        }
    };
    let when = format!("of a {} made in way {}", name, c.how % 6);
    ck_eq!(u16::from(e.status()), code, "status {}", when);
    ck_eq!(e.to_string(), text, "text {}", when);
    ck_eq!(e.type_name(), Some(name), "type name {}", when);
    ck_eq!(e.downcast_ref::<E>().map(|e| format!("{:?}", e)), Some(debug.clone()), "downcast_ref {}", when);
    ck!(e.downcast_ref::<Custom>().is_none(), "downcast_ref to another type {}", when);
    ck_eq!(causes(AsRef::<dyn StdError>::as_ref(&e)), chain, "causes {}", when);
    match e.downcast::<E>() {
        Ok(e) => ck_eq!((e.to_string(), format!("{:?}", e)), (text, debug), "downcast {}", when),
        Err(e) => pbt::fail!("downcast {} gives {:?}", when, e),
    }
    Ok(code != 500)
}

fn check_foreign(c: &Foreign) -> Check {
    use std::convert::TryInto;
    let k = c.kind as usize;
    let t = c.text.as_str();
    // what is tried is text that is not well-formed; when it happens to be, something else is
    let bad = ["", "x", "-", "99999999999999999999999999", "-1e", "\u{e9}", "+", " 1"][k % 8];
    match c.which % 22 {
        0 => {
            let kind = pbt::sched::IO_KINDS[k % pbt::sched::IO_KINDS.len()];
            foreign_one(c, || io::Error::new(kind, t.to_string()))
        }
        1 => {
            let kind = pbt::sched::IO_KINDS[k % pbt::sched::IO_KINDS.len()];
            foreign_one(c, || io::Error::from(kind))
        }
        2 => foreign_one(c, || io::Error::from_raw_os_error(k as i32)),
        3 => {
            let kind = pbt::sched::IO_KINDS[k % pbt::sched::IO_KINDS.len()];
            foreign_one(c, || io::Error::new(kind, custom(t, k as i64, c.kind % 3)))
        }
        4 => foreign_one(c, || bad.parse::<u8>().unwrap_err()),
        5 => foreign_one(c, || ["", "x", "1.1.1", "--1"][k % 4].parse::<f64>().unwrap_err()),
        6 => foreign_one(c, || std::str::from_utf8([&b"\xff"[..], b"a\xc3", b"ab\xe2\x82"][k % 3]).unwrap_err()),
        7 => foreign_one(c, || String::from_utf8([t.as_bytes(), b"\xff"].concat()).unwrap_err()),
        8 => foreign_one(c, || fmt::Error),
        9 => foreign_one(c, || bad.parse::<std::net::IpAddr>().unwrap_err()),
        10 => foreign_one(c, || TryInto::<u8>::try_into(1000 + k).unwrap_err()),
        11 => foreign_one(c, || bad.parse::<bool>().unwrap_err()),
        12 => foreign_one(c, || format!("xx{}", t).parse::<char>().unwrap_err()),
        13 => foreign_one(c, || std::time::UNIX_EPOCH.duration_since(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1 + k as u64)).unwrap_err()),
        14 => foreign_one(c, || url::Url::parse(["", "a", "http://", "http://a:99999/", "http://[/", "http://1.2.3.4.5.6.7/"][k % 6]).unwrap_err()),
        15 => foreign_one(c, || serde_json::from_str::<u8>(["", "x", "{", "300", "\"\"", "-1"][k % 6]).unwrap_err()),
        16 => foreign_one(c, || serde_urlencoded::from_str::<Vec<(u8, u8)>>(["a=1", "1=x", "1=300", "-1=1"][k % 4]).unwrap_err()),
        17 => foreign_one(c, || base64::decode(["a", "*", "ab=c", "abc=="][k % 4]).unwrap_err()),
        18 => foreign_one(c, || http::StatusCode::from_u16(k as u16 % 100).unwrap_err()),
        19 => foreign_one(c, || async_channel::RecvError),
        20 => foreign_one(c, || std::time::Duration::try_from_secs_f64([-1.0, f64::NAN, f64::INFINITY][k % 3]).unwrap_err()),
        _ => foreign_one(c, || std::env::VarError::NotPresent),
    }
}

fn codes() -> Vec<u16> {
    (100..600).filter(|c| StatusCode::try_from(*c).is_ok()).collect()
}

fn main() {
    let code = || proptest::sample::select(codes());
    let step = move || {
        prop_oneof![
            code().prop_map(Step::Set),
            code().prop_map(Step::AsMut),
            code().prop_map(Step::ResultStatus),
            code().prop_map(Step::ResultWith),
            Just(Step::Question),
            Just(Step::WrongDowncast),
            any::<i64>().prop_map(Step::Edit),
        ]
    };
    pbt::fw::main("C17", vec![
        law("error", "an error made in one of 20 ways, then changed through its setters, the extension trait and downcasts, compared after each step with what it should hold; non-trivial: a typed error with at least one step, or two steps", 60_000, 3_000_000,
            move || (proptest::sample::select(HOWS), code(), gen::any_text(8), any::<i64>(), 0u8..3, vec(step(), 0..5), any::<u8>())
                .prop_map(|(how, code, text, n, depth, steps, end)| Case { how, code, text, n, depth, steps, end }), check),
        law("foreign", "an error of the standard library or of another crate, of 22 types and with all their kinds, made into an error in six ways; non-trivial: its status is not 500", 30_000, 1_000_000,
            move || (any::<u8>(), any::<u8>(), code(), gen::any_text(6), any::<u8>()).prop_map(|(which, kind, code, text, how)| Foreign { which, kind, code, text, how }), check_foreign),
        law("success", "a success value and a number that may be a status code; non-trivial: it is none", 40_000, 1_000_000,
            move || (gen::any_text(4), prop_oneof![code(), any::<u16>(), 90u16..620]).prop_map(|(value, code)| OkCase { value, code }), check_ok),
        law("macro", "a use of ensure!, ensure_eq! or their status variants, with operands and a message that record their evaluation; non-trivial: what they ask for does not hold", 30_000, 600_000,
            move || {
                let num = || proptest::sample::select(vec![0.0, -0.0, 1.0, -1.0, 1.5, f64::MAX, f64::INFINITY, f64::NEG_INFINITY]);
                (any::<u8>(), num(), num(), any::<bool>(), gen::any_text(4))
                    .prop_map(|(kind, left, right, same, text)| MacroCase { kind, left, right: if same { left } else { right }, text })
            }, check_macro),
    ]);
}
