//! C19: trailers and upgraded connections. Whatever the order of taking the two ends, sending, polling and
//! dropping, what is sent is delivered once and unchanged, a receiver whose sender is gone gets nothing
//! instead of waiting forever, and a waiting receiver is woken. A connection passes every call through.
use futures_lite::future::block_on;
use futures_lite::io::{AsyncRead, AsyncWrite};
use http_types::headers::HeaderValue;
use http_types::upgrade::{self, Connection};
use http_types::trailers::{self, Trailers};
use http_types::{Method, Request, Response};
use pbt::fw::*;
use pbt::sched::counting_waker;
use pbt::sched::CountWake;
use pbt::{ck, ck_eq, fail, gen};
use pbt::gen::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

// ---------------------------------------------------------------- channels

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    TakeSender(bool, bool),
    TakeReceiver(bool, bool),
    StartSend(bool, Vec<(String, String)>),
    PollSend(bool),
    DropSend(bool),
    PollRecv(bool),
    DropRecv(bool),
    DropMsg(bool),
    CloneMsg(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    response: bool,
    ops: Vec<Op>,
}

enum Tx {
    T(trailers::Sender),
    U(upgrade::Sender),
}
enum Rx {
    T(Pin<Box<trailers::Receiver>>),
    U(Pin<Box<upgrade::Receiver>>),
}
enum Msg {
    Req(Request),
    Res(Response),
}

type Pairs = Vec<(String, String)>;

fn build(pairs: &Pairs) -> Trailers {
    let mut t = Trailers::new();
    for (n, v) in pairs {
        t.append(n.as_str(), v.as_str()).unwrap();
    }
    t
}
fn dump(t: &Trailers) -> BTreeMap<String, Vec<String>> {
    t.iter().map(|(n, vs)| (n.as_str().to_string(), vs.iter().map(|v: &HeaderValue| v.as_str().to_string()).collect())).collect()
}
fn want(pairs: &Pairs) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in pairs {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}

#[derive(Default)]
struct Chan {
    tx: Option<Tx>,
    rx: Option<Rx>,
    sending: Option<(Pin<Box<dyn Future<Output = ()>>>, Pairs)>,
    /// a send that found the place taken
    blocked: Option<Arc<CountWake>>,
    queued: Option<Pairs>,
    waiting: Option<Arc<CountWake>>,
}

/// A message and what the test has done with it.
struct Holder {
    msg: Msg,
    /// ends still inside the message
    tx_in: [bool; 2],
    rx_in: [bool; 2],
    taken_tx: [bool; 2],
    touched_rx: [bool; 2],
}

struct Chans {
    msgs: [Option<Holder>; 2],
    ch: [Chan; 2],
}

impl Chans {
    fn senders(&self, k: usize) -> bool {
        let c = &self.ch[k];
        c.tx.is_some() || c.sending.is_some() || self.msgs.iter().flatten().any(|m| m.tx_in[k])
    }
    fn receivers(&self, k: usize) -> bool {
        self.ch[k].rx.is_some() || self.msgs.iter().flatten().any(|m| m.rx_in[k])
    }
    /// Whoever was told to wait must be woken once there is something to see.
    fn settle(&mut self, when: &str) -> Result<(), Fail> {
        for k in 0..2 {
            let (senders, receivers) = (self.senders(k), self.receivers(k));
            let c = &mut self.ch[k];
            if !receivers {
                c.queued = None;
            }
            if c.queued.is_some() || !senders {
                if let Some(w) = c.waiting.take() {
                    ck!(w.0.load(Ordering::SeqCst) > 0, "the waiting receiver was not woken {}", when);
                }
            }
            if c.queued.is_none() {
                if let Some(w) = c.blocked.take() {
                    ck!(w.0.load(Ordering::SeqCst) > 0, "the waiting sender was not woken {}", when);
                }
            }
        }
        Ok(())
    }
}

fn check(h: &Hist) -> Check {
    let mut st = Chans {
        msgs: [
            Some(Holder {
                msg: if h.response { Msg::Res(Response::new(200)) } else { Msg::Req(Request::new(Method::Post, "http://a.b/")) },
                tx_in: [true, h.response],
                rx_in: [true, h.response],
                taken_tx: [false; 2],
                touched_rx: [false; 2],
            }),
            None,
        ],
        ch: Default::default(),
    };
    let (mut delivered, mut gone, mut blocked, mut cloned) = (0, 0, false, false);
    for (i, op) in h.ops.iter().enumerate() {
        let when = format!("after step {} ({:?})", i, op);
        let k = |b: &bool| (*b && h.response) as usize;
        match op {
            Op::TakeSender(b, m) => {
                let k = k(b);
                let m = match st.msgs[*m as usize].as_mut() {
                    Some(m) if m.tx_in[k] => m,
                    _ => continue,
                };
                let tx = match &mut m.msg {
                    Msg::Req(r) => Tx::T(r.send_trailers()),
                    Msg::Res(r) if k == 0 => Tx::T(r.send_trailers()),
                    Msg::Res(r) => Tx::U(r.send_upgrade()),
                };
                m.tx_in[k] = false;
                m.taken_tx[k] = true;
                st.ch[k].tx = Some(tx);
            }
            Op::TakeReceiver(b, m) => {
                let k = k(b);
                let m = match st.msgs[*m as usize].as_mut() {
                    Some(m) if m.rx_in[k] => m,
                    _ => continue,
                };
                let rx = match &mut m.msg {
                    Msg::Req(r) => Rx::T(Box::pin(r.recv_trailers())),
                    Msg::Res(r) if k == 0 => Rx::T(Box::pin(r.recv_trailers())),
                    Msg::Res(r) => Rx::U(Box::pin(block_on(r.recv_upgrade()))),
                };
                m.rx_in[k] = false;
                m.touched_rx[k] = true;
                st.ch[k].rx = Some(rx);
                st.ch[k].waiting = None;
            }
            Op::StartSend(b, pairs) => {
                let c = &mut st.ch[k(b)];
                let f: Pin<Box<dyn Future<Output = ()>>> = match c.tx.take() {
                    None => continue,
                    Some(Tx::T(s)) => {
                        let t = build(pairs);
                        let copy = t.clone();
                        ck_eq!(dump(&copy), want(pairs), "a clone of the trailers");
                        Box::pin(async move { s.send(t).await })
                    }
                    Some(Tx::U(s)) => {
                        let conn = Connection::new(Pipe::new(format!("{:?}", pairs).into_bytes()));
                        Box::pin(async move { s.send(conn).await })
                    }
                };
                // a send that is dropped before it found room sends nothing
                c.sending = Some((f, pairs.clone()));
                c.blocked = None;
            }
            Op::PollSend(b) => {
                let k = k(b);
                let receivers = st.receivers(k);
                let c = &mut st.ch[k];
                if let Some((mut f, pairs)) = c.sending.take() {
                    let (cw, w) = counting_waker();
                    c.blocked = None;
                    match f.as_mut().poll(&mut Context::from_waker(&w)) {
                        Poll::Ready(()) => {
                            ck!(c.queued.is_none() || !receivers, "two sends were accepted, and nothing received between them, {}", when);
                            if receivers {
                                c.queued = Some(pairs);
                            }
                        }
                        // there is room for one
                        Poll::Pending if c.queued.is_some() => {
                            blocked = true;
                            c.blocked = Some(cw);
                            c.sending = Some((f, pairs));
                        }
                        Poll::Pending => fail!("sending waits {}", when),
                    }
                }
            }
            Op::DropSend(b) => {
                let c = &mut st.ch[k(b)];
                c.sending = None;
                c.blocked = None;
                c.tx = None;
            }
            Op::PollRecv(b) => {
                let kk = k(b);
                let senders = st.senders(kk);
                let c = &mut st.ch[kk];
                if c.rx.is_none() {
                    continue;
                }
                let (cw, w) = counting_waker();
                let mut cx = Context::from_waker(&w);
                let got = match c.rx.as_mut().unwrap() {
                    Rx::T(r) => r.as_mut().poll(&mut cx).map(|o| o.map(|t| dump(&t))),
                    Rx::U(r) => r.as_mut().poll(&mut cx).map(|o| o.map(|conn| read_all(conn))),
                };
                let expect = |p: &Pairs| if kk == 0 { want(p) } else { one(format!("{:?}", p)) };
                match (got, c.queued.take()) {
                    (Poll::Ready(Some(g)), Some(q)) => {
                        ck_eq!(g, expect(&q), "what was received {}", when);
                        delivered += 1;
                        c.rx = None;
                        c.waiting = None;
                    }
                    (Poll::Ready(None), None) => {
                        ck!(!senders, "the receiver gives up while there is a sender {}", when);
                        gone += 1;
                        c.rx = None;
                        c.waiting = None;
                    }
                    (Poll::Pending, None) => {
                        ck!(senders, "the receiver waits although nobody can send any more {}", when);
                        c.waiting = Some(cw);
                    }
                    (got, q) => fail!("receiving gives {:?} when {:?} was sent, {}", got, q, when),
                }
            }
            Op::DropRecv(b) => {
                let c = &mut st.ch[k(b)];
                c.rx = None;
                c.waiting = None;
            }
            Op::DropMsg(m) => st.msgs[*m as usize] = None,
            Op::CloneMsg(m) => {
                if let Some(src) = &st.msgs[*m as usize] {
                    cloned = true;
                    let d = match &src.msg {
                        // the clone of a request has no trailers to send or receive
                        Msg::Req(r) => Holder { msg: Msg::Req(r.clone()), tx_in: [false; 2], rx_in: [false; 2], taken_tx: [false; 2], touched_rx: [false; 2] },
                        // the clone of a response shares what the response still holds
                        Msg::Res(r) => Holder { msg: Msg::Res(r.clone()), tx_in: src.tx_in, rx_in: src.rx_in, taken_tx: [false; 2], touched_rx: [false; 2] },
                    };
                    st.msgs[1 - *m as usize] = Some(d);
                }
            }
        }
        st.settle(&when)?;
        for (j, m) in st.msgs.iter().enumerate() {
            match m {
                Some(Holder { msg: Msg::Req(r), taken_tx, .. }) => ck_eq!(r.has_trailers(), taken_tx[0], "has_trailers of {} {}", j, when),
                Some(Holder { msg: Msg::Res(r), taken_tx, touched_rx, .. }) => {
                    ck_eq!(r.has_trailers(), taken_tx[0], "has_trailers of {} {}", j, when);
                    ck_eq!(r.has_upgrade(), taken_tx[1] || touched_rx[1], "has_upgrade of {} {}", j, when);
                }
                None => {}
            }
        }
    }
    classify_if(delivered > 0, "delivered");
    classify_if(gone > 0, "sender gone");
    classify_if(cloned, "cloned");
    classify_if(blocked, "no room");
    Ok(delivered + gone > 0)
}

fn one(s: String) -> BTreeMap<String, Vec<String>> {
    let mut m = BTreeMap::new();
    m.insert(s, vec![]);
    m
}

fn read_all(mut c: Connection) -> BTreeMap<String, Vec<String>> {
    use futures_lite::io::AsyncReadExt;
    let mut v = vec![];
    block_on(c.read_to_end(&mut v)).unwrap();
    one(String::from_utf8(v).unwrap())
}

struct Pipe {
    data: Vec<u8>,
    at: usize,
}
impl Pipe {
    fn new(data: Vec<u8>) -> Pipe {
        Pipe { data, at: 0 }
    }
}
impl AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = buf.len().min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------- connections

/// One call on the connection, and what the stream underneath does with it.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Call {
    Read(u8, Answer),
    Write(Vec<u8>, Answer),
    Flush(Answer),
    Close(Answer),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Answer {
    Wait,
    Fail(u8),
    Take(u8),
}

#[derive(Debug, Clone, PartialEq)]
enum Seen {
    Read(usize),
    Write(Vec<u8>),
    Flush,
    Close,
}

#[derive(Default)]
struct State {
    answer: Option<Answer>,
    seen: Vec<Seen>,
    next: u8,
}
struct Inner(Arc<Mutex<State>>);

fn answer(s: &mut State, cx: &Context<'_>, max: usize) -> Poll<io::Result<usize>> {
    match s.answer.take().expect("one call reaches the stream at most") {
        Answer::Wait => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Answer::Fail(k) => Poll::Ready(Err(io::Error::new(kind(k), format!("e{}", k)))),
        Answer::Take(n) => Poll::Ready(Ok((n as usize).min(max))),
    }
}
fn kind(k: u8) -> io::ErrorKind {
    use io::ErrorKind::*;
    let all = [
        BrokenPipe, UnexpectedEof, Interrupted, WouldBlock, Other, NotConnected, ConnectionReset, ConnectionAborted, ConnectionRefused, TimedOut, WriteZero, InvalidInput,
        InvalidData, NotFound, PermissionDenied, AddrInUse, AddrNotAvailable, AlreadyExists, Unsupported, OutOfMemory,
    ];
    all[k as usize % all.len()]
}

impl AsyncRead for Inner {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(Seen::Read(buf.len()));
        let r = answer(&mut s, cx, buf.len());
        if let Poll::Ready(Ok(n)) = &r {
            for b in &mut buf[..*n] {
                *b = s.next;
                s.next = s.next.wrapping_add(1);
            }
        }
        r
    }
}
impl AsyncWrite for Inner {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(Seen::Write(buf.to_vec()));
        answer(&mut s, cx, buf.len())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(Seen::Flush);
        answer(&mut s, cx, 0).map(|r| r.map(|_| ()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(Seen::Close);
        answer(&mut s, cx, 0).map(|r| r.map(|_| ()))
    }
}

fn check_conn(calls: &Vec<Call>) -> Check {
    let st = Arc::new(Mutex::new(State::default()));
    let mut c = Connection::new(Inner(st.clone()));
    let mut next = 0u8;
    let mut moved = 0;
    for (i, call) in calls.iter().enumerate() {
        let when = format!("in call {} ({:?})", i, call);
        let (a, seen) = match call {
            Call::Read(n, a) => (a, Seen::Read(*n as usize)),
            Call::Write(d, a) => (a, Seen::Write(d.clone())),
            Call::Flush(a) => (a, Seen::Flush),
            Call::Close(a) => (a, Seen::Close),
        };
        st.lock().unwrap().answer = Some(a.clone());
        let (cw, w) = counting_waker();
        let mut cx = Context::from_waker(&w);
        let p = Pin::new(&mut c);
        let (got, max) = match call {
            Call::Read(n, _) => {
                let mut buf = vec![0xee; *n as usize];
                let r = p.poll_read(&mut cx, &mut buf);
                let k = if let Poll::Ready(Ok(k)) = &r { *k } else { 0 };
                for (j, b) in buf.iter().enumerate() {
                    let w = if j < k { next.wrapping_add(j as u8) } else { 0xee };
                    ck_eq!(*b, w, "byte {} of the buffer {}", j, when);
                }
                next = next.wrapping_add(k as u8);
                (r, *n as usize)
            }
            Call::Write(d, _) => (p.poll_write(&mut cx, d), d.len()),
            Call::Flush(_) => (p.poll_flush(&mut cx).map(|r| r.map(|_| 0)), 0),
            Call::Close(_) => (p.poll_close(&mut cx).map(|r| r.map(|_| 0)), 0),
        };
        match (a, got) {
            (Answer::Wait, Poll::Pending) => ck!(cw.0.load(Ordering::SeqCst) > 0, "the caller is not woken {}", when),
            (Answer::Fail(k), Poll::Ready(Err(e))) => ck_eq!((e.kind(), e.to_string()), (kind(*k), format!("e{}", k)), "error {}", when),
            (Answer::Take(n), Poll::Ready(Ok(g))) => {
                ck_eq!(g, (*n as usize).min(max), "count {}", when);
                moved += g;
            }
            (_, got) => fail!("result {:?} {}", got, when),
        }
        let s = std::mem::take(&mut st.lock().unwrap().seen);
        ck_eq!(s, vec![seen], "calls that reach the stream {}", when);
    }
    Ok(moved > 0 && calls.len() > 1)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Race {
    response: bool,
    upgrade: bool,
    /// what the other thread does: send this, or drop its end
    sends: Option<Pairs>,
    /// how long each side dawdles before it begins
    spin: (u16, u16),
    /// the message is dropped by the other thread, first or last
    msg: u8,
    recv_first: bool,
}

struct Park(std::thread::Thread);
impl std::task::Wake for Park {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

/// One thread sends or gives up while another one waits.
fn check_race(r: &Race) -> Check {
    use std::time::{Duration, Instant};
    let mut msg = if r.response { Msg::Res(Response::new(200)) } else { Msg::Req(Request::new(Method::Get, "http://a.b/")) };
    let mut rx = None;
    let mut tx = None;
    for take in [!r.recv_first, r.recv_first] {
        match (&mut msg, take) {
            (Msg::Req(m), true) => tx = Some(Tx::T(m.send_trailers())),
            (Msg::Res(m), true) if r.upgrade => tx = Some(Tx::U(m.send_upgrade())),
            (Msg::Res(m), true) => tx = Some(Tx::T(m.send_trailers())),
            (Msg::Req(m), false) => rx = Some(Rx::T(Box::pin(m.recv_trailers()))),
            (Msg::Res(m), false) if r.upgrade => rx = Some(Rx::U(Box::pin(block_on(m.recv_upgrade())))),
            (Msg::Res(m), false) => rx = Some(Rx::T(Box::pin(m.recv_trailers()))),
        }
    }
    let (tx, mut rx) = (tx.unwrap(), rx.unwrap());
    let spin = |n: u16| (0..n % 4096).for_each(|_| std::hint::spin_loop());
    let (sends, late, first) = (r.sends.clone(), r.spin.1, r.msg % 2 == 0);
    let go = Arc::new(std::sync::atomic::AtomicU8::new(0));
    let start = go.clone();
    let other = std::thread::spawn(move || {
        let mut msg = Some(msg);
        // begin together, as far as the machine allows it
        start.store(1, Ordering::SeqCst);
        for _ in 0..100_000 {
            if start.load(Ordering::SeqCst) == 2 {
                break;
            }
            std::hint::spin_loop();
        }
        (0..late % 4096).for_each(|_| std::hint::spin_loop());
        if first {
            msg = None;
        }
        match (tx, sends) {
            (Tx::T(t), Some(p)) => block_on(t.send(build(&p))),
            (Tx::U(t), Some(p)) => {
                let bytes: Vec<u8> = p.iter().flat_map(|(n, v)| [n.as_bytes(), v.as_bytes()].concat()).collect();
                block_on(t.send(Connection::new(futures_lite::io::Cursor::new(bytes))))
            }
            (tx, None) => drop(tx),
        }
        drop(msg);
    });
    let waker: std::task::Waker = Arc::new(Park(std::thread::current())).into();
    let mut cx = Context::from_waker(&waker);
    for _ in 0..100_000 {
        if go.load(Ordering::SeqCst) == 1 {
            break;
        }
        std::hint::spin_loop();
    }
    go.store(2, Ordering::SeqCst);
    spin(r.spin.0);
    let mut waited = false;
    let mut other = Some(other);
    let begun = Instant::now();
    let got: Option<Result<BTreeMap<String, Vec<String>>, Vec<u8>>> = loop {
        let p = match &mut rx {
            Rx::T(f) => f.as_mut().poll(&mut cx).map(|t| t.map(|t| Ok(dump(&t)))),
            Rx::U(f) => f.as_mut().poll(&mut cx).map(|c| {
                c.map(|mut c| {
                    let mut b = vec![];
                    block_on(futures_lite::AsyncReadExt::read_to_end(&mut c, &mut b)).expect("reading a cursor");
                    Err(b)
                })
            }),
        };
        match p {
            Poll::Ready(v) => break v,
            Poll::Pending => {
                waited = true;
                // a token left by someone else only costs one more poll
                let since = Instant::now();
                std::thread::park_timeout(Duration::from_secs(20));
                if since.elapsed() >= Duration::from_secs(20) {
                    // the other side had all the time: poll once more without having been woken to tell what is wrong
                    let done = other.as_ref().map_or(true, |t| t.is_finished());
                    ck!(!done, "the receiver waits although the other side is done, for {:?}", begun.elapsed());
                    ck!(begun.elapsed() < Duration::from_secs(120), "the other side does not finish");
                }
            }
        }
    };
    if let Some(t) = other.take() {
        t.join().map_err(|_| Fail::new("the sending thread panicked"))?;
    }
    match (&r.sends, got) {
        (Some(p), Some(Ok(m))) => ck_eq!(m, want(p), "trailers"),
        (Some(p), Some(Err(b))) => ck_eq!(b, p.iter().flat_map(|(n, v)| [n.as_bytes(), v.as_bytes()].concat()).collect::<Vec<u8>>(), "what the connection gives"),
        (None, None) => {}
        (s, g) => fail!("sent {:?}, received {:?}", s, g),
    }
    classify(if waited { "waited" } else { "at once" });
    Ok(waited)
}

fn main() {
    let pairs = || vec((prop_oneof![gen::re("[a-cA-C]{1,2}"), gen::token()], gen::ascii_text(4)), 0..4);
    let ch = || proptest::bool::weighted(0.3);
    let second = || proptest::bool::weighted(0.35);
    let op = move || {
        prop_oneof![
            16 => (ch(), second()).prop_map(|(b, m)| Op::TakeSender(b, m)),
            16 => (ch(), second()).prop_map(|(b, m)| Op::TakeReceiver(b, m)),
            20 => (ch(), pairs()).prop_map(|(b, p)| Op::StartSend(b, p)),
            20 => ch().prop_map(Op::PollSend),
            2 => ch().prop_map(Op::DropSend),
            20 => ch().prop_map(Op::PollRecv),
            2 => ch().prop_map(Op::DropRecv),
            3 => any::<bool>().prop_map(Op::DropMsg),
            3 => second().prop_map(Op::CloneMsg),
        ]
    };
    let ans = || prop_oneof![1 => Just(Answer::Wait), 1 => (0u8..20).prop_map(Answer::Fail), 3 => (0u8..12).prop_map(Answer::Take)];
    let call = move || {
        prop_oneof![
            3 => (0u8..12, ans()).prop_map(|(n, a)| Call::Read(n, a)),
            3 => (vec(any::<u8>(), 0..12), ans()).prop_map(|(d, a)| Call::Write(d, a)),
            1 => ans().prop_map(Call::Flush),
            1 => ans().prop_map(Call::Close),
        ]
    };
    pbt::fw::main("C19", vec![
        law("channels", "orders of taking the ends of the trailers and upgrade channels of a message, sending, polling and dropping either end or the message, cloning the message, with wake-ups counted; non-trivial: something was delivered, or a receiver was told that nothing will come", 80_000, 4_000_000,
            move || (any::<bool>(), proptest::bool::weighted(0.3), vec(op(), 1..26)).prop_map(|(response, twice, mut ops)| {
                if twice {
                    ops.insert(0, Op::CloneMsg(false));
                }
                Hist { response, ops }
            }), check),
        law("connection", "calls on an upgraded connection and what the stream underneath answers; non-trivial: at least two calls, and bytes moved", 40_000, 1_000_000,
            move || vec(call(), 1..8), check_conn),
        law("threads", "one thread waits for trailers or an upgrade while another sends or gives up; non-trivial: the receiver had to wait", 2_000, 60_000,
            move || (any::<bool>(), any::<bool>(), proptest::option::weighted(0.7, pairs()), (any::<u16>(), any::<u16>()), any::<u8>(), any::<bool>())
                .prop_map(|(response, upgrade, sends, spin, msg, recv_first)| Race { response, upgrade, sends, spin, msg, recv_first }), check_race),
    ]);
}
