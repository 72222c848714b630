//! Harness-owned I/O: a reader that follows a script, and a driver that polls by a schedule.
use futures_lite::io::{AsyncBufRead, AsyncRead};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Every stable kind of I/O error.
pub const IO_KINDS: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
        AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
        HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle,
        StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename,
        ArgumentListTooLong,
    ]
};

pub const ERR_TEXT: &str = "scripted failure";

/// What a scripted reader does: deliver `data` in pieces, sometimes not being ready, and
/// fail when `err_at` bytes have been delivered.
#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Script {
    pub data: Vec<u8>,
    /// piece sizes, used cyclically (0 counts as 1)
    pub chunks: Vec<u32>,
    /// pending[i]: the i-th poll (cyclically) is not ready
    pub pending: Vec<bool>,
    pub err_at: Option<usize>,
    /// index of the failure's kind
    #[serde(default)]
    pub err_kind: u8,
}

impl Script {
    pub fn kind(&self) -> io::ErrorKind {
        use io::ErrorKind::*;
        // Interrupted and WouldBlock are not errors for an asynchronous reader
        const K: [io::ErrorKind; 18] = [
            ConnectionReset, UnexpectedEof, InvalidData, InvalidInput, TimedOut, BrokenPipe, Other, PermissionDenied, WriteZero, NotFound,
            ConnectionAborted, Unsupported, NotConnected, ConnectionRefused, AddrInUse, AddrNotAvailable, AlreadyExists, OutOfMemory,
        ];
        K[self.err_kind as usize % K.len()]
    }
}

pub struct ScriptReader {
    s: Script,
    pos: usize,
    cur: usize, // end of the current piece
    ci: usize,
    pi: usize,
    just_pended: bool,
}

impl ScriptReader {
    pub fn new(s: Script) -> Self {
        ScriptReader { s, pos: 0, cur: 0, ci: 0, pi: 0, just_pended: false }
    }
    fn gate(&mut self, cx: &mut Context<'_>) -> bool {
        // never two refusals in a row, so every schedule makes progress
        if self.just_pended || self.s.pending.is_empty() {
            self.just_pended = false;
            return true;
        }
        let p = self.s.pending[self.pi % self.s.pending.len()];
        self.pi += 1;
        if p {
            self.just_pended = true;
            cx.waker().wake_by_ref();
            return false;
        }
        true
    }
    fn limit(&self) -> usize {
        self.s.err_at.map_or(self.s.data.len(), |e| e.min(self.s.data.len()))
    }
    fn piece(&mut self) {
        if self.cur <= self.pos {
            let c = if self.s.chunks.is_empty() {
                usize::MAX
            } else {
                (self.s.chunks[self.ci % self.s.chunks.len()] as usize).max(1)
            };
            self.ci += 1;
            self.cur = self.pos.saturating_add(c).min(self.limit());
        }
    }
    fn failing(&self) -> bool {
        matches!(self.s.err_at, Some(e) if self.pos >= e.min(self.s.data.len()))
    }
}

impl AsyncRead for ScriptReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if !self.gate(cx) {
            return Poll::Pending;
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.failing() {
            return Poll::Ready(Err(io::Error::new(self.s.kind(), ERR_TEXT)));
        }
        self.piece();
        let n = (self.cur - self.pos).min(buf.len());
        let p = self.pos;
        buf[..n].copy_from_slice(&self.s.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}

impl AsyncBufRead for ScriptReader {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if !this.gate(cx) {
            return Poll::Pending;
        }
        if this.failing() {
            return Poll::Ready(Err(io::Error::new(this.s.kind(), ERR_TEXT)));
        }
        this.piece();
        Poll::Ready(Ok(&this.s.data[this.pos..this.cur]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        assert!(amt <= self.cur - self.pos, "consumed more than was buffered");
        self.pos += amt;
    }
}

#[derive(Default)]
pub struct CountWake(pub AtomicUsize);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn counting_waker() -> (Arc<CountWake>, Waker) {
    let c = Arc::new(CountWake::default());
    (c.clone(), Waker::from(c))
}

/// Polls a future to completion; a future that is pending without having woken us is stuck.
pub fn drive<F: Future>(fut: F) -> Result<F::Output, String> {
    let mut fut = Box::pin(fut);
    let (c, w) = counting_waker();
    let mut cx = Context::from_waker(&w);
    let mut seen = 0;
    loop {
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {
                let n = c.0.load(Ordering::SeqCst);
                if n == seen {
                    return Err("pending without a wake-up: the reader would hang".into());
                }
                seen = n;
            }
        }
    }
}

/// One step of a read schedule.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ROp {
    /// poll_read with a buffer of this size
    Read(u32),
    /// poll_fill_buf, then consume at most this many bytes
    Fill(u32),
    /// poll_fill_buf, consume nothing
    Peek,
}

#[derive(Debug, PartialEq, Clone)]
pub enum End {
    Eof,
    Error(io::ErrorKind, String),
    /// stopped by the schedule before the end
    Stopped,
}

/// Runs the schedule (cyclically if `to_end`) and returns the bytes delivered and how it ended.
pub fn run_schedule<R: AsyncBufRead + Unpin>(r: &mut R, ops: &[ROp], to_end: bool) -> Result<(Vec<u8>, End), String> {
    let mut out = vec![];
    let mut i = 0;
    let mut idle = 0;
    loop {
        if i >= ops.len() && !to_end {
            return Ok((out, End::Stopped));
        }
        let op = if ops.is_empty() { ROp::Read(16) } else { ops[i % ops.len()].clone() };
        i += 1;
        // a schedule of peeks alone would never get anywhere
        let op = if idle > ops.len() + 2 { ROp::Read(7) } else { op };
        match op {
            ROp::Read(n) => {
                let mut buf = vec![0xAA; n as usize];
                let got = drive(futures_lite::future::poll_fn(|cx| Pin::new(&mut *r).poll_read(cx, &mut buf)))?;
                match got {
                    Ok(0) if n > 0 => return Ok((out, End::Eof)),
                    Ok(k) => {
                        if k > n as usize {
                            return Err(format!("read of {} bytes reports {}", n, k));
                        }
                        idle = if k == 0 { idle + 1 } else { 0 };
                        out.extend_from_slice(&buf[..k]);
                        if buf[k..].iter().any(|b| *b != 0xAA) {
                            return Err("bytes were written past the reported count".into());
                        }
                    }
                    Err(e) => return Ok((out, End::Error(e.kind(), e.to_string()))),
                }
            }
            ROp::Fill(_) | ROp::Peek => {
                let take = if let ROp::Fill(n) = op { n as usize } else { 0 };
                let got = drive(futures_lite::future::poll_fn(|cx| {
                    Pin::new(&mut *r).poll_fill_buf(cx).map(|x| x.map(|b| b.to_vec()))
                }))?;
                match got {
                    Ok(b) if b.is_empty() => return Ok((out, End::Eof)),
                    Ok(b) => {
                        let k = take.min(b.len());
                        idle = if k == 0 { idle + 1 } else { 0 };
                        out.extend_from_slice(&b[..k]);
                        Pin::new(&mut *r).consume(k);
                    }
                    Err(e) => return Ok((out, End::Error(e.kind(), e.to_string()))),
                }
            }
        }
    }
}
