//! A simulated reader: it delivers known bytes following a schedule of short reads, `Pending`, and errors, and records
//! what it was asked for.
use std::io::{self, ErrorKind};
#[cfg(feature = "io")]
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Act {
    /// deliver at most this many bytes
    Read(usize),
    Pend,
    Fail(ErrorKind),
}

/// What a reader may fail with
pub const KINDS: [ErrorKind; 16] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
];

pub struct Sim {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Vec<Act>,
    pub at: usize,
    /// reads which were asked for no byte at all
    pub empty_asks: u64,
    pub reads: u64,
    pub pends: u64,
    pub fails: u64,
    pub ends: u64,
    /// `Pending` was answered to something else than the waker of the task
    pub foreign_wakers: u64,
    pub events: u64,
    pub written: Vec<u8>,
    pub flushes: u64,
    pub shutdowns: u64,
}

impl Sim {
    pub fn new(data: Vec<u8>, plan: Vec<Act>) -> Sim {
        Sim { data, pos: 0, plan, at: 0, empty_asks: 0, reads: 0, pends: 0, fails: 0, ends: 0, foreign_wakers: 0, events: 0, written: vec![], flushes: 0, shutdowns: 0 }
    }
    /// The next act; after the schedule everything is delivered.
    fn act(&mut self) -> Act {
        self.events += 1;
        if self.events > 100_000 {
            panic!("the reader is read without end");
        }
        let a = self.plan.get(self.at).cloned().unwrap_or(Act::Read(usize::MAX));
        self.at += 1;
        a
    }
    fn deliver(&mut self, buf: &mut [u8], max: usize) -> usize {
        if buf.is_empty() {
            self.empty_asks += 1;
        }
        let n = max.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.reads += 1;
        self.ends += (n == 0) as u64;
        n
    }
    pub fn sync(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        loop {
            match self.act() {
                Act::Read(n) => return Ok(self.deliver(buf, n)),
                Act::Pend => continue,
                Act::Fail(k) => {
                    self.fails += 1;
                    return Err(io::Error::new(k, "simulated"));
                }
            }
        }
    }
    /// What is done to the writing side
    pub fn poll_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.act() {
            Act::Read(n) => {
                let n = n.min(buf.len());
                self.written.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            Act::Pend => {
                self.pends += 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail(k) => {
                self.fails += 1;
                Poll::Ready(Err(io::Error::new(k, "simulated")))
            }
        }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.act() {
            Act::Read(n) => Poll::Ready(Ok(self.deliver(buf, n))),
            Act::Pend => {
                self.pends += 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail(k) => {
                self.fails += 1;
                Poll::Ready(Err(io::Error::new(k, "simulated")))
            }
        }
    }
}

impl io::Read for Sim {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.sync(buf)
    }
}

#[cfg(feature = "io")]
mod async_impls {
    use super::*;
    impl futures::io::AsyncRead for Sim {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            self.get_mut().poll(cx, buf)
        }
    }
    impl tokio_02_dep::io::AsyncRead for Sim {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            self.get_mut().poll(cx, buf)
        }
    }
    macro_rules! write {
        ($krate: ident) => {
            impl $krate::io::AsyncWrite for Sim {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    Sim::poll_write(self.get_mut(), cx, buf)
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    let me = self.get_mut();
                    me.flushes += 1;
                    Sim::poll_write(me, cx, &[]).map(|r| r.map(|_| ()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    let me = self.get_mut();
                    me.shutdowns += 1;
                    Sim::poll_write(me, cx, &[]).map(|r| r.map(|_| ()))
                }
            }
        };
    }
    write!(tokio_02_dep);
    write!(tokio_03_dep);
    write!(tokio_dep);
    impl tokio_03_dep::io::AsyncRead for Sim {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut tokio_03_dep::io::ReadBuf<'_>,
        ) -> Poll<io::Result<()>> {
            let n = match self.get_mut().poll(cx, buf.initialize_unfilled()) {
                Poll::Ready(r) => r?,
                Poll::Pending => return Poll::Pending,
            };
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
    }
    impl tokio_dep::io::AsyncRead for Sim {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut tokio_dep::io::ReadBuf<'_>,
        ) -> Poll<io::Result<()>> {
            let n = match self.get_mut().poll(cx, buf.initialize_unfilled()) {
                Poll::Ready(r) => r?,
                Poll::Pending => return Poll::Pending,
            };
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
    }
}

/// Counts the wake-ups of a task
pub struct Woken(pub AtomicU64);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

/// Polls a future until it is ready; each `Pending` must have been preceded by a wake-up (otherwise the task would hang).
/// Gives up (dropping the future) after `patience` polls.
pub fn drive<F: std::future::Future>(f: F, patience: usize, polls: &mut u64) -> Option<F::Output> {
    let woken = Arc::new(Woken(AtomicU64::new(0)));
    let waker = Waker::from(woken.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    for _ in 0..patience {
        let before = woken.0.load(Ordering::Relaxed);
        *polls += 1;
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending => {
                assert!(
                    woken.0.load(Ordering::Relaxed) > before,
                    "pending although nothing will wake the task"
                )
            }
        }
    }
    None
}
