//! C16, the part with raw buffers: readers which lie, look, replace their buffer or panic half way. Meant for Miri,
//! but the bytes are checked in any case.
use combine::stream::buf_reader::{BufReader, Buffer, Bufferless, CombineAsyncRead, CombineBuffer, CombineRead, CombineSyncRead};
use std::future::Future;
use std::io::{self, BufRead as _, ErrorKind, Read as _};
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};
use vcore::{rng::Rng, run::*};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trick {
    Good(usize),
    /// reads what is in the buffer first
    Peek(usize),
    /// claims more than the buffer can hold
    Lie(usize),
    /// replaces the `ReadBuf` by another one with this much in it
    Swap(usize),
    /// panics after having written some bytes
    Panic(usize),
    Pend,
    Fail,
}

struct Hostile {
    pos: usize,
    len: usize,
    plan: Vec<Trick>,
    at: usize,
    /// what was properly delivered
    given: Vec<u8>,
    peeked: u64,
    tricks: u64,
}

fn byte(i: usize) -> u8 {
    (i * 7 + 1) as u8
}

impl Hostile {
    fn next(&mut self) -> Trick {
        let t = self.plan.get(self.at).cloned().unwrap_or(Trick::Good(usize::MAX));
        self.at += 1;
        self.tricks += matches!(t, Trick::Lie(_) | Trick::Swap(_) | Trick::Panic(_)) as u64;
        t
    }
    fn fill(&mut self, buf: &mut [u8], n: usize) -> usize {
        let n = n.min(buf.len()).min(self.len - self.pos);
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = byte(self.pos + i)
        }
        self.pos += n;
        n
    }
    fn give(&mut self, buf: &mut [u8], n: usize) -> usize {
        let n = self.fill(buf, n);
        self.given.extend_from_slice(&buf[..n]);
        n
    }
    /// For the interfaces with plain slices
    fn slice(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.next() {
            Trick::Good(n) => Poll::Ready(Ok(self.give(buf, n))),
            Trick::Peek(n) => {
                // the buffer may hold anything, but something
                self.peeked += buf.iter().map(|b| *b as u64 & 1).sum::<u64>();
                Poll::Ready(Ok(self.give(buf, n)))
            }
            Trick::Lie(n) | Trick::Swap(n) => {
                self.fill(buf, 1);
                Poll::Ready(Ok(buf.len() + 1 + n))
            }
            Trick::Panic(n) => {
                self.fill(buf, n);
                panic!("the reader panics")
            }
            Trick::Pend => Poll::Pending,
            Trick::Fail => Poll::Ready(Err(io::Error::new(ErrorKind::Other, "simulated"))),
        }
    }
}

impl io::Read for Hostile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        loop {
            if let Poll::Ready(r) = self.slice(buf) {
                return r;
            }
        }
    }
}
impl futures::io::AsyncRead for Hostile {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.get_mut().slice(buf)
    }
}
impl tokio_02_dep::io::AsyncRead for Hostile {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.get_mut().slice(buf)
    }
}
macro_rules! read_buf {
    ($krate: ident) => {
        impl $krate::io::AsyncRead for Hostile {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut $krate::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
                let me = self.get_mut();
                let mut tmp = [0; 64];
                let room = buf.remaining().min(64);
                match me.next() {
                    Trick::Good(n) | Trick::Lie(n) => {
                        let n = me.give(&mut tmp[..room], n);
                        buf.put_slice(&tmp[..n]);
                    }
                    Trick::Peek(n) => {
                        // only the filled part may be looked at
                        me.peeked += buf.filled().len() as u64;
                        let n = me.give(&mut tmp[..room], n);
                        buf.initialize_unfilled_to(n)[..n].copy_from_slice(&tmp[..n]);
                        buf.advance(n);
                    }
                    Trick::Swap(n) => {
                        // not a lie of the type system: this is a `ReadBuf` like any other
                        let other = Box::leak(vec![0xEE; n.min(room).max(1)].into_boxed_slice());
                        let k = other.len();
                        *buf = $krate::io::ReadBuf::new(other);
                        buf.advance(k);
                    }
                    Trick::Panic(n) => {
                        let n = me.fill(&mut tmp[..room], n);
                        buf.put_slice(&tmp[..n]);
                        panic!("the reader panics")
                    }
                    Trick::Pend => return Poll::Pending,
                    Trick::Fail => return Poll::Ready(Err(io::Error::new(ErrorKind::Other, "simulated"))),
                }
                Poll::Ready(Ok(()))
            }
        }
    };
}
read_buf!(tokio_03_dep);
read_buf!(tokio_dep);

struct Nop;
impl Wake for Nop {
    fn wake(self: std::sync::Arc<Self>) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read(usize),
    Fill(usize),
    Extend,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Api {
    Sync,
    Tokio02,
    Tokio03,
    Tokio,
    /// the internal buffer of a decoder
    BufSync,
    BufFutures,
    BufTokio02,
    BufTokio03,
    BufTokio,
    /// `extend_buf` on an external buffer
    Futures,
}
const APIS: &[Api] = &[
    Api::Sync, Api::Tokio02, Api::Tokio03, Api::Tokio, Api::BufSync, Api::BufFutures, Api::BufTokio02, Api::BufTokio03,
    Api::BufTokio, Api::Futures,
];

#[derive(Default)]
struct Seen {
    bytes: u64,
    panics: u64,
    tricks: u64,
    pends: u64,
    errors: u64,
}

fn run(api: Api, cap: usize, len: usize, plan: &[Trick], ops: &[Op], seen: &mut Seen) -> Result<(), String> {
    let h = Hostile { pos: 0, len, plan: plan.to_vec(), at: 0, given: vec![], peeked: 0, tricks: 0 };
    let waker = Waker::from(std::sync::Arc::new(Nop));
    let mut cx = Context::from_waker(&waker);
    let mut got: Vec<u8> = vec![];
    let mut step = |r: Result<Poll<io::Result<Vec<u8>>>, String>, got: &mut Vec<u8>| match r {
        Ok(Poll::Ready(Ok(v))) => got.extend(v),
        Ok(Poll::Ready(Err(_))) => seen.errors += 1,
        Ok(Poll::Pending) => seen.pends += 1,
        Err(_) => seen.panics += 1,
    };
    let (given, tricks);
    macro_rules! buf_reader {
        ($read: ident, $fill: ident, $extend: expr) => {{
            let mut r = BufReader::with_capacity(cap, h);
            for op in ops {
                let x = guard(|| match *op {
                    Op::Read(n) => $read(&mut r, n, &mut cx),
                    Op::Fill(n) => $fill(&mut r, n, &mut cx),
                    Op::Extend => {
                        let e: fn(&mut BufReader<Hostile>, &mut Context<'_>) -> Poll<io::Result<usize>> = $extend;
                        e(&mut r, &mut cx).map(|r| r.map(|_| vec![]))
                    }
                });
                step(x, &mut got)
            }
            got.extend_from_slice(r.buffer());
            let h = r.into_inner();
            given = h.given;
            tricks = h.tricks;
        }};
    }
    macro_rules! buffer {
        ($e: expr) => {{
            let (mut b, mut h) = (Buffer::default(), h);
            for op in ops {
                let x = guard(|| {
                    let e: fn(&mut Buffer, &mut Hostile, &mut Context<'_>) -> Poll<io::Result<usize>> = $e;
                    e(&mut b, &mut h, &mut cx).map(|r| {
                        r.map(|_| match op {
                            Op::Extend => vec![],
                            Op::Read(n) | Op::Fill(n) => {
                                let v: Vec<u8> = b.buffer(&h).iter().take(*n).cloned().collect();
                                b.advance(&mut h, v.len());
                                v
                            }
                        })
                    })
                });
                step(x, &mut got)
            }
            got.extend_from_slice(b.buffer(&h));
            given = h.given;
            tricks = h.tricks;
        }};
    }
    match api {
        Api::Sync => {
            fn read(r: &mut BufReader<Hostile>, n: usize, _: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let mut v = vec![0; n];
                Poll::Ready(r.read(&mut v).map(|n| v[..n].to_vec()))
            }
            fn fill(r: &mut BufReader<Hostile>, n: usize, _: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let v = match r.fill_buf() {
                    Ok(b) => b[..n.min(b.len())].to_vec(),
                    Err(e) => return Poll::Ready(Err(e)),
                };
                r.consume(v.len());
                Poll::Ready(Ok(v))
            }
            buf_reader!(read, fill, |r, _| Poll::Ready(Bufferless.extend_buf_sync(r)))
        }
        Api::Tokio02 => {
            use tokio_02_dep::io::{AsyncBufRead, AsyncRead};
            fn read(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let mut v = vec![0; n];
                Pin::new(r).poll_read(cx, &mut v).map(|r| r.map(|n| v[..n].to_vec()))
            }
            fn fill(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let v = match Pin::new(&mut *r).poll_fill_buf(cx) {
                    Poll::Ready(Ok(b)) => b[..n.min(b.len())].to_vec(),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                };
                Pin::new(r).consume(v.len());
                Poll::Ready(Ok(v))
            }
            buf_reader!(read, fill, |r, cx| CombineRead::<_, dyn tokio_02_dep::io::AsyncRead>::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
        }
        Api::Tokio03 => {
            use tokio_03_dep::io::{AsyncBufRead, AsyncRead, ReadBuf};
            fn read(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let mut v = vec![std::mem::MaybeUninit::uninit(); n];
                let mut b = ReadBuf::uninit(&mut v);
                Pin::new(r).poll_read(cx, &mut b).map(|r| r.map(|()| b.filled().to_vec()))
            }
            fn fill(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let v = match Pin::new(&mut *r).poll_fill_buf(cx) {
                    Poll::Ready(Ok(b)) => b[..n.min(b.len())].to_vec(),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                };
                Pin::new(r).consume(v.len());
                Poll::Ready(Ok(v))
            }
            buf_reader!(read, fill, |r, cx| CombineRead::<_, dyn tokio_03_dep::io::AsyncRead>::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
        }
        Api::Tokio => {
            use tokio_dep::io::{AsyncBufRead, AsyncRead, ReadBuf};
            fn read(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let mut v = vec![std::mem::MaybeUninit::uninit(); n];
                let mut b = ReadBuf::uninit(&mut v);
                Pin::new(r).poll_read(cx, &mut b).map(|r| r.map(|()| b.filled().to_vec()))
            }
            fn fill(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let v = match Pin::new(&mut *r).poll_fill_buf(cx) {
                    Poll::Ready(Ok(b)) => b[..n.min(b.len())].to_vec(),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                };
                Pin::new(r).consume(v.len());
                Poll::Ready(Ok(v))
            }
            buf_reader!(read, fill, |r, cx| CombineRead::<_, dyn tokio_dep::io::AsyncRead>::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
        }
        Api::Futures => {
            fn read(r: &mut BufReader<Hostile>, n: usize, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                let mut b = Bufferless;
                let x = Pin::new(&mut b.extend_buf(Pin::new(r))).poll(cx);
                x.map(|x| {
                    x.map(|_| {
                        let v: Vec<u8> = Bufferless.buffer(r).iter().take(n).cloned().collect();
                        Bufferless.advance(r, v.len());
                        v
                    })
                })
            }
            buf_reader!(read, read, |r, cx| CombineAsyncRead::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
        }
        Api::BufSync => buffer!(|b, h, _| Poll::Ready(b.extend_buf_sync(h))),
        Api::BufFutures => buffer!(|b, h, cx| Pin::new(&mut b.extend_buf(Pin::new(h))).poll(cx)),
        Api::BufTokio02 => buffer!(|b, h, cx| CombineRead::<_, dyn tokio_02_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(h))),
        Api::BufTokio03 => buffer!(|b, h, cx| CombineRead::<_, dyn tokio_03_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(h))),
        Api::BufTokio => buffer!(|b, h, cx| CombineRead::<_, dyn tokio_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(h))),
    }
    seen.bytes += got.len() as u64;
    seen.tricks += tricks;
    if got != given {
        return Err(format!("delivered {:?}, but the reader gave {:?}", got, given));
    }
    Ok(())
}

fn case(c: u64, r: &mut Rng, t: &mut Tally) {
    let api = APIS[c as usize % APIS.len()];
    let cap = *r.pick(&[0, 1, 3, 8, 17, 64, 100]);
    let len = r.range(0, 60);
    let n = r.range(1, 10);
    let plan: Vec<Trick> = (0..r.range(0, 8))
        .map(|_| match r.below(8) {
            0..=1 => Trick::Good(r.range(0, 9)),
            2 => Trick::Peek(r.range(0, 9)),
            3 => Trick::Lie(r.range(0, 9)),
            4 => Trick::Swap(r.range(0, 40)),
            5 => Trick::Panic(r.range(0, 9)),
            6 => Trick::Pend,
            _ => Trick::Fail,
        })
        .collect();
    let ops: Vec<Op> = (0..n)
        .map(|_| match r.below(3) {
            0 => Op::Read(*r.pick(&[0, 1, 2, 5, 70])),
            1 => Op::Fill(*r.pick(&[0, 1, 2, 5, 70])),
            _ => Op::Extend,
        })
        .collect();
    let mut seen = Seen::default();
    t.evals += 1;
    let res = guard(|| run(api, cap, len, &plan, &ops, &mut seen)).unwrap_or_else(Err);
    t.hit(&format!("{:?}", api));
    for (k, n) in [("bytes", seen.bytes), ("panics", seen.panics), ("tricks", seen.tricks), ("pending", seen.pends), ("errors", seen.errors)] {
        t.add(k, n)
    }
    t.saw(&format!("{:?} {} {} {:?} {:?}", api, cap, len, plan, ops));
    t.sample(|| format!("{:?}, capacity {}, {:?} through {:?}", api, cap, ops, plan));
    if let Err(e) = res {
        t.violation(format!("{:?} with capacity {}, a reader doing {:?}, used by {:?}: {}", api, cap, plan, ops, e));
    }
}

fn main() {
    let ctx = Ctx::new("C16");
    ctx.par("readers", 60_000, 2_000_000, (20, 300), |r, c, t| case(c, r, t));
    ctx.finish(
        "the buffers of BufReader and Decoder over a reader that lies about what it read, looks into the buffer it is given, replaces it, panics half way, pends or fails: the bytes delivered are those the reader gave (and Miri watches the buffers); distinct: (interface, capacity, reader, operations)",
        &[("evaluations", 10_000), ("panics", 3_000), ("tricks", 10_000), ("bytes", 10_000)],
    )
}
