//! C19: `BufReader` (and the buffer of `Decoder`) deliver exactly what the wrapped reader gave, under any mix of operations.
use combine::parser::combinator::{any_send_partial_state, AnySendPartialState};
use combine::parser::range;
use combine::stream::buf_reader::{BufReader, Buffer, Bufferless, CombineAsyncRead, CombineBuffer, CombineRead, CombineSyncRead};
use combine::stream::decoder::Decoder;
use combine::stream::{MaybePartialStream, PointerOffset};
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03, Parser};
use std::future::Future;
use std::io::{self, ErrorKind, IoSliceMut};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use vcore::{rng::Rng, run::*, sim::*};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Read(usize),
    /// into a buffer which already holds this much
    Append(usize, usize),
    Vectored(usize, usize),
    Fill,
    /// this share, in sixteenths, of what is buffered
    Consume(usize),
    Extend,
    /// takes a message of this length out of it
    Decode(usize),
    Exact(usize),
    Until(u8),
    ToEnd,
    Write(usize),
    Flush,
    Shutdown,
    /// the reader itself
    Peer,
}

/// What an operation returned
#[derive(Debug)]
enum Ret {
    Bytes(Vec<u8>),
    N(usize),
    /// not an operation of this interface
    No,
    /// many operations rolled into one: the bytes taken
    Took(Vec<u8>),
    Short,
}
type X = Poll<io::Result<Ret>>;

trait Rd {
    fn op(&mut self, op: Op, cx: &mut Context<'_>) -> X;
    fn buffer(&self) -> Vec<u8>;
    fn sim(&self) -> &Sim;
    fn into_sim(self: Box<Self>) -> Sim;
}

fn ok(r: Ret) -> X {
    Poll::Ready(Ok(r))
}
fn data(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 13 + 5) as u8).collect()
}

macro_rules! parse {
    ($k: expr) => {
        any_send_partial_state(range::take($k).map(|b: &[u8]| b.to_vec()))
    };
}
type Dec = Decoder<AnySendPartialState, PointerOffset<[u8]>, Bufferless>;

/// Polls until it is ready; every now and then the future is dropped and made again
macro_rules! stubborn {
    ($fut: expr) => {{
        let mut polls = 0;
        let mut tries = 0;
        loop {
            tries += 1;
            match drive($fut, 3, &mut polls) {
                Some(Ok(v)) => break ok(Ret::Took(v)),
                _ if tries > 200 => panic!("no progress"),
                _ => {}
            }
        }
    }};
}

struct SyncRd(BufReader<Sim>);
impl Rd for SyncRd {
    fn op(&mut self, op: Op, _: &mut Context<'_>) -> X {
        use std::io::{BufRead, Read};
        let mut r = &mut self.0;
        Poll::Ready(match op {
            Op::Read(n) => {
                let mut v = vec![0xAA; n];
                r.read(&mut v).map(|n| Ret::Bytes(v[..n].to_vec()))
            }
            Op::Append(..) | Op::Write(_) | Op::Flush | Op::Shutdown => Ok(Ret::No),
            Op::Vectored(a, b) => {
                let (mut v, mut w) = (vec![0xAA; a], vec![0xAA; b]);
                r.read_vectored(&mut [IoSliceMut::new(&mut v), IoSliceMut::new(&mut w)]).map(|n| {
                    v.extend(w);
                    Ret::Bytes(v[..n].to_vec())
                })
            }
            Op::Fill => r.fill_buf().map(|b| Ret::Bytes(b.to_vec())),
            Op::Consume(n) => {
                r.consume(n);
                Ok(Ret::N(n))
            }
            Op::Extend => Bufferless.extend_buf_sync(r).map(Ret::N),
            Op::Decode(k) => {
                let mut d: Dec = Decoder::new_bufferless();
                for _ in 0..200 {
                    if let Ok(v) = decode!(d, r, parse!(k), |i: MaybePartialStream<_>, _| i) {
                        return ok(Ret::Took(v));
                    }
                }
                panic!("no progress")
            }
            Op::Exact(n) => {
                let mut v = vec![0; n];
                match r.read_exact(&mut v) {
                    Ok(()) => Ok(Ret::Took(v)),
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof => Ok(Ret::Short),
                    Err(e) => Err(e),
                }
            }
            Op::Until(b) => {
                let mut v = vec![];
                let n = r.read_until(b, &mut v)?;
                assert_eq!(n, v.len());
                Ok(Ret::Took(v))
            }
            Op::ToEnd => {
                let mut v = vec![];
                r.read_to_end(&mut v)?;
                Ok(Ret::Took(v))
            }
            Op::Peer => Ok(Ret::N(r.get_mut().pos)),
        })
    }
    fn buffer(&self) -> Vec<u8> {
        self.0.buffer().to_vec()
    }
    fn sim(&self) -> &Sim {
        self.0.get_ref()
    }
    fn into_sim(self: Box<Self>) -> Sim {
        self.0.into_inner()
    }
}

macro_rules! comfort {
    (tokio_03_dep, $r: expr, $op: expr) => {
        ok(Ret::No)
    };
    ($krate: ident, $r: expr, $op: expr) => {{
        use $krate::io::{AsyncBufReadExt, AsyncReadExt};
        match $op {
            Op::Exact(n) => {
                let mut v = vec![0; n];
                let mut polls = 0;
                let x = drive($r.read_exact(&mut v), 100_000, &mut polls).expect("no progress");
                match x {
                    Ok(_) => ok(Ret::Took(v)),
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof => ok(Ret::Short),
                    Err(e) => Poll::Ready(Err(e)),
                }
            }
            Op::Until(b) => {
                let mut v = vec![];
                let mut polls = 0;
                let n = drive($r.read_until(b, &mut v), 100_000, &mut polls).expect("no progress")?;
                assert_eq!(n, v.len());
                ok(Ret::Took(v))
            }
            _ => {
                let mut v = vec![];
                let mut polls = 0;
                drive($r.read_to_end(&mut v), 100_000, &mut polls).expect("no progress")?;
                ok(Ret::Took(v))
            }
        }
    }};
}

macro_rules! tokio_rd {
    ($name: ident, $krate: ident, $mac: ident, |$rd: ident, $cx: ident, $pre: ident, $n: ident| $read: expr) => {
        struct $name(BufReader<Sim>);
        impl Rd for $name {
            fn op(&mut self, op: Op, $cx: &mut Context<'_>) -> X {
                #[allow(unused_imports)]
                use $krate::io::{AsyncBufRead, AsyncRead, AsyncWrite};
                let r = &mut self.0;
                match op {
                    Op::Read($n) => {
                        let $pre = 0;
                        let $rd = Pin::new(r);
                        $read
                    }
                    Op::Append($pre, $n) => {
                        let $rd = Pin::new(r);
                        $read
                    }
                    Op::Vectored(..) => ok(Ret::No),
                    Op::Fill => Pin::new(r).poll_fill_buf($cx).map(|x| x.map(|b| Ret::Bytes(b.to_vec()))),
                    Op::Consume(n) => {
                        Pin::new(r).consume(n);
                        ok(Ret::N(n))
                    }
                    Op::Extend => {
                        CombineRead::<_, dyn $krate::io::AsyncRead>::poll_extend_buf(&mut Bufferless, $cx, Pin::new(r)).map(|x| x.map(Ret::N))
                    }
                    Op::Decode(k) => {
                        let mut d: Dec = Decoder::new_bufferless();
                        let (d, mut r) = (&mut d, Pin::new(r));
                        stubborn!(async { $mac!(*d, r, parse!(k), |i: MaybePartialStream<_>, _| i) })
                    }
                    Op::Exact(_) | Op::Until(_) | Op::ToEnd => comfort!($krate, r, op),
                    Op::Write(n) => AsyncWrite::poll_write(Pin::new(r), $cx, &data(n)).map(|x| x.map(Ret::N)),
                    Op::Flush => AsyncWrite::poll_flush(Pin::new(r), $cx).map(|x| x.map(|()| Ret::N(0))),
                    Op::Shutdown => AsyncWrite::poll_shutdown(Pin::new(r), $cx).map(|x| x.map(|()| Ret::N(0))),
                    Op::Peer => ok(Ret::N(Pin::new(r).get_pin_mut().pos)),
                }
            }
            fn buffer(&self) -> Vec<u8> {
                self.0.buffer().to_vec()
            }
            fn sim(&self) -> &Sim {
                self.0.get_ref()
            }
            fn into_sim(self: Box<Self>) -> Sim {
                self.0.into_inner()
            }
        }
    };
}
macro_rules! read_buf {
    ($krate: ident, $r: expr, $cx: expr, $pre: expr, $n: expr) => {{
        let mut v = vec![std::mem::MaybeUninit::uninit(); $pre + $n];
        let mut b = $krate::io::ReadBuf::uninit(&mut v);
        let head = data($pre);
        b.put_slice(&head);
        let x = $r.poll_read($cx, &mut b);
        assert_eq!(&b.filled()[..$pre], &head[..], "what was in the buffer before");
        let got = b.filled()[$pre..].to_vec();
        if let Poll::Ready(Ok(())) = x {
        } else {
            assert_eq!(got, [], "bytes are delivered together with {:?}", x);
        }
        x.map(|x| x.map(|()| Ret::Bytes(got)))
    }};
}
tokio_rd!(T02, tokio_02_dep, decode_tokio_02, |r, cx, pre, n| {
    let mut v = vec![0xAA; n];
    if pre > 0 {
        // through `poll_read_buf`
        let mut b = bytes_05::BytesMut::with_capacity(pre + n);
        b.extend_from_slice(&data(pre));
        let mut l = bytes_05::buf::ext::BufMutExt::limit(b, n);
        let x = r.poll_read_buf(cx, &mut l);
        let b = l.into_inner();
        assert_eq!(&b[..pre], &data(pre)[..], "what was in the buffer before");
        x.map(|x| {
            x.map(|n| {
                assert_eq!(n, b.len() - pre);
                Ret::Bytes(b[pre..].to_vec())
            })
        })
    } else {
        r.poll_read(cx, &mut v).map(|x| x.map(|n| Ret::Bytes(v[..n].to_vec())))
    }
});
tokio_rd!(T03, tokio_03_dep, decode_tokio_03, |r, cx, pre, n| read_buf!(tokio_03_dep, r, cx, pre, n));
tokio_rd!(T1, tokio_dep, decode_tokio, |r, cx, pre, n| read_buf!(tokio_dep, r, cx, pre, n));

/// `futures`: only the decoder's interface
struct Fut(BufReader<Sim>);
impl Rd for Fut {
    fn op(&mut self, op: Op, cx: &mut Context<'_>) -> X {
        let r = &mut self.0;
        match op {
            Op::Extend => Pin::new(&mut Bufferless.extend_buf(Pin::new(r))).poll(cx).map(|x| x.map(Ret::N)),
            Op::Read(_) => CombineAsyncRead::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)).map(|x| x.map(Ret::N)),
            Op::Consume(n) if n % 2 == 0 => {
                Bufferless.advance(r, n);
                ok(Ret::N(n))
            }
            Op::Consume(n) => {
                Bufferless.advance_pin(Pin::new(r), n);
                ok(Ret::N(n))
            }
            Op::Decode(k) => {
                let mut d: Dec = Decoder::new_bufferless();
                let (d, mut r) = (&mut d, Pin::new(r));
                stubborn!(async { decode_futures_03!(*d, r, parse!(k), |i: MaybePartialStream<_>, _| i) })
            }
            Op::Peer => ok(Ret::N(r.get_mut().pos)),
            _ => ok(Ret::No),
        }
    }
    fn buffer(&self) -> Vec<u8> {
        Bufferless.buffer(&self.0).to_vec()
    }
    fn sim(&self) -> &Sim {
        self.0.get_ref()
    }
    fn into_sim(self: Box<Self>) -> Sim {
        self.0.into_inner()
    }
}

/// The buffer of a decoder next to the reader it is used with
struct Own(u8, Buffer, Sim);
impl Rd for Own {
    fn op(&mut self, op: Op, cx: &mut Context<'_>) -> X {
        let (b, r) = (&mut self.1, &mut self.2);
        match op {
            Op::Extend | Op::Read(_) => match self.0 {
                0 => Poll::Ready(b.extend_buf_sync(r)),
                1 => Pin::new(&mut b.extend_buf(Pin::new(r))).poll(cx),
                2 => CombineRead::<_, dyn tokio_02_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(r)),
                3 => CombineRead::<_, dyn tokio_03_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(r)),
                _ => CombineRead::<_, dyn tokio_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(r)),
            }
            .map(|x| x.map(Ret::N)),
            Op::Consume(n) if n % 2 == 0 => {
                b.advance(r, n);
                ok(Ret::N(n))
            }
            Op::Consume(n) => {
                b.advance_pin(Pin::new(r), n);
                ok(Ret::N(n))
            }
            _ => ok(Ret::No),
        }
    }
    fn buffer(&self) -> Vec<u8> {
        self.1.buffer(&self.2).to_vec()
    }
    fn sim(&self) -> &Sim {
        &self.2
    }
    fn into_sim(self: Box<Self>) -> Sim {
        self.2
    }
}

const APIS: [&str; 10] =
    ["sync", "tokio 0.2", "tokio 0.3", "tokio 1", "futures", "own sync", "own futures", "own tokio 0.2", "own tokio 0.3", "own tokio 1"];
fn make(api: usize, cap: usize, sim: Sim) -> Box<dyn Rd> {
    match api {
        0 => Box::new(SyncRd(if cap == 8096 { BufReader::new(sim) } else { BufReader::with_capacity(cap, sim) })),
        1 => Box::new(T02(BufReader::with_capacity(cap, sim))),
        2 => Box::new(T03(BufReader::with_capacity(cap, sim))),
        3 => Box::new(T1(BufReader::with_capacity(cap, sim))),
        4 => Box::new(Fut(BufReader::with_capacity(cap, sim))),
        k => Box::new(Own(k as u8 - 5, Buffer::default(), sim)),
    }
}

#[derive(Default)]
struct Stats {
    ops: u64,
    bytes: u64,
    passed_errors: u64,
    passed_pending: u64,
    ends: u64,
    from_buffer: u64,
    rolled: u64,
    writes: u64,
}

fn run(api: usize, cap: usize, sim: Sim, ops: &[Op], s: &mut Stats) -> Result<(), String> {
    let woken = Arc::new(Woken(Default::default()));
    let waker = Waker::from(woken.clone());
    let mut cx = Context::from_waker(&waker);
    let mut rd = make(api, cap, sim);
    // what has been handed out
    let mut out: Vec<u8> = vec![];
    let mut written: Vec<u8> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let b = rd.buffer();
        let before = {
            let s = rd.sim();
            (s.reads, s.pends, s.fails, s.pos, s.flushes, s.shutdowns, s.at)
        };
        let rest = rd.sim().plan.get(before.6..).unwrap_or(&[]).to_vec();
        let wakes = woken.0.load(std::sync::atomic::Ordering::Relaxed);
        // Some operations only make sense if nothing goes wrong
        let smooth = !rest.iter().any(|a| matches!(a, Act::Fail(_) | Act::Read(0)));
        let ahead: Vec<u8> = [&b[..], &rd.sim().data[before.3..]].concat();
        let op = match *op {
            Op::Consume(n) => Op::Consume(b.len() * n / 16),
            Op::Exact(_) | Op::Until(_) | Op::ToEnd if !smooth => continue,
            Op::Decode(k) if rest.iter().any(|a| matches!(a, Act::Read(0))) || ahead.len() < k => continue,
            op => op,
        };
        let x = rd.op(op, &mut cx);
        let st = rd.sim();
        let (reads, pends, fails) = (st.reads - before.0, st.pends - before.1, st.fails - before.2);
        let calls = reads + pends + fails;
        let got = st.pos - before.3;
        let after = rd.buffer();
        let st = rd.sim();
        if matches!(x, Poll::Ready(Ok(Ret::No))) {
            continue;
        }
        s.ops += 1;
        let fail = |what: &str| Err(format!("operation {} {:?}: {:?}, {} ({} reads, {} pending, {} errors, {} bytes by the reader; {} bytes were buffered)", i, op, x, what, reads, pends, fails, got, b.len()));
        // what became of the one call of the reader
        let mirrored = |x: &X| -> bool {
            match x {
                Poll::Pending => pends == 1 && calls == 1,
                Poll::Ready(Err(e)) => fails == 1 && calls == 1 && matches!(rest.iter().find(|a| **a != Act::Pend), Some(Act::Fail(k)) if *k == e.kind()),
                Poll::Ready(Ok(_)) => pends + fails == 0,
            }
        };
        match op {
            Op::Read(_) | Op::Append(..) | Op::Vectored(..) | Op::Extend | Op::Fill if matches!(&x, Poll::Ready(Ok(Ret::Bytes(_)))) => {
                let k = match op {
                    Op::Read(k) | Op::Append(_, k) => k,
                    Op::Vectored(a, b) => a + b,
                    _ => usize::MAX,
                };
                let v = match &x {
                    Poll::Ready(Ok(Ret::Bytes(v))) => v,
                    _ => unreachable!(),
                };
                if !b.is_empty() && calls > 0 {
                    return fail("the reader was asked although there was something buffered");
                }
                if b.is_empty() && (calls > 1 || pends + fails > 0 || (calls == 0 && k > 0)) {
                    return fail("the reader was not asked once");
                }
                if v.len() > k || (v.is_empty() && k > 0 && (!b.is_empty() || got > 0)) {
                    return fail("which is not as much as it could");
                }
                if op == Op::Fill {
                    if *v != after {
                        return fail("which is not what is buffered");
                    }
                } else {
                    out.extend(v)
                }
                s.from_buffer += (!b.is_empty()) as u64;
                s.ends += (v.is_empty() && k > 0) as u64;
                s.bytes += v.len() as u64;
            }
            Op::Extend | Op::Read(_) if matches!(&x, Poll::Ready(Ok(Ret::N(_)))) => {
                if calls != 1 || reads != 1 {
                    return fail("the reader was not asked once");
                }
                if !matches!(&x, Poll::Ready(Ok(Ret::N(n))) if *n == got) || after.len() != b.len() + got {
                    return fail("which is not what was read");
                }
                s.bytes += got as u64;
            }
            Op::Read(_) | Op::Append(..) | Op::Vectored(..) | Op::Fill | Op::Extend => {
                if !mirrored(&x) {
                    return fail("which is not what the reader did");
                }
                if !b.is_empty() && op != Op::Extend && api < 4 {
                    return fail("although there was something buffered");
                }
                match x {
                    Poll::Pending => {
                        if woken.0.load(std::sync::atomic::Ordering::Relaxed) == wakes {
                            return fail("and nothing will wake the task");
                        }
                        s.passed_pending += 1
                    }
                    _ => s.passed_errors += 1,
                }
            }
            Op::Consume(n) => {
                if calls > 0 || after[..] != b[n..] {
                    return fail("which is not what it should do");
                }
                out.extend(&b[..n]);
            }
            Op::Peer => {
                if calls > 0 || !matches!(x, Poll::Ready(Ok(Ret::N(n))) if n == before.3) {
                    return fail("which is another reader");
                }
            }
            Op::Decode(_) | Op::Exact(_) | Op::Until(_) | Op::ToEnd => {
                s.rolled += 1;
                let want = match op {
                    Op::Decode(k) | Op::Exact(k) => ahead.get(..k).map(|v| v.to_vec()),
                    Op::Until(b) => Some(ahead.iter().position(|x| *x == b).map_or(&ahead[..], |n| &ahead[..n + 1]).to_vec()),
                    _ => Some(ahead.clone()),
                };
                match (&x, want) {
                    (Poll::Ready(Ok(Ret::Took(v))), Some(w)) if *v == w => {
                        s.bytes += v.len() as u64;
                        out.extend(v)
                    }
                    (Poll::Ready(Ok(Ret::Short)), None) => {
                        // there was not as much; all of it is lost
                        out.extend(&ahead);
                        if !after.is_empty() {
                            return fail("but something is left");
                        }
                    }
                    _ => return fail("which is not what comes next"),
                }
                if let Op::Decode(k) = op {
                    if b.len() >= k && calls > 0 {
                        return fail("the reader was asked although the message was buffered");
                    }
                }
            }
            Op::Write(n) => {
                s.writes += 1;
                let new = &st.written[written.len()..];
                let good = match &x {
                    Poll::Ready(Ok(Ret::N(m))) => *m == new.len() && new == &data(n)[..*m] && pends + fails == 0,
                    x => mirrored(x) && new.is_empty(),
                };
                if !good || got > 0 || after != b {
                    return fail("which is not what was written");
                }
                written = st.written.clone();
            }
            Op::Flush | Op::Shutdown => {
                s.writes += 1;
                let n = if op == Op::Flush { (1, 0) } else { (0, 1) };
                if (st.flushes - before.4, st.shutdowns - before.5) != n || !mirrored(&x) || after != b || got > 0 {
                    return fail("which is not what was done");
                }
            }
        }
        let have: Vec<u8> = [&out[..], &after[..]].concat();
        if have != st.data[..st.pos] {
            return fail("after which what was handed out and what is buffered is not what was read");
        }
        if st.empty_asks > 0 {
            return fail("the reader was asked for nothing at all");
        }
    }
    let sim = rd.into_sim();
    if sim.written != written {
        return Err("something else was written".into());
    }
    Ok(())
}

fn case(c: u64, r: &mut Rng, t: &mut Tally, big: bool, long: bool) {
    let api = c as usize % APIS.len();
    let cap = *r.pick(&[0, 1, 2, 3, 8, 16, 63, 64, 65, 100, 1000, 8096, 8192, 20000]);
    let len = if big { r.range(0, 40_000) } else { r.range(0, 200) };
    let len = if long && r.chance(1, 2) { len * 5 } else { len };
    let d: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    let hostile = r.chance(1, 2);
    let most = *r.pick(&[1, 3, 10, 70, 10_000]);
    let plan: Vec<Act> = (0..r.range(0, if long { 600 } else { 40 }))
        .map(|_| match r.below(if hostile { 8 } else { 6 }) {
            6 => Act::Fail(if r.chance(2, 3) { *r.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset]) } else { *r.pick(&vcore::sim::KINDS) }),
            7 => Act::Read(0),
            0 => Act::Pend,
            1 => Act::Read(1),
            _ => Act::Read(1 + r.below(most)),
        })
        .collect();
    let size = |r: &mut Rng| match r.below(6) {
        0 => r.below(3),
        1 => cap,
        2 => r.below(if big { 20_000 } else { 300 }),
        _ => r.below(20),
    };
    let ops: Vec<Op> = (0..r.range(1, if long { 700 } else { 40 }))
        .map(|_| match r.below(20) {
            0..=4 => Op::Read(size(r)),
            5 => Op::Append(r.below(10), size(r)),
            6 => Op::Vectored(size(r), size(r)),
            7..=8 => Op::Fill,
            9..=11 => Op::Consume(r.below(17)),
            12..=13 => Op::Extend,
            14..=15 => Op::Decode(size(r)),
            16 => *r.pick(&[Op::Exact(3), Op::Until(7), Op::Exact(100), Op::ToEnd, Op::Until(200)]),
            17 => Op::Write(size(r)),
            18 => *r.pick(&[Op::Flush, Op::Shutdown]),
            _ => Op::Peer,
        })
        .collect();
    let mut s = Stats::default();
    let go = |ops: &[Op], plan: &[Act], s: &mut Stats| guard(|| run(api, cap, Sim::new(d.clone(), plan.to_vec()), ops, s)).unwrap_or_else(Err);
    t.evals += 1;
    t.hit(APIS[api]);
    let res = go(&ops, &plan, &mut s);
    for (k, n) in [
        ("operations", s.ops),
        ("bytes", s.bytes),
        ("errors_passed_on", s.passed_errors),
        ("pending_passed_on", s.passed_pending),
        ("ends", s.ends),
        ("served_from_buffer", s.from_buffer),
        ("rolled_operations", s.rolled),
        ("writes", s.writes),
    ] {
        t.add(k, n)
    }
    t.saw(&(api, cap, &d, &plan, &ops));
    t.sample(|| format!("{} with capacity {}: {:?} through {:?} on {} bytes", APIS[api], cap, ops, plan, len));
    if let Err(mut e) = res {
        let (mut ops, mut plan) = (ops, plan);
        let mut i = 0;
        while i < ops.len() + plan.len() {
            let (mut o, mut p) = (ops.clone(), plan.clone());
            if i < o.len() {
                o.remove(i);
            } else {
                p.remove(i - ops.len());
            }
            if let Err(x) = go(&o, &p, &mut s) {
                ops = o;
                plan = p;
                e = x;
            } else {
                i += 1
            }
        }
        t.violation(format!("{} with capacity {} over a reader of {} bytes which does {:?}, used by {:?}: {}", APIS[api], cap, len, plan, ops, e));
    }
}

fn main() {
    let ctx = Ctx::new("C19");
    ctx.par("small", 1_200_000, 20_000_000, (40, 600), |r, c, t| case(c, r, t, false, false));
    // long histories, in which a buffer grows and moves often
    ctx.par("long", 8_000, 300_000, (12, 200), |r, c, t| case(c, r, t, c / APIS.len() as u64 % 2 == 0, true));
    ctx.par("big", 50_000, 500_000, (15, 300), |r, c, t| case(c, r, t, true, false));
    ctx.finish(
        "histories of operations on BufReader and the decoder's buffer over a simulated reader and writer; every operation is held online against what the reader did: conservation of bytes, calls of the reader, errors, Pending, end; distinct: (interface, capacity, data, schedule, operations)",
        &[
            ("evaluations", 50_000),
            ("operations", 500_000),
            ("errors_passed_on", 5_000),
            ("pending_passed_on", 5_000),
            ("served_from_buffer", 5_000),
            ("rolled_operations", 5_000),
            ("writes", 5_000),
            ("ends", 5_000),
        ],
    )
}
