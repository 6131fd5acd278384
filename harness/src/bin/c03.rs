//! C03: messages decoded from simulated readers against the messages of the whole byte stream.
use combine::parser::{byte::num, range};
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::{Decoder, Error};
use combine::stream::position::{self, IndexPositioner};
use combine::stream::MaybePartialStream;
use combine::{decode, decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03, Parser};
use std::io::ErrorKind;
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*, sim::*, sources::*};

type In = PIdx<MaybePartialStream<Mon<S8>>>;

/// Gives the parser the data for the duration of the call; values own their data
fn stream(i: MaybePartialStream<&[u8]>, pos: usize) -> In {
    let s: S8 = unsafe { std::mem::transmute(i.0) };
    position::Stream::with_positioner(MaybePartialStream(Mon(s), i.1), IndexPositioner::new_with_position(pos))
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Msg(V, usize),
    Parse,
    Io,
    /// the future was dropped while it was pending
    Dropped,
}

/// What was observed of one run
#[derive(Debug, Default)]
struct Log {
    evs: Vec<Ev>,
    bad: Vec<String>,
    polls: u64,
    reads: u64,
    pends: u64,
    fails: u64,
    drops: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Flavour {
    Sync,
    Tokio,
    Tokio02,
    Tokio03,
    Futures,
}

/// One call of the macro, however it is driven
macro_rules! one {
    (sync, $mac: ident, $d: expr, $r: expr, $pat: expr, $polls: expr, $($args: tt)*) => {
        Some($mac!($d, $r, $($args)*))
    };
    (async, $mac: ident, $d: expr, $r: expr, $pat: expr, $polls: expr, $($args: tt)*) => {{
        let d = &mut $d;
        let r = &mut $r;
        drive(async { $mac!(*d, *r, $($args)*) }, $pat, $polls)
    }};
}

macro_rules! run {
    ($kind: tt, $mac: ident, $dec: expr, $rd: expr, $sim: expr, $buf: expr, $g: expr, $max: expr, $pat: expr, $log: expr) => {{
        let mut p = build::<In>($g);
        let mut dec: Decoder<St, usize, _> = $dec;
        let mut rd = $rd;
        let mut consumed = 0;
        let mut idle = 0;
        mon::start(FUEL * 100);
        while $log.evs.iter().filter(|e| matches!(e, Ev::Msg(..))).count() < $max {
            let r = one!($kind, $mac, dec, rd, $pat, &mut $log.polls, &mut p, stream);
            let ev = match &r {
                Some(Ok(v)) => Ev::Msg(v.clone(), 0),
                Some(Err(Error::Parse(_))) => Ev::Parse,
                Some(Err(Error::Io { .. })) => Ev::Io,
                None => Ev::Dropped,
            };
            let sim: &Sim = $sim(&rd);
            let buffered: &[u8] = $buf(&dec, &rd);
            // conservation: what was read is what was consumed and what is still buffered
            let read = sim.pos;
            if buffered.len() > read || &sim.data[read - buffered.len()..read] != buffered {
                $log.bad.push(format!("after {:?} the buffer {:?} is not the end of the {} bytes read", ev, lossy(buffered), read));
                break;
            }
            if read - buffered.len() < consumed {
                $log.bad.push(format!("after {:?} bytes which were consumed are back in the buffer", ev));
                break;
            }
            let end = read - buffered.len();
            if ev != Ev::Parse && *dec.position() != end {
                $log.bad.push(format!("after {:?} the position is {} but {} bytes are consumed", ev, dec.position(), end));
            }
            if let Some(Err(Error::Io { position, .. })) = &r {
                if *position != end {
                    $log.bad.push(format!("the position of the error is {} but {} bytes are consumed", position, end));
                }
            }
            consumed = end;
            match ev {
                Ev::Msg(v, _) => $log.evs.push(Ev::Msg(v, consumed)),
                Ev::Parse => {
                    $log.evs.push(Ev::Parse);
                    break;
                }
                Ev::Io => $log.evs.push(Ev::Io),
                Ev::Dropped => {
                    $log.drops += 1;
                    idle += 1;
                    if idle > 300 + sim.plan.len() {
                        $log.bad.push("no progress".into());
                        break;
                    }
                }
            }
        }
        let sim: &Sim = $sim(&rd);
        $log.reads = sim.reads;
        $log.pends = sim.pends;
        $log.fails = sim.fails;
        if sim.empty_asks > 0 {
            $log.bad.push("the reader was asked for no bytes at all (and the answer is taken for the end of the input)".into());
        }
    }};
}

fn go(g: &G, data: &[u8], plan: &[Act], fl: Flavour, cap: Option<usize>, max: usize, pat: usize) -> Result<Log, String> {
    guard(|| {
        let mut log = Log::default();
        let sim = Sim::new(data.to_vec(), plan.to_vec());
        fn own(s: &Sim) -> &Sim {
            s
        }
        fn inner(s: &BufReader<Sim>) -> &Sim {
            s.get_ref()
        }
        fn dbuf<'a>(d: &'a Decoder<St, usize>, _: &'a Sim) -> &'a [u8] {
            d.buffer()
        }
        fn rbuf<'a, C>(_: &'a Decoder<St, usize, C>, r: &'a BufReader<Sim>) -> &'a [u8] {
            r.buffer()
        }
        macro_rules! both {
            ($kind: tt, $mac: ident) => {
                match cap {
                    None => run!($kind, $mac, Decoder::new(), sim, own, dbuf, g, max, pat, log),
                    Some(n) => run!(
                        $kind,
                        $mac,
                        Decoder::new_bufferless(),
                        BufReader::with_capacity(n, sim),
                        inner,
                        rbuf,
                        g,
                        max,
                        pat,
                        log
                    ),
                }
            };
        }
        match fl {
            Flavour::Sync => both!(sync, decode),
            Flavour::Tokio => both!(async, decode_tokio),
            Flavour::Tokio02 => both!(async, decode_tokio_02),
            Flavour::Tokio03 => both!(async, decode_tokio_03),
            Flavour::Futures => both!(async, decode_futures_03),
        }
        log
    })
}

/// The messages of the whole stream; None: outside of what is specified
fn want(g: &G, data: &[u8], max: usize) -> Option<Vec<Ev>> {
    let mut out = vec![];
    let mut pos = 0;
    while out.len() < max {
        let m = Model::new(&data[pos..], |_| 1);
        let e = m.ev(g, 0);
        if m.out_of_fuel.get() || m.taint.get() {
            return None;
        }
        match e {
            R::Ok(v, n, _) => {
                pos += n;
                out.push(Ev::Msg(v, pos))
            }
            _ => {
                out.push(Ev::Parse);
                break;
            }
        }
    }
    Some(out)
}

fn plan(r: &mut Rng, n: usize) -> Vec<Act> {
    let style = r.below(5);
    (0..r.range(0, 3 * n + 2))
        .map(|_| match style {
            0 => Act::Read(1),
            1 => Act::Read(r.range(1, 4)),
            2 if r.chance(1, 2) => Act::Pend,
            3 if r.chance(1, 3) => Act::Fail(if r.chance(2, 3) { *r.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::ConnectionReset]) } else { *r.pick(&vcore::sim::KINDS) }),
            4 if r.chance(1, 4) => Act::Pend,
            4 if r.chance(1, 5) => Act::Fail(*r.pick(&[ErrorKind::Interrupted, ErrorKind::TimedOut])),
            _ => Act::Read(*r.pick(&[1, 1, 2, 3, 5, 8, 13, 100])),
        })
        .collect()
}

fn judge(log: &Result<Log, String>, e: &[Ev]) -> Option<String> {
    match log {
        Err(p) => Some(p.clone()),
        Ok(l) => {
            if let Some(b) = l.bad.first() {
                return Some(b.clone());
            }
            let got: Vec<&Ev> = l.evs.iter().filter(|e| **e != Ev::Io).collect();
            if got != e.iter().collect::<Vec<_>>() {
                return Some(format!("the messages are {:?} but the stream holds {:?}", got, e));
            }
            let io = l.evs.iter().filter(|e| **e == Ev::Io).count() as u64;
            if io > l.fails {
                return Some(format!("{} reader errors reported but {} happened", io, l.fails));
            }
            None
        }
    }
}

fn flavour(r: &mut Rng) -> Flavour {
    *r.pick(&[Flavour::Sync, Flavour::Tokio, Flavour::Tokio02, Flavour::Tokio03, Flavour::Futures])
}

fn case(cfg: &Cfg, many: bool, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, if many { 2 } else { 3 });
    let g = gen(r, cfg, d, false);
    for _ in 0..3 {
        let mut data = vec![];
        for _ in 0..r.range(1, 5) {
            data.extend(input_for(&g, r, 20));
        }
        let max = r.range(1, if many { 400 } else { 6 });
        if many {
            // the same messages again and again, mostly as they should be
            let once = data.clone();
            for _ in 0..r.range(10, 400) {
                if r.chance(2, 3) {
                    vcore::grammar::message(&g, r, &mut data)
                } else {
                    data.extend(&once)
                }
            }
            data.truncate(4_000);
        }
        let e = match want(&g, &data, max) {
            Some(e) => e,
            None => {
                t.hit("excluded");
                continue;
            }
        };
        let p = plan(r, data.len());
        let fl = flavour(r);
        let cap = if r.chance(1, 2) { Some(*r.pick(&[0, 1, 2, 3, 7, 64, 8096])) } else { None };
        // how long a future is polled before it is dropped and the decoding is started again
        let pat = if r.chance(1, 3) { r.range(1, 3) } else { 1_000_000 };
        let log = go(&g, &data, &p, fl, cap, max, pat);
        t.evals += 1;
        if let Ok(l) = &log {
            t.add("reads", l.reads);
            t.add("pendings", l.pends);
            t.add("reader_errors", l.fails);
            t.add("polls", l.polls);
            t.add("dropped_futures", l.drops);
            t.add("messages", l.evs.iter().filter(|e| matches!(e, Ev::Msg(..))).count() as u64);
            t.add("parse_errors", l.evs.iter().filter(|e| **e == Ev::Parse).count() as u64);
            t.hit(&format!("flavour.{:?}.{}", fl, if cap.is_some() { "bufferless" } else { "buffer" }));
            if l.reads > 1 {
                t.saw(&(format!("{:?}", g), &data, &p, fl, cap, pat));
            }
        }
        t.sample(|| format!("{:?} {:?} {:?} on {:?} by {:?}: {:?}", fl, cap, g, lossy(&data), p, log));
        if let Some(b) = judge(&log, &e) {
            let mut f = |g: &G, i: &[u8]| match want(g, i, max) {
                None => false,
                Some(e) => judge(&go(g, i, &p, fl, cap, max, pat), &e).is_some(),
            };
            let (g2, i2) = shrink(&g, &data, &mut f);
            let b2 = want(&g2, &i2, max).and_then(|e| judge(&go(&g2, &i2, &p, fl, cap, max, pat), &e));
            t.violation(format!(
                "{:?} (BufReader capacity {:?}), {:?} on {:?} read by {:?}: {}",
                fl, cap, g2, lossy(&i2), p.iter().take(20).collect::<Vec<_>>(), b2.unwrap_or(b)
            ));
            return;
        }
    }
}

/// Messages which are larger than any buffer, with a parser that takes ranges from it
fn big(r: &mut Rng, t: &mut Tally) {
    let shape = r.below(8);
    let n = if shape == 0 { r.range(200, 600) } else { r.range(1, 6) };
    let mut data = vec![];
    let mut e = vec![];
    for i in 0..n {
        let len = match r.below(4) {
            _ if shape == 0 => r.range(0, 10),
            3 if shape == 1 => r.range(65_000, 140_000),
            0 => r.range(0, 10),
            1 => r.range(60, 70),
            2 => r.range(8100, 8300),
            _ => r.range(0, 40_000),
        };
        data.extend((len as u32).to_be_bytes());
        let m: Vec<u8> = (0..len).map(|j| (i * 31 + j * 7) as u8).collect();
        data.extend(&m);
        e.push(m);
    }
    let cut = if r.chance(1, 4) { Some(r.below(data.len())) } else { None };
    if let Some(c) = cut {
        data.truncate(c);
    }
    let mut pos = 0;
    let mut whole = vec![];
    for m in &e {
        if pos + 4 + m.len() <= data.len() {
            pos += 4 + m.len();
            whole.push(m.clone())
        } else {
            break;
        }
    }
    let sizes: Vec<usize> = match r.below(3) {
        0 => vec![1 << 20],
        1 => vec![100, 1000, 5000],
        _ => vec![1, 2, 3, 64, 8096, 9000, 20_000],
    };
    let p: Vec<Act> = (0..r.range(0, if shape == 0 { 1_000 } else { 60 }))
        .map(|_| match r.below(8) {
            0 => Act::Pend,
            1 => Act::Fail(ErrorKind::Interrupted),
            _ => Act::Read(*r.pick(&sizes)),
        })
        .collect();
    let fl = flavour(r);
    let cap = if r.chance(1, 2) { Some(*r.pick(&[0, 1, 3, 100, 8096])) } else { None };
    let pat = if r.chance(1, 3) { r.range(1, 3) } else { 1_000_000 };
    let res = guard(|| -> Result<u64, String> {
        let sim = Sim::new(data.clone(), p.clone());
        let mut polls = 0;
        let mut got: Vec<Vec<u8>> = vec![];
        macro_rules! go {
            ($kind: tt, $mac: ident, $dec: expr, $rd: expr) => {{
                let mut dec = $dec;
                let mut rd = $rd;
                let mut calls = 0;
                loop {
                    calls += 1;
                    if calls > 4_000 {
                        return Err("no progress".into());
                    }
                    let r = one!(
$kind, $mac, dec, rd, pat, &mut polls,
 num::be_u32().then_partial(|n| range::take(*n as usize).map(|s: &[u8]| s.to_vec()))
);
                    match r {
                        Some(Ok(m)) => got.push(m),
                        Some(Err(Error::Io { .. })) | None => (),
                        Some(Err(Error::Parse(x))) => {
                            let _: combine::error::UnexpectedParse = x;
                            if !ParseErr::is_unexpected_end_of_input(&x) {
                                return Err(format!("unexpected parse error {:?}", x));
                            }
                            break;
                        }
                    }
                }
            }};
        }
        macro_rules! both {
            ($kind: tt, $mac: ident) => {
                match cap {
                    None => go!($kind, $mac, Decoder::new(), sim),
                    Some(n) => go!($kind, $mac, Decoder::new_bufferless(), BufReader::with_capacity(n, sim)),
                }
            };
        }
        match fl {
            Flavour::Sync => both!(sync, decode),
            Flavour::Tokio => both!(async, decode_tokio),
            Flavour::Tokio02 => both!(async, decode_tokio_02),
            Flavour::Tokio03 => both!(async, decode_tokio_03),
            Flavour::Futures => both!(async, decode_futures_03),
        }
        if got != whole {
            return Err(format!(
                "messages of {:?} bytes but sent were {:?}",
                got.iter().map(|m| m.len()).collect::<Vec<_>>(),
                whole.iter().map(|m| m.len()).collect::<Vec<_>>()
            ));
        }
        Ok(got.len() as u64)
    });
    t.evals += 1;
    match res {
        Ok(Ok(n)) => {
            t.add("big_messages", n);
            t.saw(&(&e.iter().map(|m| m.len()).collect::<Vec<_>>(), cut, &p, fl, cap, pat));
        }
        Ok(Err(s)) | Err(s) => t.violation(format!(
            "length prefixed messages of {:?} bytes{} through {:?} (BufReader capacity {:?}), read by {:?}: {}",
            e.iter().map(|m| m.len()).collect::<Vec<_>>(),
            cut.map_or(String::new(), |c| format!(" cut to {}", c)),
            fl,
            cap,
            p,
            s
        )),
    }
}

/// `is_unexpected_end_of_input` for the error of slices
struct ParseErr;
impl ParseErr {
    fn is_unexpected_end_of_input(e: &combine::error::UnexpectedParse) -> bool {
        <combine::error::UnexpectedParse as combine::error::ParseError<u8, &[u8], combine::stream::PointerOffset<[u8]>>>::is_unexpected_end_of_input(e)
    }
}

fn main() {
    let ctx = Ctx::new("C03");
    let cfg = Cfg::new(true);
    ctx.par("grammars", 60_000, 3_000_000, (25, 600), |r, _, t| case(&cfg, false, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-grammars", 12_000, 400_000, (20, 300), |r, _, t| {
        r.big = 3;
        case(&long, false, r, t)
    });
    // very many messages with one decoder (the values of chains are as deep as the chain is long)
    let flat = cfg.clone().without(&["chainl1", "chainr1"]);
    ctx.par("many", 12_000, 400_000, (14, 200), |r, _, t| case(&flat, true, r, t));
    ctx.par("big", 6_000, 200_000, (20, 200), |r, _, t| big(r, t));
    let mut min = vec![("evaluations", 20_000), ("pendings", 5_000), ("reader_errors", 5_000), ("dropped_futures", 1_000), ("messages", 20_000), ("big_messages", 1_000)];
    let names: Vec<String> = ["Sync", "Tokio", "Tokio02", "Tokio03", "Futures"]
        .iter()
        .flat_map(|f| [format!("flavour.{}.buffer", f), format!("flavour.{}.bufferless", f)])
        .collect();
    min.extend(names.iter().map(|n| (&n[..], 500)));
    ctx.finish("messages of a random grammar (or large length-prefixed messages) decoded from a simulated reader, against the messages the reference semantics cuts out of the whole stream; non-trivial: more than one read; distinct: (grammar, data, schedule, I/O flavour, buffering, cancellation)", &min)
}
