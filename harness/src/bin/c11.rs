//! C11: buffered streams backtrack exactly within their look-ahead or refuse.
use combine::error::{StreamError, UnexpectedParse};
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{buffered, easy, read, IteratorStream, Positioned, ResetStream, StreamErrorFor, StreamOnce};
use combine::Parser;
use std::cell::RefCell;
use std::fmt::Debug;
use vcore::{build::*, drive::*, grammar::*, model::*, mon, rng::Rng, run::*};

// ---- the source

/// What happens when the source is asked
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Ev {
    Item(u8),
    /// an error which says something other than the end of the input
    Err,
    /// the end of the input, once or for good
    End,
}

/// What the source was asked for and what the online checker makes of it
#[derive(Default)]
pub struct Log {
    script: Vec<Ev>,
    /// how often the source was asked
    asks: usize,
    /// items delivered by the source so far
    items: Vec<u8>,
    last: Option<Ev>,
    lookahead: usize,
    // what the checker saw
    far: usize,
    back: u64,
    replayed: u64,
    refused: u64,
    errors: u64,
    ops: u64,
    bad: Option<String>,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}
fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
fn ask() -> Ev {
    log(|l| {
        let e = l.script.get(l.asks).cloned().unwrap_or(Ev::End);
        l.asks += 1;
        if l.asks > 100_000 {
            panic!("the source is asked without end");
        }
        if let Ev::Item(b) = e {
            l.items.push(b)
        }
        l.last = Some(e);
        e
    })
}
fn setup(script: Vec<Ev>, lookahead: usize) {
    log(|l| *l = Log { script, lookahead, ..Log::default() })
}

/// A stream that can neither go back nor be asked twice
#[derive(Debug)]
pub struct Once;
impl StreamOnce for Once {
    type Token = u8;
    type Range = u8;
    type Position = usize;
    type Error = easy::Errors<u8, u8, usize>;
    fn uncons(&mut self) -> Result<u8, StreamErrorFor<Self>> {
        match ask() {
            Ev::Item(b) => Ok(b),
            Ev::Err => Err(easy::Error::Message("broken".into())),
            Ev::End => Err(easy::Error::end_of_input()),
        }
    }
}
impl Positioned for Once {
    /// positions far apart, so that they are not mistaken for offsets
    fn position(&self) -> usize {
        1000 + 7 * log(|l| l.items.len())
    }
}
/// The iterator and reader based sources
pub struct Iter(bool);
impl Iterator for Iter {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        match ask() {
            Ev::Item(b) => Some(b),
            _ => None,
        }
    }
}
pub struct CharIter;
impl Iterator for CharIter {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        Iter(true).next().map(|b| char::f(b))
    }
}
pub struct Reader;
impl std::io::Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        assert!(buf.len() > 0);
        if buf.len() > 1 {
            log(|l| l.bad = Some(format!("the reader is asked for {} bytes at a time", buf.len())));
        }
        match ask() {
            Ev::Item(b) => {
                buf[0] = b;
                Ok(1)
            }
            Ev::Err => Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")),
            Ev::End => Ok(0),
        }
    }
}

// ---- the online checker

/// Everything a parser does with the buffered stream passes through here
pub struct Spy<S: Positioned> {
    inner: buffered::Stream<S>,
    at: usize,
}
/// Positions of items
pub trait Place: StreamOnce {
    /// the position of item `n` of `items`
    fn place(items: &[u8], n: usize) -> Self::Position;
    /// the stream when nothing has been consumed
    fn make() -> Self;
    fn is_end(e: &StreamErrorFor<Self>) -> bool {
        e.is_unexpected_end_of_input()
    }
    /// errors other than the end are passed on by this source
    const ERRORS: bool;
}
impl Place for Once {
    fn place(_: &[u8], n: usize) -> usize {
        1000 + 7 * n
    }
    fn make() -> Self {
        Once
    }
    const ERRORS: bool = true;
}
pub type PIter = position::Stream<IteratorStream<Iter>, IndexPositioner>;
impl Place for PIter {
    fn place(_: &[u8], n: usize) -> usize {
        n
    }
    fn make() -> Self {
        position::Stream::with_positioner(IteratorStream::new(Iter(true)), IndexPositioner::new())
    }
    const ERRORS: bool = false;
}
pub type PChars = easy::Stream<position::Stream<IteratorStream<CharIter>, SourcePosition>>;
impl Place for PChars {
    fn place(items: &[u8], n: usize) -> SourcePosition {
        let mut p = SourcePosition { line: 1, column: 1 };
        for b in &items[..n] {
            if *b == b'\n' {
                p.line += 1;
                p.column = 1;
            } else {
                p.column += 1
            }
        }
        p
    }
    fn make() -> Self {
        easy::Stream(position::Stream::with_positioner(IteratorStream::new(CharIter), SourcePosition::new()))
    }
    const ERRORS: bool = false;
}
pub type PRead = position::Stream<read::Stream<Reader>, IndexPositioner>;
impl Place for PRead {
    fn place(_: &[u8], n: usize) -> usize {
        n
    }
    fn make() -> Self {
        position::Stream::with_positioner(read::Stream::new(Reader), IndexPositioner::new())
    }
    const ERRORS: bool = true;
}
pub type PReadEasy = easy::Stream<PRead>;
impl Place for PReadEasy {
    fn place(_: &[u8], n: usize) -> usize {
        n
    }
    fn make() -> Self {
        easy::Stream(PRead::make())
    }
    const ERRORS: bool = true;
}

fn bad(what: String) {
    log(|l| {
        l.bad.get_or_insert(what);
    })
}

impl<S> Spy<S>
where
    S: Place + Positioned,
    S::Token: Tk,
    S::Position: Clone + PartialEq + Debug,
{
    fn new(lookahead: usize) -> Self {
        Spy { inner: buffered::Stream::new(S::make(), lookahead), at: 0 }
    }
    fn within(&self, at: usize) -> bool {
        log(|l| l.items.len() - at <= l.lookahead)
    }
    fn check_position(&self) {
        let n = log(|l| l.items.len());
        if self.at > n || (self.at < n && !self.within(self.at)) {
            return;
        }
        let p = self.inner.position();
        let w = log(|l| S::place(&l.items, self.at));
        if p != w {
            bad(format!("position {:?} instead of {:?} before item {} of {}", p, w, self.at, n))
        }
    }
}

impl<S> StreamOnce for Spy<S>
where
    S: Place + Positioned,
    S::Token: Tk,
    S::Position: Clone + PartialEq + Debug,
{
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        mon::tick();
        let (asks, n) = log(|l| {
            l.ops += 1;
            (l.asks, l.items.len())
        });
        let r = self.inner.uncons();
        let (asks2, last) = log(|l| (l.asks, l.last));
        if self.at < n {
            // an item which was delivered before
            if asks2 != asks {
                bad(format!("the source is asked for another item when item {} of {} is wanted again", self.at, n))
            }
            let w = log(|l| l.items[self.at]);
            match &r {
                Ok(t) if t.b() == w => {
                    log(|l| l.replayed += 1);
                    self.at += 1
                }
                Ok(t) => bad(format!("item {} is {:?} the first time and {:?} the second time ({} delivered)", self.at, w as char, t.b() as char, n)),
                Err(_) if self.within(self.at) => {
                    bad(format!("item {} of {} is refused although the look-ahead is {}", self.at, n, log(|l| l.lookahead)))
                }
                Err(_) => log(|l| l.refused += 1),
            }
        } else {
            if asks2 != asks + 1 {
                bad(format!("the source is asked {} times for one item", asks2 - asks))
            }
            match (&r, last) {
                (Ok(t), Some(Ev::Item(b))) if t.b() == b => self.at += 1,
                (Err(e), Some(Ev::End)) if S::is_end(e) => log(|l| l.errors += 1),
                (Err(e), Some(Ev::Err)) if !S::is_end(e) || !S::ERRORS => log(|l| l.errors += 1),
                (r, e) => bad(format!("the source answers {:?} and the stream {:?}", e, r.as_ref().map(|t| t.b() as char).map_err(|e| S::is_end(e)))),
            }
        }
        self.check_position();
        r
    }
    fn is_partial(&self) -> bool {
        self.inner.is_partial()
    }
}
impl<S> Positioned for Spy<S>
where
    S: Place + Positioned,
    S::Token: Tk,
    S::Position: Clone + PartialEq + Debug,
{
    fn position(&self) -> S::Position {
        self.check_position();
        self.inner.position()
    }
}
impl<S> ResetStream for Spy<S>
where
    S: Place + Positioned,
    S::Token: Tk,
    S::Position: Clone + PartialEq + Debug,
{
    type Checkpoint = (<buffered::Stream<S> as ResetStream>::Checkpoint, usize);
    fn checkpoint(&self) -> Self::Checkpoint {
        (self.inner.checkpoint(), self.at)
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), S::Error> {
        mon::tick();
        let asks = log(|l| {
            l.ops += 1;
            l.back += (c.1 < l.items.len()) as u64;
            l.far = l.far.max(l.items.len() - c.1);
            l.asks
        });
        let r = self.inner.reset(c.0);
        if log(|l| l.asks) != asks {
            bad("the source is asked by a reset".into())
        }
        match &r {
            Ok(()) => self.at = c.1,
            Err(_) if self.within(c.1) => bad(format!(
                "a reset to item {} of {} is refused although the look-ahead is {}",
                c.1,
                log(|l| l.items.len()),
                log(|l| l.lookahead)
            )),
            Err(_) => log(|l| l.refused += 1),
        }
        self.check_position();
        r
    }
}

macro_rules! inp {
    ($($t: ty),*) => { $( vcore::unranged! { Spy<$t> } )* };
}
inp!(Once, PIter, PChars, PRead, PReadEasy);

// ---- driving it directly

/// How many of its items a stream of this look-ahead certainly keeps
fn script(r: &mut Rng, n: usize) -> Vec<Ev> {
    let mut s = vec![];
    for _ in 0..n {
        if r.chance(1, 12) {
            s.push(if r.chance(1, 2) { Ev::Err } else { Ev::End })
        }
        s.push(Ev::Item(ALPHA[r.below(ALPHA.len())]))
    }
    s
}

fn ops<S>(name: &str, r: &mut Rng, t: &mut Tally)
where
    S: Place + Positioned,
    S::Token: Tk,
    S::Position: Clone + PartialEq + Debug,
{
    let (look, n, steps) = if r.big > 0 {
        let look = *r.pick(&[1, 100, 255, 256, 257, 300, 1000]);
        (look, r.range(0, look * 4), r.range(0, look * 6))
    } else {
        (*r.pick(&[0, 1, 1, 2, 3, 4, 5, 8, 16, 33]), r.below(60), 150)
    };
    setup(script(r, n), look);
    let desc = log(|l| format!("{} with look-ahead {} over {:?}", name, look, l.script));
    let res = guard(|| {
        let mut s = Spy::<S>::new(look);
        let mut cps = vec![s.checkpoint()];
        let mut did = vec![];
        s.position();
        for _ in 0..r.below(steps + 1) {
            match r.below(10) {
                0..=5 => {
                    did.push(-1);
                    let _ = s.uncons();
                }
                6 => {
                    cps.push(s.checkpoint());
                }
                7 => {
                    s.position();
                }
                _ => {
                    // mostly to where backtracking is still possible
                    let c = if r.chance(3, 4) { *cps.last().unwrap() } else { *r.pick(&cps) };
                    did.push(c.1 as i64);
                    let before = s.at;
                    if s.reset(c).is_err() && s.inner.checkpoint() != before {
                        bad("a refused reset moves the stream".into())
                    }
                    if r.chance(1, 3) {
                        cps.pop();
                        if cps.is_empty() {
                            cps.push(s.checkpoint())
                        }
                    }
                }
            }
            if log(|l| l.bad.is_some()) {
                break;
            }
        }
        did
    });
    t.evals += 1;
    let b = log(|l| {
        t.add("operations", l.ops);
        t.add("items_seen_again", l.replayed);
        t.add("resets_back", l.back);
        t.add("refused", l.refused);
        t.add("source_errors", l.errors);
        l.bad.take()
    });
    t.hit(&format!("ops.{}", name));
    match res {
        Err(e) => t.violation(format!("{}: {}", desc, e)),
        Ok(did) => {
            t.saw(&(name, look, &did));
            if let Some(b) = b {
                let s: Vec<String> = did.iter().map(|d| if *d < 0 { "uncons".into() } else { format!("reset to {}", d) }).collect();
                t.violation(format!("{}, after {}: {}", desc, s.join(", "), b))
            }
        }
    }
}

// ---- driving it with parsers

struct Outcome {
    r: Result<R, String>,
    bad: Option<String>,
    refused: u64,
    far: usize,
}
fn parse<S>(g: &G, inp: &[u8], look: usize) -> Outcome
where
    S: Place + Positioned + 'static,
    S::Token: Tk,
    S::Position: Clone + Ord + Default + Debug,
    Spy<S>: Inp + StreamOnce<Token = S::Token, Position = S::Position>,
{
    setup(inp.iter().map(|b| Ev::Item(*b)).collect(), look);
    let r = guard(|| {
        let mut p = build::<Spy<S>>(g);
        mon::start(FUEL.max(inp.len() as u64 * 20_000));
        let mut i = Spy::<S>::new(look);
        let r = p.parse_stream(&mut i);
        let at = i.at;
        use combine::ParseResult::*;
        match r {
            CommitOk(v) => R::Ok(v, at, true),
            PeekOk(v) => R::Ok(v, at, false),
            CommitErr(_) => R::Commit,
            PeekErr(_) => R::Peek,
        }
    });
    log(|l| Outcome { r, bad: l.bad.take(), refused: l.refused, far: l.far })
}

fn wrong(g: &G, inp: &[u8], look: usize, o: &Outcome) -> Option<String> {
    if let Some(b) = &o.bad {
        return Some(b.clone());
    }
    let e = expect(g, inp, |_| 1)?;
    match &o.r {
        Err(e) => Some(e.clone()),
        Ok(r) if o.refused == 0 && *r != e => Some(format!("specified {:?}, observed {:?}", e, r)),
        Ok(r) if o.refused > 0 && matches!(r, R::Ok(..)) => {
            Some(format!("a reset was refused (look-ahead {}, furthest {}) and yet the parse gives {:?}", look, o.far, r))
        }
        _ => None,
    }
}

fn grammars<S>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    S: Place + Positioned + 'static,
    S::Token: Tk,
    S::Position: Clone + Ord + Default + Debug,
    Spy<S>: Inp + StreamOnce<Token = S::Token, Position = S::Position>,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..3 {
        let inp = input_for(&g, r, 30);
        let look = if r.big > 0 { *r.pick(&[1, 8, 64, 255, 256, 257, 300, 1000, 2000, 4096]) } else { *r.pick(&[1, 1, 2, 3, 5, 8, 64, 64]) };
        let o = parse::<S>(&g, &inp, look);
        t.evals += 1;
        log(|l| {
            t.add("operations", l.ops);
            t.add("items_seen_again", l.replayed);
            t.add("resets_back", l.back);
        });
        if o.far > look {
            t.hit("parses_reaching_too_far_back")
        }
        if o.refused > 0 {
            t.hit("parses_refused")
        } else if matches!(o.r, Ok(R::Ok(..))) {
            t.hit("parses_ok")
        }
        t.hit(&format!("parses.{}", name));
        t.saw(&(format!("{:?}", g), &inp, look, name));
        t.sample(|| format!("{} with look-ahead {}: {:?} on {:?} -> {:?}, went back at most {}", name, look, g, lossy(&inp), o.r, o.far));
        if wrong(&g, &inp, look, &o).is_some() {
            let (g, inp) = shrink(&g, &inp, &mut |g, i| wrong(g, i, look, &parse::<S>(g, i, look)).is_some());
            let w = wrong(&g, &inp, look, &parse::<S>(&g, &inp, look));
            t.violation(format!("{} with look-ahead {}: {:?} on {:?}: {}", name, look, g, lossy(&inp), w.unwrap_or_default()));
            return;
        }
    }
}

fn main() {
    let ctx = Ctx::new("C11");
    let _ = std::marker::PhantomData::<UnexpectedParse>;
    ctx.par("ops-once", 200_000, 8_000_000, (5, 100), |r, _, t| ops::<Once>("once", r, t));
    ctx.par("ops-iterator", 200_000, 8_000_000, (5, 100), |r, _, t| ops::<PIter>("iterator", r, t));
    ctx.par("ops-chars", 200_000, 8_000_000, (5, 100), |r, _, t| ops::<PChars>("chars", r, t));
    ctx.par("ops-reader", 200_000, 8_000_000, (5, 100), |r, _, t| ops::<PRead>("reader", r, t));
    ctx.par("ops-reader-easy", 200_000, 8_000_000, (5, 100), |r, _, t| ops::<PReadEasy>("reader-easy", r, t));
    ctx.par("long-ops", 10_000, 400_000, (8, 150), |r, c, t| {
        r.big = 3;
        match c % 5 {
            0 => ops::<Once>("once", r, t),
            1 => ops::<PIter>("iterator", r, t),
            2 => ops::<PChars>("chars", r, t),
            3 => ops::<PRead>("reader", r, t),
            _ => ops::<PReadEasy>("reader-easy", r, t),
        }
    });
    let cfg = Cfg::new(false);
    ctx.par("once", 150_000, 6_000_000, (10, 200), |r, _, t| grammars::<Once>("once", &cfg, r, t));
    ctx.par("iterator", 80_000, 4_000_000, (7, 150), |r, _, t| grammars::<PIter>("iterator", &cfg, r, t));
    ctx.par("chars", 80_000, 4_000_000, (7, 150), |r, _, t| grammars::<PChars>("chars", &cfg, r, t));
    ctx.par("reader", 80_000, 4_000_000, (7, 150), |r, _, t| grammars::<PRead>("reader", &cfg, r, t));
    ctx.par("reader-easy", 80_000, 4_000_000, (7, 150), |r, _, t| grammars::<PReadEasy>("reader-easy", &cfg, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-once", 20_000, 800_000, (10, 150), |r, _, t| {
        r.big = 3;
        grammars::<Once>("once", &long, r, t)
    });
    ctx.par("long-reader", 15_000, 600_000, (8, 150), |r, _, t| {
        r.big = 3;
        grammars::<PReadEasy>("reader-easy", &long, r, t)
    });
    ctx.finish(
        "random operations, and parses of random grammars, on buffered streams of look-ahead 0 to 64 over five kinds of sources with items, errors and ends at random places; every operation is checked against the items delivered by the source and how often it was asked; distinct: sequences of operations, (grammar, input, look-ahead, source)",
        &[("evaluations", 150_000), ("operations", 3_000_000), ("items_seen_again", 200_000), ("resets_back", 100_000), ("refused", 20_000), ("source_errors", 50_000), ("parses_refused", 2_000), ("parses_ok", 20_000), ("parses_reaching_too_far_back", 2_000)],
    )
}
