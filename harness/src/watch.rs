//! A monitor which is told the whole token sequence and checks every step of a stream against it:
//! which tokens are delivered, which window a range is, what the predicates are asked, and the positions.
use crate::build::*;
use crate::grammar::{in_class, Class, G};
use combine::error::ParseResult;
use combine::stream::position::SourcePosition;
use combine::stream::span::Span;
use combine::stream::{PointerOffset, Range as _, Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use combine::error::StreamError;
use std::cell::RefCell;

/// Where a position of this type must be, after `n` of `toks` have been consumed
pub trait Spot: Clone + Ord {
    fn spot(toks: &[u8], n: usize, base: usize, unit: &dyn Fn(u8) -> usize) -> Self;
    fn show(&self) -> String;
}
impl<T: ?Sized> Spot for PointerOffset<T>
where
    PointerOffset<T>: Clone + Ord,
{
    fn spot(toks: &[u8], n: usize, base: usize, unit: &dyn Fn(u8) -> usize) -> Self {
        PointerOffset::new(base + toks[..n].iter().map(|t| unit(*t)).sum::<usize>())
    }
    fn show(&self) -> String {
        format!("{:x}", self.0)
    }
}
impl Spot for usize {
    fn spot(_: &[u8], n: usize, _: usize, _: &dyn Fn(u8) -> usize) -> Self {
        n
    }
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Spot for SourcePosition {
    fn spot(toks: &[u8], n: usize, _: usize, _: &dyn Fn(u8) -> usize) -> Self {
        let (mut line, mut column) = (1, 1);
        for t in &toks[..n] {
            if *t == b'\n' {
                line += 1;
                column = 1;
            } else {
                column += 1;
            }
        }
        SourcePosition { line, column }
    }
    fn show(&self) -> String {
        format!("{}", self)
    }
}
impl<P: Spot> Spot for Span<P> {
    fn spot(toks: &[u8], n: usize, base: usize, unit: &dyn Fn(u8) -> usize) -> Self {
        let p = P::spot(toks, n, base, unit);
        Span { start: p.clone(), end: p }
    }
    fn show(&self) -> String {
        format!("{}..{}", self.start.show(), self.end.show())
    }
}

pub trait Addr {
    fn addr(&self) -> usize;
    /// size in memory of one unit
    fn unit() -> usize;
}
impl Addr for &'static str {
    fn addr(&self) -> usize {
        self.as_ptr() as usize
    }
    fn unit() -> usize {
        1
    }
}
impl<T> Addr for &'static [T] {
    fn addr(&self) -> usize {
        self.as_ptr() as usize
    }
    fn unit() -> usize {
        std::mem::size_of::<T>()
    }
}

#[derive(Default, Clone, Debug)]
pub struct Log {
    toks: Vec<u8>,
    base: usize,
    pub windows: Option<String>,
    pub positions: Option<String>,
    pub tokens: Option<String>,
    pub n_tokens: u64,
    pub n_ranges: u64,
    pub n_wide: u64,
    pub n_preds: u64,
    pub n_resets: u64,
    pub n_pos: u64,
    pub n_refused: u64,
    pub starts: Vec<usize>,
}

thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

pub fn begin(toks: &[u8], base: usize) {
    LOG.with(|l| *l.borrow_mut() = Log { toks: toks.to_vec(), base, ..Log::default() });
}
pub fn end() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}

#[derive(Clone, Debug)]
pub struct Watch<S> {
    pub s: S,
    pub idx: usize,
}

impl<S> Watch<S> {
    pub fn new(s: S) -> Self {
        Watch { s, idx: 0 }
    }
}

impl<S> Watch<S>
where
    S: StreamOnce + Positioned,
    S::Token: Tk,
    S::Position: Spot,
{
    fn check_pos(&self, unit: &dyn Fn(u8) -> usize) {
        let p = self.s.position();
        log(|l| {
            l.n_pos += 1;
            let q = S::Position::spot(&l.toks, self.idx.min(l.toks.len()), l.base, unit);
            if p != q && l.positions.is_none() {
                l.positions = Some(format!(
                    "after {} of {:?} the position is {} but should be {}",
                    self.idx,
                    String::from_utf8_lossy(&l.toks),
                    p.show(),
                    q.show()
                ));
            }
        })
    }
}

/// How a stream measures its tokens in memory; only matters for pointer positions
pub trait Meas {
    fn meas(b: u8) -> usize;
}

impl<S> StreamOnce for Watch<S>
where
    S: StreamOnce + Positioned + Meas,
    S::Token: Tk,
    S::Position: Spot,
{
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        let r = self.s.uncons();
        let i = self.idx;
        log(|l| {
            let want = l.toks.get(i).cloned();
            let got = r.as_ref().ok().map(|t| t.b());
            l.n_tokens += 1;
            if want != got && l.tokens.is_none() {
                l.tokens = Some(format!(
                    "token {} of {:?} was delivered as {:?}",
                    i,
                    String::from_utf8_lossy(&l.toks),
                    got.map(|b| b as char)
                ));
            }
        });
        if r.is_ok() {
            self.idx += 1
        }
        self.check_pos(&S::meas);
        r
    }
    fn is_partial(&self) -> bool {
        self.s.is_partial()
    }
}
impl<S> Positioned for Watch<S>
where
    S: StreamOnce + Positioned + Meas,
    S::Token: Tk,
    S::Position: Spot,
{
    fn position(&self) -> S::Position {
        self.check_pos(&S::meas);
        self.s.position()
    }
}
impl<S> ResetStream for Watch<S>
where
    S: StreamOnce + Positioned + ResetStream + Meas,
    S::Token: Tk,
    S::Position: Spot,
{
    type Checkpoint = (S::Checkpoint, usize);
    fn checkpoint(&self) -> Self::Checkpoint {
        (self.s.checkpoint(), self.idx)
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), S::Error> {
        self.s.reset(c.0)?;
        self.idx = c.1;
        log(|l| l.n_resets += 1);
        self.check_pos(&S::meas);
        Ok(())
    }
}

impl<S> Watch<S>
where
    S: RangeStreamOnce + Positioned + ResetStream + Meas,
    S::Token: Tk,
    S::Position: Spot,
    S::Range: Rg + Addr,
{
    /// A range was returned: it must be the window at the current place; moves past it
    fn window(&mut self, what: &str, r: &S::Range, want: usize) {
        let i = self.idx;
        log(|l| {
            l.n_ranges += 1;
            let off: usize = l.toks[..i.min(l.toks.len())].iter().map(|t| S::Range::width(*t)).sum();
            let b = r.bytes();
            l.n_wide += (b.len() >= 8) as u64;
            let exp = &l.toks[i.min(l.toks.len())..want.min(l.toks.len())];
            let addr = l.base + off * S::Range::unit();
            if l.windows.is_none() && (b != exp || r.addr() != addr) {
                l.windows = Some(format!(
                    "{} at {} of {:?} gave {:?} at offset {} but the window is {:?} at offset {}",
                    what,
                    i,
                    String::from_utf8_lossy(&l.toks),
                    String::from_utf8_lossy(&b),
                    r.addr().wrapping_sub(l.base) as isize,
                    String::from_utf8_lossy(exp),
                    addr - l.base
                ));
            }
        });
        self.idx += r.bytes().len();
    }
    /// Nothing was returned, and nothing may have been consumed
    fn stays(&self, what: &str) {
        let r = self.s.range();
        let i = self.idx;
        log(|l| {
            l.n_refused += 1;
            let off: usize = l.toks[..i.min(l.toks.len())].iter().map(|t| S::Range::width(*t)).sum();
            if l.windows.is_none() && (r.bytes() != l.toks[i..] || r.addr() != l.base + off * S::Range::unit()) {
                l.windows = Some(format!("{} at {} of {:?} failed but consumed", what, i, String::from_utf8_lossy(&l.toks)));
            }
        });
    }
    fn accepted(&self, asked: &[(u8, bool)], what: &str) -> usize {
        let i = self.idx;
        log(|l| {
            l.n_preds += asked.len() as u64;
            let n = asked.iter().take_while(|a| a.1).count();
            let rest = &l.toks[i..];
            // each token once, in order, up to and including the first that is rejected
            let ok = asked.iter().map(|a| &a.0).eq(rest.iter().take(asked.len()))
                && (asked.len() == n || asked.len() == n + 1)
                && (asked.len() == n + 1 || n == rest.len());
            if !ok && l.windows.is_none() {
                l.windows = Some(format!(
                    "{} at {} of {:?} asked the predicate {:?}",
                    what,
                    i,
                    String::from_utf8_lossy(&l.toks),
                    asked.iter().map(|a| (a.0 as char, a.1)).collect::<Vec<_>>()
                ));
            }
            i + n
        })
    }
    pub fn fail(&self, what: String) {
        log(|l| {
            if l.windows.is_none() {
                l.windows = Some(format!("at {} of {:?}: {}", self.idx, String::from_utf8_lossy(&l.toks), what))
            }
        })
    }
}

impl<S> RangeStreamOnce for Watch<S>
where
    S: RangeStreamOnce + Positioned + ResetStream + Meas,
    S::Token: Tk,
    S::Position: Spot,
    S::Range: Rg + Addr,
{
    fn uncons_range(&mut self, n: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        let r = self.s.uncons_range(n);
        let i = self.idx;
        let (end, left) = log(|l| {
            let (mut j, mut left) = (i, n);
            while left > 0 && j < l.toks.len() && S::Range::width(l.toks[j]) <= left {
                left -= S::Range::width(l.toks[j]);
                j += 1;
            }
            (j, (left, j == l.toks.len()))
        });
        match &r {
            Ok(x) => {
                if left.0 > 0 {
                    self.fail(format!("uncons_range({}) succeeded", n));
                }
                let x = x.clone();
                self.window(&format!("uncons_range({})", n), &x, end);
            }
            Err(e) => {
                if left.0 == 0 {
                    self.fail(format!("uncons_range({}) failed", n));
                } else if n > self.s.range().len() && !e.is_unexpected_end_of_input() {
                    self.fail(format!("uncons_range({}) failed with something else than the end of the input", n));
                }
                self.stays(&format!("uncons_range({})", n));
            }
        }
        self.check_pos(&S::meas);
        r
    }
    fn uncons_while<F>(&mut self, mut f: F) -> Result<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        let mut asked = vec![];
        let r = self.s.uncons_while(|t| {
            let b = t.b();
            let x = f(t);
            asked.push((b, x));
            x
        });
        let end = self.accepted(&asked, "uncons_while");
        match &r {
            Ok(x) => {
                let x = x.clone();
                self.window("uncons_while", &x, end)
            }
            Err(_) => self.fail("uncons_while failed".into()),
        }
        self.check_pos(&S::meas);
        r
    }
    fn uncons_while1<F>(&mut self, mut f: F) -> ParseResult<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        let mut asked = vec![];
        let r = self.s.uncons_while1(|t| {
            let b = t.b();
            let x = f(t);
            asked.push((b, x));
            x
        });
        let end = self.accepted(&asked, "uncons_while1");
        let some = end > self.idx;
        match &r {
            ParseResult::CommitOk(x) | ParseResult::PeekOk(x) => {
                if !some || matches!(r, ParseResult::PeekOk(_)) {
                    self.fail("uncons_while1 succeeded without a token".into());
                }
                let x = x.clone();
                self.window("uncons_while1", &x, end)
            }
            ParseResult::CommitErr(_) => self.fail("uncons_while1 failed committed".into()),
            ParseResult::PeekErr(_) => {
                if some {
                    self.fail("uncons_while1 failed although a token was accepted".into());
                }
                self.stays("uncons_while1")
            }
        }
        self.check_pos(&S::meas);
        r
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        let d = self.s.distance(&end.0);
        let want: usize = if end.1 <= self.idx {
            log(|l| l.toks[end.1..self.idx].iter().map(|t| S::Range::width(*t)).sum())
        } else {
            d
        };
        if d != want {
            self.fail(format!("the distance from {} is {} and not {}", end.1, d, want))
        }
        d
    }
    fn range(&self) -> S::Range {
        let r = self.s.range();
        let i = self.idx;
        log(|l| {
            let off: usize = l.toks[..i].iter().map(|t| S::Range::width(*t)).sum();
            if l.windows.is_none() && (r.bytes() != l.toks[i..] || r.addr() != l.base + off * S::Range::unit()) {
                l.windows = Some(format!("range() at {} of {:?} is not the rest of the input", i, String::from_utf8_lossy(&l.toks)));
            }
        });
        r
    }
}


macro_rules! meas {
    ($f: expr; $($t: ty),* $(,)?) => { $(impl Meas for $t { fn meas(b: u8) -> usize { let f: fn(u8) -> usize = $f; f(b) } })* };
}

use crate::sources::*;
use combine::stream::{easy, state, CompleteStream, MaybePartialStream, SliceStream};
meas! { |_| 1;
    S8, ES8, SliceStream<'static, u8>, easy::Stream<SliceStream<'static, u8>>, PIdx<S8>, easy::Stream<PIdx<S8>>,
    CompleteStream<S8>, state::Stream<S8, u32>, SpanS8, PIdx<SliceStream<'static, u8>>, &'static mut S8,
    BufIter, BufIterPlain, BufChars, BufRead, BufReadPlain, PIdx<Str>, PSrc<S8>, easy::Stream<PSrc<S8>>,
}
meas! { <char as Tk>::width;
    Str, EStr, PSrc<Str>, easy::Stream<PSrc<Str>>, MaybePartialStream<EStr>, state::Stream<EStr, u32>, SpanStr,
    &'static mut EStr,
}
meas! { |_| 4; &'static [char], easy::Stream<&'static [char]> }

#[derive(Debug, Clone, Copy)]
pub enum Op {
    Tok,
    Range(usize),
    While(Class),
    While1(Class),
    Mark,
    Back(usize),
    Rest,
}

pub fn gen_ops(r: &mut Rng, ranges: bool) -> Vec<Op> {
    let n = r.range(1, 25);
    (0..n)
        .map(|_| match if ranges { r.below(12) } else { r.below(5) } {
            0 | 1 => Op::Tok,
            2 => Op::Mark,
            3 | 4 => Op::Back(r.below(8)),
            5 | 6 => Op::Range(match r.big {
                0 => *r.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 1000, usize::MAX]),
                2 => *r.pick(&[1, 300, 32768, 65535, 65536, 65537, 66000, 70000, 100_000]),
                _ => *r.pick(&[0, 1, 9, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, usize::MAX]),
            }),
            7 | 8 => Op::While(if r.chance(1, 2) { 63 & !(1 << r.below(6)) } else { r.below(64) as u8 }),
            9 | 10 => Op::While1(if r.chance(1, 2) { 63 & !(1 << r.below(6)) } else { r.below(64) as u8 }),
            _ => Op::Rest,
        })
        .collect()
}

/// Long runs, so that the unrolled loops are entered
pub fn gen_toks(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.range(0, 5) {
        let b = *r.pick(crate::grammar::ALPHA);
        let c = *r.pick(crate::grammar::ALPHA);
        let n = match r.big {
            0 => *r.pick(&[1, 2, 3, 5, 7, 8, 9, 15, 16, 17]),
            _ => r.reps(1, 20),
        };
        let mix = if n > 20 { *r.pick(&[0, 0, 1]) } else { 1 };
        for _ in 0..n {
            v.push(if mix == 1 && r.chance(1, 4) { c } else { b })
        }
    }
    v
}

use crate::rng::Rng;

pub fn run_tok_ops<S>(s: S, ops: &[Op])
where
    S: StreamOnce + Positioned + ResetStream + Meas,
    S::Token: Tk,
    S::Position: Spot,
{
    let mut w = Watch::new(s);
    let mut marks = vec![w.checkpoint()];
    for o in ops {
        match o {
            Op::Tok => {
                let _ = w.uncons();
            }
            Op::Mark => marks.push(w.checkpoint()),
            Op::Back(k) => {
                let c = marks[k % marks.len()].clone();
                if w.reset(c).is_err() {
                    w_fail("a reset within the look-ahead was refused")
                }
            }
            _ => {}
        }
    }
}

fn w_fail(s: &str) {
    log(|l| {
        if l.tokens.is_none() {
            l.tokens = Some(s.to_string())
        }
    })
}

pub fn run_ops<S>(s: S, ops: &[Op])
where
    S: RangeStreamOnce + Positioned + ResetStream + Meas,
    S::Token: Tk,
    S::Position: Spot,
    S::Range: Rg + Addr,
{
    let mut w = Watch::new(s);
    let mut marks = vec![w.checkpoint()];
    for o in ops {
        match o {
            Op::Tok => {
                let _ = w.uncons();
            }
            Op::Range(n) => {
                let _ = w.uncons_range(*n);
            }
            Op::While(k) => {
                let k = *k;
                let _ = w.uncons_while(|t: S::Token| in_class(k, t.b()));
            }
            Op::While1(k) => {
                let k = *k;
                let _ = w.uncons_while1(|t: S::Token| in_class(k, t.b()));
            }
            Op::Mark => marks.push(w.checkpoint()),
            Op::Back(k) => {
                let c = marks[k % marks.len()].clone();
                if w.reset(c).is_err() {
                    w_fail("a reset was refused")
                }
            }
            Op::Rest => {
                let _ = w.range();
                for m in &marks {
                    if m.1 <= w.idx {
                        let _ = w.distance(m);
                    }
                }
            }
        }
    }
}

ranged! {
    Watch<S8>, Watch<ES8>, Watch<SliceStream<'static, u8>>, Watch<easy::Stream<SliceStream<'static, u8>>>, Watch<PIdx<S8>>,
    Watch<easy::Stream<PIdx<S8>>>, Watch<CompleteStream<S8>>, Watch<SpanS8>, Watch<PIdx<SliceStream<'static, u8>>>,
    Watch<Str>, Watch<EStr>, Watch<PSrc<Str>>, Watch<easy::Stream<PSrc<Str>>>, Watch<MaybePartialStream<EStr>>, Watch<SpanStr>,
    Watch<&'static [char]>, Watch<easy::Stream<&'static [char]>>,
}
unranged! { Watch<BufIter>, Watch<BufIterPlain>, Watch<BufChars>, Watch<BufRead> }

pub type Ops = fn(&[u8], &[Op]) -> Result<Log, String>;
pub type Parse = fn(&G, &[u8]) -> Result<Log, String>;

/// Random operations directly on a range stream
pub fn ops<S>(inp: &[u8], ops: &[Op]) -> Result<Log, String>
where
    S: crate::drive::Source + RangeStreamOnce + Meas + combine::Stream,
    S::Token: Tk,
    S::Position: Spot + Default,
    S::Range: Rg + Addr,
{
    crate::run::guard(|| {
        S::with(inp, |s| {
            begin(inp, s.range().addr());
            run_ops(s, ops)
        });
        end()
    })
}
pub fn tok_ops<S>(inp: &[u8], ops: &[Op]) -> Result<Log, String>
where
    S: crate::drive::Source + Meas + combine::Stream,
    S::Token: Tk,
    S::Position: Spot + Default,
{
    crate::run::guard(|| {
        S::with(inp, |s| {
            begin(inp, 0);
            run_tok_ops(s, ops)
        });
        end()
    })
}
/// A parse, every stream operation of which is watched
pub fn parse<S>(g: &G, inp: &[u8]) -> Result<Log, String>
where
    S: crate::drive::Source + RangeStreamOnce + Meas + combine::Stream,
    Watch<S>: Inp + combine::Stream<Token = S::Token, Position = S::Position>,
    S::Token: Tk,
    S::Position: Spot + Default,
    S::Range: Rg + Addr,
{
    crate::run::guard(|| {
        S::with(inp, |s| {
            begin(inp, s.range().addr());
            let mut w = Watch::new(s);
            let _ = combine::Parser::parse_stream(&mut build::<Watch<S>>(g), &mut w);
        });
        end()
    })
}
pub fn tok_parse<S>(g: &G, inp: &[u8]) -> Result<Log, String>
where
    S: crate::drive::Source + Meas + combine::Stream,
    Watch<S>: Inp + combine::Stream<Token = S::Token, Position = S::Position>,
    S::Token: Tk,
    S::Position: Spot + Default,
{
    crate::run::guard(|| {
        S::with(inp, |s| {
            begin(inp, 0);
            let mut w = Watch::new(s);
            let _ = combine::Parser::parse_stream(&mut build::<Watch<S>>(g), &mut w);
        });
        end()
    })
}
