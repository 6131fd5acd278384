//! Running one grammar on one input through combine, and what is observed of it.
use crate::build::*;
use crate::grammar::*;
use crate::model::*;
use crate::mon::{self, Mon};
use crate::run::guard;
use combine::error::ParseResult;
use combine::stream::MaybePartialStream;
use combine::{Parser, RangeStream, StreamOnce};

/// Logical step budget of one parse.
pub const FUEL: u64 = 400_000;
pub fn fuel(inp: &[u8]) -> u64 {
    FUEL.max(inp.len() as u64 * 20_000)
}

/// What a stream is made from
pub trait Source: Inp + Sized
where
    Self::Token: Tk,
    Self::Position: Default,
{
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O;
    fn width(_: u8) -> usize {
        1
    }
}

/// The number of tokens left, which are consumed by counting them
pub fn left<I: StreamOnce>(i: &mut I) -> usize {
    let mut n = 0;
    while i.uncons().is_ok() {
        n += 1
    }
    n
}

pub fn observe<I>(g: &G, inp: &[u8]) -> Result<R, String>
where
    I: Source,
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        I::with(inp, |mut i| {
            let mut p = build::<I>(g);
            mon::start(fuel(inp));
            let r = p.parse_stream(&mut i);
            let pos = inp.len() - left(&mut i);
            match r {
                ParseResult::CommitOk(v) => R::Ok(v, pos, true),
                ParseResult::PeekOk(v) => R::Ok(v, pos, false),
                ParseResult::CommitErr(_) => R::Commit,
                ParseResult::PeekErr(_) => R::Peek,
            }
        })
    })
}

pub fn expect(g: &G, inp: &[u8], width: fn(u8) -> usize) -> Option<R> {
    let m = Model::new(inp, width);
    let e = m.ev(g, 0);
    if m.out_of_fuel.get() {
        None
    } else {
        Some(e)
    }
}

impl Source for Mon<S8> {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        lend(inp, |s| f(Mon(s)))
    }
}
impl Source for Mon<Str> {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        let t = to_text(inp);
        lend(&t[..], |s| f(Mon(s)))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// A partial stream over one part of the input.
pub trait Chunked: Inp + RangeStream
where
    Self::Token: Tk,
    Self::Position: Default,
{
    /// `inp[from..to]` as a stream, which is the last part of the input if `last`.
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O;
    fn width(_: u8) -> usize;
}

impl Chunked for MaybePartialStream<Mon<S8>> {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        lend(&inp[from..to], |s| f(&mut MaybePartialStream(Mon(s), !last)))
    }
    fn width(_: u8) -> usize {
        1
    }
}
impl Chunked for MaybePartialStream<Mon<Str>> {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        let t = to_text(&inp[from..to]);
        lend(&t[..], |s| f(&mut MaybePartialStream(Mon(s), !last)))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Resumes {
    pub decodes: u64,
    pub needed_more: u64,
    pub consumed_before_more: u64,
}

/// Decode `inp`, of which more becomes available at each of `cuts`.
/// The outcome is the value and the tokens consumed, or None if the parser failed.
pub fn chunked<I: Chunked>(g: &G, inp: &[u8], cuts: &[usize], stats: &mut Resumes) -> Result<Option<(V, usize)>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    chunked_with::<I>(&mut || build::<I>(g), inp, cuts, stats)
}

/// The same for any parser
pub fn chunked_with<I: Chunked>(
    make: &mut dyn FnMut() -> P<I>,
    inp: &[u8],
    cuts: &[usize],
    stats: &mut Resumes,
) -> Result<Option<(V, usize)>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        let mut p = make();
        let mut st = St::default();
        let mut pos = 0;
        let mut k = 0;
        mon::start(fuel(inp));
        loop {
            let last = k == cuts.len();
            let end = if last { inp.len() } else { cuts[k] };
            stats.decodes += 1;
            let r = I::chunk(inp, pos, end, last, |i| {
                combine::stream::decode(&mut p, i, &mut st).map_err(|_| ())
            });
            // `n` is in the units of the range; back to tokens
            let toks = |n: usize| {
                let (mut i, mut left) = (pos, n);
                while left > 0 {
                    assert!(i < end, "decode removes {} but only {} tokens were available", n, end - pos);
                    let w = I::width(inp[i]);
                    assert!(w <= left, "decode removes part of a character");
                    left -= w;
                    i += 1;
                }
                i
            };
            match r {
                Ok((Some(v), n)) => return Some((v, toks(n))),
                Ok((None, n)) => {
                    assert!(!last, "decode wants more than the whole input");
                    stats.needed_more += 1;
                    stats.consumed_before_more += (n > 0) as u64;
                    pos = toks(n);
                    k += 1;
                }
                Err(()) => return None,
            }
        }
    })
}

#[allow(dead_code)]
fn _a<I: StreamOnce>() {}
