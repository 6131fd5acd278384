//! All the kinds of streams that the same tokens can come from.
use crate::build::*;
use crate::drive::Source;
use crate::mon::Mon;
use combine::stream::position::{self, IndexPositioner, SourcePosition};
#[cfg(feature = "alloc")]
use combine::stream::buffered;
#[cfg(feature = "std")]
use combine::stream::{easy, read, span};
use combine::stream::state;
use combine::stream::{CompleteStream, IteratorStream, MaybePartialStream, SliceStream};
use combine::RangeStream;
use std::io::Read;

/// Larger than any input of these workloads, so that backtracking is never refused
pub const AHEAD: usize = 4096;

fn chars(inp: &[u8]) -> Vec<char> {
    inp.iter().map(|b| to_char(*b)).collect()
}

macro_rules! src {
    ($t: ty, |$i: ident| $e: expr) => {
        impl Source for $t {
            fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
                lend(inp, |$i| f($e))
            }
        }
    };
    (text $t: ty, |$i: ident| $e: expr) => {
        impl Source for $t {
            fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
                let t = to_text(inp);
                lend(&t[..], |$i| f($e))
            }
            fn width(b: u8) -> usize {
                <char as Tk>::width(b)
            }
        }
    };
}

pub type PIdx<S> = position::Stream<S, IndexPositioner>;
pub type PSrc<S> = position::Stream<S, SourcePosition>;

src!(S8, |i| i);
src!(text Str, |i| i);
#[cfg(feature = "std")]
src!(ES8, |i| easy::Stream(i));
#[cfg(feature = "std")]
src!(text EStr, |i| easy::Stream(i));
src!(SliceStream<'static, u8>, |i| SliceStream(i));
src!(PIdx<S8>, |i| position::Stream::new(i));
src!(text PSrc<Str>, |i| position::Stream::new(i));
src!(text PIdx<Str>, |i| position::Stream::with_positioner(i, IndexPositioner::new()));
#[cfg(feature = "std")]
src!(easy::Stream<PIdx<S8>>, |i| easy::Stream(position::Stream::new(i)));
#[cfg(feature = "std")]
src!(text easy::Stream<PSrc<Str>>, |i| easy::Stream(position::Stream::new(i)));
src!(CompleteStream<S8>, |i| CompleteStream(i));
src!(MaybePartialStream<S8>, |i| MaybePartialStream(i, false));
#[cfg(feature = "std")]
src!(text MaybePartialStream<EStr>, |i| MaybePartialStream(easy::Stream(i), false));
src!(state::Stream<S8, u32>, |i| state::Stream { stream: i, state: 0 });
#[cfg(feature = "std")]
src!(text state::Stream<EStr, u32>, |i| state::Stream { stream: easy::Stream(i), state: 0 });
#[cfg(feature = "std")]
src!(easy::Stream<SliceStream<'static, u8>>, |i| easy::Stream(SliceStream(i)));
src!(PIdx<SliceStream<'static, u8>>, |i| position::Stream::new(SliceStream(i)));
#[cfg(feature = "std")]
src!(text SpanStr, |i| span::Stream::from(i));
#[cfg(feature = "std")]
src!(SpanS8, |i| span::Stream::from(easy::Stream(position::Stream::new(i))));

#[cfg(feature = "std")]
pub type SpanStr = span::Stream<Str, easy::Errors<char, &'static str, span::Span<combine::stream::PointerOffset<str>>>>;
#[cfg(feature = "std")]
pub type SpanS8 = span::Stream<easy::Stream<PIdx<S8>>, easy::Errors<u8, &'static [u8], span::Span<usize>>>;

#[cfg(feature = "std")]
spanned! { SpanStr, SpanS8, SpanPart }
ranged! {
    PIdx<SliceStream<'static, u8>>,
}
#[cfg(feature = "std")]
ranged! { easy::Stream<SliceStream<'static, u8>>, easy::Stream<&'static [char]> }

impl Source for &'static [char] {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        let t = chars(inp);
        lend(&t[..], |i| f(i))
    }
}
#[cfg(feature = "std")]
impl Source for easy::Stream<&'static [char]> {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        let t = chars(inp);
        lend(&t[..], |i| f(easy::Stream(i)))
    }
}

/// Through a mutable reference
impl<S> Inp for &'static mut S
where
    S: Inp + RangeStream,
    S::Token: Tk,
    S::Position: Default,
    S::Range: Rg,
{
    #[inline]
    fn leaf(g: &crate::grammar::G) -> P<Self> {
        ranged_leaf::<Self>(g)
    }
}
impl<S> Source for &'static mut S
where
    S: Source + RangeStream,
    S::Token: Tk,
    S::Position: Default,
    S::Range: Rg,
{
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        S::with(inp, |mut s| f(unsafe { &mut *(&mut s as *mut S) }))
    }
    fn width(b: u8) -> usize {
        S::width(b)
    }
}

// ---- without ranges

pub type Bytes = std::vec::IntoIter<u8>;
pub type Chars = std::vec::IntoIter<char>;
#[cfg(feature = "std")]
pub type BufIter = buffered::Stream<easy::Stream<PIdx<IteratorStream<Bytes>>>>;
#[cfg(feature = "alloc")]
pub type BufIterPlain = buffered::Stream<PIdx<IteratorStream<Bytes>>>;
#[cfg(feature = "alloc")]
pub type BufChars = buffered::Stream<PSrc<IteratorStream<Chars>>>;
#[cfg(feature = "std")]
pub type BufRead = buffered::Stream<easy::Stream<PIdx<read::Stream<Dribble>>>>;
#[cfg(feature = "std")]
pub type BufReadPlain = buffered::Stream<PIdx<read::Stream<Dribble>>>;

/// A reader which gives one or a few bytes at a time
pub struct Dribble(pub Vec<u8>, pub usize, pub usize);
impl Read for Dribble {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.2 = self.2.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = (1 + (self.2 >> 33) % 3).min(buf.len()).min(self.0.len() - self.1);
        buf[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

macro_rules! own {
    ($t: ty, |$i: ident| $e: expr) => {
        impl Source for $t {
            fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
                let $i = inp;
                f($e)
            }
        }
    };
}

#[cfg(feature = "std")]
own!(BufIter, |i| buffered::Stream::new(easy::Stream(position::Stream::new(IteratorStream::new(i.to_vec()))), AHEAD));
#[cfg(feature = "alloc")]
own!(BufIterPlain, |i| buffered::Stream::new(position::Stream::new(IteratorStream::new(i.to_vec())), AHEAD));
#[cfg(feature = "alloc")]
own!(BufChars, |i| buffered::Stream::new(
    position::Stream::with_positioner(IteratorStream::new(chars(i)), SourcePosition::new()),
    AHEAD
));
#[cfg(feature = "std")]
own!(BufRead, |i| buffered::Stream::new(easy::Stream(position::Stream::new(read::Stream::new(Dribble(i.to_vec(), 0, 1)))), AHEAD));
#[cfg(feature = "std")]
own!(BufReadPlain, |i| buffered::Stream::new(position::Stream::new(read::Stream::new(Dribble(i.to_vec(), 0, 7))), AHEAD));

// u8 with line and column: tokens only
src!(PSrc<S8>, |i| position::Stream::with_positioner(i, SourcePosition::new()));
#[cfg(feature = "std")]
src!(easy::Stream<PSrc<S8>>, |i| easy::Stream(position::Stream::with_positioner(i, SourcePosition::new())));
unranged! { PSrc<S8> }
#[cfg(feature = "std")]
unranged! { easy::Stream<PSrc<S8>> }

// ---- partial streams inside and outside of wrappers

use crate::drive::Chunked;
pub type Part<S> = MaybePartialStream<S>;

macro_rules! part {
    ($t: ty, |$i: ident, $p: ident| $e: expr) => {
        impl Chunked for $t {
            fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
                let $p = !last;
                lend(&inp[from..to], |$i| f(&mut $e))
            }
            fn width(_: u8) -> usize {
                1
            }
        }
    };
    (text $t: ty, |$i: ident, $p: ident| $e: expr) => {
        impl Chunked for $t {
            fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
                let $p = !last;
                let t = to_text(&inp[from..to]);
                lend(&t[..], |$i| f(&mut $e))
            }
            fn width(b: u8) -> usize {
                <char as Tk>::width(b)
            }
        }
    };
}
#[cfg(feature = "std")]
part!(easy::Stream<Part<S8>>, |i, p| easy::Stream(MaybePartialStream(i, p)));
#[cfg(feature = "std")]
part!(text easy::Stream<Part<Str>>, |i, p| easy::Stream(MaybePartialStream(i, p)));
part!(text PSrc<Part<Str>>, |i, p| position::Stream::with_positioner(MaybePartialStream(i, p), SourcePosition::new()));
part!(PIdx<Part<S8>>, |i, p| position::Stream::with_positioner(MaybePartialStream(i, p), IndexPositioner::new()));
#[cfg(feature = "std")]
part!(Part<easy::Stream<PIdx<S8>>>, |i, p| MaybePartialStream(easy::Stream(position::Stream::new(i)), p));
part!(state::Stream<Part<S8>, u32>, |i, p| state::Stream { stream: MaybePartialStream(i, p), state: 0 });
part!(Part<SliceStream<'static, u8>>, |i, p| MaybePartialStream(SliceStream(i), p));
#[cfg(feature = "std")]
part!(text SpanPart, |i, p| span::Stream::from(MaybePartialStream(i, p)));
part!(CompleteOrPart, |i, p| CompleteOrPart(i, p));
part!(&'static mut Part<S8>, |i, p| {
    let mut s = MaybePartialStream(i, p);
    unsafe { &mut *(&mut s as *mut Part<S8>) }
});
#[cfg(feature = "std")]
pub type SpanPart = span::Stream<Part<Str>, easy::Errors<char, &'static str, span::Span<combine::stream::PointerOffset<str>>>>;
ranged! {
    PSrc<Part<Str>>, PIdx<Part<S8>>, Part<SliceStream<'static, u8>>,
    CompleteOrPart, PIdx<Part<crate::mon::Mon<S8>>>,
}
#[cfg(feature = "std")]
ranged! { easy::Stream<Part<S8>>, easy::Stream<Part<Str>> }

/// `PartialStream` while more may come, `CompleteStream` afterwards
#[derive(Clone, Debug, PartialEq)]
pub struct CompleteOrPart(pub S8, pub bool);
use combine::stream::{PartialStream, StreamErrorFor};
macro_rules! both {
    ($s: ident, |$i: ident| $e: expr) => {
        if $s.1 {
            let mut p = PartialStream($s.0);
            let r = {
                let $i = &mut p;
                $e
            };
            $s.0 = p.0;
            r
        } else {
            let mut p = CompleteStream($s.0);
            let r = {
                let $i = &mut p;
                $e
            };
            $s.0 = p.0;
            r
        }
    };
}
impl combine::StreamOnce for CompleteOrPart {
    type Token = u8;
    type Range = S8;
    type Position = <S8 as combine::StreamOnce>::Position;
    type Error = <S8 as combine::StreamOnce>::Error;
    fn uncons(&mut self) -> Result<u8, StreamErrorFor<Self>> {
        both!(self, |i| combine::StreamOnce::uncons(i))
    }
    fn is_partial(&self) -> bool {
        let mut s = self.clone();
        both!(s, |i| combine::StreamOnce::is_partial(&*i))
    }
}
impl combine::Positioned for CompleteOrPart {
    fn position(&self) -> Self::Position {
        let mut s = self.clone();
        both!(s, |i| combine::Positioned::position(&*i))
    }
}
impl combine::stream::ResetStream for CompleteOrPart {
    type Checkpoint = S8;
    fn checkpoint(&self) -> S8 {
        self.0
    }
    fn reset(&mut self, c: S8) -> Result<(), Self::Error> {
        both!(self, |i| combine::stream::ResetStream::reset(i, c))
    }
}
impl combine::stream::RangeStreamOnce for CompleteOrPart {
    fn uncons_range(&mut self, n: usize) -> Result<S8, StreamErrorFor<Self>> {
        both!(self, |i| i.uncons_range(n))
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, f: F) -> Result<S8, StreamErrorFor<Self>> {
        both!(self, |i| i.uncons_while(f))
    }
    fn uncons_while1<F: FnMut(u8) -> bool>(&mut self, f: F) -> combine::error::ParseResult<S8, StreamErrorFor<Self>> {
        both!(self, |i| i.uncons_while1(f))
    }
    fn distance(&self, end: &S8) -> usize {
        let mut s = self.clone();
        both!(s, |i| i.distance(end))
    }
    fn range(&self) -> S8 {
        let mut s = self.clone();
        both!(s, |i| combine::stream::RangeStreamOnce::range(&*i))
    }
}

/// A monitored easy stream with positions which may be cut
#[cfg(feature = "std")]
pub type Easy8 = MaybePartialStream<Mon<easy::Stream<position::Stream<S8, position::IndexPositioner>>>>;

#[cfg(feature = "std")]
impl Chunked for Easy8 {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        lend(&inp[from..to], |s| f(&mut MaybePartialStream(Mon(easy::Stream(position::Stream::new(s))), !last)))
    }
    fn width(_: u8) -> usize {
        1
    }
}
#[cfg(feature = "std")]
ranged! { Easy8 }
