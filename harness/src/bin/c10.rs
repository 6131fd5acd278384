//! C10: the error type changes only the report, never the parse; errors merge lawfully.
use combine::error::{
    Commit, ErrorInfo, Format, Info as PInfo, ParseError, ParseErrorInto, ParseResult, StdParseResult2, StreamError, StreamErrorInto,
    StringStreamError, Token, Tracked, UnexpectedParse,
};
use combine::stream::{easy, read, MaybePartialStream, Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use combine::{Parser, RangeStream};
use std::fmt;
use std::marker::PhantomData;
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*};

// ---- streams with any error type

/// The stream `S` with the error type `E`
pub struct Wr<S, E>(S, PhantomData<fn() -> E>);
fn wr<S, E>(s: S) -> Wr<S, E> {
    Wr(s, PhantomData)
}
impl<S: Clone, E> Clone for Wr<S, E> {
    fn clone(&self) -> Self {
        wr(self.0.clone())
    }
}
impl<S, E> StreamOnce for Wr<S, E>
where
    S: StreamOnce,
    E: ParseError<S::Token, S::Range, S::Position>,
    E::StreamError: StreamError<S::Token, S::Range>,
{
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = E;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        self.0.uncons().map_err(StreamError::into_other)
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S, E> Positioned for Wr<S, E>
where
    S: Positioned,
    E: ParseError<S::Token, S::Range, S::Position>,
{
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S, E> ResetStream for Wr<S, E>
where
    S: ResetStream + Positioned,
    E: ParseError<S::Token, S::Range, S::Position>,
{
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), E> {
        self.0.reset(c).map_err(|e| e.into_other())
    }
}
impl<S, E> RangeStreamOnce for Wr<S, E>
where
    S: RangeStreamOnce + Positioned,
    E: ParseError<S::Token, S::Range, S::Position>,
{
    fn uncons_range(&mut self, n: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        self.0.uncons_range(n).map_err(StreamError::into_other)
    }
    fn uncons_while<F>(&mut self, f: F) -> Result<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        self.0.uncons_while(f).map_err(StreamError::into_other)
    }
    fn uncons_while1<F>(&mut self, f: F) -> ParseResult<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        self.0.uncons_while1(f).map_err(StreamError::into_other)
    }
    fn distance(&self, end: &S::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> S::Range {
        self.0.range()
    }
}
impl<S, E> Inp for Wr<S, E>
where
    S: RangeStream + 'static,
    S::Token: Tk,
    S::Range: Rg,
    S::Position: Default,
    E: ParseError<S::Token, S::Range, S::Position> + 'static,
{
    fn leaf(g: &G) -> P<Self> {
        ranged_leaf::<Self>(g)
    }
}

/// A user's error type which keeps nothing at all of what the streams and parsers tell it, with every method that has a
/// default left to it
#[derive(Debug, PartialEq)]
pub struct Nothing;
impl<T, R, P: Default> ParseError<T, R, P> for Nothing {
    type StreamError = Is;
    fn empty(_: P) -> Self {
        Nothing
    }
    fn set_position(&mut self, _: P) {}
    fn add(&mut self, _: Is) {}
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(_: &mut Tracked<Self>, _: Is, _: F) {}
    fn is_unexpected_end_of_input(&self) -> bool {
        false
    }
    fn into_other<O: ParseError<T, R, P>>(self) -> O {
        O::empty(P::default())
    }
}

/// A user's error type which keeps the last thing it was told, whether that was the end of the input, and
/// where. `merge` and `from_error` are the defaults.
#[derive(Debug, PartialEq, Clone)]
pub struct Last<P> {
    at: P,
    end: bool,
}
#[derive(Debug, PartialEq, Clone)]
pub struct Is(bool);
impl<T, R> StreamError<T, R> for Is {
    fn unexpected_token(_: T) -> Self {
        Is(false)
    }
    fn unexpected_range(_: R) -> Self {
        Is(false)
    }
    fn unexpected_format<F: fmt::Display>(_: F) -> Self {
        Is(false)
    }
    fn expected_token(_: T) -> Self {
        Is(false)
    }
    fn expected_range(_: R) -> Self {
        Is(false)
    }
    fn expected_format<F: fmt::Display>(_: F) -> Self {
        Is(false)
    }
    fn message_token(_: T) -> Self {
        Is(false)
    }
    fn message_range(_: R) -> Self {
        Is(false)
    }
    fn message_format<F: fmt::Display>(_: F) -> Self {
        Is(false)
    }
    fn end_of_input() -> Self {
        Is(true)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.0
    }
    fn into_other<O: StreamError<T, R>>(self) -> O {
        if self.0 {
            O::end_of_input()
        } else {
            O::unexpected_static_message("something")
        }
    }
}
impl<T, R, P: Clone + PartialEq> ParseError<T, R, P> for Last<P> {
    type StreamError = Is;
    fn empty(at: P) -> Self {
        Last { at, end: false }
    }
    fn position(&self) -> P {
        self.at.clone()
    }
    fn set_position(&mut self, at: P) {
        self.at = at
    }
    fn add(&mut self, e: Is) {
        self.end |= e.0
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, _: Is, f: F) {
        f(s)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.end
    }
    fn into_other<O: ParseError<T, R, P>>(self) -> O {
        if self.end {
            O::from_error(self.at, <O::StreamError as StreamError<T, R>>::end_of_input())
        } else {
            O::empty(self.at)
        }
    }
}

// ---- what is run over them

type B8 = Mon<S8>;
type T8 = Mon<Str>;
type Pos<S> = <S as StreamOnce>::Position;
type Full<S> = easy::Errors<<S as StreamOnce>::Token, <S as StreamOnce>::Range, Pos<S>>;
type One<S> = easy::Error<<S as StreamOnce>::Token, <S as StreamOnce>::Range>;

impl<E: ParseError<u8, S8, Pos<S8>> + 'static> Source for Wr<B8, E> {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        lend(inp, |s| f(wr(Mon(s))))
    }
}
impl<E: ParseError<char, Str, Pos<Str>> + 'static> Source for Wr<T8, E> {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        let t = to_text(inp);
        lend(&t[..], |s| f(wr(Mon(s))))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}
type Pt8 = MaybePartialStream<B8>;
type PtT = MaybePartialStream<T8>;
impl<E: ParseError<u8, S8, Pos<S8>> + 'static> Chunked for Wr<Pt8, E> {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        lend(&inp[from..to], |s| f(&mut wr(MaybePartialStream(Mon(s), !last))))
    }
    fn width(_: u8) -> usize {
        1
    }
}
impl<E: ParseError<char, Str, Pos<Str>> + 'static> Chunked for Wr<PtT, E> {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        let t = to_text(&inp[from..to]);
        lend(&t[..], |s| f(&mut wr(MaybePartialStream(Mon(s), !last))))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}

/// Outcome, and whether the error says that the end of the input was reached
fn whole<I: Source>(g: &G, inp: &[u8]) -> Result<(R, bool), String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        I::with(inp, |mut i| {
            let mut p = build::<I>(g);
            mon::start(fuel(inp));
            let r = p.parse_stream(&mut i);
            let pos = inp.len() - left(&mut i);
            match r {
                ParseResult::CommitOk(v) => (R::Ok(v, pos, true), false),
                ParseResult::PeekOk(v) => (R::Ok(v, pos, false), false),
                ParseResult::CommitErr(e) => (R::Commit, e.is_unexpected_end_of_input()),
                ParseResult::PeekErr(e) => (R::Peek, e.error.is_unexpected_end_of_input()),
            }
        })
    })
}

type Run = (&'static str, bool, fn(&G, &[u8]) -> Result<(R, bool), String>);
type Cut = (&'static str, fn(&G, &[u8], &[usize]) -> Result<Option<(V, usize)>, String>);

fn parts<I: Chunked>(g: &G, inp: &[u8], cuts: &[usize]) -> Result<Option<(V, usize)>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    let mut s = Resumes::default();
    chunked::<I>(g, inp, cuts, &mut s)
}

const BYTES: &[Run] = &[
    ("detailed", true, whole::<Wr<B8, Full<S8>>>),
    ("unexpected-only", true, whole::<Wr<B8, UnexpectedParse>>),
    ("string", true, whole::<Wr<B8, StringStreamError>>),
    ("read", true, whole::<Wr<B8, read::Error>>),
    ("single", false, whole::<Wr<B8, One<S8>>>),
    ("nothing", false, whole::<Wr<B8, Nothing>>),
    ("last", false, whole::<Wr<B8, Last<Pos<S8>>>>),
];
const TEXT: &[Run] = &[
    ("detailed", true, whole::<Wr<T8, Full<Str>>>),
    ("unexpected-only", true, whole::<Wr<T8, UnexpectedParse>>),
    ("string", true, whole::<Wr<T8, StringStreamError>>),
    ("nothing", false, whole::<Wr<T8, Nothing>>),
    ("last", false, whole::<Wr<T8, Last<Pos<Str>>>>),
];
const BYTES_PARTS: &[Cut] = &[
    ("detailed", parts::<Wr<Pt8, Full<S8>>>),
    ("string", parts::<Wr<Pt8, StringStreamError>>),
    ("read", parts::<Wr<Pt8, read::Error>>),
    ("last", parts::<Wr<Pt8, Last<Pos<S8>>>>),
];
const TEXT_PARTS: &[Cut] = &[
    ("detailed", parts::<Wr<PtT, Full<Str>>>),
    ("unexpected-only", parts::<Wr<PtT, UnexpectedParse>>),
];

fn case(name: &str, runs: &[Run], cuts: &[Cut], width: fn(u8) -> usize, cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..2 {
        let inp = input_for(&g, r, 24);
        let m = Model::new(&inp, width);
        let e = m.ev(&g, 0);
        if m.out_of_fuel.get() {
            continue;
        }
        let searches = m.taint.get();
        // the detailed error is the one the others are compared with
        let mut ends = None;
        for (k, tells, f) in runs {
            let a = f(&g, &inp);
            t.evals += 1;
            t.hit(&format!("{}.{}", name, k));
            match &e {
                R::Ok(..) => t.hit("ok"),
                _ => t.hit("failed"),
            }
            t.saw(&(format!("{:?}", g), &inp, k));
            t.sample(|| format!("{} with {} errors: {:?} on {:?} -> {:?}", name, k, g, lossy(&inp), a));
            let bad = |a: &Result<(R, bool), String>, e: &R| a.as_ref().map(|x| &x.0) != Ok(e);
            if bad(&a, &e) {
                let (g, inp) = shrink(&g, &inp, &mut |g, i| expect(g, i, width).map_or(false, |e| bad(&f(g, i), &e)));
                t.violation(format!(
                    "{} with {} errors: {:?} on {:?}: specified {:?}, observed {:?}",
                    name, k, g, lossy(&inp), expect(&g, &inp, width), f(&g, &inp)
                ));
                return;
            }
            if let Ok((_, end)) = a {
                match ends {
                    None => ends = Some(end),
                    Some(true) if *tells => {
                        t.hit("end_of_input_compared");
                        if !end {
                            let d = runs[0].2;
                            let mut lost = |g: &G, i: &[u8]| matches!((d(g, i), f(g, i)), (Ok((_, true)), Ok((_, false))));
                            let (g, inp) = shrink(&g, &inp, &mut lost);
                            t.violation(format!(
                                "{} with {} errors: {:?} on {:?}: the detailed error says that the end of the input was reached, this one does not",
                                name, k, g, lossy(&inp)
                            ));
                            return;
                        }
                    }
                    _ => (),
                }
            }
        }
        if searches {
            continue;
        }
        let want = match e {
            R::Ok(v, p, _) => Some((v, p)),
            _ => None,
        };
        let at: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 2);
        for (k, f) in cuts {
            let a = f(&g, &inp, &at);
            t.evals += 1;
            t.hit(&format!("{}.parts.{}", name, k));
            if a.as_ref() != Ok(&want) {
                t.violation(format!(
                    "{} with {} errors: {:?} on {:?} in parts cut at {:?}: the whole gives {:?}, the parts give {:?}",
                    name, k, g, lossy(&inp), at, want, a
                ));
                return;
            }
        }
    }
}

// ---- merging

type Ea = easy::Error<u8, S8>;
type Es = easy::Errors<u8, S8, usize>;

/// What an error says, so that equal information is equal
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Say {
    Tok(u8),
    Rng(S8),
    Text(String),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Kind {
    Unexpected(Say),
    Expected(Say),
    Message(Say),
    Other(String),
}
fn say(i: &easy::Info<u8, S8>) -> Say {
    match i {
        easy::Info::Token(t) => Say::Tok(*t),
        easy::Info::Range(r) => Say::Rng(r),
        easy::Info::Owned(s) => Say::Text(s.clone()),
        easy::Info::Static(s) => Say::Text(s.to_string()),
    }
}
fn kind(e: &Ea) -> Kind {
    match e {
        easy::Error::Unexpected(i) => Kind::Unexpected(say(i)),
        easy::Error::Expected(i) => Kind::Expected(say(i)),
        easy::Error::Message(i) => Kind::Message(say(i)),
        easy::Error::Other(e) => Kind::Other(e.to_string()),
    }
}
fn kinds(e: &Es) -> Vec<Kind> {
    e.errors.iter().map(kind).collect()
}
fn sorted(mut k: Vec<Kind>) -> Vec<Kind> {
    k.sort();
    k
}
const TEXTS: &[&str] = &["end of input", "digit", "b"];
const RANGES: &[S8] = &[b"a", b"ab", b""];
fn info(r: &mut Rng) -> easy::Info<u8, S8> {
    match r.below(4) {
        0 => easy::Info::Token(b'a' + r.below(3) as u8),
        1 => easy::Info::Range(r.pick(RANGES)),
        2 => easy::Info::Static(r.pick(TEXTS)),
        _ => easy::Info::Owned(r.pick(TEXTS).to_string()),
    }
}
#[derive(Debug)]
struct Why(u8);
impl fmt::Display for Why {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "why {}", self.0)
    }
}
impl std::error::Error for Why {}
fn an_error(r: &mut Rng, others: bool) -> Ea {
    match r.below(if others { 13 } else { 12 }) {
        0..=3 => easy::Error::Unexpected(info(r)),
        4..=7 => easy::Error::Expected(info(r)),
        8..=10 => easy::Error::Message(info(r)),
        11 => easy::Error::end_of_input(),
        _ => easy::Error::Other(Box::new(Why(r.below(3) as u8))),
    }
}
/// The same errors, as they cannot be cloned
fn copy(e: &Ea) -> Ea {
    match e {
        easy::Error::Unexpected(i) => easy::Error::Unexpected(i.clone()),
        easy::Error::Expected(i) => easy::Error::Expected(i.clone()),
        easy::Error::Message(i) => easy::Error::Message(i.clone()),
        easy::Error::Other(e) => easy::Error::Other(Box::new(Why(e.to_string().bytes().last().unwrap() - b'0'))),
    }
}
fn copies(e: &Es) -> Es {
    easy::Errors { position: e.position, errors: e.errors.iter().map(copy).collect() }
}
/// Also returns what it must contain
fn errors(r: &mut Rng, others: bool) -> (Es, Vec<Kind>) {
    let mut e = Es::empty(r.below(3));
    let mut want: Vec<Kind> = vec![];
    for _ in 0..r.below(5) {
        let x = an_error(r, others);
        let k = kind(&x);
        if matches!(k, Kind::Other(_)) || !want.contains(&k) {
            want.push(k)
        }
        match r.below(2) {
            0 => e.add_error(x),
            _ => ParseError::add(&mut e, x),
        }
    }
    (e, want)
}
const END: fn() -> Kind = || Kind::Unexpected(Say::Text("end of input".into()));

macro_rules! law {
    ($t: expr, $c: expr, $($a: tt)*) => {
        $t.evals += 1;
        if !$c {
            $t.violation(format!($($a)*));
            return;
        }
    };
}

fn merging(r: &mut Rng, t: &mut Tally) {
    let others = r.chance(1, 4);
    let (a, ka) = errors(r, others);
    let (b, kb) = errors(r, others);
    let (c, _) = errors(r, others);
    t.saw(&(&ka, &kb, a.position, b.position));
    law!(t, kinds(&a) == ka && kinds(&b) == kb, "adding errors one by one gives {:?} instead of {:?}", a, ka);
    let pos = a.position.max(b.position);
    let mut want = vec![];
    for (p, k) in &[(a.position, &ka), (b.position, &kb)] {
        for k in k.iter() {
            if *p == pos && (matches!(k, Kind::Other(_)) || !want.contains(k)) {
                want.push(k.clone())
            }
        }
    }
    if a.position == b.position {
        t.hit("merged_at_the_same_position");
        if want.len() < ka.len() + kb.len() {
            t.hit("merged_with_duplicates")
        }
    } else {
        t.hit("merged_at_different_positions")
    }
    let want = sorted(want);
    let ok = |m: &Es| m.position == pos && sorted(kinds(m)) == want;
    let m = if r.chance(1, 2) { copies(&a).merge(copies(&b)) } else { ParseError::merge(copies(&a), copies(&b)) };
    law!(t, ok(&m), "{:?} merged with {:?} gives {:?}", a, b, m);
    let n = copies(&b).merge(copies(&a));
    law!(t, ok(&n), "{:?} merged with {:?} gives {:?}", b, a, n);
    let l = copies(&a).merge(copies(&b)).merge(copies(&c));
    let rr = copies(&a).merge(copies(&b).merge(copies(&c)));
    law!(
        t,
        l.position == rr.position && sorted(kinds(&l)) == sorted(kinds(&rr)),
        "merging {:?}, {:?} and {:?} depends on the grouping: {:?} or {:?}", a, b, c, l, rr
    );
    if !others {
        let i = copies(&a).merge(copies(&a));
        law!(t, i == a, "{:?} merged with itself gives {:?}", a, i);
    }
    law!(
        t,
        ParseError::is_unexpected_end_of_input(&a) == ka.contains(&END()),
        "{:?} says that the end of the input was reached: {}", a, ParseError::is_unexpected_end_of_input(&a)
    );

    // set_expected, clear_expected and the position
    let not_expected = |k: &Vec<Kind>| -> Vec<Kind> { k.iter().filter(|k| !matches!(k, Kind::Expected(_))).cloned().collect() };
    let i = info(r);
    let mut x = copies(&a);
    x.set_expected(i.clone());
    let mut w = not_expected(&ka);
    w.push(Kind::Expected(say(&i)));
    law!(t, sorted(kinds(&x)) == sorted(w.clone()), "{:?} with only {:?} expected is {:?}", a, i, x);
    let mut x = copies(&a);
    ParseError::clear_expected(&mut x);
    law!(t, sorted(kinds(&x)) == sorted(not_expected(&ka)), "{:?} with nothing expected is {:?}", a, x);
    let mut x = copies(&a);
    ParseError::set_position(&mut x, 77);
    law!(t, ParseError::position(&x) == 77 && x.position == 77 && kinds(&x) == ka, "{:?} moved to 77 is {:?}", a, x);
    // what was there is kept, and of what is added the expectations are replaced
    let mut x = Tracked::from(copies(&a));
    let kind_b: Vec<Kind> = kb.iter().filter(|k| matches!(k, Kind::Other(_)) || !ka.contains(k)).cloned().collect();
    ParseError::set_expected(&mut x, easy::Error::Expected(i.clone()), |x| {
        for e in copies(&b).errors {
            x.error.add_error(e)
        }
    });
    let mut w = ka.clone();
    w.extend(not_expected(&kind_b));
    let k = Kind::Expected(say(&i));
    if !w.contains(&k) {
        w.push(k)
    }
    law!(t, sorted(kinds(&x.error)) == sorted(w), "{:?} and {:?} under {:?} is {:?}", a, b, i, x.error);

    // maps and formats
    let x = copies(&a).map_position(|p| p + 5).map_token(|t| t as u32 + 1).map_range(|r| r.len());
    let back: Vec<String> = x.errors.iter().map(|e| format!("{:?}", e)).collect();
    let fwd: Vec<String> = a.errors.iter().map(|e| format!("{:?}", copy(e).map_token(|t| t as u32 + 1).map_range(|r| r.len()))).collect();
    law!(t, x.position == a.position + 5 && back == fwd && x.errors.len() == ka.len(), "{:?} mapped is {:?}", a, x);
    for (k, e) in ka.iter().zip(&x.errors) {
        let s = |i: &easy::Info<u32, usize>, w: &Say| match (i, w) {
            (easy::Info::Token(a), Say::Tok(b)) => *a == *b as u32 + 1,
            (easy::Info::Range(a), Say::Rng(b)) => *a == b.len(),
            (easy::Info::Owned(a), Say::Text(b)) => a == b,
            (easy::Info::Static(a), Say::Text(b)) => a == b,
            _ => false,
        };
        let ok = match (e, k) {
            (easy::Error::Unexpected(a), Kind::Unexpected(b)) => s(a, b),
            (easy::Error::Expected(a), Kind::Expected(b)) => s(a, b),
            (easy::Error::Message(a), Kind::Message(b)) => s(a, b),
            (easy::Error::Other(a), Kind::Other(b)) => a.to_string() == *b,
            _ => false,
        };
        law!(t, ok, "{:?} mapped is {:?}", a, x);
    }
    let x = copies(&a).map_token(|t| t as char).map_range(|r| lossy(r));
    let one = |s: &Say| match s {
        Say::Tok(t) => format!("`{}`", *t as char),
        Say::Rng(r) => format!("`{}`", lossy(r)),
        Say::Text(s) => s.clone(),
    };
    let mut want = format!("Parse error at {}\n", a.position);
    let (mut ex, mut last) = (vec![], String::new());
    for k in &ka {
        match k {
            Kind::Unexpected(s) => want += &format!("Unexpected {}\n", one(s)),
            Kind::Expected(s) => ex.push(one(s)),
            Kind::Message(s) => last += &format!("{}\n", one(s)),
            Kind::Other(s) => last += &format!("{}\n", s),
        }
    }
    if let Some(l) = ex.pop() {
        want += "Expected ";
        if !ex.is_empty() {
            want += &ex.join(", ");
            want += " or ";
        }
        want += &l;
        want += "\n";
    }
    want += &last;
    law!(t, x.to_string() == want, "{:?} is displayed as {:?} instead of {:?}", x, x.to_string(), want);
}

// ---- conversions

fn tells<P: ParseError<u8, S8, usize>>(e: &P) -> bool {
    e.is_unexpected_end_of_input()
}
fn to<A: ParseError<u8, S8, usize>, B: ParseError<u8, S8, usize>>(a: A) -> B {
    a.into_other()
}
#[derive(Debug, PartialEq, Clone)]
struct Wide(S8);
impl From<S8> for Wide {
    fn from(s: S8) -> Wide {
        Wide(s)
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
struct At(usize);
impl From<usize> for At {
    fn from(p: usize) -> At {
        At(p)
    }
}

fn io() -> read::Error {
    read::Error::Io(std::io::Error::new(std::io::ErrorKind::Other, "broken"))
}

/// the single error kinds
fn stream_error<A: StreamError<u8, S8> + fmt::Debug>(end: bool, make: impl Fn() -> A, t: &mut Tally) {
    law!(t, make().is_unexpected_end_of_input() == end, "{:?} says that the end of the input was reached: {}", make(), !end);
    macro_rules! check {
        ($($b: ty),*) => { $(
            let b: $b = make().into_other();
            law!(t, StreamError::<u8, S8>::is_unexpected_end_of_input(&b) == end, "{:?} converted to {} is {:?}", make(), stringify!($b), b);
        )* };
    }
    check!(UnexpectedParse, StringStreamError, read::Error, Ea, Is);
}
fn stream_error_into<A: StreamError<u8, S8> + StreamErrorInto<u8, S8> + fmt::Debug>(end: bool, make: impl Fn() -> A, t: &mut Tally) {
    stream_error(end, &make, t);
    macro_rules! check {
        ($($b: ty),*) => { $(
            let b: $b = StreamErrorInto::<u8, S8>::into_other_error::<$b, u32, Wide>(make());
            law!(t, StreamError::<u32, Wide>::is_unexpected_end_of_input(&b) == end, "{:?} converted to {} is {:?}", make(), stringify!($b), b);
        )* };
    }
    check!(UnexpectedParse, StringStreamError, read::Error, easy::Error<u32, Wide>, Is);
}

fn converting(r: &mut Rng, t: &mut Tally) {
    let others = r.chance(1, 4);
    let (a, ka) = errors(r, others);
    let end = ka.contains(&END());
    t.hit(if end { "converted_at_the_end" } else { "converted_elsewhere" });
    t.saw(&(&ka, a.position));
    for e in &a.errors {
        stream_error_into(kind(e) == END(), || copy(e), t);
        let c: Ea = StreamError::into_other(copy(e));
        // errors of other types become their message
        let as_text = |k: Kind| if let Kind::Other(s) = k { Kind::Message(Say::Text(s)) } else { k };
        law!(t, kind(&c) == as_text(kind(e)), "{:?} converted to the same type is {:?}", e, c);
        let c: easy::Error<u32, Wide> = StreamErrorInto::<u8, S8>::into_other_error(copy(e));
        let s = |i: &easy::Info<u32, Wide>| match i {
            easy::Info::Token(t) => Say::Tok(*t as u8),
            easy::Info::Range(r) => Say::Rng(r.0),
            easy::Info::Owned(s) => Say::Text(s.clone()),
            easy::Info::Static(s) => Say::Text(s.to_string()),
        };
        let k = match &c {
            easy::Error::Unexpected(i) => Kind::Unexpected(s(i)),
            easy::Error::Expected(i) => Kind::Expected(s(i)),
            easy::Error::Message(i) => Kind::Message(s(i)),
            easy::Error::Other(e) => Kind::Other(e.to_string()),
        };
        law!(t, k == as_text(kind(e)), "{:?} converted is {:?}", e, c);
    }
    let as_text = |k: &Kind| if let Kind::Other(s) = k { Kind::Message(Say::Text(s.clone())) } else { k.clone() };
    let mut all: Vec<Kind> = vec![];
    for k in &ka {
        let k = as_text(k);
        if !all.contains(&k) {
            all.push(k)
        }
    }
    // between parse errors
    let x: Es = to(copies(&a));
    law!(t, x.position == a.position && tells(&x) == end, "{:?} converted to the same type is {:?}", a, x);
    law!(t, sorted(kinds(&x)) == sorted(all.clone()), "{:?} converted to the same type is {:?}", a, x);
    let x: UnexpectedParse = to(copies(&a));
    law!(t, tells(&x) == end, "{:?} converted is {:?}", a, x);
    let x: StringStreamError = to(copies(&a));
    law!(t, tells(&x) == end, "{:?} converted is {:?}", a, x);
    let x: read::Error = to(copies(&a));
    law!(t, tells(&x) == end, "{:?} converted is {:?}", a, x);
    let x: Last<usize> = to(copies(&a));
    law!(t, tells(&x) == end && x.at == a.position, "{:?} converted is {:?}", a, x);
    let x: easy::Errors<u32, Wide, At> = copies(&a).into_other_error();
    law!(t, x.position.0 == a.position && ParseError::is_unexpected_end_of_input(&x) == end && x.errors.len() == all.len(), "{:?} converted is {:?}", a, x);
    let x: Last<At> = ParseErrorInto::<u8, S8, usize>::into_other_error::<Last<At>, u32, Wide, At>(copies(&a));
    law!(t, x.end == end && x.at.0 == a.position, "{:?} converted is {:?}", a, x);

    // the small ones, in any order of additions and merges
    macro_rules! small {
        ($ty: ty, $end: expr, $other: expr) => {{
            let v = |r: &mut Rng| {
                let e = r.chance(1, 3);
                (if e { $end } else { $other }, e)
            };
            let (x, ex) = v(r);
            let (y, ey) = v(r);
            stream_error(ex, || if ex { $end } else { $other }, t);
            law!(t, tells(&x) == ex, "{:?}: {}", x, tells(&x));
            let m: $ty = ParseError::<u8, S8, usize>::merge(x, y);
            law!(t, tells(&m) == (ex || ey), "{:?} merged with {:?} gives {:?}", if ex { $end } else { $other }, if ey { $end } else { $other }, m);
            let mut m = if ex { $end } else { $other };
            ParseError::<u8, S8, usize>::add(&mut m, if ey { $end } else { $other });
            law!(t, tells(&m) == (ex || ey), "adding to {:?} gives {:?}", if ex { $end } else { $other }, m);
            let mut m = Tracked::from(if ex { $end } else { $other });
            ParseError::<u8, S8, usize>::set_expected(&mut m, StreamError::<u8, S8>::expected_static_message("x"), |m: &mut Tracked<$ty>| {
                ParseError::<u8, S8, usize>::add(&mut m.error, if ey { $end } else { $other })
            });
            law!(t, tells(&m.error) == (ex || ey), "set_expected on {:?} gives {:?}", if ex { $end } else { $other }, m.error);
            // positions are not kept, and asking for them is no error
            let p: usize = ParseError::<u8, S8, usize>::position(&m.error);
            law!(t, p == 0, "{:?} is at {}", m.error, p);
            let b: Es = to(m.error);
            law!(t, tells(&b) == (ex || ey), "converted to {:?}", b);
        }};
    }
    small!(UnexpectedParse, UnexpectedParse::Eoi, UnexpectedParse::Unexpected);
    small!(StringStreamError, StringStreamError::Eoi, StringStreamError::UnexpectedParse);
    small!(read::Error, read::Error::EndOfInput, read::Error::Unexpected);
    stream_error_into(true, || UnexpectedParse::Eoi, t);
    stream_error_into(false, || UnexpectedParse::Unexpected, t);
    stream_error_into(true, || StringStreamError::Eoi, t);
    stream_error_into(false, || StringStreamError::UnexpectedParse, t);
    stream_error_into(false, || StringStreamError::CharacterBoundary, t);
    stream_error(false, io, t);
    // an error of the reader is not forgotten
    let mut m = io();
    ParseError::<u8, S8, usize>::add(&mut m, read::Error::Unexpected);
    law!(t, matches!(m, read::Error::Io(_)), "an error of the reader becomes {:?} when an expectation is added", m);
    let m = ParseError::<u8, S8, usize>::merge(io(), read::Error::Unexpected);
    law!(t, matches!(m, read::Error::Io(_)), "an error of the reader merged with another gives {:?}", m);
    let m = ParseError::<u8, S8, usize>::merge(read::Error::Unexpected, io());
    law!(t, matches!(m, read::Error::Io(_)), "an error merged with one of the reader gives {:?}", m);
    let mut m = Tracked::from(io());
    ParseError::<u8, S8, usize>::set_expected(&mut m, read::Error::Unexpected, |_: &mut Tracked<read::Error>| ());
    law!(t, matches!(m.error, read::Error::Io(_)), "an error of the reader becomes {:?} by set_expected", m.error);
    let e: Ea = StreamError::into_other(io());
    law!(t, kind(&e) == Kind::Other("broken".into()), "an error of the reader becomes {:?}", e);

    // information given in any of its forms
    let k = r.below(3);
    macro_rules! given {
        ($i: expr, $w: expr) => {{
            let i = $i;
            let (e, w) = match k {
                0 => (<Ea as StreamError<u8, S8>>::unexpected(i), Kind::Unexpected($w)),
                1 => (<Ea as StreamError<u8, S8>>::expected(i), Kind::Expected($w)),
                _ => (<Ea as StreamError<u8, S8>>::message(i), Kind::Message($w)),
            };
            law!(t, kind(&e) == w, "{:?} is reported as {:?}", w, e);
            let mut p = Es::empty(3);
            let i = $i;
            match k {
                0 => ParseError::add_unexpected(&mut p, i),
                1 => ParseError::add_expected(&mut p, i),
                _ => ParseError::add_message(&mut p, i),
            }
            law!(t, kinds(&p) == [w.clone()] && p.position == 3, "{:?} is reported as {:?}", w, p);
        }};
    }
    given!(b'x', Say::Tok(b'x'));
    given!(Token(b'y'), Say::Tok(b'y'));
    given!("text", Say::Text("text".into()));
    given!(Format(format_args!("{}{}", 1, "a")), Say::Text("1a".into()));
    given!(combine::error::Range(&b"rng"[..]), Say::Rng(b"rng"));
    let w: PInfo<u8, S8, String> = match r.below(4) {
        0 => PInfo::Token(b'q'),
        1 => PInfo::Range(b"rs"),
        2 => PInfo::Static("st"),
        _ => PInfo::Format("fo".to_string()),
    };
    let s = match &w {
        PInfo::Token(t) => Say::Tok(*t),
        PInfo::Range(r) => Say::Rng(r),
        PInfo::Static(s) => Say::Text(s.to_string()),
        PInfo::Format(s) => Say::Text(s.clone()),
    };
    given!(&w, s.clone());
    let i: easy::Info<u8, S8> = ErrorInfo::into_info(&w).into();
    law!(t, say(&i) == s, "{:?} becomes {:?}", w, i);
}

// ---- results and commitment

fn results(r: &mut Rng, t: &mut Tally) {
    type Res = ParseResult<u32, u8>;
    let make = |k: usize| -> Res {
        match k {
            0 => ParseResult::CommitOk(5),
            1 => ParseResult::PeekOk(6),
            2 => ParseResult::CommitErr(7),
            _ => ParseResult::PeekErr(Tracked::from(8)),
        }
    };
    // (committed, value)
    type W = (bool, Result<u32, u8>);
    let see = |x: &Res| -> W {
        match x {
            ParseResult::CommitOk(v) => (true, Ok(*v)),
            ParseResult::PeekOk(v) => (false, Ok(*v)),
            ParseResult::CommitErr(e) => (true, Err(*e)),
            ParseResult::PeekErr(e) => (false, Err(e.error)),
        }
    };
    let see_std = |x: &StdParseResult2<u32, u8>| -> W {
        match x {
            Ok((v, Commit::Commit(()))) => (true, Ok(*v)),
            Ok((v, Commit::Peek(()))) => (false, Ok(*v)),
            Err(Commit::Commit(e)) => (true, Err(e.error)),
            Err(Commit::Peek(e)) => (false, Err(e.error)),
        }
    };
    let (i, j) = (r.below(4), r.below(4));
    let (a, b) = (make(i), make(j));
    let (wa, wb) = (see(&a), see(&b));
    t.saw(&(i, j, "result"));
    law!(t, a.is_ok() == wa.1.is_ok() && a.is_err() == wa.1.is_err(), "is_ok and is_err of {:?}", a);
    law!(t, see_std(&a.clone().into_result()) == wa, "{:?} as a result is {:?}", a, a.clone().into_result());
    let back: Res = a.clone().into_result().into();
    law!(t, see(&back) == wa, "{:?} there and back is {:?}", a, back);
    let c: Result<Commit<u32>, Commit<Tracked<u8>>> = a.clone().into();
    let w = match c {
        Ok(c) => (!c.is_peek(), Ok(c.into_inner())),
        Err(c) => (!c.is_peek(), Err(c.into_inner().error)),
    };
    law!(t, w == wa, "{:?} as a result is {:?}", a, w);
    law!(t, see(&a.clone().map(|x| x + 1)) == (wa.0, wa.1.map(|x| x + 1)), "map on {:?}", a);
    law!(t, see(&a.clone().map_err(|x| x + 1)) == (wa.0, wa.1.map_err(|x| x + 1)), "map_err on {:?}", a);
    let n = a.as_ref();
    let w = match n {
        ParseResult::CommitOk(v) => (true, Ok(*v)),
        ParseResult::PeekOk(v) => (false, Ok(*v)),
        ParseResult::CommitErr(e) => (true, Err(*e)),
        ParseResult::PeekErr(e) => (false, Err(*e.error)),
    };
    law!(t, w == wa, "as_ref of {:?} is {:?}", a, w);
    // one after the other
    let mut calls = 0;
    let x = a.clone().and_then(|_| {
        calls += 1;
        b.clone()
    });
    let w = if wa.1.is_ok() { (wa.0 || wb.0, wb.1) } else { wa };
    law!(t, see(&x) == w && calls == wa.1.is_ok() as u32, "{:?} and then {:?} is {:?}", a, b, x);
    let ca = if wa.0 { Commit::Commit(3) } else { Commit::Peek(3) };
    let x = ca.combine(|_| b.clone().into_result());
    law!(t, see_std(&x) == (wa.0 || wb.0, wb.1), "{:?} combined with {:?} is {:?}", ca, b, x);
    let x = ca.combine_commit(|_| b.clone());
    law!(t, see(&x) == (wa.0 || wb.0, wb.1), "{:?} combined with {:?} is {:?}", ca, b, x);
    let cb = if wb.0 { Commit::Commit(4) } else { Commit::Peek(4) };
    let m = ca.merge(cb);
    law!(t, m.is_peek() == !(wa.0 || wb.0) && m.into_inner() == 4, "{:?} merged with {:?} is {:?}", ca, cb, m);
    law!(t, ca.map(|x| x + 1).into_inner() == 4 && ca.map(|x| x + 1).is_peek() == ca.is_peek(), "map on {:?}", ca);
    law!(t, !ca.into_commit().is_peek() && ca.into_peek().is_peek() && *ca.as_ref() == 3, "{:?} committed or peeked", ca);
    let mut cm = ca;
    *cm.as_mut() = 9;
    law!(t, cm.into_inner() == 9 && cm.is_peek() == ca.is_peek(), "as_mut of {:?}", ca);
}

fn main() {
    let ctx = Ctx::new("C10");
    let cfg = Cfg::new(true);
    ctx.par("bytes", 60_000, 3_000_000, (12, 400), |r, _, t| case("bytes", BYTES, BYTES_PARTS, |_| 1, &cfg, r, t));
    ctx.par("text", 40_000, 2_000_000, (8, 300), |r, _, t| case("text", TEXT, TEXT_PARTS, <char as Tk>::width, &cfg, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-bytes", 8_000, 300_000, (10, 200), |r, _, t| {
        r.big = 3;
        case("bytes", BYTES, BYTES_PARTS, |_| 1, &long, r, t)
    });
    ctx.par("long-text", 6_000, 200_000, (8, 150), |r, _, t| {
        r.big = 3;
        case("text", TEXT, TEXT_PARTS, <char as Tk>::width, &long, r, t)
    });
    ctx.par("merging", 200_000, 20_000_000, (6, 200), |r, _, t| merging(r, t));
    ctx.par("converting", 100_000, 10_000_000, (6, 200), |r, _, t| converting(r, t));
    ctx.par("results", 2_000, 2_000, (5, 5), |r, _, t| results(r, t));
    ctx.finish(
        "a random grammar run with seven error types on the same input, whole and in parts, against the reference semantics; random errors added, merged and converted against sets of what they say; distinct: (grammar, input, error type), pairs of errors",
        &[("evaluations", 200_000), ("ok", 20_000), ("failed", 20_000), ("end_of_input_compared", 5_000), ("merged_at_the_same_position", 10_000), ("merged_with_duplicates", 1_000), ("merged_at_different_positions", 10_000), ("converted_at_the_end", 3_000), ("bytes.parts.read", 10_000), ("text.parts.unexpected-only", 5_000)],
    )
}
