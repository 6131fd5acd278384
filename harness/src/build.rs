//! Builds a real combine parser from a grammar, for any stream type.
use crate::grammar::*;
use crate::ledger::track;
use crate::model::{fold_eq, prefix_len};
use combine::error::{ParseError, ParseResult, StreamError, Tracked};
use combine::parser::choice::{choice, or};
#[cfg(feature = "alloc")]
use combine::parser::combinator::any_partial_state;
use combine::parser::combinator::{self, Either};
use combine::parser::{FirstMode, PartialMode};
use combine::parser::{range, repeat, sequence, token};
use combine::stream::{Range as _, StreamErrorFor};
use combine::{Parser, RangeStream, Stream, StreamOnce};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;

/// A token type in which the abstract alphabet is embedded.
pub trait Tk: Clone + PartialEq + Debug {
    fn b(&self) -> u8;
    fn f(b: u8) -> Self;
    fn width(_: u8) -> usize {
        1
    }
}

impl Tk for u8 {
    fn b(&self) -> u8 {
        *self
    }
    fn f(b: u8) -> Self {
        b
    }
}

static BYTES: [u8; 256] = {
    let mut a = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};

impl Tk for &'static u8 {
    fn b(&self) -> u8 {
        **self
    }
    fn f(b: u8) -> Self {
        &BYTES[b as usize]
    }
}

/// a, b, c, ',', '1', '\n' in one to four byte encodings
pub fn to_char(b: u8) -> char {
    match b {
        b'b' => '\u{1D11E}',
        b'c' => 'é',
        b'1' => '→',
        b => b as char,
    }
}

impl Tk for char {
    fn b(&self) -> u8 {
        match *self {
            '\u{1D11E}' => b'b',
            'é' => b'c',
            '→' => b'1',
            c => c as u8,
        }
    }
    fn f(b: u8) -> Self {
        to_char(b)
    }
    fn width(b: u8) -> usize {
        to_char(b).len_utf8()
    }
}

pub fn to_text(b: &[u8]) -> String {
    b.iter().map(|b| to_char(*b)).collect()
}

/// Range types
pub trait Rg: Sized + Clone + PartialEq + combine::stream::Range {
    /// how much of the range a token takes up
    fn width(_: u8) -> usize {
        1
    }
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
}

thread_local! {
    static STRS: RefCell<HashMap<Vec<u8>, &'static str>> = RefCell::new(HashMap::new());
    static SLICES: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new());
    static CHARS: RefCell<HashMap<Vec<u8>, &'static [char]>> = RefCell::new(HashMap::new());
}

impl Rg for &'static str {
    fn width(b: u8) -> usize {
        to_char(b).len_utf8()
    }
    fn of(b: &[u8]) -> Self {
        STRS.with(|m| *m.borrow_mut().entry(b.to_vec()).or_insert_with(|| Box::leak(to_text(b).into_boxed_str())))
    }
    fn bytes(&self) -> Vec<u8> {
        self.chars().map(|c| c.b()).collect()
    }
}
impl Rg for &'static [u8] {
    fn of(b: &[u8]) -> Self {
        SLICES.with(|m| *m.borrow_mut().entry(b.to_vec()).or_insert_with(|| Box::leak(b.to_vec().into_boxed_slice())))
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Rg for &'static [char] {
    fn of(b: &[u8]) -> Self {
        CHARS.with(|m| {
            *m.borrow_mut()
                .entry(b.to_vec())
                .or_insert_with(|| Box::leak(b.iter().map(|b| to_char(*b)).collect::<Vec<_>>().into_boxed_slice()))
        })
    }
    fn bytes(&self) -> Vec<u8> {
        self.iter().map(|c| c.b()).collect()
    }
}

/// Type erased partial state which behaves exactly like the concrete state of the parser it belongs to: it is
/// created on first use and is then kept whatever the result of the parser, as a concrete state would be.
/// (combine's own `AnyPartialState` drops the state unless the parser needs more input; it has its own node.)
#[derive(Default)]
pub struct St(Option<Box<dyn Any>>);

impl St {
    fn get<S: Default + 'static>(&mut self) -> &mut S {
        // Children of `choice([..])`, `iterate` or `then` share one state. Where they are of different types
        // (which cannot happen in a typed program) each gets its own; where they are of one type the state is shared.
        if !self.0.as_ref().map_or(false, |b| b.is::<S>()) {
            self.0 = Some(Box::new(S::default()));
        }
        self.0.as_mut().unwrap().downcast_mut().unwrap()
    }
}

/// Any parser, with its partial state kept precisely
#[cfg(feature = "alloc")]
pub fn keep<I, Q>(q: Q) -> P<I>
where
    I: Stream + 'static,
    Q: Parser<I, Output = V> + 'static,
    Q::PartialState: 'static,
{
    Box::new(Keep(q))
}

pub struct Keep<Q>(Q);
impl<I, Q> Parser<I> for Keep<Q>
where
    I: Stream,
    Q: Parser<I, Output = V>,
    Q::PartialState: 'static,
{
    type Output = Q::Output;
    type PartialState = St;
    fn parse_first(&mut self, input: &mut I, state: &mut St) -> ParseResult<Self::Output, I::Error> {
        self.0.parse_mode(FirstMode, input, state.get::<Q::PartialState>()).map(track)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<Self::Output, I::Error> {
        self.0.parse_mode(PartialMode::default(), input, state.get::<Q::PartialState>()).map(track)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<Self::Output, I::Error> {
        self.0.parse_lazy(input).map(track)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}

#[cfg(feature = "alloc")]
pub type P<I> = Box<dyn Parser<I, Output = V, PartialState = St>>;

/// What `Box<dyn Parser>` is where combine has its `alloc` feature
#[cfg(not(feature = "alloc"))]
pub struct P<I: 'static>(Box<dyn Parser<I, Output = V, PartialState = St>>);
#[cfg(not(feature = "alloc"))]
impl<I: Stream> Parser<I> for P<I> {
    type Output = V;
    type PartialState = St;
    fn parse_first(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.0.parse_first(input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.0.parse_partial(input, state)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        self.0.parse_lazy(input)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}

#[derive(Default)]
pub struct Toks(pub Vec<u8>);
impl<T: Tk> Extend<T> for Toks {
    fn extend<It: IntoIterator<Item = T>>(&mut self, it: It) {
        self.0.extend(it.into_iter().map(|t| t.b()))
    }
}

/// `choice` over a borrowed slice, which is only implemented for `&mut [P]`.
pub struct SliceAlt<P>(pub Vec<P>);
impl<I, P> Parser<I> for SliceAlt<P>
where
    I: Stream,
    P: Parser<I>,
{
    type Output = P::Output;
    type PartialState = (usize, P::PartialState);
    fn parse_first(&mut self, input: &mut I, state: &mut Self::PartialState) -> ParseResult<Self::Output, I::Error> {
        choice(&mut self.0[..]).parse_first(input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut Self::PartialState) -> ParseResult<Self::Output, I::Error> {
        choice(&mut self.0[..]).parse_partial(input, state)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<Self::Output, I::Error> {
        choice(&mut self.0[..]).parse_lazy(input)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        choice(&mut self.0[..]).add_error(e)
    }
}

pub trait Inp: Stream + Sized + 'static
where
    Self::Token: Tk,
    Self::Position: Default,
{
    /// Range-only leaves; panics on streams without ranges.
    fn leaf(g: &G) -> P<Self>;
    /// `p.spanned()` where the positions are spans
    fn spanned(p: P<Self>) -> P<Self> {
        p
    }
    /// Long tuples and arrays, for the streams which `wide!` names
    fn wide(g: &G) -> P<Self> {
        panic!("{:?} of this size", g.kind())
    }
    /// What the user's function given to `map_input` does to the stream
    fn bump(&mut self) {}
}

pub fn bx<I, Q>(q: Q) -> P<I>
where
    I: Stream + 'static,
    Q: Parser<I, Output = V> + 'static,
    Q::PartialState: 'static,
{
    let p = Box::new(Keep(q));
    #[cfg(feature = "alloc")]
    return p;
    #[cfg(not(feature = "alloc"))]
    P(p)
}

pub fn t<T: Tk>(x: T) -> V {
    V::T(x.b())
}

pub struct U;
impl Default for U {
    fn default() -> Self {
        U
    }
}

/// Implemented by streams that do not provide ranges
pub fn no_range<I>(g: &G) -> P<I> {
    panic!("range parser {:?} on a stream without ranges", g.kind())
}

pub fn ranged_leaf<I>(g: &G) -> P<I>
where
    I: Inp + RangeStream,
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg,
{
    let s = |r: I::Range| V::S(r.bytes());
    match g {
        G::RRange(b) => bx(range::range(I::Range::of(b)).map(s)),
        G::RTake(n) => bx(range::take(*n).map(s)),
        G::RTakeWhile(k) => {
            let k = *k;
            bx(range::take_while(move |x: I::Token| in_class(k, x.b()) && seen('w', false, x.b() as usize)).map(s))
        }
        G::RTakeWhile1(k) => {
            let k = *k;
            bx(range::take_while1(move |x: I::Token| in_class(k, x.b()) && seen('w', false, x.b() as usize)).map(s))
        }
        G::RUntilRange(b) => bx(range::take_until_range(I::Range::of(b)).map(s)),
        G::RTakeFn(b) => {
            let b = *b;
            bx(range::take_fn(move |r: I::Range| find::<I>(&r, b)).map(s))
        }
        G::RRecog(a) => bx(range::recognize(build::<I>(a)).map(s)),
        G::RRecogVal(a) => bx(range::recognize_with_value(build::<I>(a)).map(move |(r, v)| V::L(vec![s(r), v]))),
        G::RLenPrefix(k) => {
            let k = *k;
            bx(range::length_prefix(
                token::satisfy_map(move |x: I::Token| if in_class(k, x.b()) { Some(prefix_len(x.b())) } else { None }),
            )
            .map(s))
        }
        _ => unreachable!(),
    }
}

pub fn find<I>(r: &I::Range, b: u8) -> range::TakeRange
where
    I: Inp + RangeStream,
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg,
{
    let mut off = 0;
    for c in r.bytes() {
        if c == b {
            return range::TakeRange::Found(off);
        }
        off += I::Range::width(c);
    }
    // everything was scanned
    range::TakeRange::NotFound(r.len())
}

thread_local! {
    static WRAP: std::cell::Cell<(u64, u32)> = std::cell::Cell::new((0, 0));
}

thread_local! {
    static COUNT: RefCell<[u64; WRAPPERS.len()]> = RefCell::new([0; WRAPPERS.len()]);
}
/// How often each wrapper has been built since the last time
pub fn wrapped_count() -> Vec<(&'static str, u64)> {
    let c = COUNT.with(|c| std::mem::replace(&mut *c.borrow_mut(), [0; WRAPPERS.len()]));
    WRAPPERS.iter().cloned().zip(c).collect()
}

/// From now on every parser that is built is wrapped in those of the wrappers in `mask` that `seed` chooses for it.
/// The same grammar gets the same wrapper.
pub fn wrap_with(seed: u64, mask: u32) {
    WRAP.with(|w| w.set((seed, mask)))
}

pub const WRAPPERS: [&str; 29] = [
    "boxed", "by_ref", "opaque", "opaque!", "lazy", "factory", "map", "map_input", "spanned", "any_partial_state",
    "any_send_partial_state", "any_send_sync_partial_state", "no_partial", "left", "right", "choice of one", "sequence of one",
    "function parser", "dyn FnMut", "env_parser", "user-written parser", "and_then", "flat_map", "then", "then_partial",
    "with nothing", "skip nothing", "between nothings", "count_min_max(1, 1)",
];
/// Those which only pass on what the parser says and so must also give the same error report: boxed, by_ref, map, map_input,
/// any_*partial_state, no_partial, left and right. (`lazy` and `factory` make the parser again, `opaque` cannot ask it
/// beforehand how much it may consume, `spanned` changes the position; the others are parsers of their own.)
pub const FACTORY: usize = 5;
pub const SPANNED: usize = 8;
pub const SAME_REPORT: u32 = 0b111_1110_1100_0011;

/// A parser as a user may write it
struct ByHand<I: 'static>(P<I>);
impl<I: Stream> Parser<I> for ByHand<I> {
    type Output = V;
    type PartialState = ();
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        self.0.parse_lazy(input)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
}

/// Through a mutable reference
struct ByRef<I: 'static>(P<I>);
impl<I: Stream> Parser<I> for ByRef<I> {
    type Output = V;
    type PartialState = St;
    fn parse_first(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.0.by_ref().parse_first(input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        let mut p = &mut self.0;
        Parser::parse_partial(&mut p, input, state)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        let mut p = &mut self.0;
        Parser::parse_lazy(&mut p, input)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        let mut p = &mut self.0;
        Parser::add_error(&mut p, e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        let mut p = &mut self.0;
        Parser::add_committed_expected_error(&mut p, e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}

fn wrapped<I>(g: &G, p: P<I>) -> P<I>
where
    I: Inp,
    I::Token: Tk,
    I::Position: Default,
{
    use std::hash::{Hash, Hasher};
    let (seed, mask) = WRAP.with(|w| w.get());
    if mask == 0 {
        return p;
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (seed, g).hash(&mut h);
    let h = h.finish() as usize;
    // More than every second parser is left alone
    let k = h % 97 % (2 * WRAPPERS.len());
    if k >= WRAPPERS.len() || mask >> k & 1 == 0 {
        return p;
    }
    COUNT.with(|c| c.borrow_mut()[k] += 1);
    let g = g.clone();
    let again = move || node::<I>(&g);
    let mut p = p;
    match WRAPPERS[k] {
        #[cfg(feature = "alloc")]
        "boxed" => bx(p.boxed()),
        "by_ref" => bx(ByRef(p)),
        "opaque" => bx(combinator::opaque::<I, _, V, St>(
            move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = V, PartialState = St>)| f(&mut p),
        )),
        "opaque!" => bx(combine::opaque!(p)),
        "lazy" => bx(combinator::lazy(again)),
        "factory" => bx(combinator::factory(move |_: &mut I| again())),
        "map" => bx(p.map(|v| v)),
        "map_input" => bx(p.map_input(|v, _: &mut I| v)),
        "spanned" => I::spanned(p),
        #[cfg(feature = "alloc")]
        "any_partial_state" => bx(any_partial_state(p)),
        #[cfg(feature = "alloc")]
        "any_send_partial_state" => bx(combinator::any_send_partial_state(combinator::no_partial(p))),
        #[cfg(feature = "alloc")]
        "any_send_sync_partial_state" => bx(combinator::any_send_sync_partial_state(combinator::no_partial(p))),
        "no_partial" => bx(combinator::no_partial(p)),
        "left" => bx(Parser::left::<P<I>>(p)),
        "right" => bx(Parser::right::<P<I>>(p)),
        "choice of one" => bx(choice((p,))),
        "sequence of one" => bx((p,).map(|(v,)| v)),
        "function parser" => bx(combine::parser(move |i: &mut I| p.parse_stream(i).into_result())),
        "dyn FnMut" => {
            // a function pointer holds nothing: the parser waits in the environment
            let mut f: Box<dyn FnMut(&mut I) -> combine::StdParseResult<V, I>> = Box::new(move |i: &mut I| p.parse_stream(i).into_result());
            bx(Dyn(Box::new(move |i: &mut I| f(i))))
        }
        "env_parser" => bx(combine::parser::function::env_parser(std::rc::Rc::new(RefCell::new(p)), env::<I>)),
        "user-written parser" => bx(ByHand(p)),
        "and_then" => bx(p.and_then(|v| Ok::<_, StreamErrorFor<I>>(v))),
        "flat_map" => bx(p.flat_map(Ok)),
        "then" => bx(p.then(|v| {
            let mut v = Some(v);
            token::produce(move || v.take().unwrap())
        })),
        "then_partial" => bx(p.then_partial(|v| token::value(v.clone()))),
        "with nothing" => bx(token::value(()).with(p)),
        "skip nothing" => bx(p.skip(token::value(()))),
        "between nothings" => bx(sequence::between(token::value(()), token::value(()), p)),
        _ => bx(repeat::count_min_max::<Vec<V>, _, _>(1, 1, p).map(|mut v| v.pop().unwrap())),
    }
}

fn env<I: Stream>(p: std::rc::Rc<RefCell<P<I>>>, i: &mut I) -> combine::StdParseResult<V, I> {
    p.borrow_mut().parse_stream(i).into_result()
}

type DynFn<I> = dyn FnMut(&mut I) -> combine::StdParseResult<V, I>;
/// `dyn FnMut` is a parser, which has to be behind a pointer
struct Dyn<I: Stream + 'static>(Box<DynFn<I>>);
impl<I: Stream> Parser<I> for Dyn<I> {
    type Output = V;
    type PartialState = ();
    fn parse_first(&mut self, input: &mut I, state: &mut ()) -> ParseResult<V, I::Error> {
        self.0.parse_first(input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut ()) -> ParseResult<V, I::Error> {
        self.0.parse_partial(input, state)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        self.0.parse_lazy(input)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
}

pub fn build<I>(g: &G) -> P<I>
where
    I: Inp,
    I::Token: Tk,
    I::Position: Default,
{
    wrapped(g, node(g))
}

fn node<I>(g: &G) -> P<I>
where
    I: Inp,
    I::Token: Tk,
    I::Position: Default,
{
    macro_rules! b {
        ($g: expr) => {
            build::<I>($g)
        };
    }
    let toks = |s: &[u8]| -> Vec<I::Token> { s.iter().map(|b| I::Token::f(*b)).collect() };
    let bytes = |v: Vec<I::Token>| V::S(v.iter().map(|t| t.b()).collect());
    match g {
        G::Any => bx(token::any().map(t)),
        G::Tok(b) => bx(token::token(I::Token::f(*b)).map(t)),
        G::Sat(k) => {
            let k = *k;
            bx(token::satisfy(move |x: I::Token| in_class(k, x.b()) && seen('s', true, x.b() as usize)).map(t))
        }
        G::SatMap(k) => {
            let k = *k;
            bx(token::satisfy_map(move |x: I::Token| {
                if in_class(k, x.b()) {
                    seen('s', true, x.b() as usize);
                    Some(V::T(x.b()))
                } else {
                    None
                }
            }))
        }
        G::OneOf(v) => bx(token::one_of(toks(v)).map(t)),
        G::NoneOf(v) => bx(token::none_of(toks(v)).map(t)),
        G::Val(b) => {
            let b = *b;
            bx(token::value(b).map(V::T))
        }
        G::Produce(b) => {
            let b = *b;
            bx(token::produce(move || {
                seen('p', false, b as usize);
                V::T(b)
            }))
        }
        G::Eof => bx(token::eof().map(|_| V::U)),
        G::Fail => bx(combine::parser::error::unexpected_any("fail").map(|v: V| v)),
        G::Str(s) => bx(token::tokens(|a: I::Token, b: I::Token| a == b, "string", toks(s)).map(bytes)),
        G::StrCmp(s) => {
            bx(token::tokens_cmp(toks(s), |a: I::Token, b: I::Token| fold_eq(a.b(), b.b())).map(bytes))
        }
        G::Seq(v) => match &v[..] {
            [a] => bx((b!(a),).map(|(a,)| V::L(vec![a]))),
            [a, b] => bx((b!(a), b!(b)).map(|(a, b)| V::L(vec![a, b]))),
            [a, b, c] => bx((b!(a), b!(b), b!(c)).map(|(a, b, c)| V::L(vec![a, b, c]))),
            [a, b, c, d] => bx((b!(a), b!(b), b!(c), b!(d)).map(|(a, b, c, d)| V::L(vec![a, b, c, d]))),
            [a, b, c, d, e] => {
                bx((b!(a), b!(b), b!(c), b!(d), b!(e)).map(|(a, b, c, d, e)| V::L(vec![a, b, c, d, e])))
            }
            _ => I::wide(g),
        },
        G::With(x, y) => bx(b!(x).with(b!(y))),
        G::Skip(x, y) => bx(b!(x).skip(b!(y))),
        G::Between(o, c, m) => bx(sequence::between(b!(o), b!(c), b!(m))),
        G::Alt(k, v) => match (k, &v[..]) {
            (AltKind::Slice, v) => bx(SliceAlt(v.iter().map(|g| b!(g)).collect::<Vec<_>>())),
            (AltKind::Array, [a]) => bx(choice([b!(a)])),
            (AltKind::Array, [a, b]) => bx(choice([b!(a), b!(b)])),
            (AltKind::Array, [a, b, c]) => bx(choice([b!(a), b!(b), b!(c)])),
            (AltKind::Array, [a, b, c, d]) => bx(choice([b!(a), b!(b), b!(c), b!(d)])),
            (AltKind::Tuple, [a]) => bx(choice((b!(a),))),
            (AltKind::Tuple, [a, b]) => bx(choice((b!(a), b!(b)))),
            (AltKind::Tuple, [a, b, c]) => bx(choice((b!(a), b!(b), b!(c)))),
            (AltKind::Tuple, [a, b, c, d]) => bx(choice((b!(a), b!(b), b!(c), b!(d)))),
            (AltKind::Or, [a, b]) => bx(or(b!(a), b!(b))),
            (AltKind::Or, [a, b, c]) => bx(b!(a).or(b!(b)).or(b!(c))),
            _ => I::wide(g),
        },
        G::Opt(a) => bx(combine::optional(b!(a)).map(|o| o.map_or(V::N, |v| V::Some(Box::new(v))))),
        G::Attempt(a) => bx(combinator::attempt(b!(a))),
        G::Look(a) => bx(combinator::look_ahead(b!(a))),
        G::Not(a) => bx(combinator::not_followed_by(b!(a).map(|_| "value")).map(|_| V::U)),
        G::Many(a) => bx(repeat::many(b!(a)).map(V::L)),
        G::Many1(a) => bx(repeat::many1(b!(a)).map(V::L)),
        G::SkipMany(a) => bx(repeat::skip_many(b!(a)).map(|_| V::U)),
        G::SkipMany1(a) => bx(repeat::skip_many1(b!(a)).map(|_| V::U)),
        G::Count(n, a) => bx(repeat::count(*n, b!(a)).map(V::L)),
        G::SkipCount(n, a) => bx(repeat::skip_count(*n, b!(a)).map(|_| V::U)),
        G::CountMM(n, m, a) => bx(repeat::count_min_max(*n, *m, b!(a)).map(V::L)),
        G::SkipCountMM(n, m, a) => bx(repeat::skip_count_min_max(*n, *m, b!(a)).map(|_| V::U)),
        G::SepBy(a, s) => bx(repeat::sep_by(b!(a), b!(s)).map(V::L)),
        G::SepBy1(a, s) => bx(repeat::sep_by1(b!(a), b!(s)).map(V::L)),
        G::SepEndBy(a, s) => bx(repeat::sep_end_by(b!(a), b!(s)).map(V::L)),
        G::SepEndBy1(a, s) => bx(repeat::sep_end_by1(b!(a), b!(s)).map(V::L)),
        G::ChainL(a, op) => bx(repeat::chainl1(b!(a), b!(op).map(op_seen(op.consumes())))),
        G::ChainR(a, op) => bx(repeat::chainr1(b!(a), b!(op).map(op_seen(op.consumes())))),
        G::TakeUntil(e) => bx(repeat::take_until::<Toks, _, _>(b!(e)).map(|t| V::S(t.0))),
        G::SkipUntil(e) => bx(repeat::skip_until(b!(e)).map(|_| V::U)),
        G::RepUntil(p, e) => bx(repeat::repeat_until::<Vec<V>, _, _, _>(b!(p), b!(e)).map(V::L)),
        G::RepSkipUntil(p, e) => bx(repeat::repeat_skip_until(b!(p), b!(e)).map(|_| V::U)),
        G::Escaped(p, c, q) => bx(repeat::escaped(b!(p), I::Token::f(*c), b!(q)).map(|_| V::U)),
        G::Iterate(n, v) => {
            let v = v.clone();
            bx(repeat::iterate::<Vec<V>, _, _, _, _>(0..*n, move |i: &usize, _: &mut I| {
                seen('i', false, *i);
                build::<I>(&v[*i % v.len()])
            })
                .map(V::L))
        }
        G::Then(a, v) => {
            let (v, c) = (v.clone(), a.consumes());
            bx(b!(a).then(move |x| {
                seen('t', c, x.hash());
                build::<I>(&v[x.hash() % v.len()])
            }))
        }
        G::ThenPartial(a, v) => {
            let v = v.clone();
            bx(b!(a).then_partial(move |x| {
                seen('h', false, x.hash());
                build::<I>(&v[x.hash() % v.len()])
            }))
        }
        G::ThenRef(a, v) => {
            let (v, c) = (v.clone(), a.consumes());
            bx(b!(a).then_ref(move |x| {
                seen('r', c, x.hash());
                build::<I>(&v[x.hash() % v.len()])
            }).map(|(a, b)| V::L(vec![a, b])))
        }
        G::Map(a) => {
            let c = a.consumes();
            bx(b!(a)
                .map_input(move |v, i: &mut I| {
                    i.bump();
                    seen('m', c, v.hash());
                    v
                })
                .map(move |v| {
                    seen('n', c, v.hash());
                    V::L(vec![v])
                }))
        }
        G::FlatMap(a, m) => {
            let (m, c) = (*m, a.consumes());
            bx(b!(a).flat_map(move |v| {
                seen('f', c, v.hash());
                if v.hash() % m == 0 {
                    Err(<I::Error as ParseError<I::Token, I::Range, I::Position>>::empty(Default::default()))
                } else {
                    Ok(v)
                }
            }))
        }
        G::AndThen(a, m) => {
            let (m, c) = (*m, a.consumes());
            bx(b!(a).and_then(move |v| {
                seen('a', c, v.hash());
                if v.hash() % m == 0 {
                    Err(StreamErrorFor::<I>::message_static_message("and_then"))
                } else {
                    Ok(v)
                }
            }))
        }
        G::Recog(a) => bx(combinator::recognize::<Toks, _, _>(b!(a)).map(|t| V::S(t.0))),
        G::Msg(a) => bx(b!(a).message("msg")),
        G::Exp(a) => bx(b!(a).expected("exp")),
        G::Silent(a) => bx(b!(a).silent()),
        G::Lazy(a) => {
            let a = a.clone();
            bx(combinator::lazy(move || build::<I>(&a)))
        }
        G::Factory(a) => {
            let a = a.clone();
            bx(combinator::factory(move |_: &mut I| {
                seen('y', false, 0);
                build::<I>(&a)
            }))
        }
        G::Opaque(a) => {
            let mut p = b!(a);
            bx(combinator::opaque::<I, _, V, St>(
                move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = V, PartialState = St>)| f(&mut p),
            ))
        }
        G::NoPartial(a) => bx(combinator::no_partial(b!(a))),
        #[cfg(feature = "alloc")]
        G::AnyState(a) => bx(any_partial_state(b!(a))),
        #[cfg(not(feature = "alloc"))]
        G::AnyState(a) => b!(a),
        G::Either(l, a) => {
            if *l {
                bx(Either::Left::<P<I>, P<I>>(b!(a)))
            } else {
                bx(Either::Right::<P<I>, P<I>>(b!(a)))
            }
        }
        _ => I::leaf(g),
    }
}

/// Remembers that a function has been called
fn seen(kind: char, consumes: bool, v: usize) -> bool {
    crate::mon::call(kind, consumes, v);
    true
}
fn op_seen(c: bool) -> impl Fn(V) -> Box<dyn FnOnce(V, V) -> V> {
    move |v| {
        seen('o', c, v.hash());
        Box::new(move |l, r| {
            seen('x', c, l.hash() * 7 + r.hash());
            V::L(vec![v, l, r])
        })
    }
}

pub fn op_fn(v: V) -> Box<dyn FnOnce(V, V) -> V> {
    Box::new(move |l, r| V::L(vec![v, l, r]))
}

/// Tuples and arrays of the sizes which are not built for every stream
pub fn wide<I>(g: &G) -> P<I>
where
    I: Inp,
    I::Token: Tk,
    I::Position: Default,
{
    macro_rules! seq {
        ($v: expr; $($n: ident)*) => {{
            let mut i = $v.iter();
            $(let $n = build::<I>(i.next().unwrap());)*
            bx(($($n),*).map(|($($n),*)| V::L(vec![$($n),*])))
        }};
    }
    macro_rules! alt {
        ($v: expr; $($n: ident)*) => {{
            let mut i = $v.iter();
            $(let $n = build::<I>(i.next().unwrap());)*
            bx(choice(($($n),*)))
        }};
    }
    match g {
        G::Seq(v) if v.len() == 9 => seq!(v; a b c d e f g h i2),
        G::Seq(v) if v.len() == 20 => seq!(v; a b c d e f g h i2 j k l m n o p q r s t),
        G::Alt(AltKind::Tuple, v) if v.len() == 9 => alt!(v; a b c d e f g h i2),
        G::Alt(AltKind::Tuple, v) if v.len() == 24 => alt!(v; a b c d e f g h i2 j k l m n o p q r s t u v2 w x),
        G::Alt(AltKind::Array, v) if v.len() == 32 => {
            let mut i = v.iter();
            bx(choice([(); 32].map(|_| build::<I>(i.next().unwrap()))))
        }
        _ => panic!("{:?} of this size", g.kind()),
    }
}

#[macro_export]
macro_rules! ranged_wide {
    ($($t: ty),* $(,)?) => { $(
        impl $crate::build::Inp for $t {
            #[inline]
            fn leaf(g: &$crate::grammar::G) -> $crate::build::P<Self> { $crate::build::ranged_leaf::<Self>(g) }
            #[inline]
            fn wide(g: &$crate::grammar::G) -> $crate::build::P<Self> { $crate::build::wide::<Self>(g) }
        }
    )* };
}
#[macro_export]
macro_rules! ranged {
    ($($t: ty),* $(,)?) => { $(
        impl $crate::build::Inp for $t {
            #[inline]
            fn leaf(g: &$crate::grammar::G) -> $crate::build::P<Self> { $crate::build::ranged_leaf::<Self>(g) }
        }
    )* };
}
#[macro_export]
macro_rules! spanned {
    ($($t: ty),* $(,)?) => { $(
        impl $crate::build::Inp for $t {
            #[inline]
            fn leaf(g: &$crate::grammar::G) -> $crate::build::P<Self> { $crate::build::ranged_leaf::<Self>(g) }
            fn spanned(p: $crate::build::P<Self>) -> $crate::build::P<Self> { $crate::build::bx(combine::Parser::spanned(p)) }
        }
    )* };
}
#[macro_export]
macro_rules! unranged {
    ($($t: ty),* $(,)?) => { $(
        impl $crate::build::Inp for $t {
            fn leaf(g: &$crate::grammar::G) -> $crate::build::P<Self> { $crate::build::no_range::<Self>(g) }
        }
    )* };
}

use combine::stream::position;
use combine::stream::{MaybePartialStream, PartialStream, CompleteStream};
#[cfg(feature = "std")]
use combine::stream::easy;

pub type S8 = &'static [u8];
pub type Str = &'static str;
#[cfg(feature = "std")]
pub type ES8 = easy::Stream<S8>;
#[cfg(feature = "std")]
pub type EStr = easy::Stream<Str>;

ranged_wide! {
    crate::mon::Mon<S8>, crate::mon::Mon<Str>,
    MaybePartialStream<crate::mon::Mon<S8>>, MaybePartialStream<crate::mon::Mon<Str>>,
}
ranged! {
    S8, Str,
    MaybePartialStream<S8>, MaybePartialStream<Str>,
    PartialStream<S8>, PartialStream<Str>,
    CompleteStream<S8>,
    &'static [char],
    combine::stream::SliceStream<'static, u8>,
    position::Stream<S8, position::IndexPositioner>,
    position::Stream<Str, position::SourcePosition>,
    position::Stream<Str, position::IndexPositioner>,
}
#[cfg(feature = "std")]
ranged! {
    ES8, EStr,
    MaybePartialStream<ES8>, MaybePartialStream<EStr>,
    easy::Stream<position::Stream<S8, position::IndexPositioner>>,
    easy::Stream<position::Stream<Str, position::SourcePosition>>,
    MaybePartialStream<easy::Stream<position::Stream<S8, position::IndexPositioner>>>,
}

impl<S> Inp for combine::stream::state::Stream<S, u32>
where
    S: Inp + RangeStream,
    S::Token: Tk,
    S::Position: Default,
    S::Range: Rg,
{
    #[inline]
    fn leaf(g: &G) -> P<Self> {
        ranged_leaf::<Self>(g)
    }
    fn bump(&mut self) {
        self.state += 1
    }
}

#[cfg(feature = "alloc")]
impl<S> Inp for combine::stream::buffered::Stream<S>
where
    S: combine::Positioned + 'static,
    S::Token: Tk,
    S::Position: Default,
    combine::stream::buffered::Stream<S>: Stream<Token = S::Token, Position = S::Position>,
{
    fn leaf(g: &G) -> P<Self> {
        no_range(g)
    }
}

/// Lend a slice as `'static` for the duration of `f`. Nothing that `f` returns may borrow from it:
/// the value types of this harness own all their data.
pub fn lend<T: ?Sized + 'static, O: 'static>(x: &T, f: impl FnOnce(&'static T) -> O) -> O {
    f(unsafe { &*(x as *const T) })
}

#[allow(dead_code)]
fn _assert_range_stream<I: RangeStream + StreamOnce>() {}
