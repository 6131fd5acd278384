//! C22: combine in each of its configurations (none of its features, `alloc` alone, `std`) against the same reference
//! semantics, and what is observed in each against what was observed in the others.
use combine::error::{ParseError, ParseResult, StreamError, Tracked};
use combine::parser::byte::num::*;
use combine::parser::range::{length_prefix, take, take_while1};
use combine::parser::{byte, combinator, repeat, token as tk};
use combine::stream::position::{IndexPositioner, SourcePosition};
use combine::stream::{Positioned, RangeStreamOnce, ResetStream, SliceStream, StreamErrorFor, StreamOnce};
use combine::{choice, Parser, RangeStream};
use std::collections::HashMap;
use std::fmt::{self, Debug, Write as _};
use std::marker::PhantomData;
use std::sync::Mutex;
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*, sources::*};

const CONFIG: &str = if cfg!(feature = "std") {
    "std"
} else if cfg!(feature = "alloc") {
    "alloc"
} else {
    "no features"
};

// ---- what each case showed, to be compared between the configurations

/// What was seen in the configurations before this one, and what has been seen in this
static BEFORE: Mutex<Option<HashMap<(String, u64), String>>> = Mutex::new(None);
static NOW: Mutex<Vec<(String, u64, String)>> = Mutex::new(Vec::new());

fn dump_file() -> Option<String> {
    std::env::var("VERIF_DUMP").ok().filter(|p| !p.is_empty())
}

/// The observations of a case: whatever text describes them
struct Log<'a> {
    work: &'a str,
    case: u64,
    text: String,
}
impl Log<'_> {
    fn put(&mut self, x: impl Debug) {
        let _ = write!(self.text, "{:?};", x);
    }
    fn done(self, t: &mut Tally) {
        let key = (self.work.to_string(), self.case);
        if let Some(b) = &*BEFORE.lock().unwrap() {
            if let Some(old) = b.get(&key) {
                t.hit("compared_with_std");
                let new = short(&self.text);
                if *old != new {
                    t.violation(format!("the same case gives, with std: {}, with {}: {}", old, CONFIG, new))
                }
            }
        } else {
            NOW.lock().unwrap().push((key.0, key.1, short(&self.text)));
        }
    }
}
/// The start of the text and a hash of all of it
fn short(s: &str) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{} #{:x}", s.chars().take(200).collect::<String>().replace('\n', "\\n"), h.finish())
}

// ---- a stream whose errors keep all that they are told, in words

#[derive(Clone, Debug, PartialEq)]
pub struct Say(String, bool);
fn say(a: &str, b: impl Debug) -> Say {
    Say(format!("{} {:?}", a, b), false)
}
impl<T: Debug, R: Debug> StreamError<T, R> for Say {
    fn unexpected_token(x: T) -> Self {
        say("unexpected token", x)
    }
    fn unexpected_range(x: R) -> Self {
        say("unexpected range", x)
    }
    fn unexpected_format<F: fmt::Display>(x: F) -> Self {
        say("unexpected", x.to_string())
    }
    fn expected_token(x: T) -> Self {
        say("expected token", x)
    }
    fn expected_range(x: R) -> Self {
        say("expected range", x)
    }
    fn expected_format<F: fmt::Display>(x: F) -> Self {
        say("expected", x.to_string())
    }
    fn message_token(x: T) -> Self {
        say("token", x)
    }
    fn message_range(x: R) -> Self {
        say("range", x)
    }
    fn message_format<F: fmt::Display>(x: F) -> Self {
        say("message", x.to_string())
    }
    fn end_of_input() -> Self {
        Say("end of input".into(), true)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.1
    }
    fn into_other<O: StreamError<T, R>>(self) -> O {
        if self.1 {
            O::end_of_input()
        } else {
            O::message_format(self.0)
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Report<P> {
    at: P,
    says: Vec<Say>,
}
impl<T: Debug, R: Debug, P: Clone + PartialEq + Ord> ParseError<T, R, P> for Report<P> {
    type StreamError = Say;
    fn empty(at: P) -> Self {
        Report { at, says: vec![] }
    }
    fn position(&self) -> P {
        self.at.clone()
    }
    fn set_position(&mut self, at: P) {
        self.at = at
    }
    fn add(&mut self, e: Say) {
        self.says.push(e)
    }
    fn merge(mut self, mut o: Self) -> Self {
        if self.at < o.at {
            return o;
        }
        if self.at == o.at {
            self.says.append(&mut o.says)
        }
        self
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(s: &mut Tracked<Self>, e: Say, f: F) {
        let n = s.error.says.len();
        f(s);
        let mut i = 0;
        s.error.says.retain(|x| {
            i += 1;
            i <= n || !x.0.starts_with("expected")
        });
        s.error.says.push(e)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.says.iter().any(|s| s.1)
    }
    fn into_other<O: ParseError<T, R, P>>(self) -> O {
        let mut o = O::empty(self.at);
        for s in self.says {
            o.add(StreamError::<T, R>::into_other(s))
        }
        o
    }
}

/// The stream `S` with `Report`s
pub struct Rp<S>(S, PhantomData<()>);
fn rp<S>(s: S) -> Rp<S> {
    Rp(s, PhantomData)
}
impl<S: Clone> Clone for Rp<S> {
    fn clone(&self) -> Self {
        rp(self.0.clone())
    }
}
impl<S> StreamOnce for Rp<S>
where
    S: StreamOnce,
    S::Token: Debug,
    S::Range: Debug,
{
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = Report<S::Position>;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        self.0.uncons().map_err(StreamError::into_other)
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S> Positioned for Rp<S>
where
    S: Positioned,
    S::Token: Debug,
    S::Range: Debug,
{
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S> ResetStream for Rp<S>
where
    S: ResetStream + Positioned,
    S::Token: Debug,
    S::Range: Debug,
{
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), Self::Error> {
        self.0.reset(c).map_err(|e| e.into_other())
    }
}
impl<S> RangeStreamOnce for Rp<S>
where
    S: RangeStreamOnce + Positioned,
    S::Token: Debug,
    S::Range: Debug,
{
    fn uncons_range(&mut self, n: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        self.0.uncons_range(n).map_err(StreamError::into_other)
    }
    fn uncons_while<F: FnMut(S::Token) -> bool>(&mut self, f: F) -> Result<S::Range, StreamErrorFor<Self>> {
        self.0.uncons_while(f).map_err(StreamError::into_other)
    }
    fn uncons_while1<F: FnMut(S::Token) -> bool>(&mut self, f: F) -> ParseResult<S::Range, StreamErrorFor<Self>> {
        self.0.uncons_while1(f).map_err(StreamError::into_other)
    }
    fn distance(&self, end: &S::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> S::Range {
        self.0.range()
    }
}
impl<S> Inp for Rp<S>
where
    S: RangeStream + 'static,
    S::Token: Tk,
    S::Range: Rg + Debug,
    S::Position: Default,
{
    fn leaf(g: &G) -> P<Self> {
        ranged_leaf::<Self>(g)
    }
}

type RB = Rp<PIdx<Mon<S8>>>;
type RT = Rp<PSrc<Mon<Str>>>;
impl Source for RB {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        lend(inp, |s| f(rp(PIdx::with_positioner(Mon(s), IndexPositioner::new()))))
    }
}
impl Source for RT {
    fn with<O: 'static>(inp: &[u8], f: impl FnOnce(Self) -> O) -> O {
        let t = to_text(inp);
        lend(&t[..], |s| f(rp(PSrc::with_positioner(Mon(s), SourcePosition::new()))))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}
type CB = Rp<PIdx<Part<Mon<S8>>>>;
type CT = Rp<PSrc<Part<Mon<Str>>>>;
impl Chunked for CB {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        lend(&inp[from..to], |s| f(&mut rp(PIdx::with_positioner(combine::stream::MaybePartialStream(Mon(s), !last), IndexPositioner::new()))))
    }
    fn width(_: u8) -> usize {
        1
    }
}
impl Chunked for CT {
    fn chunk<O: 'static>(inp: &[u8], from: usize, to: usize, last: bool, f: impl FnOnce(&mut Self) -> O) -> O {
        let t = to_text(&inp[from..to]);
        lend(&t[..], |s| f(&mut rp(PSrc::with_positioner(combine::stream::MaybePartialStream(Mon(s), !last), SourcePosition::new()))))
    }
    fn width(b: u8) -> usize {
        <char as Tk>::width(b)
    }
}

// ---- grammars

/// What came of it, and the error in words
fn see<I: Source>(g: &G, inp: &[u8]) -> Result<(R, String), String>
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    guard(|| {
        I::with(inp, |mut i| {
            let mut p = build::<I>(g);
            mon::start(FUEL);
            let r = p.parse_stream(&mut i);
            let pos = inp.len() - left(&mut i);
            match r {
                ParseResult::CommitOk(v) => (R::Ok(v, pos, true), String::new()),
                ParseResult::PeekOk(v) => (R::Ok(v, pos, false), String::new()),
                ParseResult::CommitErr(e) => (R::Commit, format!("{:?}", e)),
                ParseResult::PeekErr(e) => (R::Peek, format!("{:?}", e.error)),
            }
        })
    })
}

fn grammar<I: Source>(name: &str, cfg: &Cfg, work: &str, case: u64, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let mut log = Log { work, case, text: String::new() };
    for _ in 0..3 {
        let inp = input_for(&g, r, 30);
        let e = match expect(&g, &inp, I::width) {
            Some(e) => e,
            None => {
                t.hit("model_out_of_fuel");
                continue;
            }
        };
        t.evals += 1;
        let a = see::<I>(&g, &inp);
        t.hit(match e {
            R::Ok(_, _, true) => "ok_committed",
            R::Ok(_, _, false) => "ok_peeked",
            R::Peek => "failed_peeked",
            R::Commit => "failed_committed",
        });
        t.saw(&(format!("{:?}", g), &inp, name));
        t.sample(|| format!("{}: {}: {:?} on {:?} -> {:?}", CONFIG, name, g, lossy(&inp), a));
        // In this configuration there is no parser for this node: without one it is left out, which changes the report only
        let no_such = cfg!(not(feature = "alloc")) && g.has(&["any_partial_state"]);
        if no_such {
            t.hit("report_not_compared");
            log.put(a.as_ref().map(|a| &a.0));
        } else {
            log.put(&a);
        }
        if a.as_ref().map(|a| &a.0) != Ok(&e) {
            let (g, inp) = shrink(&g, &inp, &mut |g, i| {
                expect(g, i, I::width).map_or(false, |e| see::<I>(g, i).as_ref().map(|a| &a.0) != Ok(&e))
            });
            t.violation(format!(
                "with {}: {}: {:?} on {:?}: specified {:?}, observed {:?}",
                CONFIG, name, g, lossy(&inp), expect(&g, &inp, I::width), see::<I>(&g, &inp)
            ));
            return;
        }
    }
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
    if !g.has(&["any_partial_state"]) {
        log.done(t)
    }
}

/// The outcome of decoding in parts; the error of the last call in words
fn in_parts<I: Chunked>(
    make: &mut dyn FnMut() -> P<I>,
    inp: &[u8],
    cuts: &[usize],
    t: &mut Tally,
) -> Result<(Option<(V, usize)>, String), String>
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    guard(|| {
        let mut p = make();
        let mut st = St::default();
        let (mut pos, mut k) = (0, 0);
        mon::start(FUEL);
        loop {
            let last = k == cuts.len();
            let end = if last { inp.len() } else { cuts[k] };
            t.hit("decode_calls");
            let r = I::chunk(inp, pos, end, last, |i| combine::stream::decode(&mut p, i, &mut st).map_err(|e| format!("{:?}", e)));
            let toks = |n: usize| {
                let (mut i, mut left) = (pos, n);
                while left > 0 {
                    assert!(i < end, "decode removes {} but only {} tokens were available", n, end - pos);
                    let w = I::width(inp[i]);
                    assert!(w <= left, "decode removes part of a character");
                    left -= w;
                    i += 1;
                }
                i
            };
            match r {
                Ok((Some(v), n)) => return (Some((v, toks(n))), String::new()),
                Ok((None, n)) => {
                    assert!(!last, "decode wants more than the whole input");
                    t.hit("resumptions");
                    pos = toks(n);
                    k += 1;
                }
                Err(e) => return (None, e),
            }
        }
    })
}

fn some_cuts(n: usize, r: &mut Rng) -> Vec<usize> {
    if n > 300 {
        let k = r.below(12);
        return (0..=n).filter(|_| r.chance(k, n)).collect();
    }
    if r.chance(1, 3) {
        return (0..=n).collect();
    }
    (0..=n).filter(|_| r.chance(1, 3)).collect()
}

fn parts<I: Chunked>(name: &str, cfg: &Cfg, work: &str, case: u64, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let mut log = Log { work, case, text: String::new() };
    for _ in 0..3 {
        let inp = input_for(&g, r, 30);
        let cuts = some_cuts(inp.len(), r);
        let m = Model::new(&inp, I::width);
        let e = m.ev(&g, 0);
        // (the known finding of C02)
        if m.out_of_fuel.get() || m.taint.get() {
            t.hit("excluded");
            continue;
        }
        let e = match e {
            R::Ok(v, p, _) => Some((v, p)),
            _ => None,
        };
        t.evals += 1;
        t.hit(if e.is_some() { "parts_ok" } else { "parts_failed" });
        let a = in_parts::<I>(&mut || build::<I>(&g), &inp, &cuts, t);
        t.saw(&(format!("{:?}", g), &inp, &cuts, name));
        log.put(&a);
        if a.as_ref().map(|a| &a.0) != Ok(&e) {
            t.violation(format!(
                "with {}: {}: {:?} on {:?} in parts cut at {:?}: the whole gives {:?}, the parts give {:?}",
                CONFIG, name, g, lossy(&inp), cuts, e, a
            ));
            return;
        }
    }
    if !g.has(&["any_partial_state"]) {
        log.done(t)
    }
}

// ---- binary formats: numbers and what their value says follows

const NUMS: [(&str, usize, bool, bool); 12] = [
    ("be_u16", 2, true, false), ("le_u16", 2, false, false), ("be_u32", 4, true, false), ("le_u32", 4, false, false),
    ("be_u64", 8, true, false), ("le_u64", 8, false, false), ("be_i16", 2, true, true), ("le_i16", 2, false, true),
    ("be_i32", 4, true, true), ("le_i32", 4, false, true), ("be_i64", 8, true, true), ("le_i64", 8, false, true),
];

fn number(k: usize, b: &[u8]) -> Option<i128> {
    let (_, w, be, signed) = NUMS[k];
    if b.len() < w {
        return None;
    }
    let mut bits = 0i128;
    for i in 0..w {
        bits = bits * 256 + b[if be { i } else { w - 1 - i }] as i128;
    }
    if signed && bits >> (8 * w - 1) == 1 {
        bits -= 1 << (8 * w)
    }
    Some(bits)
}

fn num_parser<I>(k: usize, prefix: bool) -> P<I>
where
    I: Inp + RangeStream<Token = u8>,
    I::Position: Default,
    I::Range: Rg,
{
    macro_rules! p {
        ($p: ident, $t: ident) => {
            if prefix {
                bx(length_prefix($p()).map(|r: I::Range| V::S(r.bytes())))
            } else {
                bx($p().map(|n: $t| V::S((n as i128).to_be_bytes().to_vec())))
            }
        };
    }
    match k {
        0 => p!(be_u16, u16),
        1 => p!(le_u16, u16),
        2 => p!(be_u32, u32),
        3 => p!(le_u32, u32),
        4 => p!(be_u64, u64),
        5 => p!(le_u64, u64),
        6 => p!(be_i16, i16),
        7 => p!(le_i16, i16),
        8 => p!(be_i32, i32),
        9 => p!(le_i32, i32),
        10 => p!(be_i64, i64),
        _ => p!(le_i64, i64),
    }
}

fn numbers(work: &str, case: u64, r: &mut Rng, t: &mut Tally) {
    let mut log = Log { work, case, text: String::new() };
    let k = r.below(NUMS.len());
    let (name, w, be, _) = NUMS[k];
    let prefix = r.chance(2, 3);
    let mut b: Vec<u8> = (0..w).map(|_| if r.chance(1, 2) { *r.pick(&[0u8, 0xff, 0x80, 0x7f]) } else { r.below(256) as u8 }).collect();
    if prefix && r.chance(3, 4) {
        // a length which may be there
        let n = r.below(12) as u8;
        b = vec![0; w];
        b[if be { w - 1 } else { 0 }] = n;
    }
    b.truncate(if r.chance(1, 6) { r.below(w + 1) } else { w });
    let tail = r.below(14);
    for _ in 0..tail {
        b.push(*r.pick(b"abc"))
    }
    let n = number(k, &b);
    let e: Option<(V, usize)> = match n {
        None => None,
        Some(n) if !prefix => Some((V::S(n.to_be_bytes().to_vec()), w)),
        Some(n) if n < 0 || n > (b.len() - w) as i128 => None,
        Some(n) => Some((V::S(b[w..w + n as usize].to_vec()), w + n as usize)),
    };
    t.evals += 1;
    t.saw(&(k, prefix, &b));
    t.hit(match (&e, prefix, n) {
        (Some(_), false, _) => "numbers",
        (Some(_), true, _) => "prefixed",
        (None, true, Some(n)) if n < 0 => "negative_length",
        (None, true, Some(_)) => "prefixed_cut_short",
        _ => "number_cut_short",
    });
    let whole = guard(|| {
        RB::with(&b, |mut i| {
            mon::start(FUEL);
            let r = num_parser::<RB>(k, prefix).parse_stream(&mut i);
            let pos = b.len() - left(&mut i);
            match r {
                ParseResult::CommitOk(v) => (Some((v, pos)), String::new()),
                ParseResult::PeekOk(v) => (Some((v, pos + 1000)), String::new()),
                ParseResult::CommitErr(e) => (None, format!("committed {:?}", e)),
                ParseResult::PeekErr(e) => (None, format!("peek {:?}", e.error)),
            }
        })
    });
    log.put(&whole);
    let what = if prefix { "length_prefix of " } else { "" };
    t.sample(|| format!("{}: {}{} on {:?}: {:?}", CONFIG, what, name, b, whole));
    if whole.as_ref().map(|w| &w.0) != Ok(&e) {
        t.violation(format!("with {}: {}{} on {:?}: {:?}, but should be {:?}", CONFIG, what, name, b, whole, e));
        return;
    }
    // what a length may say which cannot be
    if let (true, Some(n), Ok((None, said))) = (prefix, n, &whole) {
        if n < 0 && !said.contains("message") {
            t.violation(format!("with {}: {}{} on {:?}: a length of {} is reported as {}", CONFIG, what, name, b, n, said));
            return;
        }
    }
    // The bytes given to the parser are all there or none, as `length_prefix` starts over
    let cuts = some_cuts(b.len(), r);
    let a = in_parts::<CB>(&mut || num_parser::<CB>(k, prefix), &b, &cuts, t);
    log.put(&a);
    if a.as_ref().map(|a| &a.0) != Ok(&e) {
        t.violation(format!("with {}: {}{} on {:?} in parts cut at {:?}: {:?}, but should be {:?}", CONFIG, what, name, b, cuts, a, e));
        return;
    }
    log.done(t)
}

// ---- searches

fn searches(work: &str, case: u64, r: &mut Rng, t: &mut Tally) {
    let mut log = Log { work, case, text: String::new() };
    let k = r.below(5);
    let n = if r.chance(1, 4) { r.below(300) } else { r.below(40) };
    // whatever a search by words of eight bytes might take for another
    let abc: Vec<u8> = match r.below(3) {
        0 => vec![0, 1, 0x7f, 0x80, 0x81, 0xff],
        1 => vec![b'a', b'b'],
        _ => (0..20).collect(),
    };
    let b: Vec<u8> = (0..n).map(|_| *r.pick(&abc)).collect();
    let mut x = [*r.pick(&abc), *r.pick(&abc), *r.pick(&abc)];
    if r.chance(1, 3) {
        x[0] = 0xfe
    }
    let needle: Vec<u8> = (0..r.below(4)).map(|_| *r.pick(&abc)).collect();
    let off = r.below(9).min(n);
    let at = |f: &dyn Fn(u8) -> bool| b[off..].iter().position(|c| f(*c));
    let e = match k {
        0 => at(&|c| c == x[0]),
        1 => at(&|c| c == x[0] || c == x[1]),
        2 => at(&|c| x.contains(&c)),
        3 => (0..=n - off).find(|i| b[off + i..].starts_with(&needle)),
        _ => Some(at(&|c| !x.contains(&c)).unwrap_or(n - off)),
    };
    fn p<I>(k: usize, x: [u8; 3], needle: S8) -> P<I>
    where
        I: Inp + RangeStream<Token = u8, Range = S8>,
        I::Position: Default,
    {
        let v = |r: S8| V::S(r.to_vec());
        match k {
            0 => bx(byte::take_until_byte(x[0]).map(v)),
            1 => bx(byte::take_until_byte2(x[0], x[1]).map(v)),
            2 => bx(byte::take_until_byte3(x[0], x[1], x[2]).map(v)),
            3 => bx(byte::take_until_bytes(needle).map(v)),
            _ => bx(combine::parser::range::take_while(move |c: u8| x.contains(&c)).map(v)),
        }
    }
    t.evals += 1;
    t.saw(&(k, &b, x, &needle, off));
    t.hit(if e.is_some() { "found" } else { "not_found" });
    let e = e.map(|n| (V::S(b[off..off + n].to_vec()), n));
    let needle: S8 = lend(&needle[..], |n| n);
    let inp = &b[off..];
    let a = guard(|| {
        RB::with(inp, |mut i| {
            mon::start(FUEL);
            let r = p::<RB>(k, x, needle).parse_stream(&mut i);
            let pos = inp.len() - left(&mut i);
            match r {
                ParseResult::CommitOk(v) => (Some((v, pos)), "c".to_string()),
                ParseResult::PeekOk(v) => (Some((v, pos)), String::new()),
                ParseResult::CommitErr(e) => (None, format!("committed {:?}", e)),
                ParseResult::PeekErr(e) => (None, format!("peek {:?}", e.error)),
            }
        })
    });
    log.put(&a);
    if a.as_ref().map(|w| &w.0) != Ok(&e) {
        t.violation(format!("with {}: search {} for {:?} or {:?} in {:?}: {:?}, but should be {:?}", CONFIG, k, x, needle, inp, a, e));
        return;
    }
    let cuts = some_cuts(inp.len(), r);
    let c = in_parts::<CB>(&mut || p::<CB>(k, x, needle), inp, &cuts, t);
    log.put(&c);
    if c.as_ref().map(|w| &w.0) != Ok(&e) {
        t.violation(format!("with {}: search {} for {:?} or {:?} in {:?} cut at {:?}: {:?}, but should be {:?}", CONFIG, k, x, needle, inp, cuts, c, e));
        return;
    }
    log.done(t)
}

// ---- parsers as users write them, with the macros

#[derive(Default)]
struct Sum(i64);
impl Extend<i64> for Sum {
    fn extend<I: IntoIterator<Item = i64>>(&mut self, i: I) {
        for x in i {
            self.0 += x
        }
    }
}
#[derive(Default)]
struct Digits(i64);
impl Extend<i64> for Digits {
    fn extend<I: IntoIterator<Item = i64>>(&mut self, i: I) {
        for x in i {
            self.0 = self.0 * 3 + x
        }
    }
}

combine::parser! {
    fn expr[I]()(I) -> i64
    where [I: RangeStream<Token = u8, Range = S8>]
    {
        choice!(
            combinator::from_str(take_while1(|c: u8| c.is_ascii_digit())).map(|n: u16| n as i64),
            combine::between(tk::token(b'('), tk::token(b')'), list()),
            tk::token(b'a').with(tk::produce(|| 7i64)),
            combine::opaque!(combinator::no_partial(tk::token(b'b').map(|_| 8i64)))
        )
    }
}
combine::parser! {
    fn list[I]()(I) -> i64
    where [I: RangeStream<Token = u8, Range = S8>]
    {
        tk::any().then(|c: u8| combine::dispatch!(c;
            b'+' => repeat::many::<Sum, _, _>(tk::token(b' ').with(expr())).map(|s| s.0),
            b'-' => repeat::many1::<Digits, _, _>(tk::token(b' ').with(expr())).map(|s| s.0),
            b'.' => repeat::sep_by::<Sum, _, _, _>(expr(), tk::token(b',')).map(|s| s.0),
            _ => combine::parser::error::unexpected_any("operator")))
    }
}

/// The same by hand: the value and the rest
fn by_hand(s: &[u8]) -> Option<(i64, &[u8])> {
    let d = s.iter().take_while(|c| c.is_ascii_digit()).count();
    if d > 0 {
        let mut n = 0u64;
        for c in &s[..d] {
            n = n * 10 + (c - b'0') as u64;
            if n > u16::MAX as u64 {
                return None;
            }
        }
        return Some((n as i64, &s[d..]));
    }
    match s.first()? {
        b'a' => Some((7, &s[1..])),
        b'b' => Some((8, &s[1..])),
        b'(' => {
            let op = *s.get(1)?;
            let mut s = &s[2..];
            let mut v = vec![];
            if op == b'.' {
                if s.first().map_or(false, |c| b"0123456789ab(".contains(c)) {
                    let x = by_hand(s)?;
                    v.push(x.0);
                    s = x.1;
                    while s.first() == Some(&b',') {
                        let x = by_hand(&s[1..])?;
                        v.push(x.0);
                        s = x.1;
                    }
                }
            } else {
                while s.first() == Some(&b' ') {
                    let x = by_hand(&s[1..])?;
                    v.push(x.0);
                    s = x.1;
                }
            }
            let n = match op {
                b'+' | b'.' => v.iter().sum(),
                b'-' if v.is_empty() => return None,
                b'-' => v.iter().fold(0, |a, b| a * 3 + b),
                _ => return None,
            };
            if s.first()? == &b')' {
                Some((n, &s[1..]))
            } else {
                None
            }
        }
        _ => None,
    }
}

fn write_expr(d: usize, r: &mut Rng, o: &mut Vec<u8>) {
    match if d == 0 { r.below(3) } else { r.below(6) } {
        0 => o.extend_from_slice(r.pick(&["0", "7", "12", "65535", "065535", "65536", "99999999999"]).as_bytes()),
        1 => o.push(b'a'),
        2 => o.push(b'b'),
        3 => {
            o.extend_from_slice(b"(.");
            for i in 0..r.below(4) {
                if i > 0 {
                    o.push(b',')
                }
                write_expr(d - 1, r, o)
            }
            o.push(b')')
        }
        _ => {
            o.push(b'(');
            o.push(*r.pick(b"+-"));
            for _ in 0..r.below(4) {
                o.push(b' ');
                write_expr(d - 1, r, o)
            }
            o.push(b')')
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Head {
    kind: u8,
    a: u16,
    b: i32,
    body: S8,
}
fn head<I>() -> impl Parser<I, Output = Head, PartialState = impl Default + 'static>
where
    I: RangeStream<Token = u8, Range = S8>,
{
    combine::struct_parser! {
        Head {
            kind: tk::satisfy(|c: u8| c < 0x80),
            a: be_u16(),
            _: tk::token(b'|'),
            b: le_i32(),
            body: length_prefix(tk::any()),
        }
    }
}

fn users(work: &str, case: u64, r: &mut Rng, t: &mut Tally) {
    let mut log = Log { work, case, text: String::new() };
    let mut s = vec![];
    write_expr(3, r, &mut s);
    if r.chance(1, 2) {
        let (i, c) = (r.below(s.len() + 1), *r.pick(b"0(),ab +-."));
        if r.chance(1, 2) || i == s.len() {
            s.insert(i, c)
        } else {
            s.remove(i);
        }
    }
    let e = by_hand(&s).map(|(v, rest)| (v, s.len() - rest.len()));
    let a = guard(|| {
        RB::with(&s, |mut i| {
            mon::start(FUEL);
            let r = expr().parse_stream(&mut i).into_result();
            let pos = s.len() - left(&mut i);
            match r {
                Ok((v, _)) => (Some((v, pos)), String::new()),
                Err(e) => (None, format!("{:?}", e.into_inner().error)),
            }
        })
    });
    t.evals += 1;
    t.saw(&s);
    t.hit(if e.is_some() { "expressions" } else { "no_expressions" });
    log.put(&a);
    t.sample(|| format!("{}: {} -> {:?}", CONFIG, lossy(&s), a));
    if a.as_ref().map(|a| &a.0) != Ok(&e) {
        t.violation(format!("with {}: {:?}: {:?}, but should be {:?}", CONFIG, lossy(&s), a, e));
        return;
    }
    // a record
    let mut b: Vec<u8> = vec![r.below(0x90) as u8, r.below(256) as u8, r.below(256) as u8, if r.chance(9, 10) { b'|' } else { b'/' }];
    b.extend((0..4).map(|_| r.below(256) as u8));
    b.push(r.below(8) as u8);
    b.extend((0..r.below(9)).map(|_| r.below(256) as u8));
    if r.chance(1, 6) {
        let n = r.below(b.len());
        b.truncate(n)
    }
    let h = (b.len() >= 9 && b[0] < 0x80 && b[3] == b'|' && b.len() >= 9 + b[8] as usize).then(|| {
        (
            V::S(format!("{} {} {} {:?}", b[0], b[1] as u32 * 256 + b[2] as u32, number(9, &b[4..]).unwrap(), &b[9..9 + b[8] as usize]).into_bytes()),
            9 + b[8] as usize,
        )
    });
    t.hit(if h.is_some() { "records" } else { "no_records" });
    let cuts = some_cuts(b.len(), r);
    let show = |h: Head| V::S(format!("{} {} {} {:?}", h.kind, h.a, h.b, h.body).into_bytes());
    for cuts in [&cuts[..], &[]] {
        let a = in_parts::<CB>(&mut || bx(head().map(show)), &b, cuts, t);
        log.put(&a);
        if a.as_ref().map(|a| &a.0) != Ok(&h) {
            t.violation(format!("with {}: record {:?} in parts cut at {:?}: {:?}, but should be {:?}", CONFIG, b, cuts, a, h));
            return;
        }
    }
    // `take` and a repeated user function on a stream with nothing around it
    let n = r.below(b.len() + 3);
    let a = guard(|| lend(&b[..], |mut i: S8| take(n).parse_stream(&mut i).into_result().map(|r| r.0.to_vec()).map_err(|e| format!("{:?}", e))));
    log.put(&a);
    let e = b.get(..n).map(|x| x.to_vec());
    if a.as_ref().ok().map(|a| a.as_ref().ok().cloned()) != Some(e) {
        t.violation(format!("with {}: take({}) of {:?}: {:?}", CONFIG, n, b, a));
        return;
    }
    log.done(t)
}

fn main() {
    let ctx = Ctx::new("C22");
    let cfg = Cfg::new(true);
    if CONFIG != "std" {
        if let Some(s) = dump_file().and_then(|f| std::fs::read_to_string(f).ok()) {
            let m = s.lines().filter_map(|l| {
                let mut w = l.splitn(3, '\t');
                Some(((w.next()?.to_string(), w.next()?.parse().ok()?), w.next()?.to_string()))
            });
            *BEFORE.lock().unwrap() = Some(m.collect())
        }
    }
    macro_rules! work {
        ($w: expr, $q: expr, $t: expr, $secs: expr, $f: expr) => {
            ctx.par($w, $q, $t, $secs, |r, c, t| $f($w, c, r, t))
        };
    }
    work!("bytes", 60_000, 2_000_000, (10, 150), |w: &str, c, r: &mut Rng, t: &mut Tally| grammar::<RB>("bytes", &cfg, w, c, r, t));
    work!("text", 40_000, 1_000_000, (10, 150), |w: &str, c, r: &mut Rng, t: &mut Tally| grammar::<RT>("text", &cfg, w, c, r, t));
    work!("kinds", 40_000, 1_000_000, (10, 150), |w: &str, c, r: &mut Rng, t: &mut Tally| match c % 6 {
        0 => grammar::<S8>("&[u8]", &cfg, w, c, r, t),
        1 => grammar::<Str>("&str", &cfg, w, c, r, t),
        2 => grammar::<SliceStream<'static, u8>>("SliceStream", &cfg, w, c, r, t),
        3 => grammar::<&'static [char]>("&[char]", &cfg, w, c, r, t),
        4 => grammar::<combine::stream::state::Stream<S8, u32>>("state::Stream", &cfg, w, c, r, t),
        _ => grammar::<PIdx<S8>>("position::Stream", &cfg, w, c, r, t),
    });
    work!("parts of bytes", 40_000, 1_500_000, (10, 200), |w: &str, c, r: &mut Rng, t: &mut Tally| parts::<CB>("bytes", &cfg, w, c, r, t));
    work!("parts of text", 30_000, 1_000_000, (10, 200), |w: &str, c, r: &mut Rng, t: &mut Tally| parts::<CT>("text", &cfg, w, c, r, t));
    let long = cfg.clone().counted();
    work!("long", 6_000, 200_000, (8, 120), |w: &str, c: u64, r: &mut Rng, t: &mut Tally| {
        r.big = 3;
        match c % 4 {
            0 => grammar::<RB>("bytes", &long, w, c, r, t),
            1 => grammar::<RT>("text", &long, w, c, r, t),
            2 => parts::<CB>("bytes", &long, w, c, r, t),
            _ => parts::<CT>("text", &long, w, c, r, t),
        }
    });
    work!("numbers", 100_000, 2_000_000, (6, 60), numbers);
    work!("searches", 60_000, 2_000_000, (6, 60), searches);
    work!("users", 60_000, 2_000_000, (6, 60), users);
    if CONFIG == "std" {
        if let Some(f) = dump_file() {
            let mut o = String::new();
            for (w, c, s) in NOW.lock().unwrap().iter() {
                let _ = writeln!(o, "{}\t{}\t{}", w, c, s);
            }
            let _ = std::fs::write(f, o);
        }
    }
    let mut min = vec![
        ("evaluations", 200_000), ("ok_committed", 5_000), ("failed_committed", 5_000), ("failed_peeked", 5_000), ("resumptions", 50_000),
        ("parts_ok", 5_000), ("numbers", 5_000), ("prefixed", 5_000), ("negative_length", 500), ("prefixed_cut_short", 500),
        ("found", 5_000), ("not_found", 2_000), ("expressions", 5_000), ("no_expressions", 2_000), ("records", 5_000), ("no_records", 2_000),
    ];
    if BEFORE.lock().unwrap().is_some() {
        min.push(("compared_with_std", 100_000))
    }
    let names: Vec<String> = KINDS.iter().filter(|k| **k != "any_partial_state").map(|k| format!("node.{}", k)).collect();
    min.extend(names.iter().map(|n| (&n[..], 100)));
    ctx.finish(
        "random grammars whole and in parts, binary numbers and lengths, searches and hand-written parsers in one configuration of combine, against the reference semantics and against what the same cases showed with std (reports included); non-trivial: every case; distinct: (workload, grammar, input, partition)",
        &min,
    )
}
