//! C18: all ways of running or wrapping a parser give the same parse.
use combine::error::ParseResult;
use combine::error::{ParseError, StreamError};
use combine::parser::combinator::{input_converter, Converter};
use combine::parser::{FirstMode, ParseMode, PartialMode};
use combine::stream::{easy, StreamErrorFor, StreamOnce};
use combine::Stream;
use std::cell::Cell;
use std::rc::Rc;
use combine::{EasyParser, Parser};
use std::fmt::Debug;
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*, sources::*};

type Seen = (R, Option<String>);

/// The error report with what it says in some order
trait Report {
    fn report(&self) -> String;
    fn at(s: &str) -> String;
}
impl<T: Debug, S: Debug, Q: Debug> Report for easy::Errors<T, S, Q> {
    fn report(&self) -> String {
        let mut v: Vec<String> = self.errors.iter().map(|e| format!("{:?}", e)).collect();
        v.sort();
        format!("{:?}@{:?}", self.position, v)
    }
    fn at(s: &str) -> String {
        s.split('@').next().unwrap().to_string()
    }
}
macro_rules! dull {
    ($($t: ty),*) => { $(impl Report for $t { fn report(&self) -> String { format!("{:?}", self) } fn at(_: &str) -> String { String::new() } })* };
}
dull! { combine::error::StringStreamError, combine::error::UnexpectedParse }

fn seen<I>(x: ParseResult<V, I::Error>, inp: &[u8], i: &mut I) -> Seen
where
    I: StreamOnce,
    I::Error: Report,
{
    match x {
        ParseResult::CommitOk(v) => (R::Ok(v, inp.len() - left(i), true), None),
        ParseResult::PeekOk(v) => (R::Ok(v, inp.len() - left(i), false), None),
        ParseResult::CommitErr(e) => (R::Commit, Some(e.report())),
        ParseResult::PeekErr(e) => (R::Peek, Some(e.error.report())),
    }
}

/// No more than what `Result` tells
fn seen2<I>(x: Result<V, I::Error>, inp: &[u8], i: &mut I) -> Seen
where
    I: StreamOnce,
    I::Error: Report,
{
    match x {
        Ok(v) => (R::Ok(v, inp.len() - left(i), true), None),
        Err(e) => (R::Commit, Some(e.report())),
    }
}

/// The ways which give all that `parse_stream` does, those which give the error only if it is committed, and those
/// which do not tell whether they committed
const FULL: [&str; 7] = ["twice", "parse_stream_partial", "&mut", "boxed", "committed, first", "committed, partial", "pushed through a function"];
const LAZY: [&str; 6] = ["parse_lazy", "parse_first", "parse_partial", "first mode", "partial mode", "iter"];
const PLAIN: [&str; 2] = ["parse", "parse_with_state"];

fn way<I: Source>(k: &str, g: &G, inp: &[u8], before: &[u8]) -> Result<Seen, String>
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Report,
{
    guard(|| {
        let mut p = build::<I>(g);
        if k == "twice" {
            I::with(before, |mut i| {
                mon::start(FUEL * 100);
                let _ = p.parse_stream(&mut i);
            })
        }
        I::with(inp, |mut i| {
            mon::start(FUEL * 100);
            if k == "parse" {
                return match p.parse(i) {
                    Ok((v, mut i)) => (R::Ok(v, inp.len() - left(&mut i), true), None),
                    Err(e) => (R::Commit, Some(e.report())),
                };
            }
            let mut st = St::default();
            let i = &mut i;
            match k {
                "parse_stream" | "twice" => seen(p.parse_stream(i), inp, i),
                "parse_with_state" => seen2(p.parse_with_state(i, &mut st), inp, i),
                "parse_stream_partial" => seen(p.parse_stream_partial(i, &mut st), inp, i),
                "parse_lazy" => seen(p.parse_lazy(i), inp, i),
                "parse_first" => seen(p.parse_first(i, &mut st), inp, i),
                "parse_partial" => seen(p.parse_partial(i, &mut st), inp, i),
                "first mode" => seen(p.parse_mode(FirstMode, i, &mut st), inp, i),
                "partial mode" => {
                    let mut m = PartialMode::default();
                    m.set_first();
                    seen(p.parse_mode(m, i, &mut st), inp, i)
                }
                "committed, first" => seen(p.parse_committed_mode(FirstMode, i, &mut st), inp, i),
                "committed, partial" => seen(p.parse_committed_mode(PartialMode::default(), i, &mut st), inp, i),
                "&mut" => {
                    let mut p = &mut p;
                    seen(Parser::<I>::parse_stream(&mut p, i), inp, i)
                }
                "boxed" => seen(Parser::boxed(p).parse_stream(i), inp, i),
                "pushed through a function" => {
                    let mut q = combine::parser(|i: &mut I| p.parse_stream(i).into_result());
                    seen(q.parse_stream(i), inp, i)
                }
                "iter" => {
                    let mut it = p.iter(i);
                    let v = it.by_ref().next();
                    match it.into_result(v).into() {
                        ParseResult::CommitOk(Some(v)) => seen(ParseResult::CommitOk(v), inp, i),
                        ParseResult::PeekOk(Some(v)) => seen(ParseResult::PeekOk(v), inp, i),
                        ParseResult::PeekOk(None) => (R::Peek, None),
                        ParseResult::CommitErr(e) => (R::Commit, Some(e.report())),
                        _ => panic!("an iterator over nothing has committed"),
                    }
                }
                _ => unreachable!(),
            }
        })
    })
}

fn plain(mut s: Seen) -> Seen {
    s.0 = match s.0 {
        R::Ok(v, n, _) => R::Ok(v, n, true),
        _ => R::Commit,
    };
    s
}
fn lazy(mut s: Seen) -> Seen {
    if s.0 == R::Peek {
        s.1 = None
    }
    s
}

/// The first way in which the parser does something else, and what
fn differs<I: Source>(g: &G, inp: &[u8], before: &[u8], mask: u32, seed: u64) -> Option<String>
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Report,
{
    wrap_with(0, 0);
    let want = way::<I>("parse_stream", g, inp, before);
    let want2 = match &want {
        Ok(w) => w.clone(),
        Err(_) => return Some(format!("{:?}", want)),
    };
    let ways = || FULL.iter().chain(&LAZY).chain(&PLAIN);
    // What a factory has made before tells what is expected until it is run again
    let factory = mask >> FACTORY & 1 == 1 || g.has(&["factory"]);
    let look = |k: &str, w: &Seen| -> Option<String> {
        if k == "twice" && factory {
            let got = way::<I>(k, g, inp, before).map(|s| s.0);
            return if got.as_ref() == Ok(&w.0) { None } else { Some(format!("{}: {:?}, parse_stream: {:?}", k, got, w)) };
        }
        let w2 = if LAZY.contains(&k) { lazy(w.clone()) } else if PLAIN.contains(&k) { plain(w.clone()) } else { w.clone() };
        let got = way::<I>(k, g, inp, before).map(|s| if LAZY.contains(&k) { lazy(s) } else { s });
        if got.as_ref() != Ok(&w2) {
            return Some(format!("{}: {:?}, parse_stream: {:?}", k, got, w));
        }
        None
    };
    for k in ways() {
        if let Some(x) = look(k, &want2) {
            return Some(x);
        }
    }
    if mask == 0 {
        return None;
    }
    wrap_with(seed, mask);
    let got = way::<I>("parse_stream", g, inp, before);
    let same = match &got {
        // All but `spanned` keep the position of the error (unless the user makes it up), and some all that it says
        Ok(s) if mask & !SAME_REPORT == 0 => *s == want2,
        Ok(s) => {
            let at = |s: &Seen| s.1.as_ref().map(|s| I::Error::at(s));
            s.0 == want2.0 && (mask >> SPANNED & 1 == 1 || g.has(&["flat_map"]) || at(s) == at(&want2))
        }
        Err(_) => false,
    };
    let mut r = None;
    if !same {
        r = Some(format!("wrapped: {:?}, not wrapped: {:?}", got, want2))
    } else {
        let got = got.unwrap();
        for k in ways() {
            r = r.or_else(|| look(k, &got).map(|x| format!("wrapped, {}", x)));
        }
    }
    wrap_with(0, 0);
    r
}

fn case<I: Source>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Report,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..2 {
        let inp = input_for(&g, r, 20);
        let before = input_for(&g, r, 20);
        let m = Model::new(&inp, I::width);
        let e = m.ev(&g, 0);
        let m2 = Model::new(&before, I::width);
        m2.ev(&g, 0);
        if m.out_of_fuel.get() || m2.out_of_fuel.get() {
            t.hit("too_long");
            continue;
        }
        // one kind of wrapper, all of those which keep the error report, or all
        let mask = match r.below(4) {
            0 => 1 << r.below(WRAPPERS.len()),
            1 => SAME_REPORT,
            2 => u32::MAX & !(r.below(2) << SPANNED) as u32,
            _ => SAME_REPORT & r.next() as u32,
        };
        let seed = r.next();
        t.evals += 1;
        t.saw(&(format!("{:?}", g), &inp, name, mask, seed));
        t.hit(match e {
            R::Ok(_, _, true) => "ok_committed",
            R::Ok(_, _, false) => "ok_peeked",
            R::Peek => "failed_peeked",
            R::Commit => "failed_committed",
        });
        t.sample(|| format!("{}: {:?} on {:?}, wrappers {:x}: {:?}", name, g, lossy(&inp), mask, e));
        if let Some(_) = differs::<I>(&g, &inp, &before, mask, seed) {
            let (g, inp) = shrink(&g, &inp, &mut |g, i| {
                let m = Model::new(i, I::width);
                m.ev(g, 0);
                !m.out_of_fuel.get() && differs::<I>(g, i, &before, mask, seed).is_some()
            });
            t.violation(format!(
                "{}: {:?} on {:?} (after {:?}; wrappers {:?}): {}",
                name, g, lossy(&inp), lossy(&before), names(mask), differs::<I>(&g, &inp, &before, mask, seed).unwrap_or_default()
            ));
            return;
        }
    }
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
    for (w, n) in wrapped_count() {
        t.add(&format!("wrapper.{}", w), n)
    }
}

fn names(mask: u32) -> Vec<&'static str> {
    (0..WRAPPERS.len()).filter(|k| mask >> k & 1 == 1).map(|k| WRAPPERS[k]).collect()
}

/// In parts, with the wrappers
fn in_parts<I: Chunked>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, I::width);
    m.ev(&g, 0);
    if m.out_of_fuel.get() {
        return;
    }
    let cuts: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 3);
    let mask = if r.chance(1, 3) { 1 << r.below(WRAPPERS.len()) } else { u32::MAX };
    let seed = r.next();
    let differs = |g: &G, inp: &[u8]| {
        let mut stats = Resumes::default();
        let cuts: Vec<usize> = cuts.iter().cloned().filter(|c| *c <= inp.len()).collect();
        wrap_with(0, 0);
        let want = chunked::<I>(g, inp, &[], &mut stats);
        wrap_with(seed, mask);
        let got = chunked::<I>(g, inp, &cuts, &mut stats);
        wrap_with(0, 0);
        (got != want, want, got, stats)
    };
    let (bad, want, got, stats) = differs(&g, &inp);
    t.evals += 1;
    t.hit("in_parts");
    t.add("resumptions", stats.needed_more);
    t.saw(&(format!("{:?}", g), &inp, name, mask, seed, &cuts));
    for (w, n) in wrapped_count() {
        t.add(&format!("wrapper.{}", w), n)
    }
    if bad {
        let _ = (want, got);
        let (g, inp) = shrink(&g, &inp, &mut |g, i| {
            let m = Model::new(i, I::width);
            m.ev(g, 0);
            !m.out_of_fuel.get() && differs(g, i).0
        });
        let (_, want, got, _) = differs(&g, &inp);
        t.violation(format!(
            "{}: {:?} on {:?} cut at {:?}, wrappers {:?}: {:?}, whole and not wrapped: {:?}",
            name, g, lossy(&inp), cuts, names(mask), got, want
        ));
    }
}

/// `easy_parse` is `parse` of the same stream made easy; errors which say less do not change the parse
fn easy_parse<I>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I: Source + combine::RangeStream,
    easy::Stream<I>: Source<Token = I::Token, Range = I::Range, Position = I::Position> + combine::RangeStream,
    I::Error: combine::error::ParseErrorInto<I::Token, I::Range, I::Position> + combine::error::ParseError<I::Token, I::Range, I::Position>,
    <I::Error as combine::error::ParseError<I::Token, I::Range, I::Position>>::StreamError:
        combine::error::StreamErrorInto<I::Token, I::Range>,
    I::Token: Tk + Debug,
    I::Range: Rg + Debug,
    I::Position: Default + Debug + Ord + Clone,
    easy::Stream<I>: combine::StreamOnce<Error = easy::ParseError<I>>,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, <I as Source>::width);
    m.ev(&g, 0);
    if m.out_of_fuel.get() {
        return;
    }
    t.evals += 1;
    t.hit("easy_parse");
    t.saw(&(format!("{:?}", g), &inp, name));
    let differs = |g: &G, inp: &[u8]| {
        let a = guard(|| {
            I::with(inp, |i| match build::<easy::Stream<I>>(g).easy_parse(i) {
                Ok((v, mut i)) => (R::Ok(v, inp.len() - left(&mut i), true), None),
                Err(e) => (R::Commit, Some(e.report())),
            })
        });
        let b = guard(|| {
            <easy::Stream<I>>::with(inp, |i| match build::<easy::Stream<I>>(g).parse(i) {
                Ok((v, mut i)) => (R::Ok(v, inp.len() - left(&mut i), true), None),
                Err(e) => (R::Commit, Some(e.report())),
            })
        });
        let c = guard(|| {
            I::with(inp, |i| match build::<I>(g).parse(i) {
                Ok((v, mut i)) => R::Ok(v, inp.len() - left(&mut i), true),
                Err(_) => R::Commit,
            })
        });
        (a != b || a.as_ref().map(|a| &a.0) != c.as_ref(), a, b, c)
    };
    if differs(&g, &inp).0 {
        let (g, inp) = shrink(&g, &inp, &mut |g, i| {
            let m = Model::new(i, <I as Source>::width);
            m.ev(g, 0);
            !m.out_of_fuel.get() && differs(g, i).0
        });
        let (_, a, b, c) = differs(&g, &inp);
        t.violation(format!("{}: {:?} on {:?}: easy_parse {:?}, parse of the easy stream {:?}, parse {:?}", name, g, lossy(&inp), a, b, c));
    }
}

/// The iterator over a parser collects what `many` does
fn iterated<I: Source>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
    I::Error: Report,
{
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, true);
    let inp = input_for(&G::Many(Box::new(g.clone())), r, 20);
    let m = Model::new(&inp, I::width);
    m.ev(&G::Many(Box::new(g.clone())), 0);
    if m.out_of_fuel.get() {
        return;
    }
    t.evals += 1;
    t.hit("iterated");
    t.saw(&("iter", format!("{:?}", g), &inp, name));
    let differs = |g: &G, inp: &[u8]| {
        let a = way::<I>("parse_stream", &G::Many(Box::new(g.clone())), inp, b"");
        let run = |k: usize| {
            guard(|| {
                I::with(inp, |mut i| {
                    mon::start(FUEL * 100);
                    let mut q = combine::parser(|i: &mut I| {
                        let mut p = build::<I>(g);
                        let mut st = St::default();
                        let mut v = vec![];
                        match k {
                            0 => {
                                let mut it = p.iter(i);
                                v.extend(&mut it);
                                it.into_result(V::L(v))
                            }
                            1 => {
                                let mut it = p.by_ref().iter(i);
                                while let Some(x) = it.next() {
                                    v.push(x)
                                }
                                it.into_result(V::L(v))
                            }
                            2 => {
                                let mut it = p.partial_iter(FirstMode, i, &mut st);
                                v.extend(&mut it);
                                it.into_result(V::L(v))
                            }
                            _ => {
                                let mut it = p.partial_iter(PartialMode::default(), i, &mut st);
                                v.extend(&mut it);
                                it.into_result(V::L(v))
                            }
                        }
                    });
                    seen(q.parse_lazy(&mut i), inp, &mut i)
                })
            })
        };
        for k in 0..4 {
            let b = run(k);
            if a != b {
                return Some(format!("many {:?}, iterator {} {:?}", a, k, b));
            }
        }
        None
    };
    if differs(&g, &inp).is_some() {
        let (g, inp) = shrink(&g, &inp, &mut |g, i| {
            let m = Model::new(i, I::width);
            m.ev(&G::Many(Box::new(g.clone())), 0);
            !m.out_of_fuel.get() && differs(g, i).is_some()
        });
        t.violation(format!("{}: {:?} on {:?}: {}", name, g, lossy(&inp), differs(&g, &inp).unwrap_or_default()));
    }
}

/// Lends the stream itself to the parser inside of `input_converter`
struct Conv {
    calls: Rc<Cell<u64>>,
    errors: Rc<Cell<u64>>,
    refuse: u64,
}
impl<'c, I> Converter<'c, I> for Conv
where
    I: Stream + 'static,
{
    type InputInner = &'static mut I;
    fn convert(&mut self, input: &'c mut I) -> Result<&'static mut I, I::Error> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.refuse {
            return Err(I::Error::from_error(input.position(), StreamErrorFor::<I>::message_static_message("refused")));
        }
        // SAFETY: input_converter drops it before it uses `input` again
        Ok(unsafe { &mut *(input as *mut I) })
    }
    fn convert_error(&mut self, _: &'c mut I, e: I::Error) -> I::Error {
        self.errors.set(self.errors.get() + 1);
        e
    }
}

/// A parser for another type of streams: the outcome is the same, the stream is converted once for each attempt
fn converted<I>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I: Chunked + 'static,
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg,
    &'static mut I: Inp + StreamOnce<Token = I::Token, Range = I::Range, Position = I::Position, Error = I::Error>,
{
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, false);
    let inp = input_for(&g, r, 20);
    let whole = r.chance(1, 3);
    let cuts: Vec<usize> = if whole { vec![] } else { vcore::grammar::cuts(r, inp.len(), 3) };
    let refuse = if r.chance(1, 6) { r.range(1, 3) as u64 } else { 0 };
    let m = Model::new(&inp, I::width);
    m.ev(&g, 0);
    if m.out_of_fuel.get() {
        return;
    }
    let differs = |g: &G, inp: &[u8], t: &mut Tally| -> Option<String> {
        let (calls, errors) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let mut make = || -> P<I> {
            Box::new(input_converter(build::<&'static mut I>(g), Conv { calls: calls.clone(), errors: errors.clone(), refuse }))
        };
        let cuts: Vec<usize> = cuts.iter().cloned().filter(|c| *c <= inp.len()).collect();
        let mut stats = Resumes::default();
        let want = chunked::<I>(g, inp, &cuts, &mut stats);
        let mut stats2 = Resumes::default();
        let got = chunked_with::<I>(&mut make, inp, &cuts, &mut stats2);
        let (calls, errors) = (calls.get(), errors.get());
        t.add("conversions", calls);
        t.add("converted_errors", errors);
        if refuse > 0 && calls >= refuse {
            // it fails there and then, without committing and without running the parser
            t.hit("refused_conversions");
            if calls != refuse || got != Ok(None) || errors != refuse - 1 {
                return Some(format!("conversion {} is refused: {:?} with {} conversions and {} converted errors", refuse, got, calls, errors));
            }
            return None;
        }
        if got != want {
            return Some(format!("{:?} but without the conversion {:?}", got, want));
        }
        let failed = stats2.needed_more + (got == Ok(None)) as u64;
        if got.is_ok() && (calls != stats2.decodes || errors != failed || stats2.decodes != stats.decodes) {
            return Some(format!("{} attempts, {} without the conversion, {} of them failed: {} conversions, {} converted errors", stats2.decodes, stats.decodes, failed, calls, errors));
        }
        None
    };
    t.evals += 1;
    t.hit("converted");
    t.saw(&("converted", name, format!("{:?}", g), &inp, &cuts, refuse));
    if differs(&g, &inp, t).is_some() {
        let (g, inp) = shrink(&g, &inp, &mut |g, i| {
            let m = Model::new(i, I::width);
            m.ev(g, 0);
            !m.out_of_fuel.get() && differs(g, i, &mut Tally::default()).is_some()
        });
        t.violation(format!("{}: input_converter of {:?} on {:?} cut at {:?}: {:?}", name, g, lossy(&inp), cuts, differs(&g, &inp, &mut Tally::default())));
    }
}

fn main() {
    let ctx = Ctx::new("C18");
    let cfg = Cfg::new(true);
    ctx.par("easy", 25_000 * 3, 1_500_000, (12, 400), |r, _, t| case::<easy::Stream<PIdx<S8>>>("easy bytes", &cfg, r, t));
    ctx.par("easy-text", 15_000 * 3, 1_000_000, (9, 300), |r, _, t| case::<easy::Stream<PSrc<Str>>>("easy text", &cfg, r, t));
    ctx.par("span", 10_000 * 3, 500_000, (6, 200), |r, _, t| case::<SpanS8>("spans", &cfg, r, t));
    ctx.par("bytes", 15_000 * 3, 500_000, (6, 200), |r, _, t| case::<Mon<S8>>("bytes", &cfg, r, t));
    ctx.par("text", 10_000 * 3, 500_000, (6, 200), |r, _, t| case::<Mon<Str>>("text", &cfg, r, t));
    // The known finding of C02: searches which fail at the end of the input take back what was consumed, but not in parts
    let mut parts = cfg.clone();
    parts.inner.retain(|k| !["take_until", "skip_until", "repeat_until", "repeat_skip_until"].contains(k));
    ctx.par("parts", 40_000 * 3, 2_000_000, (8, 200), |r, _, t| in_parts::<combine::stream::MaybePartialStream<Mon<S8>>>("bytes", &parts, r, t));
    ctx.par("parts-text", 20_000 * 3, 1_000_000, (6, 200), |r, _, t| in_parts::<SpanPart>("text with spans", &parts, r, t));
    let long = cfg.clone().counted();
    ctx.par("long", 10_000, 400_000, (10, 200), |r, c, t| {
        r.big = 3;
        match c % 4 {
            0 => case::<easy::Stream<PIdx<S8>>>("easy bytes", &long, r, t),
            1 => case::<SpanS8>("spans", &long, r, t),
            2 => case::<Mon<S8>>("bytes", &long, r, t),
            _ => case::<Mon<Str>>("text", &long, r, t),
        }
    });
    let long_parts = parts.clone().counted();
    ctx.par("long-parts", 8_000, 300_000, (8, 150), |r, _, t| {
        r.big = 3;
        in_parts::<combine::stream::MaybePartialStream<Mon<S8>>>("bytes", &long_parts, r, t)
    });
    ctx.par("easy-parse", 10_000 * 3, 300_000, (4, 100), |r, _, t| easy_parse::<S8>("bytes", &cfg, r, t));
    ctx.par("easy-parse-text", 10_000 * 3, 300_000, (4, 100), |r, _, t| easy_parse::<PSrc<Str>>("text", &cfg, r, t));
    ctx.par("iter", 15_000 * 3, 500_000, (5, 100), |r, _, t| iterated::<easy::Stream<PIdx<S8>>>("easy bytes", &cfg, r, t));
    ctx.par("converted", 40_000, 1_000_000, (6, 100), |r, c, t| match c % 2 {
        0 => converted::<combine::stream::MaybePartialStream<Mon<S8>>>("bytes", &parts, r, t),
        _ => converted::<combine::stream::MaybePartialStream<Mon<Str>>>("text", &parts, r, t),
    });
    let mut min = vec![("converted", 5_000), ("refused_conversions", 500), ("evaluations", 50_000), ("ok_committed", 5_000), ("failed_committed", 5_000), ("failed_peeked", 5_000)];
    let names: Vec<String> = WRAPPERS.iter().map(|k| format!("wrapper.{}", k)).collect();
    min.extend(names.iter().map(|n| (&n[..], 300)));
    ctx.finish("random grammars through every entry point and with random wrappers around random parsers, compared with parse_stream of the bare grammar: outcome, commitment, value, input left and (for forwarding wrappers) the error report; distinct: (grammar, input, stream, wrappers)", &min)
}
