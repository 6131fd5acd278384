//! C15: regex parsers return what the regex engine matches at the current place.
use combine::error::{ParseResult, StreamError};
use combine::parser::choice::{optional, or};
use combine::parser::combinator::{attempt, look_ahead, not_followed_by};
use combine::parser::range::take;
use combine::parser::regex::{captures, captures_many, find, find_many, match_};
use combine::stream::{easy, MaybePartialStream, StreamOnce};
use combine::{Parser, RangeStream};
use regex::{bytes, Regex};
use vcore::{build::*, rng::Rng, run::*, sources::*};

// ---- regular expressions

fn re(r: &mut Rng, d: usize) -> String {
    let lit = ["a", "b", "1", "é", ",", "\\n", ".", "[a-b]", "[^a]", "\\d", "\\w", "\\s", "(?s:.)", "ab", "", "\u{1D11E}"];
    if d == 0 {
        return r.pick(&lit).to_string();
    }
    match r.below(12) {
        0 | 1 => r.pick(&lit).to_string(),
        2 | 3 => format!("{}{}", re(r, d - 1), re(r, d - 1)),
        4 => format!("(?:{}|{})", re(r, d - 1), re(r, d - 1)),
        5 => format!("({})", re(r, d - 1)),
        6 => format!("({}|({}))", re(r, d - 1), re(r, d - 1)),
        7 => format!("(?:{}){}", re(r, d - 1), r.pick(&["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}"])),
        8 => format!("({}){}", re(r, d - 1), r.pick(&["*", "+", "?"])),
        9 => format!("(?P<n{}>{})", r.below(1000), re(r, d - 1)),
        10 => format!("{}{}", r.pick(&["^", "\\b", "\\A", "(?m:^)"]), re(r, d - 1)),
        _ => format!("{}{}", re(r, d - 1), r.pick(&["$", "\\b", "\\B", "\\z", "(?m:$)"])),
    }
}

fn text(r: &mut Rng) -> String {
    let n = r.below(16);
    (0..n).map(|_| *r.pick(&["a", "b", "1", "é", ",", "\n", "ab", "1a", "\u{1D11E}", "a,"])).collect()
}

// ---- what the engine says

type W = (usize, usize);
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Match,
    Find,
    FindMany,
    /// a collection which takes only two of the matches
    FindTwo,
    Captures,
    CapturesMany,
}
const OPS: &[Op] = &[Op::Match, Op::Find, Op::FindMany, Op::FindTwo, Op::Captures, Op::CapturesMany];

/// Windows of the whole input (which starts `base` before what remains) and how much is consumed
macro_rules! engine {
    ($name: ident, $re: ty, $rng: ty) => {
        fn $name(x: &$re, all: $rng, at: usize, op: Op) -> Option<(Vec<Vec<W>>, usize)> {
            let rem = &all[at..];
            let w = |s: usize, e: usize| (at + s, at + e);
            match op {
                Op::Match => {
                    if x.is_match(rem) {
                        Some((vec![vec![w(0, rem.len())]], 0))
                    } else {
                        None
                    }
                }
                Op::Find => x.find(rem).map(|m| (vec![vec![w(m.start(), m.end())]], m.end())),
                Op::FindMany => {
                    let v: Vec<W> = x.find_iter(rem).map(|m| w(m.start(), m.end())).collect();
                    let end = v.last().map_or(0, |m| m.1 - at);
                    Some((vec![v], end))
                }
                Op::FindTwo => {
                    let v: Vec<W> = x.find_iter(rem).take(2).map(|m| w(m.start(), m.end())).collect();
                    let end = v.last().map_or(0, |m| m.1 - at);
                    Some((vec![v], end))
                }
                Op::Captures => {
                    let mut l = x.capture_locations();
                    x.captures_read(&mut l, rem)
                        .map(|m| (vec![(0..l.len()).filter_map(|i| l.get(i)).map(|(s, e)| w(s, e)).collect()], m.end()))
                }
                Op::CapturesMany => {
                    let mut end = 0;
                    let v = x
                        .captures_iter(rem)
                        .map(|c| {
                            end = c.get(0).unwrap().end();
                            (0..c.len()).filter_map(|i| c.get(i)).map(|m| w(m.start(), m.end())).collect()
                        })
                        .collect();
                    Some((v, end))
                }
            }
        }
    };
}
engine!(engine_str, Regex, &str);
engine!(engine_bytes, bytes::Regex, &[u8]);

struct Two<T>(Vec<T>);
impl<T> std::iter::FromIterator<T> for Two<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Two(i.into_iter().take(2).collect())
    }
}

// ---- the parsers

trait Win: Copy {
    type Re: Clone;
    fn start(self) -> usize;
    fn len(self) -> usize;
}
impl Win for &'static str {
    type Re = Regex;
    fn start(self) -> usize {
        self.as_ptr() as usize
    }
    fn len(self) -> usize {
        str::len(self)
    }
}
impl Win for &'static [u8] {
    type Re = bytes::Regex;
    fn start(self) -> usize {
        self.as_ptr() as usize
    }
    fn len(self) -> usize {
        <[u8]>::len(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Wrap {
    Plain,
    Optional,
    Attempt,
    Look,
    Not,
    /// followed by something that always fails, or by nothing at all
    OrNothing,
    Then(usize),
    AttemptThen(usize),
    Boxed,
    /// used a second time at the same place
    Twice,
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Ok(Vec<Vec<W>>, bool),
    None,
    Peek,
    Commit,
}

/// what happens and how much is left afterwards
fn run<I, R>(i: &mut I, all: usize, re: R, op: Op, wrap: Wrap) -> Out
where
    I: RangeStream,
    I::Range: Win + combine::stream::Range,
    R: combine::parser::regex::Regex<I::Range>,
{
    let w = |x: I::Range| (x.start() - all, x.start() - all + x.len());
    macro_rules! go {
        ($p: expr) => {{
            let mut p = $p;
            match wrap {
                Wrap::Plain => see(p.parse_stream(i)),
                Wrap::Optional => see_opt(optional(p).parse_stream(i)),
                Wrap::Attempt => see(attempt(p).parse_stream(i)),
                Wrap::Look => see(look_ahead(p).parse_stream(i)),
                Wrap::Not => match not_followed_by(p.map(|_| combine::error::Format("it"))).parse_stream(i) {
                    ParseResult::PeekOk(()) | ParseResult::CommitOk(()) => Out::None,
                    ParseResult::PeekErr(_) => Out::Peek,
                    ParseResult::CommitErr(_) => Out::Commit,
                },
                Wrap::OrNothing => see_opt(or(p.map(Some), combine::value(()).map(|_| None)).parse_stream(i)),
                Wrap::Then(n) => see((p, take(n)).map(|x| x.0).parse_stream(i)),
                Wrap::AttemptThen(n) => see(attempt((p, take(n)).map(|x| x.0)).parse_stream(i)),
                Wrap::Boxed => {
                    let mut b: Box<dyn Parser<I, Output = Vec<Vec<W>>, PartialState = ()> + '_> = Box::new(p);
                    see(b.parse_stream(i))
                }
                Wrap::Twice => {
                    let c = i.checkpoint();
                    let _ = p.parse_stream(i);
                    let _ = i.reset(c);
                    see(p.parse_stream(i))
                }
            }
        }};
    }
    match op {
        Op::Match => go!(match_(re).map(|x| vec![vec![w(x)]])),
        Op::Find => go!(find(re).map(|x| vec![vec![w(x)]])),
        Op::FindMany => go!(find_many(re).map(|x: Vec<_>| vec![x.into_iter().map(w).collect()])),
        Op::FindTwo => go!(find_many(re).map(|x: Two<_>| vec![x.0.into_iter().map(w).collect()])),
        Op::Captures => go!(captures(re).map(|x: Vec<_>| vec![x.into_iter().map(w).collect()])),
        Op::CapturesMany => {
            go!(captures_many(re).map(|x: Vec<Vec<_>>| x.into_iter().map(|x| x.into_iter().map(w).collect()).collect()))
        }
    }
}
fn see<E>(r: ParseResult<Vec<Vec<W>>, E>) -> Out {
    see_opt(r.map(Some))
}
fn see_opt<E>(r: ParseResult<Option<Vec<Vec<W>>>, E>) -> Out {
    match r {
        ParseResult::CommitOk(Some(v)) => Out::Ok(v, true),
        ParseResult::PeekOk(Some(v)) => Out::Ok(v, false),
        ParseResult::CommitOk(None) | ParseResult::PeekOk(None) => Out::None,
        ParseResult::CommitErr(_) => Out::Commit,
        ParseResult::PeekErr(_) => Out::Peek,
    }
}

/// The expectation: outcome and the place afterwards (only defined for successes and for failures that consume nothing)
fn want(m: Option<(Vec<Vec<W>>, usize)>, at: usize, len: usize, wrap: Wrap, partial: bool, boundary: impl Fn(usize) -> bool) -> (Out, Option<usize>) {
    match m {
        None => match wrap {
            Wrap::Optional | Wrap::OrNothing | Wrap::Not => (Out::None, Some(at)),
            _ => (Out::Peek, Some(at)),
        },
        Some((v, n)) => match wrap {
            Wrap::Look => (Out::Ok(v, false), Some(at)),
            Wrap::Not => (Out::Peek, Some(at)),
            Wrap::Then(k) | Wrap::AttemptThen(k) => {
                if at + n + k <= len && boundary(at + n + k) {
                    (Out::Ok(v, n + k > 0), Some(at + n + k))
                } else if partial && at + n + k > len {
                    // more input is wanted
                    (Out::Commit, None)
                } else if n > 0 && matches!(wrap, Wrap::Then(_)) {
                    (Out::Commit, None)
                } else {
                    (Out::Peek, None)
                }
            }
            _ => (Out::Ok(v, n > 0), Some(at + n)),
        },
    }
}

/// Who owns the regular expression
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Own {
    Value,
    Ref,
    RefRef,
}

macro_rules! workload {
    ($name: ident, $rng: ty, $re: ty, $engine: ident, $bytes: expr, $bound: expr) => {
        /// One parse of several steps on the stream `$make` makes of the input
        fn $name<I>(name: &str, make: fn($rng) -> I, r: &mut Rng, t: &mut Tally)
        where
            I: RangeStream<Range = $rng>,
        {
            let s = text(r);
            let all: &[u8] = s.as_bytes();
            // for bytes sometimes not even text
            let mut owned = all.to_vec();
            if $bytes && r.chance(1, 4) && !owned.is_empty() {
                let k = r.below(owned.len());
                owned[k] = r.below(256) as u8;
            }
            let res: Vec<(String, $re)> = (0..3)
                .filter_map(|_| {
                    let d = r.below(5);
                    let mut x = re(r, d);
                    if $bytes && r.chance(1, 4) {
                        x = format!("(?-u:{})", x);
                    }
                    <$re>::new(&x).ok().map(|y| (x, y))
                })
                .collect();
            if res.is_empty() {
                t.hit("no_regex");
                return;
            }
            let conv: fn(&[u8]) -> Option<$rng> = $bound;
            lend(&owned[..], |b| {
                let inp = match conv(b) {
                    Some(i) => i,
                    None => return,
                };
                let base = Win::start(inp);
                let mut i = make(inp);
                let mut at = 0;
                let mut history = vec![];
                for _ in 0..r.range(1, 5) {
                    let (src, x) = r.pick(&res);
                    let op = *r.pick(OPS);
                    let own = *r.pick(&[Own::Value, Own::Ref, Own::RefRef]);
                    let wrap = *r.pick(&[
                        Wrap::Plain, Wrap::Plain, Wrap::Optional, Wrap::Attempt, Wrap::Look, Wrap::Not, Wrap::OrNothing,
                        Wrap::Then(1), Wrap::Then(2), Wrap::AttemptThen(1), Wrap::AttemptThen(3), Wrap::Boxed, Wrap::Twice,
                    ]);
                    let m = $engine(x, inp, at, op);
                    t.evals += 1;
                    t.hit(if m.is_some() { "matches" } else { "no_match" });
                    if m.as_ref().map_or(false, |m| m.1 > 0) {
                        t.hit("consumed");
                    }
                    t.hit(&format!("op.{:?}", op));
                    let len = Win::len(inp);
                    let (e, after) = want(m, at, len, wrap, name.ends_with("partial"), |k| std::str::from_utf8(&b[..k]).is_ok() || $bytes);
                    let before = i.checkpoint();
                    let a = guard(|| match own {
                        Own::Value => run(&mut i, base, x.clone(), op, wrap),
                        Own::Ref => run(&mut i, base, x, op, wrap),
                        Own::RefRef => run(&mut i, base, &x, op, wrap),
                    });
                    history.push(format!("{:?} {:?} /{}/", wrap, op, src));
                    t.saw(&(name, src, at, &b, op, wrap));
                    let place = || format!("{}: {} on {:?} from {}", name, history.join(", then "), lossy(b), at);
                    t.sample(|| format!("{} -> {:?}", place(), a));
                    if a.as_ref() != Ok(&e) {
                        t.violation(format!("{}: the engine says {:?}, the parser {:?}", place(), e, a));
                        return;
                    }
                    // optional and or only restore the input if nothing was consumed, which is so here
                    let failed = matches!(e, Out::Peek | Out::Commit);
                    let now = len - Win::len(i.range());
                    if let Some(w) = after {
                        if !failed && now != w {
                            t.violation(format!("{}: {} consumed instead of {}", place(), now as i64 - at as i64, w as i64 - at as i64));
                            return;
                        }
                        // a failed parser may have moved the stream only if it fails after having consumed something
                        if failed && matches!(wrap, Wrap::Plain | Wrap::Boxed | Wrap::Twice | Wrap::Attempt) && now != at {
                            t.violation(format!("{}: {} consumed although there is no match", place(), now as i64 - at as i64));
                            return;
                        }
                    }
                    match after {
                        Some(w) if !failed => at = w,
                        _ => {
                            let _ = i.reset(before);
                        }
                    }
                    // move on a little, so that the remaining input starts somewhere else
                    if r.chance(1, 2) {
                        if take(1).parse_stream(&mut i).is_ok() {
                            at += 1;
                            history.push("take(1)".into());
                        }
                    }
                }
            })
        }
    };
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
workload!(in_text, &'static str, Regex, engine_str, false, |b| {
    // lend gives a slice of an unknown lifetime; the text lives as long
    std::str::from_utf8(b).ok().map(|s| unsafe { &*(s as *const str) })
});
workload!(in_bytes, &'static [u8], bytes::Regex, engine_bytes, true, |b| Some(unsafe { &*(b as *const [u8]) }));

/// The report of a failure names the expression
fn reports(r: &mut Rng, t: &mut Tally) {
    let s = text(r);
    let d = r.below(4);
    let src = re(r, d);
    let x = match Regex::new(&src) {
        Ok(x) => x,
        Err(_) => return,
    };
    lend(&s[..], |s| {
        for op in &[Op::Match, Op::Find, Op::Captures] {
            let e = match op {
                Op::Match => match_(&x).parse(easy::Stream(s)).err(),
                Op::Find => find(&x).parse(easy::Stream(s)).err(),
                _ => captures::<Vec<_>, _, _>(&x).map(|_: Vec<&str>| "").parse(easy::Stream(s)).err(),
            };
            t.evals += 1;
            if e.is_some() == x.is_match(s) {
                t.violation(format!("{:?} /{}/ on {:?}: {:?}", op, src, s, e));
                return;
            }
            if let Some(e) = e {
                t.hit("reports");
                let w = easy::Error::expected_format(format!("/{}/", src));
                let e = e.map_position(|p| p.translate_position(s));
                if e.position != 0 || !e.errors.contains(&w) {
                    t.violation(format!("{:?} /{}/ on {:?} reports {:?}", op, src, s, e));
                    return;
                }
            }
        }
    })
}

fn _unused<I: StreamOnce>() {}

fn main() {
    let ctx = Ctx::new("C15");
    macro_rules! texts {
        ($($n: expr, $t: ty, |$s: ident| $e: expr;)*) => { $(
            ctx.par($n, 20_000, 1_500_000, (3, 60), |r, _, t| {
                fn make($s: &'static str) -> $t { $e }
                in_text::<$t>($n, make, r, t)
            });
        )* };
    }
    macro_rules! slices {
        ($($n: expr, $t: ty, |$s: ident| $e: expr;)*) => { $(
            ctx.par($n, 20_000, 1_500_000, (3, 60), |r, _, t| {
                fn make($s: &'static [u8]) -> $t { $e }
                in_bytes::<$t>($n, make, r, t)
            });
        )* };
    }
    use combine::stream::{position, state};
    texts! {
        "str", Str, |s| s;
        "str-easy-position", easy::Stream<PSrc<Str>>, |s| easy::Stream(position::Stream::new(s));
        "str-partial", MaybePartialStream<EStr>, |s| MaybePartialStream(easy::Stream(s), true);
        "str-state", state::Stream<PSrc<Str>, u8>, |s| state::Stream { stream: position::Stream::new(s), state: 0 };
        "str-span", SpanStr, |s| combine::stream::span::Stream::from(s);
    }
    slices! {
        "bytes", S8, |s| s;
        "bytes-easy", ES8, |s| easy::Stream(s);
        "bytes-position", PIdx<S8>, |s| position::Stream::new(s);
        "bytes-partial", MaybePartialStream<S8>, |s| MaybePartialStream(s, true);
    }
    ctx.par("reports", 20_000, 500_000, (4, 40), |r, _, t| reports(r, t));
    ctx.finish(
        "random regular expressions (with anchors, groups, lazy repetitions) run by the five parsers at several places of random inputs inside random surrounding parsers on nine kinds of streams, against the regex engine called directly on the rest of the input; windows are compared by place; distinct: (stream, expression, input, place, parser, surrounding)",
        &[("evaluations", 200_000), ("matches", 50_000), ("no_match", 20_000), ("consumed", 30_000), ("reports", 3_000), ("op.FindTwo", 5_000), ("op.Match", 5_000), ("op.CapturesMany", 5_000)],
    )
}
