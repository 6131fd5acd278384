//! Statically typed parsers next to the grammar they were written from
use combine::error::{ParseError, ParseResult, StreamError};
use combine::stream::{StreamErrorFor, StreamOnce};
use combine::{Parser, RangeStream};
use std::fmt::Debug;
use crate::{build::*, drive::*, grammar::*, model::*, mon, rng::Rng, run::*};

pub trait St1: Inp + RangeStream
where
    Self::Token: Tk,
    Self::Position: Default,
{
}
impl<I: Inp + RangeStream> St1 for I
where
    I::Token: Tk,
    I::Position: Default,
{
}

/// The value of the harness for what a parser returns
pub trait ToV {
    fn to_v(self) -> V;
}
impl ToV for V {
    fn to_v(self) -> V {
        self
    }
}
impl ToV for u8 {
    fn to_v(self) -> V {
        V::T(self)
    }
}
impl ToV for char {
    fn to_v(self) -> V {
        V::T(self.b())
    }
}
impl ToV for () {
    fn to_v(self) -> V {
        V::U
    }
}
impl ToV for Toks {
    fn to_v(self) -> V {
        V::S(self.0)
    }
}
impl<T: ToV> ToV for Option<T> {
    fn to_v(self) -> V {
        self.map_or(V::N, |v| V::Some(Box::new(v.to_v())))
    }
}
impl<T: ToV> ToV for Vec<T> {
    fn to_v(self) -> V {
        V::L(self.into_iter().map(tov).collect())
    }
}
macro_rules! tuples {
    ($($($t: ident)*;)*) => { $(
        #[allow(non_snake_case)]
        impl<$($t: ToV),*> ToV for ($($t,)*) {
            fn to_v(self) -> V {
                let ($($t,)*) = self;
                V::L(vec![$($t.to_v()),*])
            }
        }
    )* };
}
tuples! { A; A B; A B C; A B C D; A B C D E; }

pub fn tov<T: ToV>(t: T) -> V {
    t.to_v()
}
pub fn tk<I: StreamOnce>(b: u8) -> I::Token
where
    I::Token: Tk,
{
    I::Token::f(b)
}
pub fn tks<I: StreamOnce>(b: &[u8]) -> Vec<I::Token>
where
    I::Token: Tk,
{
    b.iter().map(|b| I::Token::f(*b)).collect()
}
pub fn bytes<I: StreamOnce>(v: Vec<I::Token>) -> V
where
    I::Token: Tk,
{
    V::S(v.iter().map(|t| t.b()).collect())
}
pub fn same<I: StreamOnce>(a: I::Token, b: I::Token) -> bool
where
    I::Token: Tk,
{
    a == b
}
pub fn rg<I: StreamOnce>(r: I::Range) -> V
where
    I::Range: Rg,
{
    V::S(r.bytes())
}
pub fn flat<I: StreamOnce>(v: V, m: usize) -> Result<V, I::Error>
where
    I::Position: Default,
{
    if v.hash() % m == 0 {
        Err(<I::Error as ParseError<I::Token, I::Range, I::Position>>::empty(Default::default()))
    } else {
        Ok(v)
    }
}
pub fn and<I: StreamOnce>(v: V, m: usize) -> Result<V, StreamErrorFor<I>> {
    if v.hash() % m == 0 {
        Err(StreamErrorFor::<I>::message_static_message("and_then"))
    } else {
        Ok(v)
    }
}

/// The parser in the harness's clothes, and `parse_stream` on the bare parser
pub type Both<I> = (P<I>, Box<dyn FnMut(&mut I) -> ParseResult<V, <I as StreamOnce>::Error>>);
pub fn both<I, Q>(make: impl Fn() -> Q) -> Both<I>
where
    I: Inp,
    I::Token: Tk,
    I::Position: Default,
    Q: Parser<I> + 'static,
    Q::Output: ToV,
    Q::PartialState: 'static,
{
    let mut p = make();
    (bx(make().map(tov)), Box::new(move |i| p.parse_stream(i).map(tov)))
}

pub type Seen = (R, Option<String>);
pub fn run_one<I>((mut p, mut bare): Both<I>, inp: &[u8], k: usize) -> Result<Seen, String>
where
    I: Source,
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    guard(|| {
        I::with(inp, |mut i| {
            mon::start(FUEL * 100);
            let i = &mut i;
            let x = match k {
                0 => p.parse_stream(i),
                1 => p.parse_lazy(i),
                2 => p.parse_first(i, &mut St::default()),
                3 => bare(i),
                _ => p.parse_stream_partial(i, &mut St::default()),
            };
            let full = k == 0 || k >= 3;
            let pos = inp.len() - left(i);
            match x {
                ParseResult::CommitOk(v) => (R::Ok(v, pos, true), None),
                ParseResult::PeekOk(v) => (R::Ok(v, pos, false), None),
                ParseResult::CommitErr(e) => (R::Commit, Some(format!("{:?}", e))),
                ParseResult::PeekErr(e) => (R::Peek, if full { Some(format!("{:?}", e.error)) } else { None }),
            }
        })
    })
}

/// Whether error reports are to be the same in all, or may list what they say in another order
pub fn whole<I>(name: &str, strict: bool, all: &[fn() -> (G, Both<I>)], r: &mut Rng, t: &mut Tally)
where
    I: Source,
    I::Token: Tk,
    I::Position: Default,
    I::Error: Debug,
{
    let n = r.below(all.len());
    let f = all[n];
    let (g, _) = f();
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, I::width);
    let e = m.ev(&g, 0);
    if m.out_of_fuel.get() {
        t.hit("too_long");
        return;
    }
    t.evals += 1;
    t.saw(&(n, &inp, name));
    t.hit(match e {
        R::Ok(_, _, true) => "ok_committed",
        R::Ok(_, _, false) => "ok_peeked",
        R::Peek => "failed_peeked",
        R::Commit => "failed_committed",
    });
    t.hit(&format!("grammar.{}.{}", name, n));
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
    t.sample(|| format!("{}: {:?} on {:?}: {:?}", name, g, lossy(&inp), e));
    for k in 0..5 {
        let a = run_one::<I>(f().1, &inp, k);
        // `attempt` says less when it knows its type: only the position is the same then
        // and `factory` does not know beforehand what its parser expects
        let short = |x: Result<Seen, String>| {
            x.map(|(r, e)| {
                let less = g.has(&["attempt"]) || !strict && g.has(&["factory"]);
                (r, e.map(|e| match () {
                    _ if less => e.split(',').next().unwrap().into(),
                    _ if strict => e,
                    _ => {
                        let e = e.trim_end_matches("] }").replacen("errors: [", "errors: [, ", 1);
                        let mut v: Vec<&str> = e.split(", ").collect();
                        v.sort();
                        v.join(", ")
                    }
                }))
            })
        };
        let a = short(a);
        let b = short(run_one::<I>(both(|| build::<I>(&g)), &inp, k));
        if a != b {
            t.violation(format!(
                "{}: grammar {} {:?} on {:?}, {}: {:?}, type-erased: {:?}",
                name, n, g, lossy(&inp), ["parse_stream", "parse_lazy", "parse_first", "parse_stream, bare", "parse_stream_partial"][k], a, b
            ));
            return;
        }
        // and both do what the model says
        if a.as_ref().map(|a| &a.0) != Ok(&e) {
            t.violation(format!("{}: grammar {} {:?} on {:?}: {:?}, expected: {:?}", name, n, g, lossy(&inp), a, e));
            return;
        }
    }
}

/// In parts
pub fn parts<I>(name: &str, all: &[fn() -> (G, Both<I>)], r: &mut Rng, t: &mut Tally)
where
    I: Chunked,
    I::Token: Tk,
    I::Position: Default,
{
    let n = r.below(all.len());
    let f = all[n];
    let (g, _) = f();
    // The known finding of C02
    if g.has(&["take_until", "skip_until", "repeat_until", "repeat_skip_until"]) {
        return;
    }
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, I::width);
    m.ev(&g, 0);
    if m.out_of_fuel.get() {
        t.hit("too_long");
        return;
    }
    let cuts: Vec<usize> = (0..=inp.len()).filter(|_| r.chance(1, 2)).collect();
    t.evals += 1;
    t.saw(&(n, &inp, name, &cuts));
    t.hit("in_parts");
    let mut stats = Resumes::default();
    let want = chunked::<I>(&g, &inp, &[], &mut Resumes::default());
    let got = chunked_with::<I>(&mut || f().1 .0, &inp, &cuts, &mut stats);
    t.add("resumptions", stats.needed_more);
    if got != want {
        t.violation(format!("{}: grammar {} {:?} on {:?} cut at {:?}: {:?}, whole and type-erased: {:?}", name, n, g, lossy(&inp), cuts, got, want));
    }
}

