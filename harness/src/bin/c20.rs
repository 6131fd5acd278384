//! C20: grammars written with macros do what the same grammars written with combinators do.
#[allow(unused_imports)]
use combine::error::{ParseError, ParseResult, StreamError};
#[allow(unused_imports)]
use combine::choice;
#[allow(unused_imports)]
use combine::parser::combinator::{any_partial_state, attempt, factory, lazy, look_ahead, no_partial, not_followed_by, recognize};
#[allow(unused_imports)]
use combine::parser::error::unexpected_any;
#[allow(unused_imports)]
use combine::parser::range::{
    length_prefix, range, recognize as range_recognize, recognize_with_value, take, take_fn, take_until_range, take_while, take_while1,
};
#[allow(unused_imports)]
use combine::parser::repeat::*;
#[allow(unused_imports)]
use combine::parser::sequence::between;
#[allow(unused_imports)]
use combine::parser::token::*;
#[allow(unused_imports)]
use combine::stream::{easy, MaybePartialStream, StreamErrorFor, StreamOnce};
#[allow(unused_imports)]
use combine::parser::combinator::{any_send_sync_partial_state, AnyPartialState, AnySendSyncPartialState};
#[allow(unused_imports)]
use combine::parser::{sequence::Skip, token::Value};
#[allow(unused_imports)]
use combine::{dispatch, opaque, optional, parser, struct_parser, EasyParser, Parser, RangeStream};
use vcore::{build::*, drive::*, grammar::*, model::*, mon::Mon, rng::Rng, run::*, sources::*, statics::*};

macro_rules! structs {
    ($($t: ident $f: ident $($p: ident $i: ident)*;)*) => { $(
        #[allow(unused)]
        pub struct $t<$($p),*>($($p),*);
        #[allow(unused)]
        pub struct $f<$($p),*> { $($i: $p),* }
        impl<$($p: ToV),*> ToV for $t<$($p),*> {
            fn to_v(self) -> V {
                let $t($($i),*) = self;
                V::L(vec![$($i.to_v()),*])
            }
        }
        impl<$($p: ToV),*> ToV for $f<$($p),*> {
            fn to_v(self) -> V {
                V::L(vec![$(self.$i.to_v()),*])
            }
        }
    )* };
}
structs! { T1 F1 A f0; T2 F2 A f0 B f1; T3 F3 A f0 B f1 C f2; T4 F4 A f0 B f1 C f2 D f3; T5 F5 A f0 B f1 C f2 D f3 E f4; }
fn one<T: ToV>(t: T) -> V {
    match t.to_v() {
        V::L(mut v) if v.len() == 1 => v.pop().unwrap(),
        v => panic!("{:?}", v),
    }
}

mod grammars {
    #![allow(unused)]
    use super::*;
    include!("../macro_gen.rs");
}

// Definitions which use themselves and each other
parser! {
    type PartialState = AnyPartialState;
    fn list[I]()(I) -> V where [I: St1, I::Token: Tk + ToV, I::Range: Rg, I::Position: Default] {
        any_partial_state(choice!(
            token(tk::<I>(b'a')).map(tov),
            between(token(tk::<I>(b'b')), token(tk::<I>(b'c')), sep_by::<Vec<V>, _, _, _>(list(), token(tk::<I>(b',')))).map(tov)
        ))
    }
}
parser! {
    fn list_stateless[I]()(I) -> V where [I: St1, I::Token: Tk + ToV, I::Range: Rg, I::Position: Default] {
        choice!(
            token(tk::<I>(b'a')).map(tov),
            between(token(tk::<I>(b'b')), token(tk::<I>(b'c')), sep_by::<Vec<V>, _, _, _>(list_stateless(), token(tk::<I>(b',')))).map(tov)
        )
    }
}
parser! {
    struct ListSend;
    type PartialState = AnySendSyncPartialState;
    /// Every level adds to the number it was given
    fn list_send[I](depth: usize)(I) -> V where [I: St1, I::Token: Tk + ToV + Send + Sync, I::Range: Rg, I::Position: Default] {
        let depth = *depth;
        any_send_sync_partial_state(token(tk::<I>(b'a')).map(tov).or(struct_parser!(F1 {
            _: token(tk::<I>(b'b')),
            f0: sep_by::<Vec<V>, _, _, _>(list_send(depth + 1), token(tk::<I>(b','))),
            _: token(tk::<I>(b'c')),
        }).map(one)))
    }
}
fn list_opaque<I>() -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    fn rec<I>() -> impl Parser<I, Output = V, PartialState = AnyPartialState>
    where
        I: St1,
        I::Token: Tk + ToV,
        I::Range: Rg,
        I::Position: Default,
    {
        opaque!(any_partial_state(
            (token(tk::<I>(b'b')), sep_by::<Vec<V>, _, _, _>(rec(), token(tk::<I>(b','))), token(tk::<I>(b'c'))).map(|t| tov(t.1)).or(token(tk::<I>(b'a')).map(tov))
        ))
    }
    bx(rec())
}
fn list_g(depth: usize, turned: bool) -> G {
    let a = G::Tok(b'a');
    if depth == 0 {
        return a;
    }
    let b = |x| Box::new(G::Tok(x));
    let l = G::Between(b(b'b'), b(b'c'), Box::new(G::SepBy(Box::new(list_g(depth - 1, turned)), b(b','))));
    G::Alt(AltKind::Or, if turned { vec![l, a] } else { vec![a, l] })
}

parser! {
    type PartialState = AnyPartialState;
    fn expr[I]()(I) -> V where [I: St1, I::Token: Tk + ToV, I::Range: Rg, I::Position: Default] {
        any_partial_state(chainl1(term(), token(tk::<I>(b',')).map(tov).map(op_fn)))
    }
}
parser! {
    type PartialState = AnyPartialState;
    fn term[I]()(I) -> V where [I: St1, I::Token: Tk + ToV, I::Range: Rg, I::Position: Default] {
        any_partial_state(any().map(tov).then(|c| {
            dispatch!(c;
                V::T(b'b') => expr().skip(token(tk::<I>(b'c'))),
                V::T(b'1') => expr().and(expr()).map(tov),
                c => produce(move || c.clone())
            )
        }))
    }
}
/// The same with combinators, without recursion
fn expr_box<I>(depth: usize) -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    if depth == 0 {
        return bx(unexpected_any("deep"));
    }
    let term = any().map(tov).then(move |c| match c {
        V::T(b'b') => bx(expr_box::<I>(depth - 1).skip(token(tk::<I>(b'c')))),
        V::T(b'1') => bx(expr_box::<I>(depth - 1).and(expr_box(depth - 1)).map(tov)),
        c => bx(value(c)),
    });
    bx(chainl1(bx(term), token(tk::<I>(b',')).map(tov).map(op_fn)))
}

// As many fields and alternatives as there may be
structs! {
    Wide WideF A a B b C c D d E e F f G g H h K k L l M m;
    Wider WiderF A a B b C c D d E e F f G g H h K k L l M m N n Q q R r S s;
}
fn wide<I>(fields: bool) -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    let t = |b| optional(token(tk::<I>(b)));
    if fields {
        bx(struct_parser!(WiderF {
            a: t(b'a'), b: t(b'b'), _: t(b'c'), c: t(b','), d: any(), e: t(b'a'), f: t(b'b'), _: t(b'c'), g: t(b','), h: t(b'1'), k: t(b'a'), l: any(),
            _: t(b'c'), m: t(b','), n: t(b'1'), q: t(b'a'), _: t(b'b'), r: t(b'c'), s: t(b','), _: t(b'b')
        }).map(tov))
    } else {
        bx(struct_parser!(Wide(
            t(b'a'), t(b'b'), _: t(b'c'), t(b','), any(), t(b'a'), _: t(b'b'), t(b'c'), t(b','), t(b'1'), t(b'a'), any(), t(b'c'), _: t(b'b')
        )).map(tov))
    }
}
fn wide_twin<I>(fields: bool) -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    let t = |b: &u8| if *b == b'?' { G::Any } else { G::Opt(Box::new(G::Tok(*b))) };
    let (s, ignored): (&[u8], &[usize]) = if fields { (b"abc,?abc,1a?c,1abc,b", &[2, 7, 12, 16, 19]) } else { (b"abc,?abc,1a?cb", &[2, 6, 13]) };
    let ps: Vec<G> = s.iter().map(t).collect();
    // Three sequences of the supported size
    let parts: Vec<G> = ps.chunks(4).map(|c| G::Seq(c.to_vec())).collect();
    bx(build::<I>(&G::Seq(parts)).map(move |v| {
        let V::L(v) = v else { panic!() };
        let all = v.into_iter().flat_map(|v| match v {
            V::L(v) => v,
            v => vec![v],
        });
        V::L(all.enumerate().filter(|(i, _)| !ignored.contains(i)).map(|(_, v)| v).collect())
    }))
}
const MANY: &[u8] = b"abc,1\nxyzABCDEFGHIJKLMNOP";
fn wide_dispatch<I>() -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    bx(many::<Vec<_>, _, _>(any().then(|c: I::Token| {
        let t = |b| token(tk::<I>(b)).map(tov);
        let k = MANY.iter().position(|b| *b == c.b()).unwrap_or(30);
        dispatch!(k;
            0 => t(b'a').map(|v| V::L(vec![v])), 1 => t(b'b'), 2 => any().map(tov), 3 => t(b',').or(t(b'a')), 4 => t(b'a'), 5 => t(b'a'), 6 => t(b'a'), 7 => t(b'a'), 8 => t(b'a'), 9 => t(b'a'),
            10 => t(b'a'), 11 => t(b'a'), 12 => t(b'a'), 13 => t(b'a'), 14 => t(b'a'), 15 => t(b'a'), 16 => t(b'a'), 17 => t(b'a'), 18 => t(b'a'),
            _ => optional(t(b'a')).map(tov)
        )
    }))
    .map(tov))
}
fn wide_dispatch_twin<I>() -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    bx(many::<Vec<_>, _, _>(any().then(|c: I::Token| {
        let t = |b| token(tk::<I>(b)).map(tov);
        match c.b() {
            b'a' => bx(t(b'a').map(|v| V::L(vec![v]))),
            b'b' => bx(t(b'b')),
            b'c' => bx(any().map(tov)),
            b',' => bx(t(b',').or(t(b'a'))),
            b if MANY[..19].contains(&b) => bx(t(b'a')),
            _ => bx(optional(t(b'a')).map(tov)),
        }
    }))
    .map(tov))
}
fn wide_choice<I>() -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    let s = |s: &'static [u8]| attempt(tokens(same::<I>, "string", tks::<I>(s)).map(bytes::<I>));
    bx(many::<Vec<_>, _, _>(choice!(
        s(b"aab"), s(b"ba"), s(b"bb"), s(b"ca"), s(b"cbb"), s(b"a,"), s(b"ab1"), s(b","), s(b"1"), s(b"aac"), s(b"ac"), s(b"bc"), s(b"cc"), s(b"aa"), s(b"a1"),
        s(b"b1"), s(b"b,"), s(b"c1"), s(b"c,"), s(b"cba"), s(b"ab,"), s(b"ab"), s(b"cb"), s(b"a"), s(b"b"), s(b"c")
    ))
    .map(tov))
}
fn wide_choice_twin() -> G {
    let all = "aab ba bb ca cbb a, ab1 , 1 aac ac bc cc aa a1 b1 b, c1 c, cba ab, ab cb a b c";
    let ps: Vec<G> = all.split(' ').map(|s| G::Attempt(Box::new(G::Str(s.as_bytes().to_vec())))).collect();
    G::Many(Box::new(G::Alt(AltKind::Slice, ps)))
}

/// The twins which are not a grammar of the harness
type Pair<I> = (&'static str, fn() -> Both<I>, fn() -> Both<I>);
fn pairs<I>() -> Vec<Pair<I>>
where
    I: St1,
    I::Token: Tk + ToV + Send + Sync,
    I::Range: Rg,
    I::Position: Default,
{
    vec![
        ("list", || both(|| list()), || both(|| build::<I>(&list_g(24, false)))),
        ("list_stateless", || both(|| list_stateless()), || both(|| build::<I>(&list_g(24, false)))),
        ("list_send", || both(|| list_send(0)), || both(|| build::<I>(&list_g(24, false)))),
        ("list_opaque", || both(|| list_opaque()), || both(|| build::<I>(&list_g(24, true)))),
        ("wide_struct", || both(|| wide(false)), || both(|| wide_twin(false))),
        ("wide_fields", || both(|| wide(true)), || both(|| wide_twin(true))),
        ("wide_dispatch", || both(|| wide_dispatch()), || both(|| wide_dispatch_twin())),
        ("wide_choice", || both(|| wide_choice()), || both(|| build::<I>(&wide_choice_twin()))),
        ("expr", || both(|| expr()), || both(|| expr_box(24))),
        ("term", || both(|| (term(), term(), eof())), || both(|| (expr_box_term(), expr_box_term(), eof()))),
    ]
}
fn expr_box_term<I>() -> P<I>
where
    I: St1,
    I::Token: Tk + ToV,
    I::Range: Rg,
    I::Position: Default,
{
    bx(any().map(tov).then(move |c| match c {
        V::T(b'b') => bx(expr_box::<I>(24).skip(token(tk::<I>(b'c')))),
        V::T(b'1') => bx(expr_box::<I>(24).and(expr_box(24)).map(tov)),
        c => bx(value(c)),
    }))
}

/// Something which is likely to be nested
fn nested(r: &mut Rng) -> Vec<u8> {
    fn go(r: &mut Rng, depth: usize, out: &mut Vec<u8>) {
        match r.below(if depth > 4 || out.len() > 15 { 2 } else { 5 }) {
            0 | 1 => out.push(b'a'),
            2 => {
                out.push(b'1');
                go(r, depth + 1, out);
                go(r, depth + 1, out);
            }
            _ => {
                out.push(b'b');
                for i in 0..r.below(4) {
                    if i > 0 {
                        out.push(b',')
                    }
                    go(r, depth + 1, out);
                }
                out.push(b'c')
            }
        }
    }
    let mut v = vec![];
    go(r, 0, &mut v);
    if r.chance(1, 2) {
        go(r, 0, &mut v);
    }
    v.truncate(24);
    if r.chance(1, 3) && !v.is_empty() {
        let k = r.below(v.len());
        v[k] = ALPHA[r.below(ALPHA.len())];
    }
    if r.chance(1, 4) {
        let k = r.below(v.len() + 1);
        v.truncate(k);
    }
    v
}

fn recursive<I>(name: &str, all: &[Pair<I>], r: &mut Rng, t: &mut Tally)
where
    I: Source,
    I::Token: Tk,
    I::Position: Default,
    I::Error: std::fmt::Debug,
{
    let (what, a, b) = *r.pick(all);
    let inp = nested(r);
    t.evals += 1;
    t.saw(&(what, &inp, name));
    t.hit(&format!("recursive.{}", what));
    for k in 0..5 {
        let short = |x: Result<Seen, String>| x.map(|(r, e)| (r, e.map(|e| e.split(',').next().unwrap().to_string())));
        let x = short(run_one::<I>(a(), &inp, k));
        let y = short(run_one::<I>(b(), &inp, k));
        if let Ok((R::Ok(..), _)) = y {
            t.hit("recursive_ok")
        }
        if x != y {
            t.violation(format!("{}: {} on {:?} in mode {}: {:?}, with combinators: {:?}", name, what, lossy(&inp), k, x, y));
            return;
        }
    }
}
fn recursive_parts<I>(name: &str, all: &[Pair<I>], r: &mut Rng, t: &mut Tally)
where
    I: Chunked,
    I::Token: Tk,
    I::Position: Default,
{
    let (what, a, b) = *r.pick(all);
    let inp = nested(r);
    let cuts: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 2);
    t.evals += 1;
    t.saw(&(what, &inp, name, &cuts));
    let mut stats = Resumes::default();
    let want = chunked_with::<I>(&mut || b().0, &inp, &[], &mut Resumes::default());
    let got = chunked_with::<I>(&mut || a().0, &inp, &cuts, &mut stats);
    t.add("resumptions", stats.needed_more);
    t.add("recursive_resumptions", stats.needed_more);
    if got != want {
        t.violation(format!("{}: {} on {:?} cut at {:?}: {:?}, whole and with combinators: {:?}", name, what, lossy(&inp), cuts, got, want));
    }
}

fn main() {
    let ctx = Ctx::new("C20");
    let a = grammars::all::<easy::Stream<PIdx<S8>>>();
    ctx.par("macros", 200_000, 3_000_000, (15, 300), |r, _, t| whole("easy bytes", false, &a, r, t));
    let b = grammars::all::<MaybePartialStream<Mon<Str>>>();
    ctx.par("macros-parts", 200_000, 3_000_000, (15, 300), |r, _, t| parts("text", &b, r, t));
    let a = pairs::<easy::Stream<PIdx<S8>>>();
    ctx.par("recursive", 200_000, 3_000_000, (15, 300), |r, _, t| recursive("easy bytes", &a, r, t));
    let b = pairs::<MaybePartialStream<Mon<Str>>>();
    ctx.par("recursive-parts", 200_000, 3_000_000, (15, 300), |r, _, t| recursive_parts("text", &b, r, t));
    ctx.finish("grammars written with parser!, choice!, dispatch!, struct_parser! and opaque! next to the same grammars written with combinators and the model, whole and in parts; distinct: (grammar, input, cuts)", &[
        ("evaluations", 50_000),
        ("ok_committed", 3_000),
        ("failed_committed", 3_000),
        ("resumptions", 10_000),
        ("recursive_ok", 3_000),
        ("recursive_resumptions", 10_000),
    ])
}
