//! Writes grammars as Rust code without any type erasure inside: cargo run --example gen_static N SEED > src/static_gen.rs
//! With a third argument they are written with macros wherever possible:
//! cargo run --example gen_static N SEED macros > src/macro_gen.rs
use std::cell::RefCell;
use vcore::{grammar::*, rng::Rng};

thread_local! {
    /// Random choices, if macros are to be used, and what has been defined with `parser!`
    static MACROS: RefCell<Option<(Rng, Vec<String>, usize)>> = RefCell::new(None);
    /// Whether `parser!` and `opaque!` may be used
    static LIFT: std::cell::Cell<bool> = std::cell::Cell::new(true);
    /// What has been moved into `parser!` or `opaque!`. These do not say how many parsers there are in a sequence in them, and
    /// neither does `lazy`, so that is what they are compared with
    static LIFTED: RefCell<Vec<(*const G, usize)>> = RefCell::new(vec![]);
}
/// 0 if macros are not used
fn pick(n: usize) -> usize {
    MACROS.with(|m| m.borrow_mut().as_mut().map_or(0, |m| m.0.below(n)))
}
fn macros() -> bool {
    MACROS.with(|m| m.borrow().is_some())
}
fn no_macros<T>(f: impl FnOnce() -> T) -> T {
    let old = MACROS.with(|m| m.borrow_mut().take());
    let x = f();
    MACROS.with(|m| *m.borrow_mut() = old);
    x
}
fn define(f: impl FnOnce(usize) -> String) -> usize {
    MACROS.with(|m| {
        let mut m = m.borrow_mut();
        let m = m.as_mut().unwrap();
        m.2 += 1;
        m.1.push(f(m.2));
        m.2
    })
}
const BOUNDS: &str = "I: St1, I::Token: Tk + ToV, I::Range: Rg, I::Position: Default";

/// The parser `e`, of any type, moved into a definition with `parser!`; `leaf` are alternatives for what it is made from
fn lift(g: &G, e: String) -> String {
    // The sequence around what repeats a parser has it say what could have followed
    let k = match pick(if matches!(g, G::Many(_) | G::Many1(_) | G::SkipMany(_) | G::SkipMany1(_) | G::Seq(_)) { 13 } else { 16 }) {
        k if k < 11 && !LIFT.with(|l| l.get()) => 0,
        k => k,
    };
    if k > 0 && k < 11 {
        LIFTED.with(|l| l.borrow_mut().push((g, k)))
    }
    let b = BOUNDS;
    match k {
        11 => format!("dispatch!({}u8; 1 => any().map(tov), _ => {}.map(tov))", pick(2) * 3, e),
        12 => format!("dispatch!(true; true => {}.map(tov), false => value(1u8).map(tov),)", e),
        // without a state: it starts over when it is resumed
        1 => format!("m{}::<I>()", define(|n| format!("parser! {{ fn m{}[I]()(I) -> V where [{}] {{ {}.map(tov) }} }}", n, b, e))),
        // with all kinds of state
        2 => format!("m{}::<I>()", define(|n| format!("parser! {{ type PartialState = AnyPartialState; fn m{}[I]()(I) -> V where [{}] {{ any_partial_state({}.map(tov)) }} }}", n, b, e))),
        3 => format!("m{}()", define(|n| format!("parser! {{ type PartialState = St; pub(crate) fn m{}[I]()(I) -> V where [{}] {{ bx::<I, _>({}.map(tov)) }} }}", n, b, e))),
        4 => format!("m{}::<I>()", define(|n| format!("parser! {{ #[derive(Clone)] pub struct M{}; type PartialState = St; /// documented\n fn m{}[I]()(I) -> V where [{}] {{ let p = {}; bx::<I, _>(p.map(tov)) }} }}", n, n, b, e))),
        5 => format!("m{}::<I>()", define(|n| format!("parser! {{ pub struct M{}; /// documented\n pub(crate) fn m{}[I]()(I) -> V where [{}] {{ {}.map(tov) }} }}", n, n, b, e))),
        // with parameters
        6 => format!("m{}::<I, _>({})", define(|n| format!("parser! {{ type PartialState = Q::PartialState; fn m{}[I, Q](p: Q)(I) -> Q::Output where [{}, Q: Parser<I>] {{ p }} }}", n, b)), e),
        7 => format!("m{}::<I, _>({})", define(|n| format!("parser! {{ fn m{}[I, Q](p: Q)(I) -> V where [{}, Q: Parser<I>, Q::Output: ToV] {{ p.map(tov) }} }}", n, b)), e),
        8 => format!("m{}::<I, _, _>(|| {})", define(|n| format!("parser! {{ type PartialState = Q::PartialState; fn m{}[I, F, Q](f: F)(I) -> Q::Output where [{}, F: FnMut() -> Q, Q: Parser<I>] {{ f() }} }}", n, b)), e),
        9 => format!("m{}(1, {}, 'x')", define(|n| format!("parser! {{ struct M{}; type PartialState = <Skip<Q, Value<I, ()>> as Parser<I>>::PartialState; fn m{}[I, Q](n: usize, p: Q, c: char)(I) -> Q::Output where [{}, Q: Parser<I>] {{ assert_eq!((*n, *c), (1, 'x')); p.skip(value(())) }} }}", n, n, b)), e),
        10 => format!("opaque!(any_partial_state({}.map(tov)),)", e),
        _ => e,
    }
}

/// Several fields, of which some are ignored, in a structure with `n` others
fn fields(v: &[(&G, bool)]) -> String {
    let n = v.iter().filter(|v| v.1).count();
    let tail = if pick(2) == 0 { "" } else { "," };
    let mut i = 0;
    let f: Vec<String> = if pick(2) == 0 {
        let f: Vec<String> = v.iter().map(|(g, keep)| if *keep { expr(g) } else { format!("_: {}", expr(g)) }).collect();
        return format!("struct_parser!(T{}({}{}))", n, f.join(", "), tail);
    } else {
        v.iter()
            .map(|(g, keep)| {
                if *keep {
                    i += 1;
                    format!("f{}: {}", i - 1, expr(g))
                } else {
                    format!("_: {}", expr(g))
                }
            })
            .collect()
    };
    format!("struct_parser!(F{} {{ {}{} }})", n, f.join(", "), tail)
}

/// Parsers of the same shape have the same type
fn plain(g: &G) -> bool {
    let mut ok = true;
    g.walk(&mut |g| {
        ok &= matches!(
            g,
            G::Any | G::Tok(_) | G::OneOf(_) | G::NoneOf(_) | G::Val(_) | G::Eof | G::Str(_) | G::Seq(_) | G::With(..) | G::Skip(..)
                | G::Between(..) | G::Opt(_) | G::Attempt(_) | G::Look(_) | G::Many(_) | G::Many1(_) | G::SkipMany(_)
                | G::SkipMany1(_) | G::Count(..) | G::SkipCount(..) | G::CountMM(..) | G::SkipCountMM(..) | G::SepBy(..) | G::SepBy1(..)
                | G::SepEndBy(..) | G::SepEndBy1(..) | G::TakeUntil(_) | G::SkipUntil(_) | G::RepUntil(..) | G::RepSkipUntil(..)
                | G::Recog(_) | G::Msg(_) | G::Exp(_) | G::Silent(_) | G::RRange(_) | G::RTake(_) | G::RUntilRange(_)
        )
    });
    ok
}

fn vary(g: &mut G, r: &mut Rng) {
    let t = |r: &mut Rng| ALPHA[r.below(4)];
    match g {
        G::Tok(b) | G::Val(b) => *b = t(r),
        G::OneOf(v) | G::NoneOf(v) | G::Str(v) | G::RRange(v) | G::RUntilRange(v) => v.iter_mut().for_each(|b| *b = t(r)),
        G::RTake(n) | G::Count(n, _) | G::SkipCount(n, _) => *n = 1 + r.below(3),
        _ => {}
    }
    for c in g.children_mut() {
        vary(c, r)
    }
}

fn fix(g: &mut G, r: &mut Rng) {
    for c in g.children_mut() {
        fix(c, r)
    }
    if let G::Alt(AltKind::Array, v) | G::Alt(AltKind::Slice, v) = g {
        if plain(&v[0]) {
            for k in 1..v.len() {
                let mut x = v[0].clone();
                vary(&mut x, r);
                v[k] = x;
            }
        }
    }
}

/// The grammar itself
fn lit(g: &G) -> String {
    match LIFTED.with(|l| l.borrow().iter().find(|x| x.0 == g as *const G).map(|x| x.1)) {
        None => lit1(g),
        Some(9) => format!("G::Lazy(Box::new(G::Skip(Box::new({}), Box::new(G::Val(0)))))", lit1(g)),
        Some(_) => format!("G::Lazy(Box::new({}))", lit1(g)),
    }
}

fn lit1(g: &G) -> String {
    let bx = |g: &G| format!("Box::new({})", lit(g));
    let list = |v: &[G]| format!("vec![{}]", v.iter().map(lit).collect::<Vec<_>>().join(", "));
    let c = g.children();
    let name = format!("{:?}", g);
    let name = &name[..name.find('(').unwrap_or(name.len())];
    match g {
        G::OneOf(v) | G::NoneOf(v) | G::Str(v) | G::StrCmp(v) | G::RRange(v) | G::RUntilRange(v) => format!("G::{}(vec!{:?})", name, v),
        G::Seq(v) => format!("G::Seq({})", list(v)),
        G::Alt(k, v) => format!("G::Alt(AltKind::{:?}, {})", k, list(v)),
        G::Iterate(n, v) => format!("G::Iterate({}, {})", n, list(v)),
        G::Then(a, v) | G::ThenPartial(a, v) | G::ThenRef(a, v) => format!("G::{}({}, {})", name, bx(a), list(v)),
        G::Count(n, a) | G::SkipCount(n, a) => format!("G::{}({}, {})", name, n, bx(a)),
        G::CountMM(n, m, a) | G::SkipCountMM(n, m, a) => format!("G::{}({}, {}, {})", name, n, m, bx(a)),
        G::Escaped(a, t, b) => format!("G::Escaped({}, {}, {})", bx(a), t, bx(b)),
        G::FlatMap(a, n) | G::AndThen(a, n) => format!("G::{}({}, {})", name, bx(a), n),
        G::Either(l, a) => format!("G::Either({}, {})", l, bx(a)),
        _ if c.is_empty() => format!("G::{:?}", g),
        _ => format!("G::{}({})", name, c.iter().map(|g| bx(g)).collect::<Vec<_>>().join(", ")),
    }
}

/// The parser, whose output is whatever is natural
fn expr(g: &G) -> String {
    let e = expr1(g);
    if macros() {
        if let G::StrCmp(_) = g {
            return e;
        }
        lift(g, e)
    } else {
        e
    }
}

fn expr1(g: &G) -> String {
    let e = expr;
    let v = |g: &G| format!("{}.map(tov)", expr(g));
    let es = |v: &[G]| v.iter().map(|g| format!("{},", expr(g))).collect::<Vec<_>>().join(" ");
    let vs = |x: &[G]| x.iter().map(|g| format!("{},", v(g))).collect::<Vec<_>>().join(" ");
    // One parser of a static type, or whichever of several
    let one = |x: &[G], k: &str| {
        if x.len() == 1 && pick(2) == 0 {
            v(&x[0])
        } else if macros() && k != "*i" {
            let n = x.len();
            let mut arms = vec![];
            for (i, g) in x.iter().enumerate() {
                let pat = match pick(4) {
                    _ if i + 1 == n => "_".to_string(),
                    0 => format!("{}", i),
                    1 => format!("{} | {}", i, i + n),
                    2 => format!("k if k == {}", i),
                    _ => format!("{} if true", i),
                };
                arms.push(format!("{} => {}", pat, v(g)));
            }
            format!("dispatch!({} % {}; {}{})", k, n, arms.join(", "), if pick(2) == 0 { "" } else { "," })
        } else {
            format!("build::<I>(&{}[{} % {}])", format!("[{}]", x.iter().map(lit).collect::<Vec<_>>().join(", ")), k, x.len())
        }
    };
    match g {
        G::Any => "any()".into(),
        G::Tok(b) => format!("token(tk::<I>({}))", b),
        G::Sat(k) => format!("satisfy(|x: I::Token| in_class({}, x.b()))", k),
        G::SatMap(k) => format!("satisfy_map(|x: I::Token| if in_class({}, x.b()) {{ Some(V::T(x.b())) }} else {{ None }})", k),
        G::OneOf(v) => format!("one_of(tks::<I>(&{:?}))", v),
        G::NoneOf(v) => format!("none_of(tks::<I>(&{:?}))", v),
        G::Val(b) => format!("value({}u8)", b),
        G::Produce(b) => format!("produce(|| {}u8)", b),
        G::Eof => "eof()".into(),
        G::Fail => "unexpected_any(\"fail\").map(|v: V| v)".into(),
        G::Str(s) => format!("tokens(same::<I>, \"string\", tks::<I>(&{:?})).map(bytes::<I>)", s),
        G::StrCmp(s) => format!("tokens_cmp(tks::<I>(&{:?}), |a: I::Token, b: I::Token| fold_eq(a.b(), b.b())).map(bytes::<I>)", s),
        G::Seq(v) if macros() && pick(4) > 0 => fields(&v.iter().map(|g| (g, true)).collect::<Vec<_>>()),
        G::With(a, b) if macros() && pick(4) > 0 => format!("{}.map(one)", fields(&[(&**a, false), (&**b, true)])),
        G::Skip(a, b) if macros() && pick(4) > 0 => format!("{}.map(one)", fields(&[(&**a, true), (&**b, false)])),
        G::Between(a, b, c) if macros() && pick(4) > 0 => format!("{}.map(one)", fields(&[(&**a, false), (&**c, true), (&**b, false)])),
        G::Alt(k, x) if macros() && (*k == AltKind::Or || *k == AltKind::Tuple) => format!("choice!({})", x.iter().map(v).collect::<Vec<_>>().join(", ")),
        G::Alt(AltKind::Array, x) if macros() && plain(&x[0]) => no_macros(|| format!("choice([{}])", x.iter().map(|g| format!("{}.map(tov),", expr(g))).collect::<String>())),
        G::Alt(AltKind::Slice, x) if macros() && plain(&x[0]) => no_macros(|| format!("SliceAlt(vec![{}])", x.iter().map(|g| format!("{}.map(tov),", expr(g))).collect::<String>())),
        G::Seq(v) => format!("({})", es(v)),
        G::With(a, b) => format!("{}.with({})", e(a), e(b)),
        G::Skip(a, b) => format!("{}.skip({})", e(a), e(b)),
        G::Between(a, b, c) => format!("between({}, {}, {})", e(a), e(b), e(c)),
        G::Alt(k, x) => match k {
            AltKind::Or => x[1..].iter().fold(v(&x[0]), |a, b| format!("{}.or({})", a, v(b))),
            AltKind::Tuple => format!("choice(({}))", vs(x)),
            _ => {
                let l = if plain(&x[0]) {
                    vs(x)
                } else {
                    x.iter().map(|g| format!("build::<I>(&{}),", lit(g))).collect::<Vec<_>>().join(" ")
                };
                match k {
                    AltKind::Array => format!("choice([{}])", l),
                    _ => format!("SliceAlt(vec![{}])", l),
                }
            }
        },
        G::Opt(a) => format!("optional({})", e(a)),
        G::Attempt(a) => format!("attempt({})", e(a)),
        G::Look(a) => format!("look_ahead({})", e(a)),
        G::Not(a) => format!("not_followed_by({}.map(|_| \"value\"))", e(a)),
        G::Many(a) => format!("many::<Vec<_>, _, _>({})", e(a)),
        G::Many1(a) => format!("many1::<Vec<_>, _, _>({})", e(a)),
        G::SkipMany(a) => format!("skip_many({})", e(a)),
        G::SkipMany1(a) => format!("skip_many1({})", e(a)),
        G::Count(n, a) => format!("count::<Vec<_>, _, _>({}, {})", n, e(a)),
        G::SkipCount(n, a) => format!("skip_count({}, {})", n, e(a)),
        G::CountMM(n, m, a) => format!("count_min_max::<Vec<_>, _, _>({}, {}, {})", n, m, e(a)),
        G::SkipCountMM(n, m, a) => format!("skip_count_min_max({}, {}, {})", n, m, e(a)),
        G::SepBy(a, b) => format!("sep_by::<Vec<_>, _, _, _>({}, {})", e(a), e(b)),
        G::SepBy1(a, b) => format!("sep_by1::<Vec<_>, _, _, _>({}, {})", e(a), e(b)),
        G::SepEndBy(a, b) => format!("sep_end_by::<Vec<_>, _, _, _>({}, {})", e(a), e(b)),
        G::SepEndBy1(a, b) => format!("sep_end_by1::<Vec<_>, _, _, _>({}, {})", e(a), e(b)),
        G::ChainL(a, b) => format!("chainl1({}, {}.map(op_fn))", v(a), v(b)),
        G::ChainR(a, b) => format!("chainr1({}, {}.map(op_fn))", v(a), v(b)),
        G::TakeUntil(a) => format!("take_until::<Toks, _, _>({})", e(a)),
        G::SkipUntil(a) => format!("skip_until({})", e(a)),
        G::RepUntil(a, b) => format!("repeat_until::<Vec<_>, _, _, _>({}, {})", e(a), e(b)),
        G::RepSkipUntil(a, b) => format!("repeat_skip_until({}, {})", e(a), e(b)),
        G::Escaped(a, t, b) => format!("escaped({}, tk::<I>({}), {}).map(|_| ())", e(a), t, e(b)),
        G::Iterate(n, x) => format!("iterate::<Vec<V>, _, _, _, _>(0..{}, |i: &usize, _: &mut I| {{ let _ = i; {} }})", n, one(x, "*i")),
        G::Then(a, x) => format!("{}.then(|x| {{ let _ = &x; {} }})", v(a), one(x, "x.hash()")),
        G::ThenPartial(a, x) => format!("{}.then_partial(|x| {{ let _ = &x; {} }})", v(a), one(x, "x.hash()")),
        G::ThenRef(a, x) => format!("{}.then_ref(|x| {{ let _ = &x; {} }})", v(a), one(x, "x.hash()")),
        G::Map(a) => format!("{}.map_input(|v, i: &mut I| {{ i.bump(); v }}).map(|v| V::L(vec![v]))", v(a)),
        G::FlatMap(a, m) => format!("{}.flat_map(|v| flat::<I>(v, {}))", v(a), m),
        G::AndThen(a, m) => format!("{}.and_then(|v| and::<I>(v, {}))", v(a), m),
        G::Recog(a) => format!("recognize::<Toks, _, _>({})", e(a)),
        G::Msg(a) => format!("{}.message(\"msg\")", e(a)),
        G::Exp(a) => format!("{}.expected(\"exp\")", e(a)),
        G::Silent(a) => format!("{}.silent()", e(a)),
        G::Lazy(a) => format!("lazy(|| {})", e(a)),
        G::Factory(a) => format!("factory(|_: &mut I| {})", e(a)),
        G::Opaque(a) => format!("opaque!(no_partial({}))", e(a)),
        G::NoPartial(a) => format!("no_partial({})", e(a)),
        G::AnyState(a) => format!("any_partial_state({})", e(a)),
        G::Either(true, a) => format!("{}.left::<P<I>>()", v(a)),
        G::Either(false, a) => format!("{}.right::<P<I>>()", v(a)),
        G::RRange(b) => format!("range(I::Range::of(&{:?})).map(rg::<I>)", b),
        G::RTake(n) => format!("take({}).map(rg::<I>)", n),
        G::RTakeWhile(k) => format!("take_while(|x: I::Token| in_class({}, x.b())).map(rg::<I>)", k),
        G::RTakeWhile1(k) => format!("take_while1(|x: I::Token| in_class({}, x.b())).map(rg::<I>)", k),
        G::RUntilRange(b) => format!("take_until_range(I::Range::of(&{:?})).map(rg::<I>)", b),
        G::RTakeFn(b) => format!("take_fn(|r: I::Range| find::<I>(&r, {})).map(rg::<I>)", b),
        G::RRecog(a) => format!("range_recognize({}).map(rg::<I>)", e(a)),
        G::RRecogVal(a) => format!("recognize_with_value({}).map(|(r, v)| (rg::<I>(r), v))", e(a)),
        G::RLenPrefix(k) => format!("length_prefix(satisfy_map(|x: I::Token| if in_class({}, x.b()) {{ Some(prefix_len(x.b())) }} else {{ None }})).map(rg::<I>)", k),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[1].parse().unwrap();
    let mut r = Rng::new(a[2].parse().unwrap());
    let cfg = Cfg::new(true);
    // Every inner kind gets its turn at the top
    let mut kinds = cfg.inner.clone();
    kinds.sort();
    kinds.dedup();
    println!("// Generated by `cargo run --example gen_static {} {}{}`", a[1], a[2], if a.len() > 3 { " macros" } else { "" });
    if a.len() > 3 {
        MACROS.with(|m| *m.borrow_mut() = Some((Rng::new(r.next()), vec![], 0)));
        // The kinds there are macros for
        let own = ["tuple", "with", "skip", "between", "or", "choice_tuple", "then", "then_partial", "then_ref", "opaque"];
        for _ in 0..4 {
            kinds.extend(own.iter().filter(|k| cfg.inner.contains(k)));
        }
    }
    let mut k = 0;
    // Parsers which run a parser that must succeed, and what may do something special in that case
    let outer = ["attempt", "then", "then_partial", "then_ref", "escaped"];
    let inner = [
        "attempt", "lazy", "then", "choice_tuple", "or", "optional", "many", "tuple", "either", "opaque", "any_partial_state",
        "expected", "silent", "message", "map", "and_then", "flat_map",
    ];
    let repeated = ["many", "many1", "skip_many", "skip_many1"];
    let first = if a.len() > 3 { 12 * repeated.len() } else { outer.len() * inner.len() };
    let n = n + first;
    while k < n {
        let d = 2 + k % 3;
        let mut g;
        if k < first && a.len() > 3 {
            let c = gen_kind(&mut r, &cfg, 1, repeated[k / 2 % repeated.len()]);
            let b = gen(&mut r, &cfg, 0, false);
            let opt = |b| G::Opt(Box::new(G::Tok(b)));
            g = G::Seq(match k / 8 % 5 {
                3 => vec![opt(b'b'), G::Seq(vec![opt(b'a'), c, opt(b','), b.clone()]), b],
                4 => vec![G::Seq(vec![opt(b'1'), c]), G::Seq(vec![opt(b'a'), opt(b'c')]), b],
                0 => vec![c, b],
                1 => vec![G::Tok(b'a'), c, b],
                _ => vec![G::Map(Box::new(G::Seq(vec![b.clone(), c]))), G::Opt(Box::new(G::Tok(b'a'))), b],
            });
        } else if k < first {
            let c = Box::new(gen_kind(&mut r, &cfg, 2, inner[k % inner.len()]));
            let a = Box::new(gen(&mut r, &cfg, 1, false));
            g = match outer[k / inner.len()] {
                "attempt" => G::Opt(Box::new(G::Attempt(c))),
                "then" => G::Then(a, vec![*c]),
                "then_partial" => G::ThenPartial(a, vec![*c]),
                "then_ref" => G::ThenRef(a, vec![*c]),
                _ => G::Escaped(Box::new(G::OneOf(vec![97, 99])), 98, c),
            }
        } else {
            g = gen_kind(&mut r, &cfg, d, kinds[k % kinds.len()]);
        }
        fix(&mut g, &mut r);
        if k >= first && g.size() < 4 || g.size() > 14 {
            continue;
        }
        LIFT.with(|l| l.set(k % 2 == 0));
        println!("fn s{}<I: St1>() -> (G, Both<I>) where I::Token: Tk + ToV, I::Range: Rg, I::Position: Default {{", k);
        LIFTED.with(|l| l.borrow_mut().clear());
        let e = expr(&g);
        println!("    (\n        {},\n        both(move || {}),\n    )\n}}", lit(&g), e);
        MACROS.with(|m| {
            for d in m.borrow_mut().as_mut().map_or(vec![], |m| std::mem::replace(&mut m.1, vec![])) {
                println!("{}", d)
            }
        });
        k += 1;
    }
    println!("pub fn all<I: St1>() -> Vec<fn() -> (G, Both<I>)> where I::Token: Tk + ToV, I::Range: Rg, I::Position: Default {{");
    println!("    vec![{}]\n}}", (0..n).map(|k| format!("s{}::<I>", k)).collect::<Vec<_>>().join(", "));
}
