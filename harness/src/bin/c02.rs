//! C02: decoding in parts against the reference semantics of the whole.
use combine::stream::MaybePartialStream;
use combine::error::ParseResult;
use combine::parser::char as ch;
use combine::parser::{byte, choice::optional, combinator, range, repeat, token as tk};
use combine::Parser;
use vcore::mon;
use vcore::{build::*, drive::*, grammar::*, model::*, mon::Mon, rng::Rng, run::*};

type Out = Option<(V, usize)>;

fn want(g: &G, inp: &[u8], width: fn(u8) -> usize, t: Option<&mut Tally>) -> Option<Out> {
    let m = Model::new(inp, width);
    let e = m.ev(g, 0);
    if m.out_of_fuel.get() {
        return None;
    }
    if m.taint.get() {
        // A search that reached the very end of the input (see DESIGN.md)
        if let Some(t) = t {
            t.hit("excluded_search_reached_end")
        }
        return None;
    }
    Some(match e {
        R::Ok(v, p, _) => Some((v, p)),
        _ => None,
    })
}

fn all(n: usize) -> Vec<usize> {
    (0..=n).collect()
}

fn case<I: Chunked>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..4 {
        let inp = input_for(&g, r, 30);
        let e = match want(&g, &inp, I::width, Some(t)) {
            None => continue,
            Some(e) => e,
        };
        let cuts: Vec<usize> = match r.below(6) {
            // byte by byte, including an empty part at the start and at the end
            0 | 1 if r.big == 0 || inp.len() < 300 => all(inp.len()),
            2 => vec![r.below(inp.len() + 1)],
            // the same data offered twice
            3 => {
                let mut c: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 2);
                let mut d = c.clone();
                c.append(&mut d);
                c.sort();
                c
            }
            _ => vcore::grammar::cuts(r, inp.len(), 3),
        };
        let mut st = Resumes::default();
        let a = chunked::<I>(&g, &inp, &cuts, &mut st);
        t.evals += 1;
        t.add("decode_calls", st.decodes);
        t.add("resumptions", st.needed_more);
        t.add("resumptions_after_consuming", st.consumed_before_more);
        t.hit(if e.is_some() { "ok" } else { "failed" });
        if st.needed_more > 0 {
            t.saw(&(format!("{:?}", g), &inp, &cuts, name));
        }
        t.sample(|| format!("{}: {:?} on {:?} cut at {:?} -> {:?}", name, g, lossy(&inp), cuts, a));
        if a.as_ref() != Ok(&e) {
            let mut s = Resumes::default();
            let mut f = |g: &G, i: &[u8], c: &[usize]| match want(g, i, I::width, None) {
                None => false,
                Some(e) => chunked::<I>(g, i, c, &mut s).as_ref() != Ok(&e),
            };
            let clip = |c: &[usize], n: usize| -> Vec<usize> { c.iter().cloned().filter(|x| *x <= n).collect() };
            let base = cuts.clone();
            let (g2, i2, mut cuts) = if f(&g, &inp, &all(inp.len())) {
                let (g2, i2) = shrink(&g, &inp, &mut |g, i| f(g, i, &all(i.len())));
                let c = all(i2.len());
                (g2, i2, c)
            } else {
                let (g2, i2) = shrink(&g, &inp, &mut |g, i| f(g, i, &clip(&base, i.len())));
                let c = clip(&base, i2.len());
                (g2, i2, c)
            };
            let mut j = 0;
            while j < cuts.len() {
                let mut c = cuts.clone();
                c.remove(j);
                if f(&g2, &i2, &c) {
                    cuts = c
                } else {
                    j += 1
                }
            }
            t.violation(format!(
                "{}: {:?} on {:?} in parts cut at {:?}: the whole gives {:?}, the parts give {:?}",
                name, g2, lossy(&i2), cuts, want(&g2, &i2, I::width, None), chunked::<I>(&g2, &i2, &cuts, &mut s)
            ));
            return;
        }
    }
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
}

// ---- the parsers of the library for text, as they are

const LIB: usize = 18;

macro_rules! library {
    ($name: ident, $I: ty, $m: ident, $s: ident, $cmp: ident, $one: ident, $tok: ty, $buf: ty, $lit: expr, $dig: expr) => {
        fn $name(k: usize) -> P<$I> {
            type I = $I;
            fn v<T: std::fmt::Debug>(x: T) -> V {
                V::S(format!("{:?}", x).into_bytes())
            }
            macro_rules! p {
                ($p: expr) => {
                    keep::<I, _>($p.map(v))
                };
            }
            fn c(b: u8) -> $tok {
                b as $tok
            }
            let dig = $dig;
            match k {
                0 => p!($m::crlf()),
                1 => p!(($m::spaces(), $m::digit(), $m::spaces(), $m::letter())),
                2 => p!(repeat::many::<Vec<_>, _, _>($m::crlf())),
                3 => p!(repeat::sep_end_by::<Vec<$buf>, _, _, _>(repeat::many1::<$buf, _, _>($m::alpha_num()), $m::newline())),
                4 => p!($m::$cmp($lit("abCd1"), |a, b| a.eq_ignore_ascii_case(&b)).map(|_| 1)),
                5 => p!(combinator::from_str::<_, i64, _>(range::recognize((optional($m::$one(c(b'-'))), repeat::skip_many1($m::digit()))))),
                6 => p!(repeat::many1::<Vec<_>, _, _>(($m::hex_digit(), $m::hex_digit()))),
                7 => p!(repeat::sep_by::<Vec<u8>, _, _, _>(combinator::from_str::<_, u8, _>(range::take_while1(dig)), ($m::spaces(), $m::$one(c(b',')), $m::spaces()))),
                8 => p!(combine::choice((
                    combinator::attempt($m::$s($lit("true"))),
                    combinator::attempt($m::$s($lit("tru!"))),
                    $m::$s($lit("fals")),
                    $m::$s($lit(""))
                ))),
                9 => p!((
                    $m::letter(),
                    repeat::many::<$buf, _, _>($m::alpha_num().or($m::$one(c(b'_')))),
                    $m::spaces(),
                    combine::choice((combinator::attempt($m::crlf()).map(|_| 0), $m::newline().map(|_| 1), tk::eof().map(|_| 2)))
                )),
                10 => p!(combine::between(
                    $m::$one(c(b'"')),
                    $m::$one(c(b'"')),
                    repeat::many::<$buf, _, _>(($m::$one(c(b'\\')), tk::any()).map(|x| x.1).or(tk::none_of([c(b'"'), c(b'\\')])))
                )),
                11 => p!(repeat::many::<$buf, _, _>($m::upper().or($m::lower()).or($m::oct_digit()).or($m::tab()).or($m::space()))),
                12 => p!(combinator::from_str::<_, f64, _>(range::take_while1(move |x| dig(x) || x == c(b'.') || x == c(b'-') || x == c(b'e')))),
                13 => p!((
                    $m::$s($lit("ab")),
                    combinator::from_str::<_, String, _>(repeat::many1::<$buf, _, _>($m::digit().or($m::letter()))),
                    range::range($lit("\r\n"))
                )),
                14 => p!(repeat::skip_many1(combinator::attempt($m::crlf()).or($m::newline()).or($m::tab()))),
                15 => p!(repeat::many::<Vec<_>, _, _>(($m::spaces(), repeat::many1::<$buf, _, _>($m::letter())))),
                16 => p!(range::recognize(repeat::sep_by1::<repeat_sink::Sink, _, _, _>($m::digit(), $m::spaces()))),
                _ => p!(repeat::sep_by1::<Vec<_>, _, _, _>(
                    (repeat::many1::<$buf, _, _>($m::letter()), $m::$one(c(b'=')), combinator::from_str::<_, u16, _>(repeat::many1::<$buf, _, _>($m::hex_digit()))),
                    combinator::attempt(($m::spaces(), $m::$one(c(b',')), $m::spaces()))
                )),
            }
        }
    };
}
mod repeat_sink {
    /// What is thrown away
    #[derive(Default)]
    pub struct Sink;
    impl<T> Extend<T> for Sink {
        fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
            i.into_iter().for_each(drop)
        }
    }
}
type LB = MaybePartialStream<Mon<S8>>;
type LT = MaybePartialStream<Mon<Str>>;
library!(lib_bytes, LB, byte, bytes, bytes_cmp, byte, u8, Vec<u8>, |s: &'static str| s.as_bytes(), |x: u8| x.is_ascii_digit());
library!(lib_text, LT, ch, string, string_cmp, char, char, String, |s: &'static str| s, |x: char| x.is_ascii_digit());

/// What one of them makes of the parts of `inp`
fn lib_parts<I: combine::RangeStream + 'static>(mut p: P<I>, cuts: &[usize], n: usize, part: &dyn Fn(usize, usize, bool, &mut dyn FnMut(&mut I))) -> Result<(Out, u64), String> {
    guard(|| {
        let mut st = St::default();
        let (mut pos, mut more) = (0, 0);
        mon::start(FUEL);
        for k in 0..=cuts.len() {
            let last = k == cuts.len();
            let end = if last { n } else { cuts[k] };
            let mut r = None;
            part(pos, end, last, &mut |i| r = Some(combine::stream::decode(&mut p, i, &mut st).map_err(|_| ())));
            match r.unwrap() {
                Ok((Some(v), m)) => return (Some((v, pos + m)), more),
                Ok((None, m)) => {
                    assert!(!last, "decode wants more than the whole input");
                    assert!(pos + m <= end, "decode removes more than there is");
                    pos += m;
                    more += 1
                }
                Err(()) => return (None, more),
            }
        }
        unreachable!()
    })
}

fn library(r: &mut Rng, t: &mut Tally) {
    const BITS: [&str; 44] = [
        "\r\n", "\r\n", "\r", "\n", "\t", " ", "  ", "\u{b}", "0", "7", "9", "12", "255", "256", "99999999999999999999", "-", "-5", ".5", "1e3", "e", "a", "ab", "aBCD1", "abcd", "ABCD1", "true", "tru", "tru!",
        "fals", "x_1", "Z", ",", " , ", "=", "=ff", "a=1", "\"", "\\", "\\\"", "\"a\"", "é", "\u{2028}", "\u{1d11e}", "٣",
    ];
    let k = r.below(LIB);
    let text = r.chance(1, 2);
    // for each of them there are things which it is rather made of
    let own: &[&str] = match k {
        0 | 2 | 14 => &["\r\n", "\n", "\t", "\r\n"],
        1 | 16 => &[" ", "5", "\t", "a", "\n", "7"],
        3 | 9 | 15 => &["a", "B1", "\n", "\r\n", " ", "_", "x"],
        4 => &["ab", "cd1", "CD", "1", "Ab", "cD1"],
        5 | 12 => &["-", "1", "23", ".", "e", "9"],
        6 => &["a", "F", "0", "g"],
        7 | 17 => &["1", ",", " ", " ,", "a=1", "b=ff", "a", "="],
        8 => &["tr", "ue", "u!", "fa", "ls", "true"],
        10 => &["\"", "a", "\\\"", "\\", "b c", "\\\\"],
        13 => &["ab", "1", "x", "\r\n", "\r"],
        _ => &["a", "B", "7", "\t", " ", "8"],
    };
    let mut s = String::new();
    if k == 10 && r.chance(2, 3) {
        s.push('"')
    }
    for _ in 0..r.below(9) {
        s.push_str(if r.chance(5, 6) { *r.pick(own) } else { *r.pick(&BITS) })
    }
    let mut b = s.clone().into_bytes();
    if !text && r.chance(1, 6) {
        let i = r.below(b.len() + 1);
        b.insert(i, 0xff)
    }
    let n = b.len();
    let at: Vec<usize> = (0..=n).filter(|i| !text || s.is_char_boundary(*i)).collect();
    let style = r.below(3);
    let mut cuts: Vec<usize> = at.iter().cloned().filter(|_| style == 0 || r.chance(1, 3)).collect();
    if style == 2 {
        let mut d = cuts.clone();
        cuts.append(&mut d);
        cuts.sort();
    }
    let go = |cuts: &[usize]| -> Result<(Out, u64), String> {
        if text {
            lib_parts::<LT>(lib_text(k), cuts, n, &|a, z, last, f| lend(&s[a..z], |i| f(&mut MaybePartialStream(Mon(i), !last))))
        } else {
            lib_parts::<LB>(lib_bytes(k), cuts, n, &|a, z, last, f| lend(&b[a..z], |i| f(&mut MaybePartialStream(Mon(i), !last))))
        }
    };
    // the whole, by an entry point which has nothing to do with parts
    let whole = guard(|| {
        mon::start(FUEL);
        if text {
            lend(&s[..], |i| {
                let mut i = MaybePartialStream(Mon(i), false);
                let r = lib_text(k).parse_stream(&mut i);
                (r.into_result().ok().map(|x| (x.0, n - (i.0).0.len())), 0)
            })
        } else {
            lend(&b[..], |i| {
                let mut i = MaybePartialStream(Mon(i), false);
                let r: ParseResult<V, _> = lib_bytes(k).parse_stream(&mut i);
                (r.into_result().ok().map(|x| (x.0, n - (i.0).0.len())), 0)
            })
        }
    });
    let got = go(&cuts);
    t.evals += 1;
    t.hit(&format!("library.{}.{}", if text { "text" } else { "bytes" }, k));
    if let Ok((o, more)) = &got {
        t.hit(if o.is_some() { "library_ok" } else { "library_failed" });
        t.add("library_resumptions", *more);
    }
    t.saw(&("library", k, text, &b, &cuts));
    if got.as_ref().map(|x| &x.0) != whole.as_ref().map(|x| &x.0) {
        let mut j = 0;
        while j < cuts.len() {
            let mut c = cuts.clone();
            c.remove(j);
            if go(&c).as_ref().map(|x| &x.0) != whole.as_ref().map(|x| &x.0) {
                cuts = c
            } else {
                j += 1
            }
        }
        t.violation(format!(
            "library parser {} ({}) on {:?} in parts cut at {:?}: the whole gives {:?}, the parts give {:?}",
            k, if text { "text" } else { "bytes" }, lossy(&b), cuts, whole, go(&cuts)
        ));
    }
}

fn main() {
    let ctx = Ctx::new("C02");
    let cfg = Cfg::new(true);
    ctx.par("bytes", 250_000, 10_000_000, (20, 500), |r, _, t| case::<MaybePartialStream<Mon<S8>>>("bytes", &cfg, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-bytes", 40_000, 1_500_000, (14, 300), |r, _, t| {
        r.big = 1;
        case::<MaybePartialStream<Mon<S8>>>("bytes", &long, r, t)
    });
    ctx.par("long-text", 20_000, 800_000, (10, 250), |r, _, t| {
        r.big = 1;
        case::<MaybePartialStream<Mon<Str>>>("text", &long, r, t)
    });
    let huge = long.clone().without(&["chainl1", "chainr1"]);
    ctx.par("huge", 300, 8_000, (12, 200), |r, _, t| {
        r.big = 2;
        case::<MaybePartialStream<Mon<S8>>>("bytes", &huge, r, t)
    });
    ctx.par("text", 120_000, 5_000_000, (12, 400), |r, _, t| case::<MaybePartialStream<Mon<Str>>>("text", &cfg, r, t));

    ctx.par("library", 200_000, 6_000_000, (8, 150), |r, _, t| library(r, t));

    // The known finding: a search which consumed input before it fails at the end of the input
    let sig = "take_until-uncommitted-at-end";
    let g = G::Opt(Box::new(G::TakeUntil(Box::new(G::Tok(b'a')))));
    let a = chunked::<MaybePartialStream<Mon<S8>>>(&g, b"b", &[1], &mut Resumes::default());
    if a != Ok(Some((V::N, 0))) {
        let what = format!("optional(take_until(token('a'))) on \"b\" in parts [1] gives {:?}, the whole gives (None, 0)", a);
        let mut t = ctx.total.lock().unwrap();
        if is_known("C02", sig) {
            t.known.insert(sig.into(), what);
        } else {
            t.violation(what)
        }
    }
    let mut min = vec![("evaluations", 50_000), ("resumptions", 50_000), ("resumptions_after_consuming", 20_000), ("ok", 10_000)];
    let names: Vec<String> = KINDS.iter().map(|k| format!("node.{}", k)).collect();
    min.extend(names.iter().map(|n| (&n[..], 100)));
    min.push(("library_ok", 20_000));
    min.push(("library_resumptions", 50_000));
    ctx.finish("a random grammar (all combinators) decoded from a random partition of the input into parts, against the reference semantics of the whole input; non-trivial: the parser was resumed at least once; distinct: (grammar, input, partition, stream type)", &min)
}
