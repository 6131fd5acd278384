//! C07: ranges are windows of the input.
use combine::stream::{easy, state, CompleteStream, MaybePartialStream, SliceStream};
use vcore::{build::*, grammar::*, rng::Rng, run::*, sources::*, watch::*};

macro_rules! list {
    ($f: ident; $($t: ty),* $(,)?) => { vec![$((stringify!($t), $f::<$t> as _)),*] };
}

fn count(l: &Log, t: &mut Tally) {
    t.evals += 1;
    t.add("ranges_checked", l.n_ranges);
    t.add("ranges_of_8_or_more", l.n_wide);
    t.add("predicate_calls_checked", l.n_preds);
    t.add("refused_operations_checked", l.n_refused);
    t.add("tokens_checked", l.n_tokens);
    t.add("resets", l.n_resets);
}

fn on_ops(kinds: &[(&'static str, Ops)], r: &mut Rng, t: &mut Tally) {
    let inp = gen_toks(r);
    let ops = gen_ops(r, true);
    let (name, f) = r.pick(kinds);
    let bad = |i: &[u8], o: &[Op]| match f(i, o) {
        Ok(l) => l.windows.or(l.tokens),
        Err(e) => Some(e),
    };
    if let Ok(l) = f(&inp, &ops) {
        count(&l, t)
    }
    t.hit(name);
    t.saw(&(&inp, format!("{:?}", ops), name));
    t.sample(|| format!("{} on {:?}: {:?}", name, lossy(&inp), ops));
    if bad(&inp, &ops).is_some() {
        let (mut i, mut o) = (inp, ops);
        shrink_ops(&mut i, &mut o, &mut |i, o| bad(i, o).is_some());
        t.violation(format!("{}: {:?} on {:?}: {}", name, o, lossy(&i), bad(&i, &o).unwrap()));
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn shrink_ops(i: &mut Vec<u8>, o: &mut Vec<Op>, bad: &mut dyn FnMut(&[u8], &[Op]) -> bool) {
    loop {
        let n = i.len() + o.len();
        let mut k = 0;
        while k < o.len() {
            let mut c = o.clone();
            c.remove(k);
            if bad(i, &c) {
                *o = c
            } else {
                k += 1
            }
        }
        let mut k = 0;
        while k < i.len() {
            let mut c = i.clone();
            c.remove(k);
            if bad(&c, o) {
                *i = c
            } else {
                k += 1
            }
        }
        if i.len() + o.len() == n {
            break;
        }
    }
}

fn on_grammar(kinds: &[(&'static str, Parse)], cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, false);
    let inp = if r.chance(1, 3) { gen_toks(r) } else { input_for(&g, r, 40) };
    let (name, f) = r.pick(kinds);
    let bad = |g: &G, i: &[u8]| match f(g, i) {
        Ok(l) => l.windows.or(l.tokens),
        Err(e) => Some(e),
    };
    match f(&g, &inp) {
        Ok(l) => {
            count(&l, t);
            t.hit("parses");
        }
        Err(_) => t.evals += 1,
    }
    t.saw(&(&inp, format!("{:?}", g), name));
    if bad(&g, &inp).is_some() {
        let (g, i) = shrink(&g, &inp, &mut |g, i| bad(g, i).is_some());
        t.violation(format!("{}: {:?} on {:?}: {}", name, g, lossy(&i), bad(&g, &i).unwrap()));
    }
}

/// The ranges which the parsers return are windows themselves, and adjacent.
fn parsers<I>(name: &str, w: fn(u8) -> usize, r: &mut Rng, t: &mut Tally)
where
    I: vcore::drive::Source + combine::RangeStream,
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg + Addr,
{
    use combine::parser::range::*;
    use combine::stream::Range as _;
    use combine::Parser;
    let inp = gen_toks(r);
    let (k, n, m) = (r.below(64) as u8, r.range(0, 20), r.range(0, 3));
    let a = inp.len().min(r.below(4));
    let lit = inp[..a].to_vec();
    let delim = [*r.pick(ALPHA)];
    let res = guard(|| {
        I::with(&inp, |mut i| {
            let base = i.range().addr();
            let total = i.range().len();
            let cl = move |k: u8| move |x: I::Token| in_class(k, x.b());
            let mut parts: Vec<(&str, I::Range)> = vec![];
            macro_rules! go {
                ($n: expr, $p: expr) => {
                    if let Ok((v, _)) = Into::<Result<_, _>>::into($p.parse_stream(&mut i)) {
                        parts.push(($n, v))
                    }
                };
            }
            go!("range", range(I::Range::of(&lit)));
            go!("take_while", take_while(cl(k)));
            go!("take", take(m));
            go!("recognize", recognize((take_while(cl(63 & !k)), combine::optional(combine::any()))));
            go!("take_until_range", take_until_range(I::Range::of(&delim)));
            if let Ok(((v, w), _)) = Into::<Result<_, _>>::into(recognize_with_value(take_while1(cl(k | 1))).parse_stream(&mut i)) {
                let (v, w): (I::Range, I::Range) = (v, w);
                if v.addr() != w.addr() || v.len() != w.len() {
                    return Err(format!("recognize_with_value(take_while1) returned different windows"));
                }
                parts.push(("recognize_with_value", v))
            }
            go!("take", take(n));
            go!("take_while1", take_while1(cl(k)));
            let rest = i.range();
            parts.push(("rest", rest));
            let mut at = base;
            for (what, p) in &parts {
                if p.addr() != at && p.len() > 0 {
                    return Err(format!("{} is at offset {} instead of {}", what, p.addr().wrapping_sub(base) as isize, at - base));
                }
                at += p.len() * I::Range::unit();
            }
            if at != base + total * I::Range::unit() {
                return Err("the parts do not add up to the input".into());
            }
            Ok(parts.len() as u64)
        })
    });
    let _ = w;
    t.evals += 1;
    t.hit(name);
    t.saw(&(&inp, k, n, m, name));
    match res {
        Ok(Ok(n)) => t.add("adjacent_ranges_checked", n),
        Ok(Err(e)) | Err(e) => t.violation(format!(
            "{}: range({:?}), take_while({}), take({}), recognize, take_until_range({:?}), recognize_with_value, take({}), take_while1 on {:?}: {}",
            name, lossy(&lit), k, m, lossy(&delim), n, lossy(&inp), e
        )),
    }
}

fn main() {
    let ctx = Ctx::new("C07");
    let kinds: Vec<(&'static str, Ops)> = list![ops;
        S8, Str, ES8, EStr, SliceStream<'static, u8>, PIdx<S8>, PSrc<Str>, PIdx<Str>, easy::Stream<PIdx<S8>>,
        easy::Stream<PSrc<Str>>, CompleteStream<S8>, MaybePartialStream<EStr>, state::Stream<S8, u32>,
        easy::Stream<SliceStream<'static, u8>>, PIdx<SliceStream<'static, u8>>, SpanStr, SpanS8, &'static [char],
        easy::Stream<&'static [char]>, &'static mut S8, &'static mut EStr,
    ];
    let parses: Vec<(&'static str, Parse)> = list![parse;
        S8, Str, SliceStream<'static, u8>, easy::Stream<PSrc<Str>>, &'static [char], easy::Stream<PIdx<S8>>,
    ];
    ctx.par("ops", 600_000, 20_000_000, (12, 300), |r, _, t| on_ops(&kinds, r, t));
    let mut cfg = Cfg::new(true);
    for _ in 0..6 {
        cfg.leaves.extend(RLEAVES);
    }
    ctx.par("grammars", 200_000, 8_000_000, (14, 300), |r, _, t| on_grammar(&parses, &cfg, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-ops", 40_000, 1_500_000, (8, 150), |r, _, t| {
        r.big = 3;
        on_ops(&kinds, r, t)
    });
    ctx.par("long-grammars", 20_000, 600_000, (10, 150), |r, _, t| {
        r.big = 3;
        on_grammar(&parses, &long, r, t)
    });
    ctx.par("parsers", 200_000, 8_000_000, (10, 300), |r, c, t| match c % 6 {
        0 => parsers::<S8>("parsers &[u8]", |_| 1, r, t),
        1 => parsers::<Str>("parsers &str", <char as Tk>::width, r, t),
        2 => parsers::<&'static [char]>("parsers &[char]", |_| 1, r, t),
        3 => parsers::<SliceStream<'static, u8>>("parsers SliceStream", |_| 1, r, t),
        4 => parsers::<easy::Stream<PSrc<Str>>>("parsers easy positioned &str", <char as Tk>::width, r, t),
        _ => parsers::<state::Stream<S8, u32>>("parsers state", |_| 1, r, t),
    });
    let mut min: Vec<(&str, u64)> = kinds.iter().map(|k| (k.0, 1_000)).collect();
    min.extend([("evaluations", 100_000), ("ranges_of_8_or_more", 20_000), ("predicate_calls_checked", 100_000), ("refused_operations_checked", 20_000), ("adjacent_ranges_checked", 50_000), ("parses", 20_000)]);
    ctx.finish("random operations or a random grammar on a random range stream, every operation checked against the known token sequence (address, content, predicate calls, distance), and sequences of range parsers whose results must tile the input; distinct: (operations or grammar, input, stream type)", &min)
}
