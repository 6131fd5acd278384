//! C08: positions.
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{easy, state, CompleteStream, MaybePartialStream, SliceStream};
use combine::{EasyParser, Parser};
use vcore::{build::*, grammar::*, rng::Rng, run::*, sources::*, watch::*};

macro_rules! list {
    ($f: ident; $($t: ty),* $(,)?) => { vec![$((stringify!($t), $f::<$t> as _)),*] };
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn count(l: &Log, t: &mut Tally) {
    t.evals += 1;
    t.add("positions_checked", l.n_pos);
    t.add("resets", l.n_resets);
    t.add("ranges", l.n_ranges);
}

fn on_ops(kinds: &[(&'static str, Ops)], ranges: bool, r: &mut Rng, t: &mut Tally) {
    let mut inp = gen_toks(r);
    if r.chance(1, 3) {
        // many lines
        for b in &mut inp {
            if r.chance(1, 3) {
                *b = b'\n'
            }
        }
    }
    let ops = gen_ops(r, ranges);
    let (name, f) = r.pick(kinds);
    let bad = |i: &[u8], o: &[Op]| match f(i, o) {
        Ok(l) => l.positions,
        Err(e) => Some(e),
    };
    if let Ok(l) = f(&inp, &ops) {
        count(&l, t)
    }
    t.hit(name);
    t.saw(&(&inp, format!("{:?}", ops), name));
    t.sample(|| format!("{} on {:?}: {:?}", name, lossy(&inp), ops));
    if let Some(e) = bad(&inp, &ops) {
        t.violation(format!("{}: {:?} on {:?}: {}", name, ops, lossy(&inp), e));
    }
}

fn on_grammar(kinds: &[(&'static str, Parse)], cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let inp = if r.chance(1, 3) { gen_toks(r) } else { input_for(&g, r, 40) };
    let (name, f) = r.pick(kinds);
    let bad = |g: &G, i: &[u8]| match f(g, i) {
        Ok(l) => l.positions,
        Err(e) => Some(e),
    };
    match f(&g, &inp) {
        Ok(l) => count(&l, t),
        Err(_) => t.evals += 1,
    }
    t.hit(&format!("grammar {}", name));
    t.saw(&(&inp, format!("{:?}", g), name));
    if bad(&g, &inp).is_some() {
        let (g, i) = shrink(&g, &inp, &mut |g, i| bad(g, i).is_some());
        t.violation(format!("{}: {:?} on {:?}: {}", name, g, lossy(&i), bad(&g, &i).unwrap()));
    }
}

/// A token which is not there, after a prefix consumed by tokens or ranges, from a starting position of the
/// caller's: the position in the error and the one reported by `position()`.
fn errors(r: &mut Rng, t: &mut Tally) {
    use combine::parser::range::{take, take_while};
    let inp = gen_toks(r);
    let text = to_text(&inp);
    let n = r.below(inp.len() + 1);
    let pre = &inp[..n];
    let units: usize = pre.iter().map(|b| <char as Tk>::width(*b)).sum();
    let how = r.below(3);
    let start = SourcePosition { line: r.range(0, 9) as i32 - 2, column: r.range(0, 9) as i32 };
    let off = r.below(1000);
    let mut want = start;
    for b in pre {
        if *b == b'\n' {
            want.line += 1;
            want.column = 1;
        } else {
            want.column += 1
        }
    }
    macro_rules! skip {
        ($units: expr) => {{
            let mut left = n;
            let many = combine::count_min_max::<combine::parser::repeat::Sink, _, _>(n, n, combine::any()).map(|_| ());
            match how {
                0 => combine::parser::combinator::Either::Left(many),
                1 => combine::parser::combinator::Either::Right(combine::parser::combinator::Either::Left(take($units).map(|_| ()))),
                _ => combine::parser::combinator::Either::Right(combine::parser::combinator::Either::Right(
                    take_while(move |_| {
                        let go = left > 0;
                        left = left.saturating_sub(1);
                        go
                    })
                    .map(|_| ()),
                )),
            }
        }};
    }
    let s = &text[..];
    let b = &inp[..];
    let res = guard(|| -> Result<(), String> {
        macro_rules! same {
            ($what: expr, $a: expr, $b: expr) => {
                let (a, b) = ($a, $b);
                if a != b {
                    return Err(format!("{}: {:?}, expected {:?}", $what, a, b));
                }
            };
        }
        let e = (skip!(units), combine::token('?')).easy_parse(position::Stream::with_positioner(s, start)).map(|_| ()).unwrap_err();
        same!("error of a positioned string", e.position, want);
        let (((), p), rest) = (skip!(units), combine::position()).parse(position::Stream::with_positioner(s, start)).unwrap();
        same!("position() of a string", p, want);
        same!("positioner afterwards", rest.positioner, want);
        let e = (skip!(n), combine::token(b'?'))
            .easy_parse(position::Stream::with_positioner(b, IndexPositioner::new_with_position(off)))
            .map(|_| ())
            .unwrap_err();
        same!("error of positioned bytes", e.position, off + n);
        let e = (skip!(units), combine::token('?')).easy_parse(s).map(|_| ()).unwrap_err();
        same!("translated error of a string", e.map_position(|p| p.translate_position(s)).position, units);
        let e = (skip!(n), combine::token(b'?')).easy_parse(b).map(|_| ()).unwrap_err();
        same!("translated error of bytes", e.map_position(|p| p.translate_position(b)).position, n);
        let e = (combine::count_min_max::<combine::parser::repeat::Sink, _, _>(n, n, combine::any()), combine::token(b'?'))
            .easy_parse(position::Stream::with_positioner(b, start))
            .map(|_| ())
            .unwrap_err();
        same!("error of bytes with lines", e.position, want);
        // a span from the start to the end of what was consumed
        let mut sp = combine::stream::span::Stream::<_, easy::Errors<char, &str, combine::stream::span::Span<SourcePosition>>>::from(
            position::Stream::with_positioner(s, start),
        );
        let r = (skip!(units), combine::token('?')).parse_stream(&mut sp);
        if let combine::error::ParseResult::CommitErr(e) = r {
            same!("error of a span stream", e.position, combine::stream::span::Span { start: want, end: want });
        } else if n > 0 {
            return Err("the span stream does not fail committed".into());
        }
        let mut sp = combine::stream::span::Stream::<_, easy::Errors<char, &str, combine::stream::span::Span<SourcePosition>>>::from(
            position::Stream::with_positioner(s, start),
        );
        let r = combine::parser::combinator::spanned((skip!(units), combine::token('?')).map(|_| ())).parse_stream(&mut sp);
        match r {
            // from where the parser started to where it stopped reading: before or after the wrong token
            combine::error::ParseResult::CommitErr(e) | combine::error::ParseResult::PeekErr(combine::error::Tracked { error: e, .. }) => {
                let mut past = want;
                match inp.get(n) {
                    Some(b'\n') => {
                        past.line += 1;
                        past.column = 1
                    }
                    Some(_) => past.column += 1,
                    None => {}
                }
                same!("start of spanned", e.position.start, start);
                if e.position.end != past {
                    same!("end of spanned", e.position.end, want);
                }
            }
            _ => return Err("spanned does not fail".into()),
        }
        Ok(())
    });
    t.evals += 1;
    t.hit("error_positions");
    t.saw(&(&inp, n, how));
    if let Ok(Err(e)) | Err(e) = res {
        t.violation(format!("{:?}, prefix of {} consumed in way {}, start {:?} / {}: {}", text, n, how, start, off, e));
    }
}

fn main() {
    let ctx = Ctx::new("C08");
    let kinds: Vec<(&'static str, Ops)> = list![ops;
        S8, Str, ES8, EStr, SliceStream<'static, u8>, PIdx<S8>, PSrc<Str>, easy::Stream<PIdx<S8>>,
        easy::Stream<PSrc<Str>>, CompleteStream<S8>, MaybePartialStream<EStr>, state::Stream<S8, u32>,
        easy::Stream<SliceStream<'static, u8>>, PIdx<SliceStream<'static, u8>>, SpanStr, SpanS8, &'static [char],
        easy::Stream<&'static [char]>, &'static mut S8, &'static mut EStr,
    ];
    // IndexPositioner over &str counts ranges in bytes (see known_findings.txt): tokens only
    let toks: Vec<(&'static str, Ops)> = list![tok_ops; PIdx<Str>, BufIter, BufIterPlain, BufChars, BufRead, BufReadPlain, PSrc<S8>, easy::Stream<PSrc<S8>>];
    let parses: Vec<(&'static str, Parse)> = list![parse; Str, PIdx<S8>, PSrc<Str>, easy::Stream<PSrc<Str>>, &'static [char], easy::Stream<PIdx<S8>>, SpanS8];
    let tparses: Vec<(&'static str, Parse)> = list![tok_parse; BufIter, BufChars, BufRead];
    let cfg = Cfg::new(true);
    let plain = Cfg::new(false);
    ctx.par("ops", 400_000, 15_000_000, (10, 300), |r, _, t| on_ops(&kinds, true, r, t));
    ctx.par("token-ops", 200_000, 6_000_000, (8, 200), |r, _, t| on_ops(&toks, false, r, t));
    ctx.par("grammars", 200_000, 8_000_000, (12, 300), |r, _, t| on_grammar(&parses, &cfg, r, t));
    ctx.par("token-grammars", 100_000, 4_000_000, (8, 200), |r, _, t| on_grammar(&tparses, &plain, r, t));
    ctx.par("long-ops", 40_000, 1_500_000, (8, 150), |r, _, t| {
        r.big = 3;
        on_ops(&kinds, true, r, t)
    });
    ctx.par("long-token-ops", 20_000, 600_000, (6, 150), |r, _, t| {
        r.big = 3;
        on_ops(&toks, false, r, t)
    });
    ctx.par("huge-ops", 400, 10_000, (8, 120), |r, c, t| {
        r.big = 2;
        if c % 2 == 0 {
            on_ops(&kinds, true, r, t)
        } else {
            on_ops(&toks, false, r, t)
        }
    });
    let (long, long_plain) = (cfg.clone().counted(), plain.clone().counted());
    ctx.par("long-grammars", 15_000, 500_000, (10, 150), |r, _, t| {
        r.big = 3;
        on_grammar(&parses, &long, r, t)
    });
    ctx.par("long-token-grammars", 10_000, 400_000, (8, 150), |r, _, t| {
        r.big = 3;
        on_grammar(&tparses, &long_plain, r, t)
    });
    ctx.par("long-errors", 20_000, 600_000, (6, 120), |r, _, t| {
        r.big = 3;
        errors(r, t)
    });
    ctx.par("huge-errors", 300, 8_000, (6, 100), |r, _, t| {
        r.big = 2;
        errors(r, t)
    });
    ctx.par("errors", 200_000, 6_000_000, (8, 200), |r, _, t| errors(r, t));
    let mut min: Vec<(&str, u64)> = kinds.iter().chain(&toks).map(|k| (k.0, 1_000)).collect();
    min.extend([("evaluations", 100_000), ("positions_checked", 1_000_000), ("resets", 100_000), ("ranges", 100_000), ("error_positions", 10_000)]);
    ctx.finish("random operations or a random grammar on a random positioned stream, the position after every stream operation compared with the position of the consumed prefix; positions in errors, spans and of position() after a prefix consumed in different ways from any start; distinct: (operations or grammar, input, stream type)", &min)
}
