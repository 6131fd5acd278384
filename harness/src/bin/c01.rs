//! C01: combinators against the reference semantics.
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*};

fn case<I: Source>(name: &str, width: fn(u8) -> usize, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = if r.big > 0 { r.range(1, 3) } else { r.range(1, 4) };
    let g = gen(r, cfg, d, false);
    for _ in 0..4 {
        let inp = input_for(&g, r, [30, 1500, 140_000][r.big as usize]);
        if inp.len() > 255 {
            t.hit("inputs_of_256_or_more")
        }
        if inp.len() > 65535 {
            t.hit("inputs_of_65536_or_more")
        }
        let e = match expect(&g, &inp, width) {
            Some(e) => e,
            None => {
                t.hit("model_out_of_fuel");
                continue;
            }
        };
        let a = observe::<I>(&g, &inp);
        t.evals += 1;
        let ev = mon::events();
        t.add("stream_uncons", ev.uncons);
        t.add("stream_resets", ev.resets);
        match &e {
            R::Ok(_, _, true) => t.hit("ok_committed"),
            R::Ok(_, _, false) => t.hit("ok_peeked"),
            R::Peek => t.hit("failed_peeked"),
            R::Commit => t.hit("failed_committed"),
        }
        if ev.uncons + ev.ranges + ev.whiles > 0 {
            t.saw(&(format!("{:?}", g), &inp, name));
        }
        t.sample(|| format!("{}: {:?} on {:?} -> {:?}", name, g, lossy(&inp), a));
        if a.as_ref() != Ok(&e) {
            let (g, inp) = shrink(&g, &inp, &mut |g, i| expect(g, i, width).map_or(false, |e| observe::<I>(g, i).as_ref() != Ok(&e)));
            t.violation(format!(
                "{}: {:?} on {:?}: specified {:?}, observed {:?}",
                name, g, lossy(&inp), expect(&g, &inp, width), observe::<I>(&g, &inp)
            ));
            return;
        }
    }
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
}

/// from_str: the value of what its parser matched, or a failure which commits if that consumed anything
fn from_str(r: &mut Rng, t: &mut Tally) {
    const BITS: [&str; 24] = ["0", "1", "9", "255", "256", "-", "+", ".", "e", "E3", "true", "false", "inf", "NaN", "é", "a", " ", "127", "-128", "\u{1d11e}", "65536", "_", "0x", "00"];
    let mut m: Vec<u8> = vec![];
    for _ in 0..r.below(5) {
        m.extend(r.pick(&BITS).bytes())
    }
    let form = r.below(6);
    let text = form < 2;
    if !text && r.chance(1, 6) {
        let i = r.below(m.len() + 1);
        m.insert(i, *r.pick(&[0xff, 0xc3, 0x80]))
    }
    let rest = if r.chance(1, 3) { "" } else { ";1" };
    let ty = r.below(7);
    let mut inp = m.clone();
    inp.extend(rest.bytes());
    type See = (Option<String>, bool, Option<usize>);
    fn value<T: std::str::FromStr + std::fmt::Debug>(m: &[u8]) -> Option<String> {
        std::str::from_utf8(m).ok()?.parse::<T>().ok().map(|v| format!("{:?}", v))
    }
    macro_rules! types {
        ($f: ident, $($a: expr),*) => {
            match ty {
                0 => $f::<i64>($($a),*),
                1 => $f::<u8>($($a),*),
                2 => $f::<f64>($($a),*),
                3 => $f::<char>($($a),*),
                4 => $f::<bool>($($a),*),
                5 => $f::<String>($($a),*),
                _ => $f::<i8>($($a),*),
            }
        };
    }
    let v = types!(value, &m);
    // those of these parsers which want at least one token fail before from_str comes to it
    let one = [0, 3, 4].contains(&form);
    let e: See = if one && m.is_empty() {
        (None, false, None)
    } else {
        (v.clone(), !m.is_empty(), v.map(|_| rest.len()))
    };
    fn run<I: combine::RangeStream, P: combine::Parser<I>>(mut i: I, mut p: P, left: fn(&I) -> usize) -> See
    where
        P::Output: std::fmt::Debug,
    {
        use combine::error::ParseResult::*;
        mon::start(FUEL);
        match p.parse_stream(&mut i) {
            CommitOk(v) => (Some(format!("{:?}", v)), true, Some(left(&i))),
            PeekOk(v) => (Some(format!("{:?}", v)), false, Some(left(&i))),
            CommitErr(_) => (None, true, None),
            PeekErr(_) => (None, false, None),
        }
    }
    fn go<T: std::str::FromStr + std::fmt::Debug>(form: usize, inp: &[u8]) -> Result<See, String>
    where
        T::Err: std::fmt::Display,
    {
        use combine::{from_str, many, many1, parser::range::*, satisfy};
        guard(|| {
            if form < 2 {
                lend(std::str::from_utf8(inp).unwrap(), |s| {
                    let left: fn(&Mon<Str>) -> usize = |i| i.0.len();
                    match form {
                        0 => run(Mon(s), from_str::<_, T, _>(many1::<String, _, _>(satisfy(|c| c != ';'))), left),
                        _ => run(Mon(s), from_str::<_, T, _>(take_while(|c| c != ';')), left),
                    }
                })
            } else {
                lend(inp, |s| {
                    let left: fn(&Mon<S8>) -> usize = |i| i.0.len();
                    match form {
                        2 => run(Mon(s), from_str::<_, T, _>(many::<Vec<u8>, _, _>(satisfy(|c| c != b';'))), left),
                        3 => run(Mon(s), from_str::<_, T, _>(take_while1(|c| c != b';')), left),
                        4 => run(Mon(s), from_str::<_, T, _>(recognize(combine::skip_many1(satisfy(|c| c != b';')))), left),
                        _ => run(Mon(s), from_str::<_, T, _>(take_while(|c| c != b';')), left),
                    }
                })
            }
        })
    }
    let a = types!(go, form, &inp);
    t.evals += 1;
    t.hit(if e.0.is_some() { "from_str_ok" } else { "from_str_failed" });
    t.saw(&("from_str", form, ty, &inp));
    if a.as_ref() != Ok(&e) {
        t.violation(format!("from_str ({}, type {}) on {:?}: (value, committed, left) should be {:?} but is {:?}", form, ty, lossy(&inp), e, a));
    }
}

fn main() {
    let ctx = Ctx::new("C01");
    let cfg = Cfg::new(true);
    ctx.par("bytes", 300_000, 12_000_000, (14, 400), |r, _, t| case::<Mon<S8>>("bytes", |_| 1, &cfg, r, t));
    ctx.par("text", 150_000, 8_000_000, (10, 300), |r, _, t| case::<Mon<Str>>("text", <char as Tk>::width, &cfg, r, t));
    // repetitions, literals, tuples and choices which are much larger
    let mut long = Cfg::new(true);
    long.inner.extend(COUNTED);
    ctx.par("long-bytes", 20_000, 800_000, (12, 250), |r, _, t| {
        r.big = 1;
        case::<Mon<S8>>("bytes", |_| 1, &long, r, t)
    });
    ctx.par("long-text", 10_000, 400_000, (10, 200), |r, _, t| {
        r.big = 1;
        case::<Mon<Str>>("text", <char as Tk>::width, &long, r, t)
    });
    // the values of chains are as deep as the chain is long
    let huge = long.clone().without(&["chainl1", "chainr1"]);
    ctx.par("huge", 300, 10_000, (15, 250), |r, _, t| {
        r.big = 2;
        case::<Mon<S8>>("bytes", |_| 1, &huge, r, t)
    });
    ctx.par("from_str", 100_000, 3_000_000, (5, 60), |r, _, t| from_str(r, t));
    let mut min = vec![("from_str_ok", 5_000), ("from_str_failed", 5_000), ("evaluations", 50_000), ("ok_committed", 5_000), ("failed_committed", 5_000), ("failed_peeked", 5_000), ("stream_resets", 10_000), ("inputs_of_256_or_more", 5_000), ("inputs_of_65536_or_more", 100)];
    let names: Vec<String> = KINDS.iter().map(|k| format!("node.{}", k)).collect();
    min.extend(names.iter().map(|n| (&n[..], 100)));
    ctx.finish("a random grammar of up to ~70 kinds of combinators (depth 1-4) with random and grammar-directed inputs; non-trivial: the parser read the stream; distinct: (grammar, input, stream type)", &min)
}
