//! C04: a codec loop around `decode`/`decode_tokio` against the messages of the whole input.
use combine::error::ParseError;
use combine::stream::{decode, decode_tokio, MaybePartialStream};
use vcore::{build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*, sources::*};

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Msg(V, usize),
    /// a parse error
    Err,
    /// the end of the stream of messages
    End,
}

#[derive(Default, Debug)]
struct Stats {
    calls: u64,
    more: u64,
    removed_before_more: u64,
    /// The last error was the unexpected end of the input
    eoi: bool,
}

/// What a codec sees: every part is appended to its buffer; it is asked for messages until it wants more input.
fn codec<I: Chunked>(g: &G, inp: &[u8], cuts: &[usize], tokio: bool, max: usize, s: &mut Stats) -> Result<Vec<Ev>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        let mut p = build::<I>(g);
        let mut st = St::default();
        let mut out = vec![];
        // start of the buffer, in tokens
        let mut pos = 0;
        mon::start(fuel(inp));
        for k in 0..=cuts.len() {
            let last = k == cuts.len();
            let end = if last { inp.len() } else { cuts[k] };
            loop {
                if out.len() == max {
                    return out;
                }
                s.calls += 1;
                let eoi = &mut s.eoi;
                let r = I::chunk(inp, pos, end, last, |i| {
                    if tokio {
                        decode_tokio(&mut p, i, &mut st).map_err(|e| *eoi = ParseError::is_unexpected_end_of_input(&e))
                    } else {
                        decode(&mut p, i, &mut st).map_err(|e| *eoi = ParseError::is_unexpected_end_of_input(&e))
                    }
                });
                let toks = |n: usize| {
                    let (mut i, mut left) = (pos, n);
                    while left > 0 {
                        assert!(i < end, "{} are to be removed but only {} tokens were available", n, end - pos);
                        let w = I::width(inp[i]);
                        assert!(w <= left, "part of a character is to be removed");
                        left -= w;
                        i += 1;
                    }
                    i
                };
                match r {
                    Ok((Some(v), n)) => {
                        pos = toks(n);
                        out.push(Ev::Msg(v, pos))
                    }
                    Ok((None, n)) => {
                        if last {
                            assert!(tokio, "decode wants more than the whole input");
                            assert!(n == 0, "decode_tokio removes {} at the end", n);
                            assert!(pos == end, "decode_tokio reports the end but {} tokens are left", end - pos);
                            out.push(Ev::End);
                            return out;
                        }
                        s.more += 1;
                        s.removed_before_more += (n > 0) as u64;
                        pos = toks(n);
                        break;
                    }
                    Err(()) => {
                        out.push(Ev::Err);
                        return out;
                    }
                }
            }
        }
        unreachable!()
    })
}

fn want<I: Chunked>(g: &G, inp: &[u8], tokio: bool, max: usize) -> Option<Vec<Ev>>
where
    I::Token: Tk,
    I::Position: Default,
{
    let mut out = vec![];
    let mut pos = 0;
    while out.len() < max {
        let m = Model::new(&inp[pos..], I::width);
        let e = m.ev(g, 0);
        if m.out_of_fuel.get() || m.taint.get() {
            return None;
        }
        match e {
            R::Ok(v, n, _) => {
                pos += n;
                out.push(Ev::Msg(v, pos));
                continue;
            }
            _ if tokio && pos == inp.len() => {
                // Nothing is left: the end, unless the parser fails for another reason than that
                let fresh = codec::<I>(g, &[], &[], true, 1, &mut Stats::default()).ok()?;
                // A parser which fails whatever comes may say so when it sees that nothing has come so far
                if codec::<I>(g, &[], &[0], true, 1, &mut Stats::default()).ok()? != fresh {
                    return None;
                }
                out.push(fresh[0].clone())
            }
            _ => out.push(Ev::Err),
        }
        break;
    }
    Some(out)
}

/// Is `got` what is `want`ed? When a message is cut short by the end of the input and all of its bytes had been
/// taken before, decode_tokio sees an empty input at its end, which it takes (as is documented) for the end.
fn agrees<I: Chunked>(g: &G, inp: &[u8], tokio: bool, max: usize, got: &Result<Vec<Ev>, String>, want: &[Ev]) -> bool
where
    I::Token: Tk,
    I::Position: Default,
{
    let got = match got {
        Ok(x) => x,
        Err(_) => return false,
    };
    if got == want {
        return true;
    }
    let n = want.len() - 1;
    if !(tokio && got.len() == want.len() && got[..n] == want[..n] && got[n] == Ev::End && want[n] == Ev::Err) {
        return false;
    }
    // the end must be the reason
    let mut s = Stats::default();
    let _ = codec::<I>(g, inp, &[], true, max, &mut s);
    s.eoi
}

fn case<I: Chunked>(name: &str, cfg: &Cfg, many: bool, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, false);
    let tokio = r.chance(1, 2);
    for _ in 0..3 {
        let mut inp = vec![];
        for _ in 0..r.range(1, 4) {
            inp.extend(input_for(&g, r, 16));
        }
        let max = r.range(1, if many { 400 } else { 6 });
        if many {
            // the same messages again and again, mostly as they should be
            let once = inp.clone();
            for _ in 0..r.range(10, 300) {
                if r.chance(2, 3) {
                    vcore::grammar::message(&g, r, &mut inp)
                } else {
                    inp.extend(&once)
                }
            }
            inp.truncate(1_000);
        }
        let e = match want::<I>(&g, &inp, tokio, max) {
            None => {
                t.hit("excluded");
                continue;
            }
            Some(e) => e,
        };
        let all = |n: usize| (0..=n).collect::<Vec<usize>>();
        let cuts: Vec<usize> = match r.below(4) {
            0 | 1 if r.big == 0 || inp.len() < 300 => all(inp.len()),
            2 => vec![inp.len()],
            _ => vcore::grammar::cuts(r, inp.len(), 3),
        };
        let mut s = Stats::default();
        let got = codec::<I>(&g, &inp, &cuts, tokio, max, &mut s);
        t.evals += 1;
        t.add("decode_calls", s.calls);
        t.add("needed_more", s.more);
        t.add("removed_before_more", s.removed_before_more);
        for e in &e {
            t.hit(match e {
                Ev::Msg(..) => "messages",
                Ev::Err => "parse_errors",
                Ev::End => "ends",
            })
        }
        if s.more > 0 {
            t.saw(&(format!("{:?}", g), &inp, &cuts, tokio, name));
        }
        t.sample(|| format!("{}: {:?} on {:?} cut at {:?}: {:?}", name, g, lossy(&inp), cuts, got));
        if !agrees::<I>(&g, &inp, tokio, max, &got, &e) {
            let mut f = |g: &G, i: &[u8]| match want::<I>(g, i, tokio, max) {
                None => false,
                Some(e) => {
                    let c: Vec<usize> = cuts.iter().cloned().filter(|c| *c <= i.len()).collect();
                    !agrees::<I>(g, i, tokio, max, &codec::<I>(g, i, &c, tokio, max, &mut Stats::default()), &e)
                }
            };
            let (g2, i2) = shrink(&g, &inp, &mut f);
            let c2: Vec<usize> = cuts.iter().cloned().filter(|c| *c <= i2.len()).collect();
            t.violation(format!(
                "{} {}: {:?} on {:?} arriving in parts cut at {:?}: the messages are {:?} but should be {:?}",
                name,
                if tokio { "decode_tokio" } else { "decode" },
                g2,
                lossy(&i2),
                c2,
                codec::<I>(&g2, &i2, &c2, tokio, max, &mut Stats::default()),
                want::<I>(&g2, &i2, tokio, max)
            ));
            return;
        }
    }
}

fn main() {
    let ctx = Ctx::new("C04");
    let cfg = Cfg::new(true);
    ctx.par("bytes", 100_000, 6_000_000, (20, 300), |r, _, t| case::<MaybePartialStream<Mon<S8>>>("bytes", &cfg, false, r, t));
    ctx.par("text", 50_000, 3_000_000, (10, 200), |r, _, t| case::<MaybePartialStream<Mon<Str>>>("text", &cfg, false, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-bytes", 20_000, 800_000, (12, 200), |r, _, t| {
        r.big = 1;
        case::<MaybePartialStream<Mon<S8>>>("bytes", &long, false, r, t)
    });
    ctx.par("long-text", 20_000, 800_000, (10, 200), |r, _, t| {
        r.big = 1;
        case::<MaybePartialStream<Mon<Str>>>("text", &long, false, r, t)
    });
    // (the values of chains are as deep as the chain is long)
    let flat = cfg.clone().without(&["chainl1", "chainr1"]);
    ctx.par("many", 8_000, 300_000, (10, 150), |r, c, t| match c % 3 {
        0 => case::<MaybePartialStream<Mon<S8>>>("bytes", &flat, true, r, t),
        1 => case::<MaybePartialStream<Mon<Str>>>("text", &flat, true, r, t),
        _ => case::<PSrc<Part<Str>>>("position", &flat, true, r, t),
    });
    ctx.par("easy", 30_000, 1_000_000, (10, 200), |r, _, t| case::<combine::easy::Stream<Part<S8>>>("easy", &cfg, false, r, t));
    ctx.par("position", 30_000, 1_000_000, (10, 200), |r, _, t| case::<PSrc<Part<Str>>>("position", &cfg, false, r, t));
    ctx.finish("several messages of a random grammar, decoded by a codec loop from a buffer to which random parts are appended, against the messages the reference semantics cuts out of the whole input; non-trivial: more input was needed at least once; distinct: (grammar, input, partition, function, stream type)",
        &[("evaluations", 40_000), ("needed_more", 50_000), ("removed_before_more", 10_000), ("messages", 40_000), ("ends", 3_000), ("parse_errors", 5_000)])
}
