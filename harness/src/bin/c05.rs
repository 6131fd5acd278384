//! C05: one parser value and one partial state, used over and over.
use combine::error::ParseResult;
use combine::stream::MaybePartialStream;
use combine::Parser;
use vcore::{build::*, drive::*, grammar::*, model::*, mon, mon::Mon, rng::Rng, run::*};

fn outcome<O>(r: ParseResult<V, O>, pos: usize) -> R {
    match r {
        ParseResult::CommitOk(v) => R::Ok(v, pos, true),
        ParseResult::PeekOk(v) => R::Ok(v, pos, false),
        ParseResult::CommitErr(_) => R::Commit,
        ParseResult::PeekErr(_) => R::Peek,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    /// `parse_stream`: a state of its own
    Whole,
    /// `parse_stream_partial` with the shared state
    Shared,
    /// `parse_lazy`
    Lazy,
    /// Start a partial parse on the first half of the input and forget about it
    Abandon,
}

/// Runs a history of uses on one parser value, returns what each gave (None for an abandoned one).
fn history<I: Source>(g: &G, hist: &[(Use, Vec<u8>)]) -> Result<Vec<Option<R>>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        let mut p = build::<I>(g);
        let mut st = St::default();
        let mut out = vec![];
        mon::start(FUEL * 100);
        for (u, inp) in hist {
            let r = I::with(inp, |mut i| {
                let r = match u {
                    Use::Whole => p.parse_stream(&mut i),
                    Use::Shared => p.parse_stream_partial(&mut i, &mut st),
                    Use::Lazy => p.parse_lazy(&mut i),
                    Use::Abandon => {
                        let _ = p.parse_stream_partial(&mut i, &mut St::default());
                        return None;
                    }
                };
                let pos = inp.len() - left(&mut i);
                Some(outcome(r, pos))
            });
            if r == Some(R::Commit) && *u == Use::Shared {
                // nothing is promised about the state of a parser that failed after consuming input
                st = St::default();
            }
            out.push(r)
        }
        out
    })
}

fn reuse<I: Source>(cfg: &Cfg, name: &str, width: fn(u8) -> usize, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let n = r.range(2, 8);
    let mut hist: Vec<(Use, Vec<u8>)> = vec![];
    for _ in 0..n {
        let u = *r.pick(&[Use::Shared, Use::Shared, Use::Shared, Use::Whole, Use::Lazy, Use::Abandon]);
        let mut i = input_for(&g, r, 20);
        if u == Use::Abandon {
            let k = r.below(i.len() + 1);
            i.truncate(k)
        }
        hist.push((u, i));
    }
    let want = |g: &G, h: &[(Use, Vec<u8>)]| -> Option<Vec<Option<R>>> {
        h.iter()
            .map(|(u, i)| if *u == Use::Abandon { Some(None) } else { expect(g, i, width).map(Some) })
            .collect()
    };
    let w = match want(&g, &hist) {
        Some(w) => w,
        None => return,
    };
    let bad = |g: &G, h: &[(Use, Vec<u8>)]| match want(g, h) {
        None => false,
        Some(w) => history::<I>(g, h).as_ref() != Ok(&w),
    };
    t.evals += 1;
    t.add("uses", n as u64);
    for (x, (u, _)) in w.iter().zip(&hist) {
        t.hit(match x {
            None => "abandoned",
            Some(R::Ok(..)) => "ok",
            Some(R::Peek) if *u == Use::Shared => "peek_failure_shared_state",
            Some(R::Peek) => "peek_failure",
            Some(R::Commit) => "commit_failure",
        })
    }
    t.saw(&(format!("{:?}", g), format!("{:?}", hist)));
    t.sample(|| format!("{}: {:?} used as {:?} -> {:?}", name, g, hist, w));
    if bad(&g, &hist) {
        let (mut g, mut hist) = (g, hist);
        loop {
            let mut again = false;
            for i in 0..hist.len() {
                let mut h = hist.clone();
                h.remove(i);
                if bad(&g, &h) {
                    hist = h;
                    again = true;
                    break;
                }
                for k in 0..hist[i].1.len() {
                    let mut h = hist.clone();
                    h[i].1.remove(k);
                    if bad(&g, &h) {
                        hist = h;
                        again = true;
                        break;
                    }
                }
                if again {
                    break;
                }
            }
            if !again {
                let h = hist.clone();
                let (g2, _) = shrink(&g, &[], &mut |g, _| bad(g, &h));
                if g2 == g {
                    break;
                }
                g = g2;
            }
        }
        t.violation(format!(
            "{}: {:?} used as {:?}: fresh parsers give {:?}, the reused one gave {:?}",
            name,
            g,
            hist.iter().map(|(u, i)| format!("{:?} on {:?}", u, lossy(i))).collect::<Vec<_>>(),
            want(&g, &hist),
            history::<I>(&g, &hist)
        ));
    }
}

/// Successive decodes (in parts) with one parser and one state.
fn chunks<I: Chunked>(g: &G, hist: &[(Vec<u8>, Vec<usize>)]) -> Result<Vec<Option<(V, usize)>>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        let mut p = build::<I>(g);
        let mut st = St::default();
        let mut out = vec![];
        mon::start(FUEL * 100);
        for (inp, cuts) in hist {
            let mut pos = 0;
            let mut k = 0;
            let r = loop {
                let last = k == cuts.len();
                let end = if last { inp.len() } else { cuts[k] };
                let r = I::chunk(inp, pos, end, last, |i| combine::stream::decode(&mut p, i, &mut st).map_err(|_| ()));
                let toks = |n: usize| {
                    let (mut i, mut left) = (pos, n);
                    while left > 0 {
                        left -= I::width(inp[i]);
                        i += 1;
                    }
                    i
                };
                match r {
                    Ok((Some(v), n)) => break Some((v, toks(n))),
                    Ok((None, n)) => {
                        pos = toks(n);
                        k += 1;
                    }
                    Err(()) => {
                        st = St::default();
                        break None;
                    }
                }
            };
            out.push(r)
        }
        out
    })
}

fn rechunk<I: Chunked>(cfg: &Cfg, name: &str, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let mut hist = vec![];
    for _ in 0..r.range(2, 5) {
        let i = input_for(&g, r, 16);
        let c: Vec<usize> = vcore::grammar::cuts(r, i.len(), 2);
        hist.push((i, c));
    }
    let want = |g: &G, h: &[(Vec<u8>, Vec<usize>)]| -> Option<Vec<Option<(V, usize)>>> {
        h.iter()
            .map(|(i, _)| {
                let m = Model::new(i, I::width);
                let e = m.ev(g, 0);
                if m.out_of_fuel.get() || m.taint.get() {
                    return None;
                }
                Some(match e {
                    R::Ok(v, p, _) => Some((v, p)),
                    _ => None,
                })
            })
            .collect()
    };
    let bad = |g: &G, h: &[(Vec<u8>, Vec<usize>)]| match want(g, h) {
        None => false,
        Some(w) => chunks::<I>(g, h).as_ref() != Ok(&w),
    };
    let w = match want(&g, &hist) {
        Some(w) => w,
        None => return,
    };
    t.evals += 1;
    t.hit("resumed_histories");
    t.add("uses", hist.len() as u64);
    t.saw(&(format!("{:?}", g), format!("{:?}", hist)));
    if bad(&g, &hist) {
        let mut hist = hist;
        let mut j = 0;
        while j < hist.len() {
            let mut h = hist.clone();
            h.remove(j);
            if bad(&g, &h) {
                hist = h
            } else {
                j += 1
            }
        }
        let h = hist.clone();
        let (g, _) = shrink(&g, &[], &mut |g, _| bad(g, &h));
        t.violation(format!(
            "{}: {:?} decoded in turn {:?} (input, cuts) with one state: expected {:?}, got {:?}",
            name, g, hist.iter().map(|(i, c)| (lossy(i), c)).collect::<Vec<_>>(), want(&g, &hist), chunks::<I>(&g, &hist)
        ));
    }
    let _ = w;
}

/// `iter`, `partial_iter` against parsing one after the other
fn iterate<I: Source>(cfg: &Cfg, name: &str, width: fn(u8) -> usize, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, true);
    let mut inp = vec![];
    for _ in 0..r.range(0, 4) {
        inp.extend(input_for(&g, r, 12))
    }
    let m = Model::new(&inp, width);
    let (mut pos, mut vals, mut c) = (0, vec![], false);
    let err = loop {
        match m.ev(&g, pos) {
            R::Ok(v, q, k) => {
                c |= k;
                vals.push(v);
                pos = q;
            }
            e => break e == R::Commit,
        }
    };
    if m.out_of_fuel.get() {
        return;
    }
    // None: failed after consuming
    let want = (vals, if err { None } else { Some((pos, c)) });
    let partial = r.chance(1, 2);
    let got = guard(|| {
        I::with(&inp, |mut i| {
            let mut p = build::<I>(&g);
            mon::start(FUEL * 100);
            let mut vals = vec![];
            let mut st = St::default();
            let res = if partial {
                let mut it = p.partial_iter(combine::parser::PartialMode::default(), &mut i, &mut st);
                vals.extend(it.by_ref());
                it.into_result(())
            } else {
                let mut it = p.iter(&mut i);
                vals.extend(it.by_ref());
                it.into_result(())
            };
            let n = inp.len() - left(&mut i);
            (vals, res.ok().map(|((), c)| (n, matches!(c, combine::error::Commit::Commit(_)))))
        })
    });
    t.evals += 1;
    t.hit(if partial { "partial_iter" } else { "iter" });
    t.add("iter_items", want.0.len() as u64);
    t.saw(&(format!("{:?}", g), &inp, name, "iter"));
    if got.as_ref() != Ok(&want) {
        t.violation(format!(
            "{}: iterating {:?} over {:?} (partial: {}) gives {:?}, one parse after the other {:?}",
            name, g, lossy(&inp), partial, got, want
        ));
    }
}

fn main() {
    let ctx = Ctx::new("C05");
    let cfg = Cfg::new(true);
    let w1: fn(u8) -> usize = |_| 1;
    let wt: fn(u8) -> usize = <char as Tk>::width;
    ctx.par("bytes", 60_000, 3_000_000, (14, 400), |r, _, t| reuse::<Mon<S8>>(&cfg, "bytes", w1, r, t));
    ctx.par("text", 30_000, 1_500_000, (8, 300), |r, _, t| reuse::<Mon<Str>>(&cfg, "text", wt, r, t));
    ctx.par("chunks", 60_000, 3_000_000, (14, 400), |r, _, t| rechunk::<MaybePartialStream<Mon<S8>>>(&cfg, "bytes", r, t));
    let long = cfg.clone().counted();
    ctx.par("long", 15_000, 600_000, (10, 200), |r, _, t| {
        r.big = 1;
        reuse::<Mon<S8>>(&long, "bytes", w1, r, t)
    });
    ctx.par("long-chunks", 15_000, 600_000, (10, 200), |r, _, t| {
        r.big = 1;
        rechunk::<MaybePartialStream<Mon<S8>>>(&long, "bytes", r, t)
    });
    ctx.par("long-iter", 15_000, 600_000, (6, 150), |r, _, t| {
        r.big = 1;
        iterate::<Mon<Str>>(&long, "text", wt, r, t)
    });
    ctx.par("iter", 60_000, 2_000_000, (8, 200), |r, _, t| iterate::<Mon<S8>>(&cfg, "bytes", w1, r, t));
    ctx.par("iter-text", 30_000, 1_000_000, (6, 200), |r, _, t| iterate::<Mon<Str>>(&cfg, "text", wt, r, t));
    ctx.finish(
        "a random grammar built once and used in a random history (fresh state, shared state, lazily, abandoned half way, decoded in parts, iterated), every use against the reference semantics of that use alone; distinct: (grammar, history)",
        &[("evaluations", 30_000), ("peek_failure_shared_state", 3_000), ("commit_failure", 3_000), ("abandoned", 3_000), ("resumed_histories", 10_000), ("iter", 5_000), ("partial_iter", 5_000)],
    )
}
