//! C16: the ledger of values, with panics and abandoned parses; also run under ASan and Miri.
use combine::error::ParseResult;
use combine::parser::{FirstMode, PartialMode};
use combine::stream::position::{self, IndexPositioner};
use combine::stream::{buffered, easy, IteratorStream, MaybePartialStream, RangeStreamOnce, SliceStream};
use combine::{Parser, StreamOnce};
use vcore::{build::*, drive::*, grammar::*, ledger::{self, D}, mon, mon::Mon, rng::Rng, run::*};

#[global_allocator]
static A: vcore::alloc::Counting = vcore::alloc::Counting;

type SD = &'static [D];
type It = IteratorStream<std::vec::IntoIter<D>>;
type BufD = buffered::Stream<position::Stream<It, IndexPositioner>>;
type BufED = buffered::Stream<easy::Stream<position::Stream<It, IndexPositioner>>>;
type ESD = easy::Stream<position::Stream<SD, IndexPositioner>>;


fn ds(b: &[u8]) -> Vec<D> {
    b.iter().map(|b| D::new(*b)).collect()
}

/// A stream over a part of the input
trait Part: Inp
where
    Self::Token: Tk,
    Self::Position: Default,
{
    fn part<O: 'static>(inp: &[u8], last: bool, ahead: usize, f: impl FnOnce(&mut Self) -> O) -> O;
}

impl Part for MaybePartialStream<Mon<S8>> {
    fn part<O: 'static>(inp: &[u8], last: bool, _: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        // an allocation of exactly this size, so that the sanitizers know its end
        let v: Box<[u8]> = inp.into();
        lend(&v[..], |s| f(&mut MaybePartialStream(Mon(s), !last)))
    }
}
impl Part for MaybePartialStream<Mon<Str>> {
    fn part<O: 'static>(inp: &[u8], last: bool, _: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        let v: Box<str> = to_text(inp).into();
        lend(&v[..], |s| f(&mut MaybePartialStream(Mon(s), !last)))
    }
}
impl Part for MaybePartialStream<Mon<SD>> {
    fn part<O: 'static>(inp: &[u8], last: bool, _: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        let v = ds(inp).into_boxed_slice();
        lend(&v[..], |s| f(&mut MaybePartialStream(Mon(s), !last)))
    }
}
impl Part for MaybePartialStream<Mon<ESD>> {
    fn part<O: 'static>(inp: &[u8], last: bool, _: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        let v = ds(inp).into_boxed_slice();
        lend(&v[..], |s| f(&mut MaybePartialStream(Mon(easy::Stream(position::Stream::new(s))), !last)))
    }
}
impl Part for BufD {
    fn part<O: 'static>(inp: &[u8], _: bool, ahead: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        f(&mut buffered::Stream::new(position::Stream::new(IteratorStream::new(ds(inp).into_iter())), ahead))
    }
}
impl Part for BufED {
    fn part<O: 'static>(inp: &[u8], _: bool, ahead: usize, f: impl FnOnce(&mut Self) -> O) -> O {
        f(&mut buffered::Stream::new(easy::Stream(position::Stream::new(IteratorStream::new(ds(inp).into_iter()))), ahead))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Decode,
    Partial,
    Whole,
    Lazy,
    /// modes whatever the history of the state is
    First,
    Resume,
}

#[derive(Clone, Debug)]
struct Step {
    how: How,
    from: usize,
    to: usize,
    last: bool,
    ahead: usize,
    panic_in: Option<u64>,
    fuel: u64,
    keep_state: bool,
}

#[derive(Default, Clone, Debug)]
struct Seen {
    ok: u64,
    more: u64,
    err: u64,
    panics: u64,
    refusals: u64,
    made: u64,
    events: u64,
    returned: u64,
    live_in_state: u64,
}

/// Runs the steps with one parser and one state; what the ledger found wrong
fn episode<I: Part>(g: &G, inp: &[u8], steps: &[Step], seen: &mut Seen) -> Result<(), String>
where
    I::Token: Tk,
    I::Position: Default,
{
    ledger::start(None);
    let r = (|| {
        let mut results: Vec<V> = Vec::new();
        let mut p = match guard(|| build::<I>(g)) {
            Ok(p) => p,
            Err(e) => return Err(format!("building: {}", e)),
        };
        let mut st = St::default();
        for s in steps {
            mon::start(s.fuel);
            ledger::set_panic(s.panic_in);
            let r = guard(|| {
                I::part(&inp[s.from..s.to], s.last, s.ahead, |i| {
                    let f = |r: ParseResult<V, _>| -> Result<Option<V>, _> { r.into_result().map(|(v, _)| Some(v)) };
                    let unit = |r: Result<Option<V>, _>| -> Result<Option<V>, ()> { r.map_err(|_| ()) };
                    match s.how {
                        How::Decode | How::Partial => unit(f(p.parse_stream_partial(i, &mut st))),
                        How::Whole => unit(f(p.parse_stream(i))),
                        How::Lazy => unit(f(p.parse_lazy(i))),
                        How::First => unit(f(p.parse_mode(FirstMode, i, &mut st))),
                        How::Resume => unit(f(p.parse_mode(PartialMode::default(), i, &mut st))),
                    }
                })
            });
            ledger::set_panic(None);
            match r {
                Ok(Ok(Some(v))) => {
                    seen.ok += 1;
                    results.push(v)
                }
                Ok(Ok(None)) => seen.more += 1,
                Ok(Err(())) => seen.err += 1,
                Err(e) => {
                    if e.contains(ledger::PANIC) || e.contains("step budget") {
                        seen.panics += 1
                    } else {
                        // the library's own assertions, when a state is used with an input it does not belong to
                        seen.refusals += 1
                    }
                }
            }
            if !s.keep_state {
                st = St::default();
            }
        }
        let kept: usize = results.iter().map(ledger::within).sum();
        seen.live_in_state += ledger::report().live.saturating_sub(kept) as u64;
        drop(st);
        drop(p);
        let l = ledger::report();
        if l.live != kept {
            return Err(format!(
                "the results hold {} values, but {} are alive after everything else was dropped ({} made, {} dropped)",
                kept, l.live, l.made, l.dropped
            ));
        }
        seen.returned += kept as u64;
        for v in &results {
            let _ = v.hash();
        }
        drop(results);
        Ok(())
    })();
    let l = ledger::report();
    ledger::stop();
    seen.made += l.made;
    seen.events += l.events;
    r?;
    if let Some(b) = l.bad.first() {
        return Err(b.clone());
    }
    if l.live != 0 {
        return Err(format!("{} values are never dropped ({} made, {} dropped)", l.live, l.made, l.dropped));
    }
    Ok(())
}

fn plan(r: &mut Rng, n: usize, chunked: bool) -> Vec<Step> {
    let k = r.range(1, 6);
    let wild = r.chance(1, 3);
    let mut steps = vec![];
    let mut from = 0;
    for j in 0..k {
        let (a, b) = if chunked && !wild {
            (from, r.range(from, n))
        } else {
            let a = r.range(0, n);
            (if r.chance(1, 2) { 0 } else { a }, r.range(a, n))
        };
        let how = if wild {
            *r.pick(&[How::Partial, How::Whole, How::Lazy, How::First, How::Resume, How::Resume])
        } else if chunked {
            How::Decode
        } else {
            *r.pick(&[How::Partial, How::Whole, How::Lazy])
        };
        steps.push(Step {
            how,
            from: a,
            to: b,
            last: if chunked && !wild { j == k - 1 } else { r.chance(1, 2) },
            ahead: if r.big > 0 { *r.pick(&[64, 255, 256, 5_000]) } else if r.chance(1, 2) { 64 } else { r.range(0, 6) },
            panic_in: if r.chance(2, 5) { Some(if r.big > 0 && r.chance(1, 2) { r.range(0, 3_000) } else { r.range(0, 60) } as u64) } else { None },
            fuel: if r.chance(1, 5) { r.range(1, 40) as u64 } else if r.big > 0 { 2_000_000 } else { 20_000 },
            keep_state: r.chance(7, 8),
        });
        // what a decode would remove is close to all that there was
        from = if r.chance(3, 4) { b } else { r.range(a, b) };
    }
    steps
}

fn case<I: Part>(cfg: &Cfg, name: &str, chunked: bool, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    let mut inp = input_for(&g, r, 24);
    if r.chance(1, 4) {
        let k = inp.len();
        inp.extend((0..r.range(8, 20)).map(|_| if k > 0 { inp[k - 1] } else { b'a' }).collect::<Vec<_>>());
    }
    let steps = plan(r, inp.len(), chunked);
    t.evals += 1;
    let mut seen = Seen::default();
    let run = |seen: &mut Seen| episode::<I>(&g, &inp, &steps, seen);
    let a = run(&mut seen);
    if !cfg!(miri) {
        // a second time, when all that the harness caches is there: not a byte may stay behind
        let n0 = vcore::alloc::net();
        let b = run(&mut Seen::default());
        let ok = b.is_ok();
        drop(b);
        let n1 = vcore::alloc::net();
        if ok && a.is_ok() && n1 != n0 {
            t.violation(format!("{}: {:?} on {:?} with {:?}: {} bytes are never freed", name, g, lossy(&inp), steps, n1 - n0));
        }
        t.hit("byte_ledgers");
    }
    for (k, n) in [
        ("ok", seen.ok),
        ("failed", seen.err),
        ("panics", seen.panics),
        ("refusals", seen.refusals),
        ("values_made", seen.made),
        ("user_calls", seen.events),
        ("values_returned", seen.returned),
        ("values_left_in_dropped_states", seen.live_in_state),
        ("steps", steps.len() as u64),
    ] {
        t.add(k, n)
    }
    t.saw(&(format!("{:?}", g), &inp, format!("{:?}", steps), name));
    t.sample(|| format!("{}: {:?} on {:?}, {} steps: {:?}", name, g, lossy(&inp), steps.len(), seen));
    if let Err(e) = a {
        let (g2, i2) = shrink(&g, &inp, &mut |g, i| {
            steps.iter().all(|s| s.to <= i.len()) && episode::<I>(g, i, &steps, &mut Seen::default()).is_err()
        });
        let e2 = episode::<I>(&g2, &i2, &steps, &mut Seen::default());
        t.violation(format!("{}: {:?} on {:?} with {:?}: {:?} (before shrinking: {})", name, g2, lossy(&i2), steps, e2, e));
    }
}

/// The scanning functions of the slice streams
fn scans(r: &mut Rng, t: &mut Tally) {
    let n = if r.chance(1, 50) { r.range(40, 700) } else { r.range(0, 40) };
    let k = if r.chance(1, 3) { n } else { r.range(0, n) };
    let one = r.chance(1, 2);
    let panic_at = if r.chance(1, 3) { Some(r.range(0, n)) } else { None };
    let bytes: Vec<u8> = (0..n).map(|i| if i < k { b'a' } else { b'b' }).collect();
    let want = if one && k == 0 { None } else { Some(k) };
    let kind = r.below(5);
    ledger::start(None);
    let got = guard(|| {
        macro_rules! scan {
            ($s: expr, $get: expr, $width: expr) => {{
                let mut s = $s;
                let mut calls = 0;
                let mut f = |x| {
                    if Some(calls) == panic_at {
                        panic!("{}", ledger::PANIC)
                    }
                    calls += 1;
                    let g: fn(_) -> bool = $get;
                    g(x)
                };
                let w: usize = $width;
                let m = if one {
                    match s.uncons_while1(&mut f) {
                        ParseResult::CommitOk(x) => Some(x.len() / w),
                        ParseResult::PeekErr(_) => None,
                        ParseResult::PeekOk(_) => panic!("success without consuming"),
                        ParseResult::CommitErr(_) => panic!("failure after consuming"),
                    }
                } else {
                    s.uncons_while(&mut f).ok().map(|x| x.len() / w)
                };
                let mut rest = 0;
                while s.uncons().is_ok() {
                    rest += 1
                }
                (m, rest, calls)
            }};
        }
        match kind {
            0 => {
                let v: Box<[u8]> = bytes[..].into();
                lend(&v[..], |s| scan!(s, |x: u8| x == b'a', 1))
            }
            1 => {
                let v = ds(&bytes).into_boxed_slice();
                lend(&v[..], |s| scan!(s, |x: D| x.get() == b'a', 1))
            }
            2 => {
                let v: Box<[u8]> = bytes[..].into();
                lend(&v[..], |s| scan!(SliceStream(s), |x: &'static u8| *x == b'a', 1))
            }
            3 => {
                let v = ds(&bytes).into_boxed_slice();
                lend(&v[..], |s| scan!(SliceStream(s), |x: &'static D| x.get() == b'a', 1))
            }
            _ => {
                let v: Box<str> = bytes.iter().map(|b| if *b == b'a' { '\u{1D11E}' } else { 'é' }).collect::<String>().into();
                lend(&v[..], |s| scan!(s, |x: char| x == '\u{1D11E}', 4))
            }
        }
    });
    let l = ledger::report();
    ledger::stop();
    t.evals += 1;
    t.hit("scans");
    t.saw(&("scan", n, k, one, panic_at, kind));
    let asked = (k + 1).min(n);
    let bad = match &got {
        Err(e) if e.contains(ledger::PANIC) => {
            t.hit("scan_panics");
            panic_at.map_or(true, |p| p >= asked)
        }
        Err(_) => true,
        Ok((m, rest, calls)) => *m != want || *rest != n - want.unwrap_or(0) || *calls != asked,
    };
    if bad || l.live != 0 || !l.bad.is_empty() {
        t.violation(format!(
            "uncons_while{} on {} tokens, the first {} of them accepted, panic at call {:?}, stream kind {}: {:?}; {} live, {:?}",
            if one { "1" } else { "" }, n, k, panic_at, kind, got, l.live, l.bad
        ));
    }
}

fn main() {
    let ctx = Ctx::new("C16");
    let cfg = Cfg::new(true);
    let plain = Cfg::new(false);
    let s = |a: u64, b: u64| (a, b);
    ctx.par("bytes", 60_000, 3_000_000, s(8, 300), |r, _, t| case::<MaybePartialStream<Mon<S8>>>(&cfg, "bytes", true, r, t));
    ctx.par("tokens", 60_000, 3_000_000, s(8, 300), |r, _, t| case::<MaybePartialStream<Mon<SD>>>(&cfg, "tokens", true, r, t));
    ctx.par("text", 20_000, 1_000_000, s(4, 150), |r, _, t| case::<MaybePartialStream<Mon<Str>>>(&cfg, "text", true, r, t));
    ctx.par("easy", 30_000, 1_500_000, s(6, 200), |r, _, t| case::<MaybePartialStream<Mon<ESD>>>(&cfg, "tokens with easy errors", true, r, t));
    ctx.par("buffered", 30_000, 1_500_000, s(6, 200), |r, _, t| case::<BufD>(&plain, "buffered iterator of tokens", false, r, t));
    ctx.par("buffered-easy", 20_000, 1_500_000, s(6, 200), |r, _, t| case::<BufED>(&plain, "buffered iterator with easy errors", false, r, t));
    if !cfg!(miri) {
        let (long, plong) = (cfg.clone().counted(), plain.clone().counted());
        ctx.par("long", 12_000, 400_000, s(10, 200), |r, c, t| {
            r.big = 3;
            match c % 4 {
                0 => case::<MaybePartialStream<Mon<S8>>>(&long, "bytes", true, r, t),
                1 => case::<MaybePartialStream<Mon<SD>>>(&long, "tokens", true, r, t),
                2 => case::<MaybePartialStream<Mon<ESD>>>(&long, "tokens with easy errors", true, r, t),
                _ => case::<BufD>(&plong, "buffered iterator of tokens", false, r, t),
            }
        });
    }
    ctx.par("scans", 40_000, 1_000_000, s(4, 60), |r, _, t| scans(r, t));
    ctx.finish(
        "a random grammar used in a random history of steps (resumed, restarted in either mode, abandoned, functions of the user and stream operations panicking at a random call), with every value, token and byte accounted for; distinct: (grammar, input, history, stream)",
        &[("evaluations", 60_000), ("panics", 20_000), ("values_left_in_dropped_states", 1_000), ("values_returned", 50_000), ("scans", 10_000), ("scan_panics", 1_000)],
    )
}
