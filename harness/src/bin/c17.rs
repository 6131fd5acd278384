//! C17: termination, no panics, resources in proportion.
use combine::parser::{byte, byte::num, char as ch, range, repeat, token as tk};
use combine::stream::position;
use combine::stream::{buffered, easy, IteratorStream, MaybePartialStream, StreamErrorFor, SliceStream};
use combine::{Parser, RangeStream, Stream, StreamOnce};
use vcore::{alloc, build::*, drive::*, grammar::*, model::*, mon::{self, Mon}, rng::Rng, run::*, sources::*};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

// ---- A: random grammars

/// Operations of the stream for each step of the reference semantics
const PER_STEP: u64 = 60;
const PER_TOKEN: u64 = 20;

fn grammars<I: Chunked>(cfg: &Cfg, name: &str, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let d = r.range(1, 5);
    let g = gen(r, cfg, d, false);
    let inp = input_for(&g, r, 40);
    let m = Model::new(&inp, I::width);
    let e = m.ev(&g, 0);
    if m.out_of_fuel.get() {
        t.hit("too_long");
        return;
    }
    let cuts: Vec<usize> = if r.chance(1, 2) { vec![] } else { vcore::grammar::cuts(r, inp.len(), 4) };
    let steps = m.steps.get() as u64;
    t.evals += 1;
    let mut stats = Resumes::default();
    let (got, mem) = alloc::measure(|| chunked::<I>(&g, &inp, &cuts, &mut stats));
    let ev = mon::events();
    let budget = (40 + PER_STEP * steps + PER_TOKEN * inp.len() as u64) * (cuts.len() as u64 + 1);
    t.add("steps_of_the_semantics", steps);
    t.add("stream_operations", ev.all());
    t.add("resumptions", stats.needed_more);
    t.hit(if matches!(e, R::Ok(..)) { "ok" } else { "failed" });
    if cuts.is_empty() {
        let k = format!("permille_of_budget_{:02}xx", ev.all() * 10 / budget);
        t.hit(&k);
    }
    t.saw(&(format!("{:?}", g), &inp, &cuts, name));
    t.sample(|| format!("{}: {:?} on {:?} cut at {:?}: {} steps, {:?}, {:?}", name, g, lossy(&inp), cuts, steps, ev, mem));
    // the values, the state, the boxes of the harness for every node built while parsing
    let mem_budget = 200_000 + 4_000 * steps * (cuts.len() as u64 + 1);
    let bad = match &got {
        Err(e) => Some(e.clone()),
        Ok(_) if ev.all() > budget => Some(format!("{} stream operations", ev.all())),
        Ok(_) if mem.peak > mem_budget => Some(format!("{} bytes at once", mem.peak)),
        Ok(_) => None,
    };
    if let Some(b) = bad {
        let (g2, i2) = if got.is_err() {
            shrink(&g, &inp, &mut |g, i| {
                let m = Model::new(i, I::width);
                m.ev(g, 0);
                !m.out_of_fuel.get()
                    && cuts.iter().all(|c| *c <= i.len())
                    && chunked::<I>(g, i, &cuts, &mut Resumes::default()).is_err()
            })
        } else {
            (g, inp)
        };
        let again = chunked::<I>(&g2, &i2, &cuts, &mut Resumes::default()).err();
        t.violation(format!(
            "{}: {:?} on {:?} cut at {:?} ({} steps of the semantics): {} {:?}",
            name, g2, lossy(&i2), cuts, steps, b, again
        ));
    }
}

// ---- B: numbers

const NUMS: [usize; 12] = [
    usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / 2, isize::MAX as usize - 7, 1 << 40, u32::MAX as usize,
    1 << 31, 1 << 24, 1 << 20, 1 << 16, 300,
];

/// An iterator over nothing in particular which claims any length
#[derive(Clone)]
struct Liar(usize, usize, Option<usize>);
impl Iterator for Liar {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0 = self.0.checked_sub(1)?;
        Some(0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

const FREE: usize = 15;
fn free<I: Inp>(k: usize, n: usize) -> P<I>
where
    I::Token: Tk,
    I::Position: Default,
{
    let l = |v: Vec<I::Token>| V::S(v.into_iter().map(|t| t.b()).collect());
    match k {
        0 => bx(repeat::count::<Vec<_>, _, _>(n, tk::any()).map(l)),
        1 => bx(repeat::skip_count(n, tk::any()).map(|_| V::U)),
        2 => bx(repeat::count_min_max::<Vec<_>, _, _>(0, n, tk::any()).map(l)),
        3 => bx(repeat::count_min_max::<Vec<_>, _, _>(n, n, tk::any()).map(l)),
        4 => bx(repeat::count_min_max::<Vec<_>, _, _>(1, n, tk::any()).map(l)),
        5 => bx(repeat::skip_count_min_max(n, n, tk::any()).map(|_| V::U)),
        6 => bx(repeat::skip_count_min_max(0, n, tk::any()).map(|_| V::U)),
        7 => bx(repeat::iterate::<Vec<_>, _, _, _, _>(0..n, |_, _: &mut I| tk::any()).map(l)),
        8 => bx(repeat::iterate::<Vec<_>, _, _, _, _>(Liar(3, n, Some(n)), |_, _: &mut I| tk::any()).map(l)),
        9 => bx(repeat::iterate::<Vec<_>, _, _, _, _>(Liar(n, 0, None), |_, _: &mut I| tk::any()).map(l)),
        10 => bx(tk::any().then_partial(move |_| repeat::count_min_max::<Vec<_>, _, _>(n, n, tk::any())).map(l)),
        11 => bx(repeat::many::<Vec<_>, _, _>(combine::attempt(repeat::count_min_max::<Vec<_>, _, _>(2, n, tk::token(I::Token::f(b'a')))))
            .map(move |v| V::L(v.into_iter().map(l).collect()))),
        12 => bx(tk::tokens_cmp(std::iter::repeat(I::Token::f(b'a')).take(n), |a: I::Token, b: I::Token| a == b).map(|_| V::U)),
        13 => bx(repeat::sep_by::<Vec<Vec<_>>, _, _, _>(
            repeat::count_min_max::<Vec<_>, _, _>(1, n, tk::token(I::Token::f(b'a'))),
            tk::token(I::Token::f(b',')),
        )
        .map(move |v| V::L(v.into_iter().map(l).collect()))),
        _ => bx(combine::optional(combine::attempt(repeat::count_min_max::<Vec<_>, _, _>(n, usize::MAX, tk::any()))).map(move |v| v.map_or(V::N, l))),
    }
}

const RANGED: usize = 7;
fn ranges<I: Inp + RangeStream>(k: usize, n: usize) -> P<I>
where
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg,
{
    let s = |r: I::Range| V::S(r.bytes());
    match k {
        0 => bx(range::take(n).map(s)),
        1 => bx(range::length_prefix(tk::any().map(move |_| n)).map(s)),
        2 => bx(range::take_fn(move |_| range::TakeRange::Found(n)).map(s)),
        3 => bx(range::take_fn(move |_| range::TakeRange::NotFound(n)).map(s)),
        4 => bx(range::take_fn(move |r: I::Range| {
            use combine::stream::Range;
            if r.len() > 2 { range::TakeRange::Found(n) } else { range::TakeRange::NotFound(1) }
        })
        .map(s)),
        5 => bx(range::recognize(repeat::skip_count(n, tk::any())).map(s)),
        _ => bx((tk::any(), range::length_prefix(tk::any().map(move |_| n as u64))).map(move |(_, r)| s(r))),
    }
}

fn size(v: &V) -> u64 {
    match v {
        V::S(s) => s.len() as u64,
        V::L(v) => v.iter().map(|v| 1 + size(v)).sum(),
        V::Some(v) => size(v),
        _ => 1,
    }
}

fn proportion(what: &str, n_in: usize, res: &Result<Option<V>, String>, mem: alloc::Mem, ops: u64, parts: u64, t: &mut Tally) {
    t.evals += 1;
    t.hit(match res {
        Ok(Some(_)) => "numbers_ok",
        Ok(None) => "numbers_failed",
        Err(_) => "numbers_panicked",
    });
    let out = res.as_ref().ok().and_then(|r| r.as_ref()).map_or(0, size);
    // `Extend` may be given a hint of up to 4096 elements
    let mem_budget = 300_000 + 200 * (n_in as u64 + out);
    let op_budget = (60 + 30 * n_in as u64) * parts;
    let bad = match res {
        Err(e) => Some(e.clone()),
        Ok(_) if mem.peak > mem_budget => Some(format!("{:?} for {} tokens in and {} out", mem, n_in, out)),
        Ok(_) if ops > op_budget => Some(format!("{} stream operations for {} tokens in {} parts", ops, n_in, parts)),
        _ => None,
    };
    if let Some(b) = bad {
        t.violation(format!("{}: {}", what, b))
    }
}

fn an_input(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 20, 60]);
    let k = r.below(3);
    (0..n).map(|_| match k { 0 => b'a', 1 => *r.pick(b"a,"), _ => ALPHA[r.below(ALPHA.len())] }).collect()
}

fn numbers<I: Source>(name: &str, mk: fn(usize, usize) -> P<I>, kinds: usize, case: u64, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let k = case as usize % kinds;
    let n = NUMS[case as usize / kinds % NUMS.len()];
    let inp = an_input(r);
    mon::start(100_000);
    let (res, mem) = alloc::measure(|| {
        guard(|| {
            I::with(&inp, |mut i| {
                let r = mk(k, n).parse_stream(&mut i).into_result();
                r.ok().map(|(v, _)| v)
            })
        })
    });
    t.saw(&(name, k, n, &inp));
    proportion(&format!("{}: parser {} with the number {} on {:?}", name, k, n, lossy(&inp)), inp.len(), &res, mem, mon::events().all(), 1, t);
}

fn numbers_in_parts<I: Chunked>(name: &str, mk: fn(usize, usize) -> P<I>, kinds: usize, case: u64, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
{
    let k = case as usize % kinds;
    let n = NUMS[case as usize / kinds % NUMS.len()];
    let inp = an_input(r);
    let cuts: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 3);
    mon::start(100_000);
    let (res, mem) = alloc::measure(|| {
        guard(|| {
            let mut p = mk(k, n);
            let mut st = St::default();
            let mut pos = 0;
            for c in cuts.iter().chain([&inp.len()]).enumerate() {
                let last = c.0 == cuts.len();
                let x = I::chunk(&inp, pos, *c.1, last, |i| {
                    combine::stream::decode(&mut p, i, &mut st).map_err(|_| ())
                });
                match x {
                    Ok((Some(v), _)) => return Some(v),
                    Ok((None, mut n)) => {
                        while n > 0 {
                            n -= I::width(inp[pos]);
                            pos += 1;
                        }
                    }
                    Err(()) => return None,
                }
            }
            None
        })
    });
    t.hit("numbers_in_parts");
    t.saw(&(name, k, n, &inp, &cuts));
    proportion(
        &format!("{}: parser {} with the number {} on {:?} cut at {:?}", name, k, n, lossy(&inp), cuts),
        inp.len(), &res, mem, mon::events().all(), cuts.len() as u64 + 1, t,
    );
}

/// Numbers which are in the data: lengths and counts read by the number parsers, through a decoder
fn encoded(case: u64, r: &mut Rng, t: &mut Tally) {
    use combine::stream::decoder::Decoder;
    let mut data = vec![];
    for _ in 0..r.range(0, 3) {
        let n = r.range(0, 5);
        data.extend((n as u64).to_be_bytes());
        data.extend(vec![b'x'; n]);
    }
    let huge = *r.pick(&[u64::MAX, u64::MAX - 8, 1 << 63, (1 << 63) - 1, 1 << 40, u32::MAX as u64, 1 << 22, 9_000]);
    data.extend(huge.to_be_bytes());
    data.extend((0..r.range(0, 300)).map(|i| i as u8));
    let kind = case % 3;
    let step = r.range(1, 50);
    let plan: Vec<vcore::sim::Act> = (0..400).map(|_| vcore::sim::Act::Read(step)).collect();
    let mut reads = 0;
    let (res, mem) = alloc::measure(|| {
        guard(|| {
            let mut sim = vcore::sim::Sim::new(data.clone(), plan.clone());
            let mut n = 0;
            macro_rules! go {
                ($p: expr) => {{
                    let mut d = Decoder::new();
                    while combine::decode!(d, sim, $p, |i, _pos| easy::Stream(i)).is_ok() {
                        n += 1;
                        if n > 100 {
                            panic!("no end")
                        }
                    }
                }};
            }
            match kind {
                0 => go!(range::length_prefix(num::be_u64()).map(|x: &[u8]| x.len())),
                1 => go!(num::be_u64().then_partial(|n: &mut u64| {
                    let n = *n as usize;
                    repeat::count_min_max::<Vec<u8>, _, _>(n, n, tk::any())
                })),
                _ => go!(num::be_u64().then_partial(|n: &mut u64| {
                    let n = *n as usize;
                    repeat::iterate::<Vec<u8>, _, _, _, _>(0..n, |_, _| tk::any())
                })),
            }
            reads = sim.reads;
            Some(V::S(vec![0; n]))
        })
    });
    t.hit("encoded");
    t.saw(&(kind, huge, data.len(), step));
    if reads as usize > data.len() + 2 {
        t.violation(format!("{} reads for {} bytes {} at a time", reads, data.len(), step));
    }
    proportion(&format!("decoder, kind {}, a length of {} in {} bytes, {} at a time", kind, huge, data.len(), step), data.len(), &res, mem, 0, 1, t);
}

/// Streams asked directly
fn direct<I: Source + RangeStream>(name: &str, case: u64, r: &mut Rng, t: &mut Tally)
where
    I::Token: Tk,
    I::Position: Default,
    I::Range: Rg,
{
    use combine::stream::Range;
    let n = if r.chance(1, 3) { r.range(0, 12) } else { NUMS[case as usize % NUMS.len()] };
    let inp: Vec<u8> = an_input(r).into_iter().take(10).collect();
    let skip = r.range(0, inp.len());
    let (inp2, inp3) = (inp.clone(), inp.clone());
    let res = guard(move || {
        I::with(&inp2, |mut i| {
            for _ in 0..skip {
                let _ = i.uncons();
            }
            let whole = i.range().len();
            let x = i.uncons_range(n).map(|x| x.len()).map_err(|_| ());
            (whole, x, i.range().len())
        })
    });
    let units: Vec<usize> = inp3[skip..].iter().map(|b| I::width(*b)).collect();
    let whole: usize = units.iter().sum();
    let ends: Vec<usize> = (0..=units.len()).map(|k| units[..k].iter().sum()).collect();
    let want = if n <= whole && ends.contains(&n) { Ok(n) } else { Err(()) };
    t.evals += 1;
    t.hit("uncons_range");
    t.saw(&(name, n, &inp, skip));
    let ok = match &res {
        Ok((w, x, left)) => *w == whole && *x == want && (x.is_err() || *left == whole - n),
        Err(_) => false,
    };
    if !ok {
        t.violation(format!("{}: uncons_range({}) {} tokens into {:?}: {:?}, expected {:?} of {}", name, n, skip, lossy(&inp), res, want, whole));
    }
}

// ---- C: long inputs on small stacks

fn long_grammars() -> Vec<(&'static str, G, &'static [u8], bool)> {
    let b = Box::new;
    let a = || b(G::Tok(b'a'));
    let comma = || b(G::Tok(b','));
    let cls = 0b000011;
    vec![
        ("many", G::Many(a()), b"a", true),
        ("many1", G::Many1(a()), b"a", true),
        ("skip_many", G::SkipMany(a()), b"a", true),
        ("skip_many1", G::SkipMany1(a()), b"a", true),
        ("count", G::Count(10_000_000, a()), b"a", true),
        ("count_min_max", G::CountMM(3, 10_000_000, a()), b"a", true),
        ("skip_count", G::SkipCount(10_000_000, a()), b"a", true),
        ("sep_by", G::SepBy(a(), comma()), b"a,", false),
        ("sep_by1", G::SepBy1(a(), comma()), b"a,", false),
        ("sep_end_by", G::SepEndBy(a(), comma()), b"a,", true),
        ("sep_end_by1", G::SepEndBy1(a(), comma()), b"a,", true),
        ("chainl1", G::ChainL(b(G::With(a(), b(G::Val(b'b')))), b(G::With(comma(), b(G::Fail)))), b"a,", false),
        ("take_until", G::TakeUntil(b(G::Tok(b'1'))), b"a", false),
        ("skip_until", G::SkipUntil(b(G::Tok(b'1'))), b"a", false),
        ("skip_until_eof", G::SkipUntil(b(G::Eof)), b"a", true),
        ("repeat_until", G::RepUntil(a(), b(G::Eof)), b"a", true),
        ("repeat_skip_until", G::RepSkipUntil(a(), b(G::Eof)), b"a", true),
        ("escaped", G::Escaped(b(G::Tok(b'a')), b',', b(G::Tok(b'a'))), b"a,a", true),
        ("iterate", G::Iterate(10_000_000, vec![G::Tok(b'a')]), b"a", false),
        ("many of a choice", G::Many(b(G::Alt(AltKind::Tuple, vec![G::Tok(b'1'), G::Attempt(b(G::Str(b"ab".to_vec()))), G::Tok(b'a'), G::Fail]))), b"a", true),
        ("many of a sequence", G::Many(b(G::Seq(vec![G::Tok(b'a'), G::Opt(comma()), G::Look(b(G::Any))]))), b"a,", false),
        ("recognize", G::Recog(b(G::SkipMany(a()))), b"a", true),
        ("then", G::Many(b(G::ThenPartial(a(), vec![G::Tok(b',')]))), b"a,", true),
        ("expected", G::Many(b(G::Exp(b(G::Msg(a()))))), b"a", true),
        ("lazy", G::Many(b(G::Lazy(b(G::Factory(a()))))), b"a", true),
        ("no_partial", G::NoPartial(b(G::Many(a()))), b"a", true),
        ("take_while", G::RTakeWhile(cls), b"ab", true),
        ("take_while1", G::RTakeWhile1(cls), b"ab", true),
        ("take_until_range", G::RUntilRange(b"1\n".to_vec()), b"a1", false),
        ("take_until_range 2", G::With(b(G::RUntilRange(b"1\n".to_vec())), b(G::Any)), b"a", false),
        ("range recognize", G::RRecog(b(G::SkipMany(a()))), b"a", true),
        ("many of ranges", G::Many(b(G::RRange(b"ab".to_vec()))), b"ab", true),
        ("many take_while1", G::Many(b(G::With(b(G::RTakeWhile1(1)), b(G::RTakeWhile1(2))))), b"aab", true),
        ("chain of look-aheads", G::Many(b(G::Skip(a(), b(G::Not(b(G::Str(b"1111".to_vec()))))))), b"a", true),
    ]
}

const SMALL_STACK: usize = 1 << 20;

fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(SMALL_STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn long<I: Source>(name: &str, ranged: bool, case: u64, t: &mut Tally, n: usize)
where
    I::Token: Tk,
    I::Position: Default,
{
    let gs = long_grammars();
    let (what, g, pat, complete) = &gs[case as usize % gs.len()];
    let has_range = {
        let mut x = false;
        g.walk(&mut |g| x |= RLEAVES.contains(&g.kind()) || RINNER.contains(&g.kind()));
        x
    };
    // Without ranges, `recognize` goes back over everything, which a buffered stream refuses
    if !ranged && (has_range || *what == "recognize") {
        return;
    }
    let inp: Vec<u8> = pat.iter().cycle().take(n / pat.len() * pat.len()).cloned().collect();
    mon::start(u64::MAX);
    let (ok, used, mem, ev, out) = on_small_stack(|| {
        let ((ok, used, out), mem) = alloc::measure(|| {
            mon::start(u64::MAX);
            let inp2 = &inp;
            let len = inp.len();
            match guard(|| {
                I::with(inp2, |mut i| {
                    let x = build::<I>(g).parse_stream(&mut i).into_result().ok().map(|(v, _)| size(&v));
                    let used = len - left(&mut i);
                    (x, used)
                })
            }) {
                Ok((x, used)) => (Ok(x.is_some()), used, x.unwrap_or(0)),
                Err(e) => (Err(e), 0, 0),
            }
        });
        (ok, used, mem, mon::events(), out)
    });
    t.evals += 1;
    t.hit("long_inputs");
    t.add("long_tokens", inp.len() as u64);
    t.saw(&(name, what, n));
    let mem_budget = 400_000 + 400 * (inp.len() as u64 + out);
    // what has not been consumed is counted by consuming it
    let op_budget = 1_000 + 30 * inp.len() as u64;
    let bad = match &ok {
        Err(e) => Some(e.clone()),
        Ok(x) if *complete && (!*x || used != inp.len()) => Some(format!("ok: {}, {} of {} tokens", x, used, inp.len())),
        Ok(_) if mem.peak > mem_budget => Some(format!("{:?}", mem)),
        Ok(_) if ev.all() > op_budget => Some(format!("{:?}", ev)),
        _ => None,
    };
    if let Some(b) = bad {
        t.violation(format!("{}: {} ({:?}) on {} tokens, {} values out: {}", name, what, g, inp.len(), out, b));
    }
}

/// The same in one part for each token: what has been looked at is not looked at again and again
fn long_parts(case: u64, t: &mut Tally, n: usize) {
    type I = MaybePartialStream<Mon<S8>>;
    let gs = long_grammars();
    let (what, g, pat, _) = &gs[case as usize % gs.len()];
    let inp: Vec<u8> = pat.iter().cycle().take(n / pat.len() * pat.len()).cloned().collect();
    // a buffer as a decoder has it: what has not been removed comes again, with more
    let (res, mem, ev) = on_small_stack(|| {
        let cuts: Vec<usize> = (0..inp.len()).collect();
        let (res, mem) = alloc::measure(|| chunked_unlimited::<I>(g, &inp, &cuts));
        (res, mem, mon::events())
    });
    t.evals += 1;
    t.hit("long_inputs_in_parts");
    t.saw(&("parts", what, n));
    let per = ev.all() / n as u64;
    t.add(&format!("operations_per_token_in_parts_{}", what.replace(' ', "_")), per);
    // These keep no state between parts and start over
    let again = ["no_partial", "count", "skip_count", "escaped"].contains(what);
    let bad = match res {
        Err(e) => Some(e),
        Ok(()) if !again && per > 60 => Some(format!("{} operations for each token: {:?}", per, ev)),
        Ok(()) if mem.peak > 400_000 + 500 * n as u64 => Some(format!("{:?}", mem)),
        _ => None,
    };
    if let Some(b) = bad {
        t.violation(format!("{} ({:?}) on {} tokens one at a time: {}", what, g, inp.len(), b));
    }
}

fn chunked_unlimited<I: Chunked>(g: &G, inp: &[u8], cuts: &[usize]) -> Result<(), String>
where
    I::Token: Tk,
    I::Position: Default,
{
    guard(|| {
        let mut p = build::<I>(g);
        let mut st = St::default();
        let mut pos = 0;
        mon::start(u64::MAX);
        for (k, end) in cuts.iter().chain([&inp.len()]).enumerate() {
            let last = k == cuts.len();
            let r = I::chunk(inp, pos, *end, last, |i| combine::stream::decode(&mut p, i, &mut st).map_err(|_| ()));
            match r {
                Ok((None, n)) => pos += n,
                _ => return,
            }
        }
    })
}

/// `chainr1` recurses for every operator; run in a process of its own
fn deep_chainr() {
    let n = 200_000;
    let g = G::ChainR(Box::new(G::Tok(b'a')), Box::new(G::Tok(b',')));
    let inp: Vec<u8> = b"a,".iter().cycle().take(n + 1).cloned().collect();
    on_small_stack(|| {
        S8::with(&inp, |mut i| {
            let r = build::<S8>(&g).parse_lazy(&mut i).into_result();
            // the value is as deep as the chain: dropping it is the business of the harness
            std::mem::forget(r);
        })
    });
}

// ---- E: the ready-made parsers on noise

fn noise_bytes<'a, I>(k: usize, i: &mut I) -> bool
where
    I: RangeStream<Token = u8, Range = &'a [u8]>,
{
    macro_rules! p {
        ($p: expr) => {
            $p.parse_stream(i).is_ok()
        };
    }
    match k {
        0 => p!(byte::digit()),
        1 => p!(byte::spaces()),
        2 => p!(byte::crlf()),
        3 => p!(byte::alpha_num()),
        4 => p!(byte::letter()),
        5 => p!(byte::hex_digit()),
        6 => p!(byte::bytes(b"\xff\x00a")),
        7 => p!(byte::bytes_cmp(b"aB\xfe", |l: u8, r: u8| l.eq_ignore_ascii_case(&r))),
        8 => p!(byte::take_until_byte(0xff)),
        9 => p!(byte::take_until_byte2(0xff, 0)),
        10 => p!(byte::take_until_byte3(0xff, 0, b'a')),
        11 => p!(byte::take_until_bytes(b"\xff\xff")),
        12 => p!(byte::take_until_bytes(b"")),
        13 => p!(num::be_u64()),
        14 => p!(num::le_i16()),
        15 => p!(num::le_f64()),
        16 => p!(num::be_f32()),
        17 => p!(range::length_prefix(num::le_u16())),
        18 => p!(range::length_prefix(num::be_i64())),
        19 => p!(range::length_prefix(num::be_u64())),
        20 => p!(combine::from_str::<_, i64, _>(range::take_while(|b: u8| b > 0x2a))),
        21 => p!(combine::from_str::<_, f64, _>(range::take_while1(|_: u8| true))),
        22 => p!(combine::from_str::<_, u8, _>(repeat::many1::<Vec<u8>, _, _>(byte::digit()))),
        23 => p!(repeat::escaped(range::take_while1(|b: u8| b != b'\\' && b != b'"'), b'\\', tk::one_of([b'\\', b'"']))),
        24 => p!(repeat::many::<Vec<_>, _, _>(range::length_prefix(num::be_i16()))),
        25 => p!(combine::from_str::<_, char, _>(range::take(3))),
        26 => p!(byte::take_until_bytes("é".as_bytes())),
        _ => p!(repeat::sep_by::<Vec<u32>, _, _, _>(combine::from_str::<_, u32, _>(range::take_while1(|b: u8| b.is_ascii_digit())), byte::byte(b','))),
    }
}
const NOISE_BYTES: usize = 28;

fn noise_text<'a, I>(k: usize, i: &mut I) -> bool
where
    I: RangeStream<Token = char, Range = &'a str>,
{
    macro_rules! p {
        ($p: expr) => {
            $p.parse_stream(i).is_ok()
        };
    }
    match k {
        0 => p!(ch::digit()),
        1 => p!(ch::spaces()),
        2 => p!(ch::crlf()),
        3 => p!(ch::string("aé\u{10ffff}")),
        4 => p!(ch::string_cmp("AÉ", |l, r| l.to_lowercase().eq(r.to_lowercase()))),
        5 => p!(byte::take_until_byte(b'a')),
        6 => p!(byte::take_until_byte(0xa9)),
        7 => p!(byte::take_until_byte2(b'\n', 0x80)),
        8 => p!(byte::take_until_bytes("é".as_bytes())),
        9 => p!(byte::take_until_bytes(&[0xa9])),
        10 => p!(byte::take_until_bytes(b"\r\n")),
        11 => p!(combine::from_str::<_, i64, _>(range::take_while(|c: char| c > '*'))),
        12 => p!(combine::from_str::<_, f32, _>(repeat::many1::<String, _, _>(tk::any()))),
        13 => p!(range::take(3)),
        14 => p!(range::take_fn(|_| range::TakeRange::Found(1))),
        15 => p!(range::take_fn(|_| range::TakeRange::NotFound(1))),
        16 => p!(range::length_prefix(ch::digit().map(|c: char| c.to_digit(10).unwrap_or(0)))),
        17 => p!(range::length_prefix(tk::any().map(|c: char| c as i32 - 0x80))),
        18 => p!(repeat::many::<Vec<_>, _, _>(range::take(2))),
        19 => p!(repeat::many::<Vec<String>, _, _>(repeat::many1::<String, _, _>(ch::alpha_num()).skip(ch::spaces()))),
        20 => p!(combine::from_str::<_, char, _>(range::take_while1(|c: char| c.is_alphabetic()))),
        _ => p!(byte::take_until_byte3(b'"', b'\\', 0x9d)),
    }
}
const NOISE_TEXT: usize = 22;

fn noise(case: u64, r: &mut Rng, t: &mut Tally) {
    t.evals += 1;
    t.hit("noise");
    let cut = |r: &mut Rng, n: usize| if r.chance(1, 2) { n } else { r.range(0, n) };
    if case % 2 == 0 {
        let k = case as usize / 2 % NOISE_BYTES;
        let n = r.range(0, 40);
        let v: Vec<u8> = (0..n)
            .map(|_| match r.below(4) {
                0 => *r.pick(b"0123456789,a\\\"\r\n -."),
                1 => *r.pick(&[0, 0xff, 0x80, 0xc3, 0xa9, 0xed, 0xa0, 0xf4, 0x8f]),
                2 => r.below(256) as u8,
                _ => b'1',
            })
            .collect();
        let m = cut(r, v.len());
        t.saw(&("noise", k, &v, m));
        let res = guard(|| {
            let a = noise_bytes(k, &mut &v[..]);
            let b = noise_bytes(k, &mut easy::Stream(position::Stream::new(&v[..])));
            let c = noise_bytes(k, &mut MaybePartialStream(&v[..m], true));
            let mut p = easy::Stream(position::Stream::new(&v[..]));
            let _ = c;
            while p.uncons().is_ok() && noise_bytes(k, &mut p) {}
            if a != b {
                panic!("depends on the error type")
            }
            a
        });
        t.hit(if res == Ok(true) { "noise_ok" } else { "noise_failed" });
        if let Err(e) = res {
            t.violation(format!("byte parser {} on {:?}: {}", k, v, e));
        }
    } else {
        let k = case as usize / 2 % NOISE_TEXT;
        let n = r.range(0, 20);
        let s: String = (0..n)
            .map(|_| match r.below(4) {
                0 => *r.pick(&['0', '9', ',', 'a', '\\', '"', '\r', '\n', ' ', '-', '.']),
                1 => *r.pick(&['é', '\u{10ffff}', '\u{a0}', '“', '\u{1D11E}', '\u{301}', 'İ', 'ß']),
                2 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                _ => '1',
            })
            .collect();
        let mut m = cut(r, s.len());
        while !s.is_char_boundary(m) {
            m -= 1
        }
        t.saw(&("noise text", k, &s, m));
        let res = guard(|| {
            let a = noise_text(k, &mut &s[..]);
            let b = noise_text(k, &mut easy::Stream(position::Stream::new(&s[..])));
            let _ = noise_text(k, &mut MaybePartialStream(easy::Stream(&s[..m]), true));
            let mut p = position::Stream::new(&s[..]);
            while p.uncons().is_ok() && noise_text(k, &mut p) {}
            if a != b {
                panic!("depends on the error type")
            }
            a
        });
        t.hit(if res == Ok(true) { "noise_ok" } else { "noise_failed" });
        if let Err(e) = res {
            t.violation(format!("text parser {} on {:?}: {}", k, s, e));
        }
    }
}

fn unranged<I: Inp>(k: usize, n: usize) -> P<I>
where
    I::Token: Tk,
    I::Position: Default,
{
    free::<I>(k, n)
}

fn main() {
    if std::env::var("VERIF_DEEP").is_ok() {
        deep_chainr();
        return;
    }
    let ctx = Ctx::new("C17");
    let cfg = Cfg::new(true);
    let s = |a: u64, b: u64| (a, b);
    ctx.par("bytes", 60_000, 4_000_000, s(9, 400), |r, _, t| grammars::<MaybePartialStream<Mon<S8>>>(&cfg, "bytes", r, t));
    ctx.par("text", 30_000, 2_000_000, s(6, 200), |r, _, t| grammars::<MaybePartialStream<Mon<Str>>>(&cfg, "text", r, t));
    ctx.par("easy", 30_000, 2_000_000, s(6, 200), |r, _, t| grammars::<Easy8>(&cfg, "easy", r, t));
    macro_rules! nums {
        ($($work: literal, $t: ty);* $(;)?) => { $(
            ctx.par(concat!($work, "-free"), 1_500, 40_000, s(3, 60), |r, c, t| numbers::<$t>($work, free::<$t>, FREE, c, r, t));
            ctx.par(concat!($work, "-ranges"), 1_000, 40_000, s(3, 60), |r, c, t| numbers::<$t>($work, ranges::<$t>, RANGED, c, r, t));
            ctx.par(concat!($work, "-direct"), 1_000, 40_000, s(3, 60), |r, c, t| direct::<$t>($work, c, r, t));
        )* };
    }
    nums! {
        "slice", S8; "str", Str; "monitored-slice", Mon<S8>; "easy", ES8; "easy-str", EStr; "position", PIdx<S8>;
        "source-position", PSrc<Str>; "slice-stream", SliceStream<'static, u8>; "complete", combine::stream::CompleteStream<S8>;
        "maybe-partial", MaybePartialStream<S8>; "state", combine::stream::state::Stream<S8, u32>; "span", SpanStr;
        "chars", &'static [char];
    }
    ctx.par("buffered-free", 2_000, 40_000, s(3, 60), |r, c, t| numbers::<BufIter>("buffered", unranged::<BufIter>, FREE, c, r, t));
    ctx.par("read-free", 2_000, 40_000, s(3, 60), |r, c, t| numbers::<BufRead>("read", unranged::<BufRead>, FREE, c, r, t));
    type MB = MaybePartialStream<Mon<S8>>;
    type MT = MaybePartialStream<Mon<Str>>;
    ctx.par("parts-free", 6_000, 300_000, s(4, 60), |r, c, t| numbers_in_parts::<MB>("parts", free::<MB>, FREE, c, r, t));
    ctx.par("parts-ranges", 6_000, 300_000, s(4, 60), |r, c, t| numbers_in_parts::<MB>("parts", ranges::<MB>, RANGED, c, r, t));
    ctx.par("parts-text", 6_000, 300_000, s(4, 60), |r, c, t| numbers_in_parts::<MT>("text parts", ranges::<MT>, RANGED, c, r, t));
    ctx.par("encoded", 6_000, 300_000, s(4, 60), |r, c, t| encoded(c, r, t));
    ctx.par("noise", 60_000, 3_000_000, s(5, 120), |r, c, t| noise(c, r, t));
    let n = long_grammars().len() as u64;
    let len = if ctx.thorough { 1_000_000 } else { 60_000 };
    ctx.par("long-slice", n, n, s(60, 400), |_, c, t| long::<Mon<S8>>("slice", true, c, t, len));
    ctx.par("long-text", n, n, s(60, 400), |_, c, t| long::<Mon<Str>>("text", true, c, t, len));
    ctx.par("long-easy", n, n, s(60, 400), |_, c, t| long::<easy::Stream<PIdx<S8>>>("easy position", true, c, t, len));
    ctx.par("long-buffered", n, n, s(60, 400), |_, c, t| long::<LongBuf>("buffered", false, c, t, len));
    let plen = if ctx.thorough { 20_000 } else { 4_000 };
    ctx.par("long-parts", n, n, s(60, 400), |_, c, t| long_parts(c, t, plen));
    ctx.par("deep-chain", 1, 1, s(60, 60), |_, _, t| {
        use std::os::unix::process::ExitStatusExt;
        t.evals += 1;
        let me = std::env::current_exe().unwrap();
        let st = std::process::Command::new(me).env("VERIF_DEEP", "1").stderr(std::process::Stdio::null()).status();
        match st {
            Ok(st) if st.success() => t.hit("deep_chain_ok"),
            Ok(st) if st.signal().is_some() => {
                let what = "chainr1 recurses once for every operator: a chain of 100000 operators overflows a stack of 1 MiB";
                if is_known("C17", "chainr1-depth") {
                    t.known.insert("chainr1-depth".into(), what.into());
                } else {
                    t.violation(what.into())
                }
            }
            st => t.violation(format!("the deep chain: {:?}", st)),
        }
    });
    ctx.finish(
        "random grammars with their stream operations and memory held against the steps of the reference semantics; parsers with huge numbers in the grammar, from the user or in the data on every kind of stream; the ready-made parsers on noise; long inputs on a small stack, whole and one token at a time; distinct: (workload, parser, number, input, cuts)",
        &[("evaluations", 100_000), ("numbers_ok", 5_000), ("numbers_failed", 5_000), ("numbers_in_parts", 10_000), ("encoded", 4_000), ("noise_ok", 10_000), ("long_inputs", 100), ("long_inputs_in_parts", 30), ("uncons_range", 8_000)],
    )
}

type LongBuf = buffered::Stream<easy::Stream<PIdx<IteratorStream<Bytes>>>>;

#[allow(dead_code)]
fn _e<I: Stream>(_: StreamErrorFor<I>) {}
