//! C06: the same tokens through every kind of stream.
use combine::error::ParseResult;
use combine::stream::position::SourcePosition;
use combine::stream::{easy, state, CompleteStream, IteratorStream, MaybePartialStream, SliceStream};
use combine::Parser;
use vcore::{build::*, drive::*, grammar::*, model::*, mon, rng::Rng, run::*, sources::*};

type Run = fn(&G, &[u8]) -> Result<R, String>;

fn ob<I: Source>(g: &G, i: &[u8]) -> Result<R, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    observe::<I>(g, i)
}

/// The outcome and the user's state
fn with_state<S>(g: &G, inp: &[u8]) -> Result<(R, u32), String>
where
    S: Source + Inp,
    state::Stream<S, u32>: Source,
    S::Token: Tk,
    S::Position: Default,
    state::Stream<S, u32>: combine::Stream<Token = S::Token, Position = S::Position>,
{
    guard(|| {
        <state::Stream<S, u32> as Source>::with(inp, |mut i| {
            let mut p = build::<state::Stream<S, u32>>(g);
            mon::start(FUEL * 100);
            let r = p.parse_stream(&mut i);
            let n = i.state;
            let pos = inp.len() - left(&mut i);
            let r = match r {
                ParseResult::CommitOk(v) => R::Ok(v, pos, true),
                ParseResult::PeekOk(v) => R::Ok(v, pos, false),
                ParseResult::CommitErr(_) => R::Commit,
                ParseResult::PeekErr(_) => R::Peek,
            };
            (r, n)
        })
    })
}

const INDEX_STR: &str = "PIdx<Str>";

fn recognizes(g: &G) -> bool {
    matches!(g, G::Recog(_)) || g.children().iter().any(|g| recognizes(g))
}

struct Kind {
    name: &'static str,
    run: Run,
    width: fn(u8) -> usize,
}

macro_rules! kinds {
    ($($t: ty),* $(,)?) => {
        vec![$(Kind { name: stringify!($t), run: ob::<$t>, width: <$t as Source>::width }),*]
    };
}

fn case(kinds: &[Kind], cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..2 {
        let n = if r.chance(1, 8) { 60 } else { 25 };
        let inp = input_for(&g, r, n);
        for _ in 0..6 {
            let k = r.pick(kinds);
            if k.name == INDEX_STR && recognizes(&g) {
                // the known finding below
                t.hit("excluded_recognize_on_index_str");
                continue;
            }
            let e = match expect(&g, &inp, k.width) {
                Some(e) => e,
                None => continue,
            };
            let a = (k.run)(&g, &inp);
            t.evals += 1;
            t.hit(k.name);
            t.hit(match e {
                R::Ok(..) => "ok",
                R::Peek => "failed_peeked",
                R::Commit => "failed_committed",
            });
            t.saw(&(format!("{:?}", g), &inp, k.name));
            t.sample(|| format!("{}: {:?} on {:?} -> {:?}", k.name, g, lossy(&inp), a));
            if a.as_ref() != Ok(&e) {
                let (g, inp) = shrink(&g, &inp, &mut |g, i| expect(g, i, k.width).map_or(false, |e| !(k.name == INDEX_STR && recognizes(g)) && (k.run)(g, i).as_ref() != Ok(&e)));
                t.violation(format!(
                    "{}: {:?} on {:?}: specified {:?}, observed {:?}",
                    k.name, g, lossy(&inp), expect(&g, &inp, k.width), (k.run)(&g, &inp)
                ));
                return;
            }
        }
    }
}

fn stateful(cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 4);
    let g = gen(r, cfg, d, false);
    for _ in 0..2 {
        let inp = input_for(&g, r, 25);
        let text = r.chance(1, 2);
        let run = |g: &G, i: &[u8]| if text { with_state::<EStr>(g, i) } else { with_state::<S8>(g, i) };
        let want = |g: &G, i: &[u8]| {
            let m = Model::new(i, if text { <char as Tk>::width } else { |_| 1 });
            let e = m.ev(g, 0);
            if m.out_of_fuel.get() || m.maps_unsure.get() {
                None
            } else {
                Some((e, m.maps.get()))
            }
        };
        let e = match want(&g, &inp) {
            Some(e) => e,
            None => continue,
        };
        t.evals += 1;
        t.hit("state::Stream");
        t.add("user_state_updates", e.1 as u64);
        t.saw(&(format!("{:?}", g), &inp, text));
        if run(&g, &inp).as_ref() != Ok(&e) {
            let (g, inp) = shrink(&g, &inp, &mut |g, i| want(g, i).map_or(false, |e| run(g, i).as_ref() != Ok(&e)));
            t.violation(format!(
                "state::Stream (text: {}): {:?} on {:?}: specified (outcome, calls of map_input) {:?}, observed (outcome, state) {:?}",
                text, g, lossy(&inp), want(&g, &inp), run(&g, &inp)
            ));
            return;
        }
    }
}

type Decode = fn(&G, &[u8], &[usize]) -> Result<Option<(V, usize)>, String>;

fn dec<I: Chunked>(g: &G, i: &[u8], cuts: &[usize]) -> Result<Option<(V, usize)>, String>
where
    I::Token: Tk,
    I::Position: Default,
{
    chunked::<I>(g, i, cuts, &mut Resumes::default())
}

/// The completeness marker has to be seen through every wrapper.
fn parts(kinds: &[(&'static str, Decode, fn(u8) -> usize)], cfg: &Cfg, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 3);
    let g = gen(r, cfg, d, false);
    for _ in 0..3 {
        let inp = input_for(&g, r, 20);
        let cuts: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 2);
        let (name, f, width) = *r.pick(kinds);
        let want = |g: &G, i: &[u8]| {
            let m = Model::new(i, width);
            let e = m.ev(g, 0);
            if m.out_of_fuel.get() || m.taint.get() {
                return None;
            }
            Some(match e {
                R::Ok(v, p, _) => Some((v, p)),
                _ => None,
            })
        };
        // positions restart with every part here, which `recognize` does not mind; see below for &str and indices
        let e = match want(&g, &inp) {
            Some(e) => e,
            None => continue,
        };
        t.evals += 1;
        t.hit(name);
        t.saw(&(format!("{:?}", g), &inp, &cuts, name));
        if f(&g, &inp, &cuts).as_ref() != Ok(&e) {
            let all = |n: usize| -> Vec<usize> { (0..=n).collect() };
            let (g, i, c) = if f(&g, &inp, &all(inp.len())).as_ref() != Ok(&e) {
                let (g, i) = shrink(&g, &inp, &mut |g, i| want(g, i).map_or(false, |e| f(g, i, &all(i.len())).as_ref() != Ok(&e)));
                let c = all(i.len());
                (g, i, c)
            } else {
                (g, inp, cuts)
            };
            t.violation(format!(
                "{}: {:?} on {:?} in parts cut at {:?}: specified {:?}, observed {:?}",
                name, g, lossy(&i), c, want(&g, &i), f(&g, &i, &c)
            ));
            return;
        }
    }
}

fn main() {
    let ctx = Ctx::new("C06");
    let ranged = kinds![
        S8, Str, ES8, EStr, SliceStream<'static, u8>, PIdx<S8>, PSrc<Str>, PIdx<Str>, easy::Stream<PIdx<S8>>,
        easy::Stream<PSrc<Str>>, CompleteStream<S8>, MaybePartialStream<EStr>, state::Stream<S8, u32>,
        easy::Stream<SliceStream<'static, u8>>, PIdx<SliceStream<'static, u8>>, SpanStr, SpanS8, &'static [char],
        easy::Stream<&'static [char]>, &'static mut S8, &'static mut EStr,
    ];
    let rest = kinds![BufIter, BufIterPlain, BufChars, BufRead, BufReadPlain];
    let cfg = Cfg::new(true);
    let plain = Cfg::new(false);
    ctx.par("ranges", 60_000, 2_000_000, (20, 500), |r, _, t| case(&ranged, &cfg, r, t));
    ctx.par("tokens", 30_000, 1_000_000, (12, 300), |r, _, t| case(&rest, &plain, r, t));
    ctx.par("long-ranges", 12_000, 400_000, (14, 250), |r, _, t| {
        r.big = 3;
        case(&ranged, &cfg.clone().counted(), r, t)
    });
    ctx.par("long-tokens", 8_000, 300_000, (10, 200), |r, _, t| {
        r.big = 3;
        case(&rest, &plain.clone().counted(), r, t)
    });
    // a lot of map_input in the grammar
    let mut many = Cfg::new(true);
    for _ in 0..12 {
        many.inner.push("map")
    }
    ctx.par("state", 60_000, 1_500_000, (8, 200), |r, _, t| stateful(&many, r, t));
    macro_rules! parts {
        ($($t: ty),* $(,)?) => { vec![$((stringify!($t), dec::<$t> as Decode, <$t as Chunked>::width as fn(u8) -> usize)),*] };
    }
    let partial = parts![
        easy::Stream<Part<S8>>, easy::Stream<Part<Str>>, PSrc<Part<Str>>, PIdx<Part<S8>>, Part<easy::Stream<PIdx<S8>>>,
        state::Stream<Part<S8>, u32>, Part<SliceStream<'static, u8>>, SpanPart, CompleteOrPart, &'static mut Part<S8>,
    ];
    ctx.par("parts", 60_000, 2_000_000, (12, 300), |r, _, t| parts(&partial, &cfg, r, t));
    ctx.par("long-parts", 20_000, 600_000, (12, 200), |r, _, t| {
        r.big = 3;
        parts(&partial, &cfg.clone().counted(), r, t)
    });
    // The known finding: IndexPositioner counts the tokens of `&str` in characters but its ranges in bytes, and
    // `recognize` finds the end of what it recognized by its position
    let sig = "recognize-range-index-positioner-str";
    let g = G::Recog(Box::new(G::RRange(b"b".to_vec())));
    let a = ob::<PIdx<Str>>(&g, b"bc");
    if a != Ok(R::Ok(V::S(b"b".to_vec()), 1, true)) {
        let what = format!("recognize(range(\"\u{1D11E}\")) on \"\u{1D11E}é\" through position::Stream<&str, IndexPositioner> gives {:?}", a);
        let mut t = ctx.total.lock().unwrap();
        if is_known("C06", sig) {
            t.known.insert(sig.into(), what);
        } else {
            t.violation(what)
        }
    }
    let mut min: Vec<(&str, u64)> = ranged.iter().chain(&rest).map(|k| (k.name, 1_000)).collect();
    min.extend(partial.iter().map(|k| (k.0, 2_000)));
    min.extend([("evaluations", 100_000), ("user_state_updates", 20_000), ("ok", 10_000), ("failed_peeked", 10_000), ("failed_committed", 10_000)]);
    let _ = (SourcePosition::new(), IteratorStream::new(0..1u8));
    ctx.finish("a random grammar and input over a random kind of stream, against the reference semantics; the user's state against the number of calls of map_input; distinct: (grammar, input, stream type)", &min)
}
