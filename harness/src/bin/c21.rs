//! C21: functions of the user are called once for everything that is accepted, in order, also in parts.
use combine::stream::MaybePartialStream;
use vcore::mon::{self, Mon};
use vcore::{build::*, drive::*, grammar::*, model::*, rng::Rng, run::*, statics::*};

/// Parsers which may parse the same input again, or search
const AGAIN: &[&str] = &[
    "attempt", "look_ahead", "not_followed_by", "no_partial", "take_until", "skip_until", "repeat_until", "repeat_skip_until",
];
/// These have no state, they start over when they are resumed
const STATELESS: &[&str] = &["count", "skip_count", "chainr1", "escaped"];
/// They go back to their start and wait there, on which a choice drops what it knows of the alternative
const BACK: &[&str] = &["range_recognize", "recognize_with_value"];
const CHOOSE: &[&str] = &[
    "choice_tuple", "choice_array", "choice_slice", "or", "optional", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "either",
];

/// Only what was called for something that has been consumed
fn strict(c: &[(char, usize)]) -> Vec<(char, usize)> {
    c.iter().filter(|c| c.0.is_uppercase()).cloned().collect()
}

fn whole<I>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I: Source,
    I::Token: Tk,
    I::Position: Default,
    I::Error: std::fmt::Debug,
{
    let d = 1 + r.below(4);
    let g = gen(r, cfg, d, false);
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, I::width);
    mon::record();
    let e = m.ev(&g, 0);
    let want = mon::recorded();
    if m.out_of_fuel.get() || m.maps_unsure.get() || g.has(&["chainr1"]) && g.has(AGAIN) {
        t.hit("not_compared");
        return;
    }
    t.evals += 1;
    t.saw(&(&g, &inp, name));
    t.add("calls", want.len() as u64);
    if want.is_empty() {
        t.hit("nothing_called")
    }
    g.walk(&mut |g| t.hit(&format!("node.{}", g.kind())));
    want.iter().for_each(|c| t.hit(&format!("call.{}", c.0)));
    t.sample(|| format!("{}: {:?} on {:?}: {:?}", name, g, lossy(&inp), want));
    for k in 0..5 {
        mon::record();
        let got = run_one::<I>(both(|| build::<I>(&g)), &inp, k).map(|x| x.0);
        let calls = mon::recorded();
        // Every chain which is part of another asks for another operator at its end
        let (calls, want) = if g.has(&["chainr1"]) { (strict(&calls), strict(&want)) } else { (calls, want.clone()) };
        if calls != want || got.as_ref() != Ok(&e) {
            t.violation(format!(
                "{}: {:?} on {:?}, {}: {:?} calls {:?}, expected {:?} {:?}",
                name, g, lossy(&inp), ["parse_stream", "parse_lazy", "parse_first", "parse_stream, bare", "parse_stream_partial"][k], got, calls, e, want
            ));
            return;
        }
    }
}

fn parts<I>(name: &str, cfg: &Cfg, r: &mut Rng, t: &mut Tally)
where
    I: Chunked,
    I::Token: Tk,
    I::Position: Default,
{
    let d = 1 + r.below(4);
    let g = gen(r, cfg, d, false);
    if g.has(AGAIN) || g.has(STATELESS) || g.has(BACK) && g.has(CHOOSE) {
        t.hit("not_compared");
        return;
    }
    let inp = input_for(&g, r, 20);
    let m = Model::new(&inp, I::width);
    mon::record();
    let e = m.ev(&g, 0);
    let want = mon::recorded();
    if m.out_of_fuel.get() || m.maps_unsure.get() {
        t.hit("not_compared");
        return;
    }
    let cuts: Vec<usize> = vcore::grammar::cuts(r, inp.len(), 2);
    t.evals += 1;
    t.saw(&(&g, &inp, name, &cuts));
    let mut stats = Resumes::default();
    mon::record();
    let got = chunked::<I>(&g, &inp, &cuts, &mut stats);
    let calls = mon::recorded();
    t.add("resumptions", stats.needed_more);
    let (calls, want) = (strict(&calls), strict(&want));
    t.add("calls_in_parts", want.len() as u64);
    want.iter().for_each(|c| t.hit(&format!("call.{}.in_parts", c.0)));
    if stats.needed_more > 0 && !want.is_empty() {
        t.hit("called_and_resumed")
    }
    if calls != want {
        t.violation(format!(
            "{}: {:?} on {:?} cut at {:?}: {:?} calls {:?}, expected {:?} {:?}",
            name, g, lossy(&inp), cuts, got, calls, e, want
        ));
    }
}

/// Messages are decoded one after the other with one parser and one state. How long a part of a message is is known only
/// to the function given to `factory`, which is asked once for every such part.
fn messages(name: &str, r: &mut Rng, t: &mut Tally) {
    use combine::{
        choice, count_min_max,
        parser::{
            byte::byte,
            combinator::{any_partial_state, factory},
            range::take,
        },
        produce,
        stream::{easy, PartialStream},
        Parser,
    };
    use std::{cell::RefCell, rc::Rc};
    type In<'a> = easy::Stream<PartialStream<&'a [u8]>>;

    let ctx = r.below(13);
    let per = [1, 1, 1, 1, 1, 1, 1, 2, 3, 1, 1, 1, 2][ctx];
    let n = r.range(2, 6);
    let lens: Vec<usize> = (0..n * per).map(|_| if ctx == 3 { r.range(1, 3) } else { r.below(4) }).collect();
    // Before and after what the factory parses
    let (pre, post) = match ctx {
        1 | 4 => (1, 0),
        2 => (0, 1),
        5 => (1, 1),
        _ => (0, 0),
    };
    let mut inp = Vec::new();
    let mut want = Vec::new();
    for m in lens.chunks(per) {
        let mut texts = Vec::new();
        inp.extend((0..pre).map(|_| b'<'));
        for &l in m {
            let text: Vec<u8> = (0..l).map(|_| b'a' + r.below(26) as u8).collect();
            inp.extend(&text);
            texts.push(text);
        }
        inp.extend((0..post).map(|_| b'>'));
        want.push(texts);
    }
    let asked = Rc::new(RefCell::new(Vec::new()));
    // A choice asks again as long as nothing has been consumed
    let again = ctx == 3 || ctx == 6;
    let done = Rc::new(RefCell::new(0));
    macro_rules! f {
        () => {{
            let (asked, lens, done) = (asked.clone(), lens.clone(), done.clone());
            factory(move |_: &mut In<'_>| {
                let k = if again { *done.borrow() } else { asked.borrow().len() };
                asked.borrow_mut().push(k);
                // More than expected is reported below
                take(lens.get(k).cloned().unwrap_or(0)).map(|s: &[u8]| s.to_vec())
            })
        }};
    }
    let cuts: Vec<usize> = (0..inp.len()).filter(|_| r.chance(1, 2)).collect();
    let mut more = 0u64;
    macro_rules! run {
        ($p: expr) => {{
            let mut p = $p;
            let mut st = Default::default();
            let (mut pos, mut k) = (0, 0);
            let mut got = Vec::new();
            while got.len() < n {
                let end = if k < cuts.len() { cuts[k] } else { inp.len() };
                let r = {
                    let mut i: In<'_> = easy::Stream(PartialStream(&inp[pos..end]));
                    combine::stream::decode(&mut p, &mut i, &mut st).map_err(|e| format!("{:?}", e))
                };
                match r {
                    Ok((v, used)) => {
                        pos += used;
                        match v {
                            Some(v) => {
                                got.push(v);
                                *done.borrow_mut() += 1
                            }
                            None if k == cuts.len() => return Err(format!("wants more after everything, has {:?}", got)),
                            None => {
                                more += 1;
                                k += 1
                            }
                        }
                    }
                    Err(e) => return Err(format!("{:?} after {:?}", e, got)),
                }
            }
            if pos != inp.len() {
                return Err(format!("only {} of {} consumed", pos, inp.len()));
            }
            Ok(got)
        }};
    }
    let got = (|| -> Result<Vec<Vec<Vec<u8>>>, String> {
        match ctx {
            0 => run!(f!().map(|a| vec![a])),
            1 => run!((byte(b'<'), f!()).map(|t| vec![t.1])),
            2 => run!((f!(), byte(b'>')).map(|t| vec![t.0])),
            3 => run!(choice((byte(b'!').map(|_| vec![]), f!())).map(|a| vec![a])),
            4 => run!(byte(b'<').with(f!()).and_then(|a| Ok::<_, easy::Error<u8, &[u8]>>(vec![a]))),
            5 => run!(combine::between(byte(b'<'), byte(b'>'), f!()).map(|a| vec![a])),
            6 => run!(f!().or(byte(b'!').map(|_| vec![])).map(|a| vec![a]).expected("message")),
            7 => run!((f!(), f!()).map(|t| vec![t.0, t.1])),
            8 => run!(count_min_max::<Vec<_>, _, _>(3, 3, f!())),
            9 => run!(any_partial_state(f!()).map(|a| vec![a])),
            10 => run!({
                let q = f!();
                factory(move |_: &mut In<'_>| produce(|| ())).with(q).map(|a| vec![a])
            }),
            11 => run!(f!().then_ref(|_| produce(|| ())).map(|t| vec![t.0])),
            _ => run!(f!().and(f!()).map(|t| vec![t.0, t.1])),
        }
    })();
    t.evals += 1;
    t.hit(&format!("context.{}", ctx));
    t.saw(&(ctx, &lens, &cuts));
    t.add("messages", n as u64);
    t.add("messages_resumed", more);
    let asked = asked.borrow().len();
    let asked_right = if again { asked >= lens.len() } else { asked == lens.len() };
    if got.as_ref() != Ok(&want) || !asked_right {
        t.violation(format!(
            "{}: context {}, lengths {:?} cut at {:?}: {:?}, expected {:?}; factories were asked {} times, expected {}",
            name, ctx, lens, cuts, got, want, asked, lens.len()
        ));
    }
}

fn main() {
    let ctx = Ctx::new("C21");
    let cfg = Cfg::new(true);
    ctx.par("whole", 300_000, 5_000_000, (15, 300), |r, _, t| whole::<Mon<S8>>("bytes", &cfg, r, t));
    ctx.par("parts", 300_000, 5_000_000, (15, 300), |r, _, t| parts::<MaybePartialStream<Mon<Str>>>("text", &cfg, r, t));
    let long = cfg.clone().counted();
    ctx.par("long-whole", 20_000, 600_000, (10, 150), |r, _, t| {
        r.big = 1;
        whole::<Mon<S8>>("bytes", &long, r, t)
    });
    ctx.par("long-parts", 20_000, 600_000, (10, 150), |r, _, t| {
        r.big = 1;
        parts::<MaybePartialStream<Mon<Str>>>("text", &long, r, t)
    });
    ctx.par("messages", 100_000, 2_000_000, (8, 120), |r, _, t| messages("messages", r, t));
    ctx.finish("the log of calls of the functions given to satisfy, satisfy_map, produce, map, map_input, flat_map, and_then, then, then_partial, then_ref, chains, iterate, factory and take_while; distinct: (grammar, input, cuts)", &[
        ("evaluations", 50_000),
        ("calls", 100_000),
        ("called_and_resumed", 5_000),
        ("messages_resumed", 50_000),
    ])
}
