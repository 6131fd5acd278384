//! C12: binary number parsers on every kind of byte stream against a bit by bit computation.
use combine::error::ParseResult;
use combine::parser::byte::num::*;
use combine::stream::{buffered, decode, position, read, IteratorStream, MaybePartialStream, SliceStream};
use combine::{Parser, Stream};
use vcore::{build::*, drive::*, rng::Rng, run::*, sources::*};

/// name, width, big endian, signed, float
const KINDS: [(&str, usize, bool); 16] = [
    ("be_u16", 2, true), ("le_u16", 2, false), ("be_u32", 4, true), ("le_u32", 4, false), ("be_u64", 8, true), ("le_u64", 8, false),
    ("be_i16", 2, true), ("le_i16", 2, false), ("be_i32", 4, true), ("le_i32", 4, false), ("be_i64", 8, true), ("le_i64", 8, false),
    ("be_f32", 4, true), ("le_f32", 4, false), ("be_f64", 8, true), ("le_f64", 8, false),
];

/// The bits of the value and its value as a mathematical number (integers) or as its bits (floats)
type Val = (u64, i128);

macro_rules! with {
    ($k: expr, $p: ident => $e: expr) => {
        match $k {
            0 => { let $p = be_u16().map(|x: u16| (x as u64, x as i128)); $e }
            1 => { let $p = le_u16().map(|x: u16| (x as u64, x as i128)); $e }
            2 => { let $p = be_u32().map(|x: u32| (x as u64, x as i128)); $e }
            3 => { let $p = le_u32().map(|x: u32| (x as u64, x as i128)); $e }
            4 => { let $p = be_u64().map(|x: u64| (x as u64, x as i128)); $e }
            5 => { let $p = le_u64().map(|x: u64| (x as u64, x as i128)); $e }
            6 => { let $p = be_i16().map(|x: i16| (x as u16 as u64, x as i128)); $e }
            7 => { let $p = le_i16().map(|x: i16| (x as u16 as u64, x as i128)); $e }
            8 => { let $p = be_i32().map(|x: i32| (x as u32 as u64, x as i128)); $e }
            9 => { let $p = le_i32().map(|x: i32| (x as u32 as u64, x as i128)); $e }
            10 => { let $p = be_i64().map(|x: i64| (x as u64, x as i128)); $e }
            11 => { let $p = le_i64().map(|x: i64| (x as u64, x as i128)); $e }
            12 => { let $p = be_f32().map(|x: f32| (x.to_bits() as u64, x.to_bits() as i128)); $e }
            13 => { let $p = le_f32().map(|x: f32| (x.to_bits() as u64, x.to_bits() as i128)); $e }
            14 => { let $p = be_f64().map(|x: f64| (x.to_bits(), x.to_bits() as i128)); $e }
            _ => { let $p = le_f64().map(|x: f64| (x.to_bits(), x.to_bits() as i128)); $e }
        }
    };
}

fn want(k: usize, b: &[u8]) -> Option<Val> {
    let (_, w, be) = KINDS[k];
    if b.len() < w {
        return None;
    }
    let mut bits = 0u64;
    for i in 0..w {
        let at = if be { i } else { w - 1 - i };
        bits = bits * 256 + b[at] as u64;
    }
    let signed = (6..12).contains(&k);
    let n = if signed && bits >> (8 * w - 1) == 1 { bits as i128 - (1i128 << (8 * w)) } else { bits as i128 };
    Some((bits, n))
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 12);
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => *r.pick(&[0, 0x7f, 0x80, 0xff]),
            1 => *r.pick(&[0, 1]),
            _ => r.next() as u8,
        })
        .collect()
}

/// One number from a stream: the value, and what is left afterwards
fn one<I: Stream<Token = u8>>(k: usize, i: &mut I) -> (Option<Val>, bool) {
    with!(k, p => {
        let mut p = p;
        match p.parse_stream(i) {
            ParseResult::CommitOk(v) => (Some(v), true),
            ParseResult::PeekOk(v) => (Some(v), false),
            ParseResult::CommitErr(_) => (None, true),
            ParseResult::PeekErr(_) => (None, false),
        }
    })
}

fn rest<I: combine::StreamOnce<Token = u8>>(i: &mut I) -> Vec<u8> {
    std::iter::from_fn(|| i.uncons().ok()).collect()
}

fn check(name: &str, k: usize, b: &[u8], got: Result<((Option<Val>, bool), Vec<u8>), String>, t: &mut Tally) {
    t.evals += 1;
    let e = want(k, b);
    let left = if e.is_some() { &b[KINDS[k].1..] } else { b };
    let ok = match &got {
        Ok(((v, c), l)) => *v == e && l == left && (e.is_none() || *c),
        Err(_) => false,
    };
    t.hit(if e.is_some() { "values" } else { "too_short" });
    t.hit(name);
    if !ok {
        t.violation(format!(
            "{} on {:x?} through {}: (value bits and number, committed), rest {:x?}; should be {:x?}, rest {:x?}",
            KINDS[k].0, b, name, got, e, left
        ));
    }
}

fn whole(r: &mut Rng, t: &mut Tally) {
    let k = r.below(16);
    let b = bytes(r);
    t.saw(&(k, &b));
    macro_rules! go {
        ($name: expr, $i: expr) => {
            check($name, k, &b, guard(|| {
                let mut i = $i;
                let x = one(k, &mut i);
                (x, rest(&mut i))
            }), t)
        };
    }
    match r.below(10) {
        0 => go!("slice", &b[..]),
        1 => go!("easy", combine::easy::Stream(&b[..])),
        2 => go!("position", position::Stream::new(&b[..])),
        3 => go!("easy position", combine::easy::Stream(position::Stream::new(&b[..]))),
        4 => go!("iterator", buffered::Stream::new(position::Stream::new(IteratorStream::new(b.iter().cloned())), 8)),
        5 => go!("easy iterator", buffered::Stream::new(combine::easy::Stream(position::Stream::new(IteratorStream::new(b.iter().cloned()))), 16)),
        6 => go!("reader", buffered::Stream::new(position::Stream::new(read::Stream::new(Dribble(b.clone(), 0, 3))), 8)),
        7 => {
            let mut s = &b[..];
            go!("reference", &mut s)
        }
        8 => go!("complete", combine::stream::CompleteStream(&b[..])),
        _ => {
            // inside a composition: a number after a skipped one, given back by attempt
            use combine::parser::combinator::attempt;
            use combine::parser::choice::optional;
            let got = guard(|| {
                let mut i = &b[..];
                let v = with!(k, p => optional(attempt(p)).parse_stream(&mut i).into_result().map_err(|_| ()).ok().and_then(|x| x.0));
                ((v, true), rest(&mut i))
            });
            check("attempt", k, &b, got, t)
        }
    }
    let _ = SliceStream(&b[..]);
}

/// Numbers one after another in parts
fn parts(r: &mut Rng, t: &mut Tally) {
    let k = r.below(16);
    let w = KINDS[k].1;
    let b: Vec<u8> = (0..r.range(0, 5 * w)).map(|_| if r.chance(1, 4) { *r.pick(&[0, 0x80, 0xff]) } else { r.next() as u8 }).collect();
    let cuts: Vec<usize> = vcore::grammar::cuts(r, b.len(), 2);
    t.saw(&(k, &b, &cuts));
    let easy = r.chance(1, 2);
    let got = guard(|| {
        let mut out = vec![];
        let mut pos = 0;
        for j in 0..=cuts.len() {
            let last = j == cuts.len();
            let end = if last { b.len() } else { cuts[j] };
            loop {
                let r = if easy {
                    let mut s = combine::easy::Stream(MaybePartialStream(&b[pos..end], !last));
                    with!(k, p => { let mut p = p; decode(&mut p, &mut s, &mut Default::default()) }.map_err(|_| ()))
                } else {
                    let mut s = MaybePartialStream(&b[pos..end], !last);
                    with!(k, p => { let mut p = p; decode(&mut p, &mut s, &mut Default::default()) }.map_err(|_| ()))
                };
                match r {
                    Ok((Some(v), n)) => {
                        pos += n;
                        out.push(v)
                    }
                    Ok((None, n)) => {
                        assert!(!last, "more than the whole input is wanted");
                        pos += n;
                        break;
                    }
                    Err(()) => {
                        assert!(last, "an error although more may come");
                        return (out, pos);
                    }
                }
            }
        }
        unreachable!()
    });
    t.evals += 1;
    let e: Vec<Val> = b.chunks(w).filter_map(|c| want(k, c)).collect();
    t.add("values_in_parts", e.len() as u64);
    let end = e.len() * w;
    if got.as_ref() != Ok(&(e.clone(), end)) {
        t.violation(format!("{} repeatedly on {:x?} in parts cut at {:?}: {:x?}; should be {:x?} and {} consumed", KINDS[k].0, b, cuts, got, e, end));
    }
}

fn main() {
    let ctx = Ctx::new("C12");
    ctx.par("whole", 600_000, 30_000_000, (20, 200), |r, _, t| whole(r, t));
    ctx.par("parts", 100_000, 5_000_000, (15, 200), |r, _, t| parts(r, t));
    // every 16 bit value
    ctx.par("u16", 65_536, 65_536, (20, 20), |_, c, t| {
        let b = (c as u16).to_be_bytes();
        for k in [0, 1, 6, 7] {
            check("all 16 bit values", k, &b, guard(|| {
                let mut i = &b[..];
                let x = one(k, &mut i);
                (x, rest(&mut i))
            }), t)
        }
    });
    let names = ["slice", "easy", "position", "easy position", "iterator", "easy iterator", "reader", "reference", "complete", "attempt"];
    let mut min: Vec<(&str, u64)> = names.iter().map(|n| (*n, 20_000)).collect();
    min.extend([("values", 200_000), ("too_short", 50_000), ("values_in_parts", 50_000), ("all 16 bit values", 262_144)]);
    ctx.finish("random bytes (biased to extreme values) through each number parser and kind of stream, against the value computed digit by digit; distinct: (parser, bytes, partition)", &min)
}
