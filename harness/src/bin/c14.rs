//! C14: searches for delimiters against a naive search, message after message, over growing input.
use combine::parser::combinator::{any_partial_state, attempt, AnyPartialState};
use combine::parser::range::{take, take_fn, take_until_range, TakeRange};
use combine::parser::repeat::{repeat_skip_until, repeat_until, skip_until, take_until};
use combine::parser::token::{any, tokens};
use combine::parser::{byte, range};
use combine::stream::{decode, position, MaybePartialStream, Range};
use combine::{easy, Parser, RangeStream};
use std::cell::Cell;
use std::rc::Rc;
use vcore::{mon::{self, Mon}, rng::Rng, run::*};

type S8 = &'static [u8];
type St = &'static str;

/// Tokens and ranges as bytes
trait Raw {
    fn put(&self, out: &mut Vec<u8>);
}
impl Raw for u8 {
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self)
    }
}
impl Raw for char {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(self.encode_utf8(&mut [0; 4]).bytes())
    }
}
impl Raw for S8 {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(self)
    }
}
impl Raw for St {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(self.as_bytes())
    }
}
fn raw<T: Raw>(t: T) -> Vec<u8> {
    let mut v = vec![];
    t.put(&mut v);
    v
}
fn cat<T: Raw>(t: Vec<T>) -> Vec<u8> {
    let mut v = vec![];
    t.iter().for_each(|t| t.put(&mut v));
    v
}

/// A stream over a window of the input, which must outlive its use
trait Src: RangeStream + Sized
where
    Self::Range: Raw + AsRef<[u8]> + PartialEq + 'static,
    Self::Token: Raw + 'static,
{
    fn lend(w: &[u8], partial: bool) -> Self;
    fn range_of(w: &[u8]) -> Self::Range;
    fn items(w: &[u8]) -> Vec<Self::Token>;
}
unsafe fn forever<T: ?Sized>(t: &T) -> &'static T {
    &*(t as *const T)
}
macro_rules! src {
    ($t: ty, $i: ident, $p: ident, bytes, $e: expr) => {
        impl Src for $t {
            fn lend(w: &[u8], $p: bool) -> Self {
                let $i = Mon(unsafe { forever(w) });
                $e
            }
            fn range_of(w: &[u8]) -> S8 {
                unsafe { forever(w) }
            }
            fn items(w: &[u8]) -> Vec<u8> {
                w.to_vec()
            }
        }
    };
    ($t: ty, $i: ident, $p: ident, text, $e: expr) => {
        impl Src for $t {
            fn lend(w: &[u8], $p: bool) -> Self {
                let $i = Mon(std::str::from_utf8(unsafe { forever(w) }).unwrap());
                $e
            }
            fn range_of(w: &[u8]) -> St {
                std::str::from_utf8(unsafe { forever(w) }).unwrap()
            }
            fn items(w: &[u8]) -> Vec<char> {
                std::str::from_utf8(w).unwrap().chars().collect()
            }
        }
    };
}
src!(MaybePartialStream<Mon<S8>>, i, p, bytes, MaybePartialStream(i, p));
src!(MaybePartialStream<Mon<St>>, i, p, text, MaybePartialStream(i, p));
src!(easy::Stream<MaybePartialStream<Mon<S8>>>, i, p, bytes, easy::Stream(MaybePartialStream(i, p)));
src!(easy::Stream<MaybePartialStream<Mon<St>>>, i, p, text, easy::Stream(MaybePartialStream(i, p)));
type PosT = position::Stream<MaybePartialStream<Mon<St>>, position::SourcePosition>;
src!(PosT, i, p, text, position::Stream::with_positioner(MaybePartialStream(i, p), position::SourcePosition::new()));
type PosB = MaybePartialStream<easy::Stream<position::Stream<Mon<S8>, position::IndexPositioner>>>;
src!(PosB, i, p, bytes, MaybePartialStream(easy::Stream(position::Stream::with_positioner(i, position::IndexPositioner::new())), p));

const KINDS: [&str; 12] = [
    "take_until_byte", "take_until_byte2", "take_until_byte3", "take_until_bytes", "take_until_range", "take_fn.option", "take_fn.range",
    "take_until", "skip_until", "repeat_until", "repeat_skip_until", "recognize.take_until_range",
];

fn find(h: &[u8], k: usize, d: &[u8]) -> Option<(usize, usize)> {
    if k < 3 {
        h.iter().position(|b| d.contains(b)).map(|i| (i, 1))
    } else {
        (0..=h.len()).find(|i| h[*i..].starts_with(d)).map(|i| (i, d.len()))
    }
}

/// The search followed by its delimiter; None where only the delimiter can be seen
fn mk<I: Src>(k: usize, d: S8, keep: usize, calls: Rc<Cell<u64>>) -> Box<dyn Parser<I, Output = (Option<Vec<u8>>, Vec<u8>), PartialState = AnyPartialState>>
where
    I::Range: Raw + AsRef<[u8]> + PartialEq + Range + 'static,
    I::Token: Raw + PartialEq + Clone + 'static,
    I: 'static,
{
    let n = d.len();
    let items = I::items(if k < 3 { &[] } else { d });
    macro_rules! seq {
        ($p: expr, $n: expr) => {
            Box::new(any_partial_state(($p.map(|x| Some(raw(x))), take($n).map(raw))))
        };
    }
    macro_rules! end {
        () => {
            attempt(tokens(|a: I::Token, b: I::Token| a == b, "end", items.clone()))
        };
    }
    macro_rules! tk {
        ($p: expr) => {
            Box::new(any_partial_state(($p, take(n).map(raw))))
        };
    }
    match k {
        0 => seq!(byte::take_until_byte(d[0]), 1),
        1 => seq!(byte::take_until_byte2(d[0], d[1]), 1),
        2 => seq!(byte::take_until_byte3(d[0], d[1], d[2]), 1),
        3 => seq!(byte::take_until_bytes(d), n),
        4 => seq!(take_until_range(I::range_of(d)), n),
        5 => seq!(
            take_fn(move |h: I::Range| {
                calls.set(calls.get() + 1);
                find(h.as_ref(), 3, d).map(|x| x.0)
            }),
            n
        ),
        6 => seq!(
            take_fn(move |h: I::Range| {
                calls.set(calls.get() + 1);
                let b = h.as_ref();
                match find(b, 3, d) {
                    Some((i, _)) => TakeRange::Found(i),
                    None => {
                        // some place at which a character starts and before which no delimiter can start
                        let mut m = b.len().saturating_sub(n.saturating_sub(1)).saturating_sub(keep);
                        while m > 0 && m < b.len() && b[m] & 0xc0 == 0x80 {
                            m -= 1;
                        }
                        TakeRange::NotFound(m)
                    }
                }
            }),
            n
        ),
        7 => tk!(take_until::<Vec<I::Token>, _, _>(end!()).map(|v| Some(cat(v)))),
        8 => tk!(skip_until(end!()).map(|_| None)),
        9 => tk!(repeat_until::<Vec<I::Token>, _, _, _>(any(), end!()).map(|v| Some(cat(v)))),
        10 => tk!(repeat_skip_until(any(), end!()).map(|_| None)),
        _ => seq!(range::recognize(take_until_range(I::range_of(d))), n),
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Msg(Vec<u8>, usize),

}

struct Case {
    k: usize,
    d: Vec<u8>,
    inp: Vec<u8>,
    cuts: Vec<usize>,
    keep: usize,
}

fn run<I: Src + 'static>(c: &Case, max: usize, t: &mut Tally) -> Result<(), String>
where
    I::Range: Raw + AsRef<[u8]> + PartialEq + Range + 'static,
    I::Token: Raw + PartialEq + Clone + 'static,
{
    let calls = Rc::new(Cell::new(0));
    let mut p = mk::<I>(c.k, unsafe { forever(&c.d[..]) }, c.keep, calls);
    let mut st = AnyPartialState::default();
    let mut got = vec![];
    let mut pos = 0;
    let mut start = 0;
    mon::start(1_000_000 + 4 * c.inp.len() as u64 * (c.d.len() as u64 + 2) * (c.cuts.len() as u64 + 1));
    for j in 0..=c.cuts.len() {
        let last = j == c.cuts.len();
        let end = if last { c.inp.len() } else { c.cuts[j] };
        loop {
            if got.len() == max {
                return Ok(());
            }
            let want = find(&c.inp[start..end], c.k, &c.d);
            let w: Box<[u8]> = c.inp[pos..end].into();
            let mut i = I::lend(&w, !last);
            match decode(&mut p, &mut i, &mut st) {
                Ok((Some((v, delim)), n)) => {
                    t.hit("found");
                    let (at, len) = match want {
                        Some(x) => x,
                        None => return Err(format!("message {} is {:?} but there is no delimiter in {:?}", got.len(), v.map(show), show(c.inp[start..end].to_vec()))),
                    };
                    let piece = &c.inp[start..start + at];
                    if v.as_ref().map_or(false, |v| v != piece) || delim != &c.inp[start + at..start + at + len] || pos + n != start + at + len {
                        return Err(format!(
                            "message {} is ({:?}, {:?}) and {} are removed at {}, but it should be {:?} from {}",
                            got.len(),
                            v.map(show),
                            show(delim),
                            n,
                            pos,
                            show(piece.to_vec()),
                            start
                        ));
                    }
                    pos += n;
                    start = pos;
                    got.push(Ev::Msg(piece.to_vec(), pos));
                }
                Ok((None, n)) => {
                    t.hit("needed_more");
                    if last {
                        return Err("more input is wanted after the last of it".into());
                    }
                    if want.is_some() {
                        return Err(format!("the delimiter in {:?} is not seen", show(c.inp[start..end].to_vec())));
                    }
                    pos += n;
                    if pos > end {
                        return Err("more was removed than there is".into());
                    }
                    break;
                }
                Err(_) => {
                    t.hit("not_found");
                    if want.is_some() || !last {
                        return Err(format!("message {} fails but {:?} is {}", got.len(), show(c.inp[start..end].to_vec()), if want.is_some() { "delimited" } else { "not all" }));
                    }
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

fn show(v: Vec<u8>) -> String {
    format!("{:?}", String::from_utf8_lossy(&v))
}

fn case(r: &mut Rng, t: &mut Tally) {
    let text = r.chance(1, 2);
    let k = r.below(KINDS.len());
    let alpha: &[char] = match r.below(4) {
        0 => &['a', 'b'],
        1 if !text => &['a', '\u{80}', '\u{ff}', '\0', '\n'],
        1 => &['é', 'è', 'É', 'a', '\u{1D11E}', '\u{1D11F}'],
        2 => &['a', 'b', 'c', '\n', '-'],
        _ => &['x', 'x', 'x', 'x', 'y'],
    };
    let put = |c: char, out: &mut Vec<u8>| if text { c.put(out) } else { out.push(c as u32 as u8) };
    let word = |r: &mut Rng, lo: usize, hi: usize| {
        let mut v = vec![];
        for _ in 0..r.range(lo, hi) {
            put(*r.pick(alpha), &mut v)
        }
        v
    };
    let d = if k < 3 {
        // single bytes; in text only ASCII delimits characters
        (0..k + 1)
            .map(|_| {
                let c = *r.pick(alpha) as u32 as u8;
                if text && c >= 0x80 { b'a' } else { c }
            })
            .collect()
    } else {
        let max = if r.big > 0 { 300 } else { 5 };
        word(r, if k < 7 || k == 11 { 0 } else { 1 }, max)
    };
    let mut inp = vec![];
    let long = r.chance(1, 20);
    let many = r.big > 0 && r.chance(1, 3);
    for _ in 0..if many { r.range(10, 400) } else { r.below(5) } {
        let max = if many {
            *r.pick(&[0, 2, 5, 30])
        } else if r.big > 0 {
            *r.pick(&[3, 300, 1000, 70_000])
        } else if long {
            200
        } else {
            7
        };
        inp.extend(word(r, 0, max));
        if r.chance(2, 3) {
            if r.chance(1, 3) {
                // the beginning of a delimiter
                let mut m = r.range(0, d.len());
                while text && m < d.len() && d[m] & 0xc0 == 0x80 {
                    m -= 1
                }
                inp.extend_from_slice(&d[..m]);
            }
            if k < 3 { inp.push(d[0]) } else { inp.extend_from_slice(&d) }
        }
    }
    let boundary = |i: &usize| !text || *i == inp.len() || inp[*i] & 0xc0 != 0x80;
    let style = r.below(4);
    let style = if r.big > 0 && inp.len() > 200 { 4 } else { style };
    let few = r.range(0, 4);
    let cuts: Vec<usize> = (0..=inp.len()).filter(boundary).filter(|_| style == 0 || style == 1 && r.chance(1, 4) || style == 2 && r.chance(1, 40) || style == 4 && r.chance(few, inp.len())).collect();
    let c = Case { k, d, inp, cuts, keep: if r.chance(1, 2) { 0 } else { r.below(4) } };
    let w = r.below(3);
    let max = if many { 1_000 } else { 12 };
    fn go(text: bool, w: usize, c: &Case, max: usize, t: &mut Tally) -> Result<(), String> {
        guard(|| match (text, w) {
            (false, 0) => run::<MaybePartialStream<Mon<S8>>>(c, max, t),
            (false, 1) => run::<easy::Stream<MaybePartialStream<Mon<S8>>>>(c, max, t),
            (false, _) => run::<PosB>(c, max, t),
            (true, 0) => run::<MaybePartialStream<Mon<St>>>(c, max, t),
            (true, 1) => run::<easy::Stream<MaybePartialStream<Mon<St>>>>(c, max, t),
            (true, _) => run::<PosT>(c, max, t),
        })
        .and_then(|x| x)
    }
    t.evals += 1;
    t.hit(&format!("kind.{}", KINDS[k]));
    t.hit(if text { "text" } else { "bytes" });
    if c.cuts.len() > 0 {
        t.saw(&(k, w, text, &c.d, &c.inp, &c.cuts));
    }
    t.sample(|| format!("{} {:?} in {:?} cut at {:?}", KINDS[k], show(c.d.clone()), show(c.inp.clone()), c.cuts));
    if let Err(mut e) = go(text, w, &c, max, t) {
        // drop cuts and the end of the input while it still fails
        let mut c = c;
        let t0 = std::time::Instant::now();
        loop {
            if t0.elapsed().as_secs() > 20 {
                break;
            }
            let mut better = None;
            for j in 0..c.cuts.len() {
                let mut cuts = c.cuts.clone();
                cuts.remove(j);
                let n = Case { k, d: c.d.clone(), inp: c.inp.clone(), cuts, keep: c.keep };
                if let Err(e) = go(text, w, &n, max, &mut Tally::default()) {
                    better = Some((n, e));
                    break;
                }
            }
            if better.is_none() && !c.inp.is_empty() {
                let mut m = c.inp.len() - 1;
                while text && m > 0 && c.inp[m] & 0xc0 == 0x80 {
                    m -= 1
                }
                let n = Case { k, d: c.d.clone(), inp: c.inp[..m].to_vec(), cuts: c.cuts.iter().cloned().filter(|x| *x <= m).collect(), keep: c.keep };
                if let Err(e) = go(text, w, &n, max, &mut Tally::default()) {
                    better = Some((n, e));
                }
            }
            match better {
                Some((n, x)) => {
                    c = n;
                    e = x;
                }
                None => break,
            }
        }
        t.violation(format!(
            "{} of {:?} in {:?} ({}, stream {}) arriving in parts cut at {:?}: {}",
            KINDS[k],
            show(c.d),
            show(c.inp),
            if text { "text" } else { "bytes" },
            w,
            c.cuts,
            e
        ));
    }
}

fn main() {
    let ctx = Ctx::new("C14");
    ctx.par("search", 800_000, 40_000_000, (60, 600), |r, _, t| case(r, t));
    // long delimiters, of which long beginnings come before, and much before them
    ctx.par("long", 15_000, 500_000, (20, 250), |r, _, t| {
        r.big = 3;
        case(r, t)
    });
    let names: Vec<String> = KINDS.iter().map(|k| format!("kind.{}", k)).collect();
    let mut min = vec![("found", 200_000), ("not_found", 50_000), ("needed_more", 200_000), ("text", 50_000), ("bytes", 50_000)];
    min.extend(names.iter().map(|n| (&n[..], 5_000)));
    ctx.finish("messages delimited by a random delimiter (with its beginnings sprinkled in), taken one after the other from a buffer which grows part by part, against a naive search; non-trivial: the input came in parts; distinct: (parser, delimiter, input, parts, stream)", &min)
}
