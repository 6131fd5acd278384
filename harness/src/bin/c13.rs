//! C13: character and byte classes over the whole range of values; fixed strings.
use combine::error::ParseResult;
use combine::parser::{byte, char as ch, token as tk};
#[cfg(feature = "std")]
use combine::stream::{buffered, easy, IteratorStream};
use combine::stream::position;
use combine::{Parser, Stream, StreamOnce};
use vcore::{rng::Rng, run::*};

// Streams which combine has in some configurations only, and the nearest others where it has not (C22)
#[cfg(feature = "std")]
fn easy_str(s: &str) -> easy::Stream<position::Stream<&str, position::SourcePosition>> {
    easy::Stream(position::Stream::new(s))
}
#[cfg(not(feature = "std"))]
fn easy_str(s: &str) -> position::Stream<&str, position::SourcePosition> {
    position::Stream::new(s)
}
#[cfg(feature = "std")]
fn easy_bytes(s: &[u8]) -> easy::Stream<position::Stream<&[u8], position::IndexPositioner>> {
    easy::Stream(position::Stream::new(s))
}
#[cfg(not(feature = "std"))]
fn easy_bytes(s: &[u8]) -> position::Stream<&[u8], position::IndexPositioner> {
    position::Stream::new(s)
}
#[cfg(feature = "std")]
fn buf_str(s: &str, n: usize) -> impl Stream<Token = char> + '_ {
    buffered::Stream::new(position::Stream::with_positioner(IteratorStream::new(s.chars()), position::SourcePosition::new()), n)
}
#[cfg(not(feature = "std"))]
fn buf_str(s: &str, _: usize) -> impl Stream<Token = char> + '_ {
    combine::stream::CompleteStream(s)
}
#[cfg(feature = "std")]
fn buf_bytes(b: &[u8], n: usize) -> impl Stream<Token = u8> + '_ {
    buffered::Stream::new(position::Stream::new(IteratorStream::new(b.iter().cloned())), n)
}
#[cfg(not(feature = "std"))]
fn buf_bytes(b: &[u8], _: usize) -> impl Stream<Token = u8> + '_ {
    combine::stream::CompleteStream(b)
}

const CLASSES: [&str; 12] = [
    "digit", "space", "newline", "tab", "upper", "lower", "alpha_num", "letter", "oct_digit", "hex_digit", "crlf", "spaces",
];

/// how many bytes are accepted (0: rejected), from the documentation
fn byte_class(k: usize, b: &[u8]) -> usize {
    let c = match b.first() {
        Some(c) => *c,
        None => return 0,
    };
    let ws = |c: u8| matches!(c, 0x20 | 0x09 | 0x0a | 0x0c | 0x0d);
    let up = |c: u8| (0x41..=0x5a).contains(&c);
    let lo = |c: u8| (0x61..=0x7a).contains(&c);
    let dg = |c: u8| (0x30..=0x39).contains(&c);
    match k {
        0 => dg(c) as usize,
        1 => ws(c) as usize,
        2 => (c == 10) as usize,
        3 => (c == 9) as usize,
        4 => up(c) as usize,
        5 => lo(c) as usize,
        6 => (up(c) || lo(c) || dg(c)) as usize,
        7 => (up(c) || lo(c)) as usize,
        8 => (0x30..=0x37).contains(&c) as usize,
        9 => (dg(c) || (0x41..=0x46).contains(&c) || (0x61..=0x66).contains(&c)) as usize,
        10 => 2 * (b.starts_with(&[13, 10]) as usize),
        _ => b.iter().take_while(|c| ws(**c)).count(),
    }
}

fn char_class(k: usize, b: &[char]) -> usize {
    let c = match b.first() {
        Some(c) => *c,
        None => return 0,
    };
    let n = c as u32;
    let dg = (0x30..=0x39).contains(&n);
    (match k {
        0 => dg,
        1 => c.is_whitespace(),
        2 => n == 10,
        3 => n == 9,
        4 => c.is_uppercase(),
        5 => c.is_lowercase(),
        6 => c.is_alphabetic() || c.is_numeric(),
        7 => c.is_alphabetic(),
        8 => (0x30..=0x37).contains(&n),
        9 => dg || (0x41..=0x46).contains(&n) || (0x61..=0x66).contains(&n),
        10 => return 2 * (b.starts_with(&['\r', '\n']) as usize),
        _ => return b.iter().take_while(|c| c.is_whitespace()).count(),
    }) as usize
}

/// value of one token (None for `spaces`), ok, committed
type Out<T> = (bool, bool, Option<T>);

macro_rules! classes {
    ($name: ident, $m: ident, $t: ty) => {
        fn $name<I: Stream<Token = $t>>(k: usize, i: &mut I) -> Out<$t> {
            macro_rules! p {
                ($p: expr) => {
                    match $p.parse_stream(i) {
                        ParseResult::CommitOk(v) => (true, true, Some(v)),
                        ParseResult::PeekOk(v) => (true, false, Some(v)),
                        ParseResult::CommitErr(_) => (false, true, None),
                        ParseResult::PeekErr(_) => (false, false, None),
                    }
                };
            }
            match k {
                0 => p!($m::digit()),
                1 => p!($m::space()),
                2 => p!($m::newline()),
                3 => p!($m::tab()),
                4 => p!($m::upper()),
                5 => p!($m::lower()),
                6 => p!($m::alpha_num()),
                7 => p!($m::letter()),
                8 => p!($m::oct_digit()),
                9 => p!($m::hex_digit()),
                10 => p!($m::crlf()),
                _ => {
                    let (a, b, _) = p!($m::spaces());
                    (a, b, None)
                }
            }
        }
    };
}
classes!(bytes_parse, byte, u8);
classes!(chars_parse, ch, char);

fn left<I: StreamOnce>(i: &mut I) -> Vec<I::Token> {
    std::iter::from_fn(|| i.uncons().ok()).collect()
}

fn judge<T: Copy + PartialEq + std::fmt::Debug>(what: &str, k: usize, inp: &[T], accepted: usize, got: Result<(Out<T>, Vec<T>), String>, first_cr: bool, t: &mut Tally) {
    t.evals += 1;
    let many = k == 11;
    // a crlf whose second half is missing has consumed the first
    let part = k == 10 && accepted == 0 && first_cr;
    let ok = match &got {
        Err(_) => false,
        Ok(((ok, committed, v), rest)) => {
            if accepted > 0 {
                let val = match k {
                    11 => None,
                    10 => Some(inp[1]),
                    _ => Some(inp[0]),
                };
                *ok && *committed && *rest == inp[accepted..] && *v == val
            } else if many {
                *ok && !*committed && *rest == *inp
            } else if part {
                !*ok && *committed
            } else {
                !*ok && !*committed && *rest == *inp || !*ok && !*committed && inp.len() == rest.len() + 1 && *rest == inp[1..]
            }
        }
    };
    t.hit(if accepted > 0 { "accepted" } else { "rejected" });
    if !ok {
        t.violation(format!("{}::{} on {:?}: (ok, committed, value), rest: {:?}; should accept {} of it", what, CLASSES[k], inp, got, accepted));
    }
}

fn all_bytes(c: u64, t: &mut Tally) {
    for k in 0..12 {
        for tail in [&b""[..], b"\n", b"a", b" 1"] {
            let mut v = vec![c as u8];
            v.extend_from_slice(tail);
            let e = byte_class(k, &v);
            t.saw(&(k, &v));
            judge("byte", k, &v, e, guard(|| { let mut i = &v[..]; let o = bytes_parse(k, &mut i); (o, left(&mut i)) }), v[0] == 13, t);
            judge("byte", k, &v, e, guard(|| { let mut i = easy_bytes(&v[..]); let o = bytes_parse(k, &mut i); (o, left(&mut i)) }), v[0] == 13, t);
        }
    }
}

fn all_chars(c: u64, t: &mut Tally) {
    for n in (c * 256)..((c + 1) * 256) {
        let x = match char::from_u32(n as u32) {
            Some(x) => x,
            None => continue,
        };
        t.hit("characters");
        let v = [x, 'é'];
        let s: String = v.iter().collect();
        for k in 0..12 {
            let e = char_class(k, &v);
            judge("char", k, &v, e, guard(|| { let mut i = &s[..]; let o = chars_parse(k, &mut i); (o, left(&mut i)) }), x == '\r', t);
        }
        t.saw(&n);
    }
}

/// Short inputs of characters around the classes, on other streams, including sequences of white space
fn mixed(r: &mut Rng, t: &mut Tally) {
    const C: [char; 26] = [
        '\r', '\n', '\t', ' ', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{feff}', '0', '7', '8', '9', 'a', 'F', 'g', 'G', 'z', 'Z', '²', 'ß', 'Ⅷ', '٣', 'ǅ',
    ];
    let n = r.range(0, 5);
    let ws = r.chance(1, 2);
    let v: Vec<char> = (0..n).map(|_| if ws { C[r.below(11)] } else { *r.pick(&C) }).collect();
    let k = if ws { *r.pick(&[1, 2, 3, 10, 11]) } else { r.below(12) };
    let s: String = v.iter().collect();
    let e = char_class(k, &v);
    t.saw(&(k, &v));
    let cr = v.first() == Some(&'\r');
    match r.below(4) {
        0 => judge("char", k, &v, e, guard(|| { let mut i = easy_str(&s[..]); let o = chars_parse(k, &mut i); (o, left(&mut i)) }), cr, t),
        1 => judge("char", k, &v, e, guard(|| { let mut i = buf_str(&s, 4); let o = chars_parse(k, &mut i); (o, left(&mut i)) }), cr, t),
        2 => judge("char", k, &v, e, guard(|| { let mut i = &v[..]; let o = chars_parse(k, &mut i); (o, left(&mut i)) }), cr, t),
        _ => {
            let b: Vec<u8> = (0..n).map(|_| *r.pick(b"\r\n\t \x0b\x0c\x8509afAFgGzZ/:@[`{\xff")).collect();
            let e = byte_class(k, &b);
            judge("byte", k, &b, e, guard(|| { let mut i = buf_bytes(&b, 4); let o = bytes_parse(k, &mut i); (o, left(&mut i)) }), b.first() == Some(&13), t)
        }
    }
}

thread_local!(static WORDS: std::cell::RefCell<std::collections::HashMap<String, &'static str>> = Default::default());

/// The parsers keep `&'static str`s; there are few of them
fn intern(s: &str) -> &'static str {
    WORDS.with(|w| {
        let mut w = w.borrow_mut();
        if let Some(s) = w.get(s) {
            return *s;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        w.insert(s.to_string(), l);
        l
    })
}

/// (ok, committed, value, rest)
type Str = (bool, bool, Option<String>, String);

fn run_str<I, P>(mut i: I, mut p: P, val: impl Fn(P::Output) -> String, rest: impl Fn(Vec<I::Token>) -> String) -> Result<Str, String>
where
    I: Stream,
    P: Parser<I>,
{
    guard(|| {
        let (ok, c, v) = match p.parse_stream(&mut i) {
            ParseResult::CommitOk(v) => (true, true, Some(v)),
            ParseResult::PeekOk(v) => (true, false, Some(v)),
            ParseResult::CommitErr(_) => (false, true, None),
            ParseResult::PeekErr(_) => (false, false, None),
        };
        (ok, c, v.map(&val), rest(left(&mut i)))
    })
}

const PARSERS: [&str; 10] = ["string", "string_cmp", "tokens", "tokens_cmp", "bytes", "bytes_cmp", "tokens_bytes", "string.easy", "string_cmp.buffered", "tokens_cmp.slice"];

/// Strings: which prefix of the input is consumed, with what outcome
fn strings(r: &mut Rng, t: &mut Tally) {
    const A: [char; 8] = ['a', 'A', 'b', 'B', 'é', 'É', '\u{1D11E}', 'ß'];
    const B: [char; 6] = ['a', 'A', 'b', 'B', '1', '\n'];
    let k = r.below(PARSERS.len());
    let byte = (4..7).contains(&k);
    fn ch(byte: bool, r: &mut Rng) -> char {
        if byte { *r.pick(&B) } else { *r.pick(&A) }
    }
    let w = |r: &mut Rng, lo: usize, hi: usize| -> String { (0..r.range(lo, hi)).map(|_| ch(byte, r)).collect() };
    let times = if r.chance(1, 25) { *r.pick(&[16, 64, 70, 255, 256, 300, 20_000]) } else { 1 };
    let lit: String = w(r, 0, 4).repeat(times);
    let mut inp: String = if r.chance(3, 4) {
        let cut = if r.chance(1, 2) { usize::MAX } else { r.range(0, if times > 1 { lit.len() } else { 5 }) };
        let wild = r.chance(1, 2);
        let case = r.chance(1, 2);
        lit.chars()
            .take(cut)
            .map(|c| {
                if wild && r.chance(1, if times > 1 { 300 } else { 5 }) {
                    ch(byte, r)
                } else if case && r.chance(1, 3) {
                    let u = c.to_uppercase().next().unwrap();
                    if u == c || c == 'ß' { c.to_lowercase().next().unwrap() } else { u }
                } else {
                    c
                }
            })
            .collect()
    } else {
        w(r, 0, 4)
    };
    if r.chance(1, 2) {
        inp.push_str(&w(r, 0, 3));
    }
    let long = if times > 1 { lit.clone() } else { String::new() };
    // SAFETY: the parsers made below are gone before `long` is
    let lit: &'static str = if times > 1 { unsafe { &*(&long[..] as *const str) } } else { intern(&lit) };
    let cmp = PARSERS[k].contains("cmp") || k == 2 && r.chance(1, 2);
    let eq = move |a: char, b: char| if cmp { a.to_lowercase().eq(b.to_lowercase()) } else { a == b };
    let beq = move |a: u8, b: u8| if cmp { a.eq_ignore_ascii_case(&b) } else { a == b };
    let l: Vec<char> = lit.chars().collect();
    let i: Vec<char> = inp.chars().collect();
    // the comparison may be asked in either order, but both are symmetric
    let m = l.iter().zip(&i).take_while(|(a, b)| eq(**a, **b)).count();
    let full = m == l.len();
    let e: Str = (full, if full { !l.is_empty() } else { m > 0 }, if full { Some(lit.to_string()) } else { None }, i[m..].iter().collect());
    t.hit(if full { "strings_matched" } else if m > 0 { "strings_cut_short" } else { "strings_rejected" });
    t.hit(&format!("parser.{}", PARSERS[k]));
    t.saw(&(k, lit, &inp, cmp));
    t.evals += 1;
    let chars = |v: Vec<char>| v.into_iter().collect::<String>();
    let bytes = |v: Vec<u8>| v.into_iter().map(|b| b as char).collect::<String>();
    let own = |s: &str| s.to_string();
    let bs = |s: &[u8]| s.iter().map(|b| *b as char).collect::<String>();
    let got = match k {
        0 => run_str(&inp[..], ch::string(lit), own, chars),
        1 => run_str(&inp[..], ch::string_cmp(lit, eq), own, chars),
        2 => run_str(&inp[..], tk::tokens(eq, lit, lit.chars()), |c| c.collect(), chars),
        3 => run_str(&inp[..], tk::tokens_cmp(lit.chars(), eq), |c| c.collect(), chars),
        4 => run_str(inp.as_bytes(), byte::bytes(lit.as_bytes()), bs, bytes),
        5 => run_str(inp.as_bytes(), byte::bytes_cmp(lit.as_bytes(), beq), bs, bytes),
        6 => run_str(inp.as_bytes(), tk::tokens(beq, "", lit.bytes()), |c| c.map(|b| b as char).collect(), bytes),
        7 => run_str(easy_str(&inp[..]), ch::string(lit), own, chars),
        8 => run_str(
            buf_str(&inp, 8),
            ch::string_cmp(lit, eq),
            own,
            chars,
        ),
        _ => run_str(&i[..], tk::tokens_cmp(lit.chars(), eq), |c| c.collect(), chars),
    };
    t.sample(|| format!("{}({:?}) on {:?} (ignoring case: {}): {:?}", PARSERS[k], lit, inp, cmp, got));
    // where a failed parser leaves the input is the business of whoever resets it
    let good = match &got {
        Ok(g) if full => *g == e,
        Ok(g) => (g.0, g.1) == (e.0, e.1),
        Err(_) => false,
    };
    if !good {
        t.violation(format!("{}({:?}) on {:?} (ignoring case: {}): (ok, committed, value, rest) is {:?} but should be {:?}", PARSERS[k], lit, inp, cmp, got, e));
    }
}

/// satisfy, satisfy_map, token, one_of, none_of, any, value, eof: which token they accept
fn single(r: &mut Rng, t: &mut Tally) {
    const A: [char; 6] = ['a', 'b', '\0', 'é', '\u{10ffff}', '\n'];
    let set: Vec<char> = (0..r.range(0, 4)).map(|_| *r.pick(&A)).collect();
    let i: Vec<char> = (0..r.range(0, 3)).map(|_| *r.pick(&A)).collect();
    let inp: String = i.iter().collect();
    let c = *r.pick(&A);
    let k = r.below(8);
    let first = i.first().cloned();
    let has = |x: char| set.iter().any(|y| *y == x);
    // consumed, value
    let e: Option<(usize, Option<char>)> = match k {
        0 => first.filter(|f| *f == c).map(|f| (1, Some(f))),
        1 => first.filter(|f| has(*f)).map(|f| (1, Some(f))),
        2 => first.filter(|f| !has(*f)).map(|f| (1, Some(f))),
        3 => first.map(|f| (1, Some(f))),
        4 => first.filter(|f| has(*f)).map(|f| (1, Some(f))),
        5 => first.filter(|f| has(*f)).map(|f| (1, Some(f.to_ascii_uppercase()))),
        6 => if first.is_none() { Some((0, None)) } else { None },
        _ => Some((0, Some(c))),
    };
    let e: Str = match e {
        Some((n, v)) => (true, n > 0, Some(v.into_iter().collect()), i[n..].iter().collect()),
        None => (false, false, None, inp.clone()),
    };
    t.evals += 1;
    t.hit("single");
    t.saw(&(k, &set, &i, c));
    let chars = |v: Vec<char>| v.into_iter().collect::<String>();
    let st = |c: char| c.to_string();
    let pred = |x: char| set.iter().any(|y| *y == x);
    macro_rules! on {
        ($i: expr) => {
            match k {
                0 => run_str($i, tk::token(c), st, chars),
                1 => run_str($i, tk::one_of(set.iter().cloned()), st, chars),
                2 => run_str($i, tk::none_of(set.iter().cloned()), st, chars),
                3 => run_str($i, tk::any(), st, chars),
                4 => run_str($i, tk::satisfy(pred), st, chars),
                5 => run_str($i, tk::satisfy_map(|x: char| if pred(x) { Some(x.to_ascii_uppercase()) } else { None }), st, chars),
                6 => run_str($i, tk::eof(), |_| String::new(), chars),
                _ => run_str($i, tk::value(c), st, chars),
            }
        };
    }
    let got = match r.below(3) {
        0 => on!(&inp[..]),
        1 => on!(&i[..]),
        _ => on!(easy_str(&inp[..])),
    };
    let good = match &got {
        Ok(g) if e.0 => *g == e,
        Ok(g) => (g.0, g.1) == (e.0, e.1),
        Err(_) => false,
    };
    if !good {
        t.violation(format!("token parser {} ({:?}, set {:?}) on {:?}: (ok, committed, value, rest) is {:?} but should be {:?}", k, c, set, inp, got, e));
    }
}

fn main() {
    let ctx = Ctx::new(if cfg!(feature = "std") { "C13" } else { "C22" });
    ctx.par("bytes", 256, 256, (30, 60), |_, c, t| all_bytes(c, t));
    ctx.par("chars", 0x1100, 0x1100, (60, 60), |_, c, t| all_chars(c, t));
    ctx.par("mixed", 200_000, 5_000_000, (10, 100), |r, _, t| mixed(r, t));
    ctx.par("strings", 400_000, 20_000_000, (15, 200), |r, _, t| strings(r, t));
    ctx.par("single", 200_000, 5_000_000, (10, 100), |r, _, t| single(r, t));
    let mut min = vec![("characters", 0x110000 - 0x800), ("accepted", 100_000), ("rejected", 1_000_000), ("strings_matched", 20_000), ("strings_cut_short", 20_000), ("single", 50_000)];
    let names: Vec<String> = PARSERS.iter().map(|p| format!("parser.{}", p)).collect();
    min.extend(names.iter().map(|n| (&n[..], 5_000)));
    ctx.finish("every byte and every Unicode scalar value against every class parser; random literals and inputs which share prefixes with them; all by table or by comparing one by one; non-trivial: every case; distinct: (parser, literal, input)", &min)
}
