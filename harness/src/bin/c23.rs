//! C23: an error prints exactly what it contains, and its offset translates back to a place in the input.
use combine::easy::{self, Info};
use combine::error::{self as ce, StringStreamError, UnexpectedParse};
use combine::parser::error::{unexpected, unexpected_any};
use combine::stream::{decoder, position::SourcePosition, read, PointerOffset};
use combine::{EasyParser, Parser};
use std::error::Error as StdError;
use std::fmt::{self, Display, Write};
use vcore::{build::*, drive::*, grammar::*, rng::Rng, run::*, sources::*};

macro_rules! law {
    ($t: expr, $c: expr, $($a: tt)*) => {
        $t.evals += 1;
        if !$c {
            $t.violation(format!($($a)*));
            return;
        }
    };
}

// ---- what may be displayed: anything

/// Displays itself in several pieces
#[derive(Clone, Debug, PartialEq)]
struct Odd(String);
impl Display for Odd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.0.chars() {
            f.write_char(c)?
        }
        Ok(())
    }
}
impl StdError for Odd {}

const TEXTS: &[&str] = &[
    "", "a", "digit", "end of input", "b or c", ", ", "`", "``", "Expected", "Unexpected x", "{}", "{0:?}", "%s", "\n", "\r\n", "two\nlines", "\t ", "é", "≤≥", "😀x",
    "\u{0}", "\u{202e}", "Parse error at 3", "a\u{301}",
];
const STATICS: &[&str] = &["end of input", "digit", "", "or", "{}", "é\n", "`x`", "letter, or"];

fn text(r: &mut Rng) -> String {
    let mut s = r.pick(TEXTS).to_string();
    match r.below(12) {
        0 => s += r.pick(TEXTS),
        1 => s = s.repeat(1 + r.below(40)),
        _ => (),
    }
    s
}

/// The kind of an entry and what it should be printed as
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind {
    Unexpected,
    Expected,
    Message,
    Other,
}
type Entry = easy::Error<Odd, Odd>;

fn info(r: &mut Rng) -> (Info<Odd, Odd>, String) {
    match r.below(4) {
        0 => {
            let s = text(r);
            (Info::Token(Odd(s.clone())), format!("`{}`", s))
        }
        1 => {
            let s = text(r);
            (Info::Range(Odd(s.clone())), format!("`{}`", s))
        }
        2 => {
            let s = text(r);
            (Info::Owned(s.clone()), s)
        }
        _ => {
            let s: &'static str = *r.pick(STATICS);
            (Info::Static(s), s.to_string())
        }
    }
}

fn entry(r: &mut Rng, which: usize) -> (Entry, Kind, String) {
    match which {
        0 => {
            let (i, s) = info(r);
            (easy::Error::Unexpected(i), Kind::Unexpected, s)
        }
        1 => {
            let (i, s) = info(r);
            (easy::Error::Expected(i), Kind::Expected, s)
        }
        2 => {
            let (i, s) = info(r);
            (easy::Error::Message(i), Kind::Message, s)
        }
        3 => (easy::Error::end_of_input(), Kind::Unexpected, "end of input".into()),
        _ => {
            let s = text(r);
            (easy::Error::Other(Box::new(Odd(s.clone()))), Kind::Other, s)
        }
    }
}

/// The specification
fn printed(entries: &[(Kind, String)]) -> String {
    let mut s = String::new();
    for (k, e) in entries {
        if *k == Kind::Unexpected {
            s = s + "Unexpected " + e + "\n"
        }
    }
    let names: Vec<&String> = entries.iter().filter(|e| e.0 == Kind::Expected).map(|e| &e.1).collect();
    for (i, n) in names.iter().enumerate() {
        s += match i {
            0 => "Expected ",
            i if i + 1 == names.len() => " or ",
            _ => ", ",
        };
        s += n;
        if i + 1 == names.len() {
            s += "\n"
        }
    }
    for (k, e) in entries {
        if matches!(k, Kind::Message | Kind::Other) {
            s = s + e + "\n"
        }
    }
    s
}

/// Takes `left` bytes, then fails
struct Full {
    got: String,
    left: usize,
    failed: usize,
    late: bool,
}
impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed > 0 {
            self.late = true;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.failed += 1;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got += s;
        Ok(())
    }
}

struct Only<'a>(&'a [Entry]);
impl Display for Only<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        easy::Error::fmt_errors(self.0, f)
    }
}

/// whether `x` is displayed as `want`, also by a writer which fails
fn shows(x: &dyn Display, want: &str, r: &mut Rng, t: &mut Tally) -> Result<(), String> {
    let got = guard(|| x.to_string()).map_err(|e| format!("panicked: {}", e))?;
    t.evals += 1;
    if got != want {
        return Err(format!("is displayed as {:?} but should be {:?}", got, want));
    }
    for _ in 0..2 {
        let left = r.below(want.len() + 2);
        let mut w = Full { got: String::new(), left, failed: 0, late: false };
        let ok = write!(w, "{}", x).is_ok();
        t.evals += 1;
        if ok {
            t.hit("writer_succeeded");
            if w.got != want {
                return Err(format!("is displayed as {:?} the second time, not as {:?}", w.got, want));
            }
        } else {
            t.hit("writer_failed");
        }
        if ok != (left >= want.len()) {
            return Err(format!("writing to a writer which takes {} bytes of {} is {}", left, want.len(), if ok { "a success" } else { "a failure" }));
        }
        if !want.starts_with(&w.got) || w.late {
            return Err(format!("a writer which failed after {:?} was written to again", w.got));
        }
    }
    Ok(())
}

fn rendering(long: bool, r: &mut Rng, t: &mut Tally) {
    let n = match r.below(if long { 30 } else { 12 }) {
        0 => 0,
        _ if !long => r.below(7),
        1 => r.range(65_530, 65_600),
        2..=6 => r.range(250, 600),
        _ => r.range(20, 150),
    };
    let only = if r.chance(1, 4) { Some(r.below(5)) } else { None };
    let mut errors = vec![];
    let mut should = vec![];
    for _ in 0..n {
        let k = only.unwrap_or_else(|| *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]));
        let (e, k, s) = if n > 1000 { (easy::Error::Expected(Info::Static("x")), Kind::Expected, "x".to_string()) } else { entry(r, k) };
        if n < 1000 && r.chance(1, 4) {
            let pre = match k {
                Kind::Unexpected => "Unexpected ",
                Kind::Expected => "Expected ",
                _ => "",
            };
            if let Err(m) = shows(&e, &format!("{}{}", pre, s), r, t) {
                return t.violation(format!("{:?} {}", e, m));
            }
        }
        errors.push(e);
        should.push((k, s));
    }
    let body = printed(&should);
    t.saw(&should);
    for k in [Kind::Unexpected, Kind::Expected, Kind::Message, Kind::Other] {
        let n = should.iter().filter(|e| e.0 == k).count();
        t.hit(&format!("{:?}.{}", k, if n > 255 { "256_or_more" } else if n > 2 { "3_or_more" } else { ["0", "1", "2"][n] }));
    }
    let what = |errors: &[Entry]| if errors.len() > 12 { format!("{} errors", errors.len()) } else { format!("{:?}", errors) };
    if let Err(m) = shows(&Only(&errors), &body, r, t) {
        return t.violation(format!("{} {}", what(&errors), m));
    }
    let before = format!("{:?}", errors);
    macro_rules! at {
        ($p: expr, $s: expr) => {{
            let e = easy::Errors { position: $p, errors };
            if let Err(m) = shows(&e, &format!("Parse error at {}\n{}", $s, body), r, t) {
                return t.violation(format!("error at {:?} with {} {}", $s, what(&e.errors), m));
            }
            if format!("{:?}", e.errors) != before {
                return t.violation(format!("displaying {} changed it to {:?}", before, e.errors));
            }
            e
        }};
    }
    match r.below(3) {
        0 => {
            let p = *r.pick(&[0, 1, 9, 255, 65_536, usize::MAX, usize::MAX - 1]);
            let e = at!(p, p.to_string());
            // inside of a decoder's error
            if r.chance(1, 2) {
                let want = format!("Parse error at {}\n{}", p, body);
                let d: decoder::Error<_, usize> = decoder::Error::Parse(e);
                if let Err(m) = shows(&d, &want, r, t) {
                    t.violation(format!("{:?} {}", d, m));
                }
            }
        }
        1 => {
            let one = |r: &mut Rng| *r.pick(&[1, 2, 10, 0, -1, i32::MAX, i32::MIN, 100_000]);
            let (line, column) = (one(r), one(r));
            at!(SourcePosition { line, column }, format!("line: {}, column: {}", line, column));
        }
        _ => {
            let s = text(r);
            at!(Odd(s.clone()), s);
        }
    }
}

// ---- the others

fn small(r: &mut Rng, t: &mut Tally) {
    macro_rules! check {
        ($x: expr, $want: expr) => {{
            let (x, want) = ($x, $want);
            t.hit("small");
            t.saw(&want);
            if let Err(m) = shows(&x, &want, r, t) {
                return t.violation(format!("{:?} {}", x, m));
            }
            x
        }};
    }
    match r.below(9) {
        0 => {
            check!(UnexpectedParse::Unexpected, "unexpected parse".to_string());
            check!(UnexpectedParse::Eoi, "unexpected end of input".to_string());
        }
        1 => {
            check!(StringStreamError::UnexpectedParse, "unexpected parse".to_string());
            check!(StringStreamError::Eoi, "unexpected end of input".to_string());
            check!(StringStreamError::CharacterBoundary, "unexpected slice on character boundary".to_string());
        }
        2 => {
            check!(read::Error::Unexpected, "unexpected parse".to_string());
            check!(read::Error::EndOfInput, "unexpected end of input".to_string());
            let s = text(r);
            check!(read::Error::Io(std::io::Error::new(*r.pick(&vcore::sim::KINDS), Odd(s.clone()))), s);
            let k = *r.pick(&vcore::sim::KINDS);
            check!(read::Error::Io(k.into()), std::io::Error::from(k).to_string());
        }
        // a decoder's errors
        3..=5 => {
            let s = text(r);
            let p = r.below(1000);
            let io = std::io::Error::new(*r.pick(&vcore::sim::KINDS), Odd(s.clone()));
            let kind = io.kind();
            type Es<P> = easy::Errors<u8, S8, P>;
            check!(decoder::Error::<UnexpectedParse, usize>::Io { position: p, error: std::io::Error::new(kind, Odd(s.clone())) }, s.clone());
            check!(decoder::Error::<UnexpectedParse, usize>::Parse(UnexpectedParse::Eoi), "unexpected end of input".to_string());
            let e: Es<usize> = decoder::Error::<Es<usize>, usize>::Io { position: p, error: io }.into();
            law!(t, e.position == p && e.errors.len() == 1, "a decoder's I/O error {:?} at {} is converted to {:?}", s, p, e);
            match &e.errors[0] {
                easy::Error::Other(o) => {
                    law!(t, o.to_string() == s, "a decoder's I/O error {:?} is converted to {:?}", s, e);
                    let k = o.downcast_ref::<std::io::Error>().map(|e| e.kind());
                    law!(t, k == Some(kind), "the error of kind {:?} has become one of kind {:?} in {:?}", kind, k, e);
                }
                _ => return t.violation(format!("a decoder's I/O error {:?} is converted to {:?}", s, e)),
            }
            let want = vec![easy::Error::Unexpected(Info::Token(b'a')), easy::Error::Expected(Info::Range(&b"bc"[..]))];
            let e: Es<usize> = decoder::Error::<Es<usize>, usize>::Parse(easy::Errors { position: p, errors: want }).into();
            law!(
                t,
                e == easy::Errors { position: p, errors: vec![easy::Error::Unexpected(Info::Token(b'a')), easy::Error::Expected(Info::Range(&b"bc"[..]))] },
                "a decoder's parse error is converted to {:?}",
                e
            );
        }
        // what a parser is told to say
        _ => {
            let s = text(r);
            let p = r.below(3);
            let inp = ["xyz", "", "éa"][p];
            let found = match inp.chars().next() {
                Some(c) => format!("`{}`", c),
                None => "end of input".into(),
            };
            let fail = || combine::satisfy::<easy::Stream<&str>, _>(|c| c == '#');
            macro_rules! run {
                ($p: expr, $k: ident, $want: expr) => {{
                    let mut want: Vec<(Kind, String)> = vec![(Kind::Unexpected, found.clone()), (Kind::$k, $want.to_string())];
                    let e = $p.easy_parse(inp).map(|_| ()).map_err(|e| e.map_position(|p| p.translate_position(inp)));
                    match e {
                        Ok(()) => return t.violation(format!("the parser which should say {:?} succeeds", want)),
                        Err(e) => {
                            let mut got = list(&e);
                            check!(e, format!("Parse error at 0\n{}", printed(&got)));
                            for l in [&mut want, &mut got] {
                                l.sort_by(|a, b| (a.0 as u8, &a.1).cmp(&(b.0 as u8, &b.1)));
                                l.dedup();
                            }
                            law!(t, got == want, "a report which should say {:?} says {:?}", want, got);
                        }
                    };
                }};
            }
            let tok = *r.pick(&['a', 'é', '`', '\n', '😀']);
            let rng: &'static str = *r.pick(STATICS);
            match r.below(12) {
                0 => run!(fail().expected(ce::Format(Odd(s.clone()))), Expected, &s),
                1 => run!(fail().expected(ce::Token(tok)), Expected, format!("`{}`", tok)),
                2 => run!(fail().expected(ce::Range(rng)), Expected, format!("`{}`", rng)),
                3 => run!(fail().expected(rng), Expected, rng),
                4 => run!(fail().message(ce::Format(Odd(s.clone()))), Message, &s),
                5 => run!(fail().message(ce::Token(tok)), Message, format!("`{}`", tok)),
                6 => run!(fail().message(rng), Message, rng),
                // the item itself is also unexpected
                7 => run!(unexpected::<easy::Stream<&str>, _>(rng).map(|_| ()), Unexpected, rng),
                8 => run!(unexpected_any::<easy::Stream<&str>, _, ()>(ce::Format(Odd(s.clone()))), Unexpected, &s),
                9 => run!(unexpected_any::<easy::Stream<&str>, _, ()>(ce::Token(tok)), Unexpected, format!("`{}`", tok)),
                10 => run!(combine::value::<easy::Stream<&str>, _>(0).and_then(|_| Err::<(), _>(Odd(s.clone()))), Other, &s),
                _ => run!(
                    combine::value::<easy::Stream<&str>, _>(0).and_then(|_| Err::<(), _>(easy::Error::<char, &str>::Message(Info::Owned(s.clone())))),
                    Message,
                    &s
                ),
            }
        }
    }
}

/// Whether the offset of every suffix is its place, for pointers into the whole
fn translate(long: bool, r: &mut Rng, t: &mut Tally) {
    let n = if long { r.range(300, 70_000) } else { r.below(20) };
    let b: Vec<u8> = (0..n).map(|_| b"ab\n"[r.below(3)]).collect();
    let s: String = (0..n).map(|_| *r.pick(&['a', 'é', '≤', '😀'])).collect();
    for _ in 0..4 {
        let i = r.below(n + 1);
        let p = PointerOffset::<[u8]>::new(b[i..].as_ptr() as usize);
        law!(t, p.translate_position(&b[..]) == i, "the offset of byte {} of {} is {}", i, n, p.translate_position(&b[..]));
        t.saw(&(n, i));
        let j = (0..).map(|k| i + k).find(|k| s.is_char_boundary(*k)).unwrap();
        let p = PointerOffset::<str>::new(s[j..].as_ptr() as usize);
        law!(t, p.translate_position(&s[..]) == j, "the offset of the place {} of {} is {}", j, s.len(), p.translate_position(&s[..]));
        let q = PointerOffset::<str>::new(s[j..].as_ptr() as usize + r.below(3));
        law!(t, (p < q) == (p.0 < q.0) && (p == q) == (p.0 == q.0) && p.cmp(&q) == p.0.cmp(&q.0) && p.partial_cmp(&q) == Some(p.0.cmp(&q.0)), "{} and {} are ordered wrongly", p, q);
        t.hit("translated");
    }
}

// ---- real reports

type Seen = (usize, Vec<(Kind, String)>, String);

fn list<T: Tk + Display, R: Display, P>(e: &easy::Errors<T, R, P>) -> Vec<(Kind, String)> {
    let one = |i: &Info<T, R>| match i {
        Info::Token(x) => format!("`{}`", x),
        Info::Range(x) => format!("`{}`", x),
        Info::Owned(x) => x.clone(),
        Info::Static(x) => x.to_string(),
    };
    e.errors
        .iter()
        .map(|e| match e {
            easy::Error::Unexpected(i) => (Kind::Unexpected, one(i)),
            easy::Error::Expected(i) => (Kind::Expected, one(i)),
            easy::Error::Message(i) => (Kind::Message, one(i)),
            easy::Error::Other(o) => (Kind::Other, o.to_string()),
        })
        .collect()
}

/// the place of the error, what is in it and how it is displayed; None: the parse succeeded
fn run<I, P, T, R>(g: &G, inp: &[u8], place: impl Fn(&P) -> usize + 'static) -> Result<Option<Seen>, String>
where
    I: Source + Inp<Position = P, Token = T, Range = R, Error = easy::Errors<T, R, P>>,
    T: Tk + Display + 'static,
    R: Display + PartialEq + 'static,
    P: Default + Display + Clone + Ord + 'static,
{
    let g = g.clone();
    let inp = inp.to_vec();
    guard(move || {
        I::with(&inp, move |i| match build::<I>(&g).parse(i) {
            Ok(_) => None,
            Err(e) => Some((place(&e.position), list(&e), e.to_string())),
        })
    })
}

fn line_column(inp: &[u8], at: usize) -> String {
    let (mut l, mut c) = (1, 1);
    for b in &inp[..at] {
        if *b == b'\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    format!("line: {}, column: {}", l, c)
}

fn reports(cfg: &Cfg, d: usize, max: usize, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, d);
    let g = gen(r, cfg, d, false);
    for _ in 0..3 {
        let mut inp = input_for(&g, r, max);
        if r.chance(1, 2) {
            let n = inp.len();
            for _ in 0..r.below(4) {
                inp.insert(r.below(n + 1), b'\n');
            }
        }
        let own = inp.clone();
        // (line, column) is unique to a place
        let by_place = move |p: &SourcePosition| (0..=own.len()).find(|i| line_column(&own, *i) == p.to_string()).unwrap_or(usize::MAX);
        let runs: [(&str, Result<Option<Seen>, String>, bool); 2] = [
            ("text with lines and columns", run::<easy::Stream<PSrc<Str>>, _, _, _>(&g, &inp, by_place.clone()), true),
            ("text", run_text(&g, &inp), false),
        ];
        let mut first = None;
        for (name, got, lines) in runs {
            t.evals += 1;
            let got = match got {
                Ok(g) => g,
                Err(e) => return t.violation(format!("{:?} on {:?} ({}): {}", g, lossy(&inp), name, e)),
            };
            if let Some((at, l, s)) = &got {
                t.hit("reports");
                t.saw(&(format!("{:?}", g), &inp));
                let at_ = if lines {
                    if *at == usize::MAX {
                        return t.violation(format!("{:?} on {:?} ({}): the report {:?} names no place in the input", g, lossy(&inp), name, s));
                    }
                    line_column(&inp, *at)
                } else {
                    at.to_string()
                };
                let want = format!("Parse error at {}\n{}", at_, printed(l));
                t.sample(|| format!("{:?} on {:?} ({}): {:?}", g, lossy(&inp), name, s));
                if *s != want {
                    return t.violation(format!("{:?} on {:?} ({}): the report is {:?} but should be {:?}", g, lossy(&inp), name, s, want));
                }
            } else {
                t.hit("succeeded")
            }
            let it = got.map(|(at, l, _)| (at, l));
            match &first {
                None => first = Some(it),
                Some(f) => {
                    // the text has wide characters, so places are counted in characters
                    let same = *f == it;
                    law!(t, same, "{:?} on {:?} ({}): the report is {:?}, with lines and columns it is {:?}", g, lossy(&inp), name, it, f);
                }
            }
        }
    }
}
/// Over a `&str`, with the offset translated
fn run_text(g: &G, inp: &[u8]) -> Result<Option<Seen>, String> {
    let g = g.clone();
    let inp = inp.to_vec();
    guard(move || {
        EStr::with(&inp, move |i| {
            let whole: Str = i.0;
            match build::<EStr>(&g).parse(i) {
                Ok(_) => None,
                Err(e) => {
                    let l = list(&e);
                    let e = e.map_position(|p| p.translate_position(whole));
                    // in characters
                    let at = whole.get(..e.position).map_or(usize::MAX, |s| s.chars().count());
                    Some((at, l, e.map_position(|_| at).to_string()))
                }
            }
        })
    })
}

fn main() {
    let ctx = Ctx::new("C23");
    let cfg = Cfg::new(true).without(&["flat_map"]);
    ctx.par("rendering", 300_000, 10_000_000, (12, 200), |r, _, t| rendering(false, r, t));
    ctx.par("long-rendering", 4_000, 100_000, (12, 200), |r, _, t| rendering(true, r, t));
    ctx.par("small", 200_000, 5_000_000, (8, 100), |r, _, t| small(r, t));
    ctx.par("translate", 200_000, 5_000_000, (4, 60), |r, _, t| translate(false, r, t));
    ctx.par("long-translate", 300, 8_000, (6, 60), |r, _, t| translate(true, r, t));
    ctx.par("reports", 100_000, 4_000_000, (15, 300), |r, _, t| reports(&cfg, 3, 14, r, t));
    let long = Cfg::new(true).without(&["flat_map"]).counted();
    ctx.par("long-reports", 5_000, 200_000, (10, 150), |r, _, t| {
        r.big = 3;
        reports(&long, 2, 300, r, t)
    });
    ctx.finish(
        "random errors of any size and content with writers which fail anywhere; the other kinds of errors; real parses, whose report must show what the error contains and where; non-trivial: all; distinct: (contents) or (grammar, input)",
        &[("writer_failed", 50_000), ("writer_succeeded", 5_000), ("Expected.3_or_more", 10_000), ("Expected.256_or_more", 20), ("small", 50_000), ("translated", 100_000), ("reports", 20_000)],
    )
}
