//! C09: error reports of deterministic grammars against the derivatives of the regular expressions they denote.
use combine::easy::{self, Info};
use combine::{EasyParser, Parser};
use std::collections::BTreeSet;
use std::rc::Rc;
use vcore::{build::*, drive::*, grammar::*, rng::Rng, run::*, sources::*};

/// What a report may name as expected
type Names = Rc<Vec<String>>;

#[derive(Clone, Debug)]
enum E {
    None,
    Eps,
    /// id, accepted tokens, names
    Leaf(usize, Rc<Vec<u8>>, Names),
    /// the flag: some of the first part has been consumed
    Seq(Rc<E>, Rc<E>, bool),
    /// the flag: made by a choice
    Alt(Vec<Rc<E>>, bool),
    Star(Rc<E>),
    /// (sep (p ...)?)?
    Tail(Rc<E>, Rc<E>),
    /// the names of `e` while nothing of it is consumed
    Named(Rc<E>, Names),
    /// a message for all failures inside
    Says(Rc<E>, &'static str, bool),
    /// a parser which does not tell its parents where in it an error comes from; the flag: nor which
    Hide(Rc<E>, bool),
}
use E::*;

/// The known finding: what may follow a choice which matched nothing is missing
const HIDES: &str = "choice-before-the-culprit";
/// The known finding: the later parts of a sequence are named although its first part has failed
const PARTS: &str = "sequence-in-optional-or-repetition";

/// The known finding: the alternatives of a choice name only their first parsers once it is over
const FIRSTS: &str = "choice-that-matched-nothing";

/// Whether the errors of a parser are added after it, or the one it is in, has matched nothing
#[derive(Clone, Copy, Debug, PartialEq)]
enum Late {
    No,
    Yes,
    /// and it is in an alternative of a choice
    Choice,
}

fn seq(a: Rc<E>, b: Rc<E>) -> Rc<E> {
    match (&*a, &*b) {
        (None, _) | (_, None) => Rc::new(None),
        _ => Rc::new(Seq(a, b, false)),
    }
}
fn seq_touched(a: Rc<E>, b: Rc<E>) -> Rc<E> {
    match (&*a, &*b) {
        (None, _) | (_, None) => Rc::new(None),
        (Eps, _) => b,
        _ => Rc::new(Seq(a, b, true)),
    }
}
fn opt(a: Rc<E>) -> Rc<E> {
    Rc::new(Alt(vec![a, Rc::new(Eps)], false))
}

impl E {
    /// How large the tree is, up to about `max`
    fn size(&self, max: usize) -> usize {
        let sum = |v: &[&Rc<E>]| {
            let mut n = 1;
            for e in v {
                if n > max {
                    break;
                }
                n += e.size(max - n.min(max));
            }
            n
        };
        match self {
            None | Eps | Leaf(..) => 1,
            Seq(a, b, _) | Tail(a, b) => sum(&[a, b]),
            Alt(v, _) => sum(&v.iter().collect::<Vec<_>>()),
            Star(e) | Named(e, _) | Says(e, ..) | Hide(e, _) => sum(&[e]),
        }
    }
    fn nullable(&self) -> bool {
        match self {
            None | Leaf(..) => false,
            Eps | Star(_) | Tail(..) => true,
            Seq(a, b, _) => a.nullable() && b.nullable(),
            Alt(v, _) => v.iter().any(|e| e.nullable()),
            Named(e, _) | Says(e, ..) | Hide(e, _) => e.nullable(),
        }
    }
    fn empty(&self) -> bool {
        match self {
            None => true,
            Seq(a, b, _) => a.empty() || b.empty(),
            Alt(v, _) => v.iter().all(|e| e.empty()),
            Named(e, _) | Says(e, ..) | Hide(e, _) => e.empty(),
            _ => false,
        }
    }
    /// The derivative with respect to `t`; notes which leaves accept it
    fn d(&self, t: u8, ids: &mut BTreeSet<usize>) -> Rc<E> {
        Rc::new(match self {
            None | Eps => None,
            Leaf(id, ts, _) => {
                if ts.contains(&t) {
                    ids.insert(*id);
                    Eps
                } else {
                    None
                }
            }
            Seq(a, b, _) => {
                let x = seq_touched(a.d(t, ids), b.clone());
                if a.nullable() {
                    let y = b.d(t, ids);
                    return if x.empty() { y } else if y.empty() { x } else { Rc::new(Alt(vec![x, y], false)) };
                }
                return x;
            }
            Alt(v, c) => {
                let mut v: Vec<_> = v.iter().map(|e| e.d(t, ids)).filter(|e| !e.empty()).collect();
                match v.len() {
                    0 => None,
                    1 => return v.pop().unwrap(),
                    _ => Alt(v, *c),
                }
            }
            Star(e) => return seq(e.d(t, ids), Rc::new(self.clone())),
            Tail(p, s) => {
                let next = seq(p.clone(), Rc::new(self.clone()));
                return seq(s.d(t, ids), opt(next));
            }
            Named(e, _) | Hide(e, _) => return e.d(t, ids),
            Says(e, m, x) => Says(e.d(t, ids), m, *x),
        })
    }
    /// No names for anything inside
    fn silent(&self) -> Rc<E> {
        Rc::new(match self {
            None => None,
            Eps => Eps,
            Leaf(id, ts, _) => Leaf(*id, ts.clone(), Rc::new(vec![])),
            Seq(a, b, x) => Seq(a.silent(), b.silent(), *x),
            Alt(v, c) => Alt(v.iter().map(|e| e.silent()).collect(), *c),
            Star(e) => Star(e.silent()),
            Tail(p, s) => Tail(p.silent(), s.silent()),
            Named(e, _) => return e.silent(),
            Says(e, m, _) => Says(e.silent(), m, false),
            Hide(e, x) => Hide(e.silent(), *x),
        })
    }
    fn choice(&self) -> bool {
        match self {
            None | Eps | Leaf(..) => false,
            Seq(a, b, _) | Tail(a, b) => a.choice() || b.choice(),
            Alt(v, c) => *c || v.iter().any(|e| e.choice()),
            Star(e) | Named(e, _) | Says(e, ..) | Hide(e, _) => e.choice(),
        }
    }
    fn all_names(&self, out: &mut BTreeSet<String>) {
        match self {
            None | Eps => (),
            Leaf(_, _, n) => out.extend(n.iter().cloned()),
            Seq(a, b, _) | Tail(a, b) => {
                a.all_names(out);
                b.all_names(out)
            }
            Alt(v, _) => v.iter().for_each(|e| e.all_names(out)),
            Star(e) | Says(e, ..) | Hide(e, _) => e.all_names(out),
            Named(_, n) => out.extend(n.iter().cloned()),
        }
    }
    /// What a report should contain if the parse stops here
    fn names(&self, r: &mut Report, hidden: bool, mut late: Late) {
        if let (Star(_) | Alt(..) | Tail(..), Late::No) = (self, late) {
            if self.nullable() {
                late = Late::Yes
            }
        }
        if let (Alt(_, true), Late::Yes) = (self, late) {
            late = Late::Choice
        }
        if let Star(_) | Alt(..) | Tail(..) = self {
            if self.nullable() {
                self.all_names(&mut r.wrong)
            }
        }
        match self {
            None | Eps => (),
            Leaf(_, _, n) => r.expected.extend(n.iter().cloned()),
            Seq(a, b, touched) => {
                if *touched && a.nullable() {
                    // what could have continued a part which is complete may be named
                    a.optional(r, hidden, late, |r| &mut r.also)
                } else {
                    a.names(r, hidden, late)
                }
                if a.nullable() {
                    if late == Late::Choice && !*touched {
                        b.optional(r, hidden, late, |r| &mut r.firsts)
                    } else if hidden && !*touched {
                        b.optional(r, hidden, late, |r| &mut r.also)
                    } else if !*touched && a.choice() {
                        b.optional(r, hidden, late, |r| &mut r.lost)
                    } else {
                        b.names(r, hidden, late)
                    }
                }
            }
            Alt(v, _) => v.iter().for_each(|e| e.names(r, hidden, late)),
            Star(e) => e.names(r, hidden, late),
            Tail(_, s) => s.names(r, hidden, late),
            Named(e, n) => {
                if !e.empty() {
                    r.expected.extend(n.iter().cloned());
                    let mut inner = Report::default();
                    e.names(&mut inner, hidden, late);
                    r.says.extend(inner.says);
                    r.may.extend(inner.may);
                    r.wrong.extend(inner.wrong);
                    // choices add what comes after their alternatives' first parsers right away
                    if e.choice() {
                        r.also.extend(inner.expected);
                        r.also.extend(inner.lost);
                        r.also.extend(inner.firsts);
                        r.also.extend(inner.also);
                    }
                }
            }
            Says(e, m, must) => {
                if !e.empty() {
                    if *must && !e.nullable() {
                        r.says.insert(m.to_string());
                    }
                    r.may.insert(m.to_string());
                    e.names(r, hidden, late)
                }
            }
            Hide(e, true) => e.optional(r, true, late, |r| &mut r.also),
            Hide(e, false) => e.names(r, true, late),
        }
    }
    fn optional(&self, r: &mut Report, hidden: bool, late: Late, to: impl Fn(&mut Report) -> &mut BTreeSet<String>) {
        let mut inner = Report::default();
        self.names(&mut inner, hidden, late);
        to(r).extend(inner.expected);
        to(r).extend(inner.lost);
        to(r).extend(inner.firsts);
        r.also.extend(inner.also);
        r.wrong.extend(inner.wrong);
        r.may.extend(inner.says);
        r.may.extend(inner.may);
    }
}

/// The regular expression of a grammar; Err if it is not of the deterministic kind
fn re(g: &G, id: &mut usize) -> Result<Rc<E>, ()> {
    let mut leaf = |ts: Vec<u8>, names: Vec<String>| {
        *id += 1;
        if ts.is_empty() {
            return Err(());
        }
        Ok(Rc::new(Leaf(*id, Rc::new(ts), Rc::new(names))))
    };
    let tok = |b: &u8| format!("{:?}", Info::<u8, ()>::Token(*b));
    let solid = |e: Rc<E>| if e.nullable() { Err(()) } else { Ok(e) };
    let all = |f: &dyn Fn(u8) -> bool| ALPHA.iter().cloned().filter(|b| f(*b)).collect::<Vec<_>>();
    Ok(match g {
        G::Any => leaf(ALPHA.to_vec(), vec![])?,
        G::Tok(b) => leaf(vec![*b], vec![tok(b)])?,
        G::Sat(k) | G::SatMap(k) => leaf(all(&|b| in_class(*k, b)), vec![])?,
        G::OneOf(v) => leaf(v.clone(), v.iter().map(tok).collect())?,
        G::NoneOf(v) => leaf(all(&|b| !v.contains(&b)), vec![])?,
        G::Val(_) | G::Produce(_) => Rc::new(Eps),
        G::Seq(v) => {
            let mut e = Rc::new(Eps);
            let v = v.iter().map(|g| re(g, id)).collect::<Result<Vec<_>, _>>()?;
            for x in v.into_iter().rev() {
                e = if let Eps = *e { x } else { seq(x, e) };
            }
            e
        }
        G::With(a, b) | G::Skip(a, b) => {
            let a = re(a, id)?;
            seq(a, re(b, id)?)
        }
        G::Between(a, b, c) => {
            let (a, b, c) = (re(a, id)?, re(b, id)?, re(c, id)?);
            Rc::new(Hide(seq(a, seq(c, b)), false))
        }
        G::Alt(_, v) => {
            let v = v.iter().map(|g| re(g, id)).collect::<Result<Vec<_>, _>>()?;
            if v[..v.len() - 1].iter().any(|e| e.nullable()) {
                return Err(());
            }
            Rc::new(Alt(v, true))
        }
        G::Opt(a) => opt(solid(re(a, id)?)?),
        G::Many(a) => Rc::new(Star(solid(re(a, id)?)?)),
        G::SkipMany(a) => Rc::new(Hide(Rc::new(Star(solid(re(a, id)?)?)), false)),
        G::Many1(a) | G::SkipMany1(a) => {
            let e = solid(re(a, id)?)?;
            let x = seq(e.clone(), Rc::new(Star(e)));
            if let G::SkipMany1(_) = g { Rc::new(Hide(x, false)) } else { x }
        }
        G::CountMM(lo, hi, a) | G::SkipCountMM(lo, hi, a) => {
            let mut x = Rc::new(Eps);
            for i in (0..*hi).rev() {
                // each repetition competes with the others
                x = seq(solid(re(a, id)?)?, x);
                if i >= *lo {
                    x = opt(x);
                }
            }
            if let G::SkipCountMM(..) = g { Rc::new(Hide(x, false)) } else { x }
        }
        G::Count(n, a) | G::SkipCount(n, a) => {
            // up to n
            let mut x = Rc::new(Eps);
            for _ in 0..*n {
                x = opt(seq(solid(re(a, id)?)?, x));
            }
            Rc::new(Hide(x, false))
        }
        G::SepBy(p, s) | G::SepBy1(p, s) => {
            let (p, s) = (solid(re(p, id)?)?, solid(re(s, id)?)?);
            let e = seq(p.clone(), Rc::new(Star(seq(s, p))));
            if let G::SepBy(..) = g { opt(e) } else { e }
        }
        G::SepEndBy(p, s) | G::SepEndBy1(p, s) => {
            let (p, s) = (solid(re(p, id)?)?, solid(re(s, id)?)?);
            let e = Rc::new(Hide(seq(p.clone(), Rc::new(Tail(p, s))), false));
            if let G::SepEndBy(..) = g { opt(e) } else { e }
        }
        G::ChainL(p, s) | G::ChainR(p, s) => {
            let (p, s) = (solid(re(p, id)?)?, solid(re(s, id)?)?);
            Rc::new(Hide(seq(p.clone(), Rc::new(Star(seq(s, p)))), false))
        }
        G::Lazy(a) | G::Factory(a) | G::Opaque(a) => {
            let again = !matches!(g, G::Factory(_)) && {
                let mut n = 0;
                g.walk(&mut |g| n += matches!(g, G::Factory(_)) as usize);
                n > 0
            };
            Rc::new(Hide(re(a, id)?, again))
        }
        G::Either(_, a) => Rc::new(Hide(re(a, id)?, false)),
        G::Map(a) | G::NoPartial(a) | G::AnyState(a) => re(a, id)?,
        G::Exp(a) => Rc::new(Named(re(a, id)?, Rc::new(vec![format!("{:?}", Info::<u8, ()>::Static("exp"))]))),
        G::Silent(a) => re(a, id)?.silent(),
        G::Msg(a) => Rc::new(Says(re(a, id)?, "msg", true)),
        _ => return Err(()),
    })
}

#[derive(Debug, PartialEq, Clone, Default)]
struct Report {
    pos: usize,
    unexpected: BTreeSet<String>,
    expected: BTreeSet<String>,
    /// what may be named as well
    also: BTreeSet<String>,
    /// what the known finding loses
    lost: BTreeSet<String>,
    /// what the third known finding loses
    firsts: BTreeSet<String>,
    /// what the second known finding adds
    wrong: BTreeSet<String>,
    says: BTreeSet<String>,
    may: BTreeSet<String>,
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Ok(usize),
    Fail(Report),
}

/// The tokens which `g` may tell apart
fn tokens(g: &G) -> BTreeSet<u8> {
    let mut ts: BTreeSet<u8> = ALPHA.iter().cloned().collect();
    g.walk(&mut |g| match g {
        G::Tok(t) => drop(ts.insert(*t)),
        G::OneOf(v) => ts.extend(v),
        _ => (),
    });
    ts
}

/// Gives all leaves different tokens, so that most grammars are deterministic, and choices more alternatives
fn spread(g: &mut G, r: &mut Rng, next: &mut u8) {
    let n = match g {
        G::Tok(_) => 1,
        G::OneOf(v) => v.len() as u8,
        _ => 0,
    };
    if n > 0 {
        if *next + n < 126 {
            *g = if n == 1 { G::Tok(*next) } else { G::OneOf((*next..*next + n).collect()) };
        }
        *next += n;
        return;
    }
    if let G::Alt(AltKind::Slice, v) = g {
        for _ in 0..r.below(5) {
            let i = r.below(v.len() + 1);
            let part = match r.below(6) {
                0 => G::OneOf(vec![0, 0]),
                1 => G::Seq(vec![G::Opt(Box::new(G::Tok(0))), G::Tok(0)]),
                2 => G::Skip(Box::new(G::Val(7)), Box::new(G::Tok(0))),
                3 => G::Exp(Box::new(G::Tok(0))),
                _ => G::Tok(0),
            };
            v.insert(i, part);
        }
    }
    for c in g.children_mut() {
        spread(c, r, next);
    }
}

/// What should be observed; Err: not deterministic on this input
fn want(g: &G, inp: &[u8]) -> Result<Out, ()> {
    let mut e = re(g, &mut 0)?;
    let mut p = 0;
    let tokens = tokens(g);
    loop {
        if e.size(500) > 500 {
            return Err(());
        }
        // no two places of the grammar may compete for a token
        for t in &tokens {
            let mut ids = BTreeSet::new();
            e.d(*t, &mut ids);
            if ids.len() > 1 {
                return Err(());
            }
        }
        let n = match inp.get(p) {
            Some(t) => e.d(*t, &mut BTreeSet::new()),
            Option::None => Rc::new(None),
        };
        if n.empty() {
            break;
        }
        e = n;
        p += 1;
    }
    if e.nullable() {
        return Ok(Out::Ok(p));
    }
    let mut r = Report { pos: p, ..Default::default() };
    e.names(&mut r, false, Late::No);
    r.unexpected.insert(match inp.get(p) {
        Some(t) => format!("{:?}", Info::<u8, ()>::Token(*t)),
        Option::None => format!("{:?}", Info::<u8, ()>::Static("end of input")),
    });
    Ok(Out::Fail(r))
}

trait Easy: Source + Inp
where
    Self::Token: Tk,
    Self::Position: Default,
{
    fn run(g: &G, inp: &[u8]) -> Result<Out, String>;
}

fn info<T: Tk, R: std::fmt::Debug>(i: &Info<T, R>) -> String {
    match i {
        Info::Token(t) => format!("{:?}", Info::<u8, ()>::Token(t.b())),
        Info::Range(r) => format!("Range({:?})", r),
        Info::Owned(s) => format!("Owned({:?})", s),
        Info::Static(s) => format!("{:?}", Info::<u8, ()>::Static(s)),
    }
}

fn report<T: Tk, R: std::fmt::Debug, P>(e: easy::Errors<T, R, P>, pos: impl FnOnce(P) -> usize) -> Report {
    let mut r = Report { pos: pos(e.position), ..Default::default() };
    for e in &e.errors {
        match e {
            easy::Error::Unexpected(i) => r.unexpected.insert(info(i)),
            easy::Error::Expected(i) => r.expected.insert(info(i)),
            easy::Error::Message(Info::Static(s)) => r.says.insert(s.to_string()),
            // count_min_max tells how many are missing
            easy::Error::Message(Info::Owned(s)) if s.ends_with("more elements") => true,
            easy::Error::Message(i) => r.says.insert(info(i)),
            easy::Error::Other(e) => r.says.insert(e.to_string()),
        };
    }
    r
}

fn run<I>(g: &G, inp: &[u8], err: impl FnOnce(I::Error) -> Report + 'static) -> Result<Out, String>
where
    I: Source + Inp,
    I::Token: Tk,
    I::Position: Default,
{
    let inp2 = inp.to_vec();
    let g = g.clone();
    guard(move || {
        I::with(&inp2.clone(), move |i| match build::<I>(&g).parse(i) {
            Ok((_, mut rest)) => Out::Ok(inp2.len() - left(&mut rest)),
            Err(e) => Out::Fail(err(e)),
        })
    })
}

/// line and column to index
fn place(inp: &[u8], line: i32, column: i32) -> usize {
    let mut at = (1, 1);
    for (i, b) in inp.iter().enumerate() {
        if at == (line, column) {
            return i;
        }
        at = if *b == b'\n' { (at.0 + 1, 1) } else { (at.0, at.1 + 1) };
    }
    if at == (line, column) { inp.len() } else { usize::MAX }
}

const STREAMS: usize = 4;
fn on(k: usize, g: &G, inp: &[u8]) -> Result<Out, String> {
    let own = inp.to_vec();
    match k {
        0 => run::<easy::Stream<PIdx<S8>>>(g, inp, |e| report(e, |p| p)),
        1 => run::<easy::Stream<PSrc<Str>>>(g, inp, move |e| report(e, |p| place(&own, p.line, p.column))),
        2 => run::<BufIter>(g, inp, |e| report(e, |p| p)),
        _ => run::<easy::Stream<PSrc<S8>>>(g, inp, move |e| report(e, |p| place(&own, p.line, p.column))),
    }
}

fn case(cfg: &Cfg, wide: bool, r: &mut Rng, t: &mut Tally) {
    let d = r.range(1, 3);
    let mut g = gen(r, cfg, d, false);
    if wide {
        spread(&mut g, r, &mut b'd');
    }
    let g_ = &g;
    for _ in 0..6 {
        let mut inp = input_for(&g, r, 12);
        if wide && r.chance(1, 2) {
            let ts: Vec<u8> = tokens(&g).into_iter().collect();
            let n = inp.len();
            inp.insert(r.below(n + 1), *r.pick(&ts));
        }
        let e = match want(&g, &inp) {
            Ok(e) => e,
            Err(()) => {
                t.hit("not_deterministic");
                return;
            }
        };
        let k = r.below(STREAMS);
        t.evals += 1;
        let got = on(k, &g, &inp);
        t.hit(match e {
            Out::Ok(_) => "accepted",
            Out::Fail(_) => "rejected",
        });
        if let Out::Fail(e) = &e {
            t.saw(&(format!("{:?}", g_), &inp, k));
            t.sample(|| format!("{:?} on {:?}: {:?}", g_, lossy(&inp), e));
        }
        let bad = |e: &Out, got: &Result<Out, String>| -> Option<&'static str> {
            match (e, got) {
                (_, Err(_)) => Some("panic"),
                (Out::Fail(e), Ok(Out::Fail(g))) => {
                    if e.pos != g.pos {
                        Some("position")
                    } else if e.unexpected != g.unexpected {
                        Some("unexpected")
                    } else if !g.expected.iter().all(|x| e.expected.contains(x) || e.also.contains(x) || e.lost.contains(x) || e.firsts.contains(x) || e.wrong.contains(x)) {
                        Some("unsound")
                    } else if !e.expected.is_subset(&g.expected) {
                        Some("incomplete")
                    } else if !g.says.is_subset(&e.may) || !e.says.is_subset(&g.says) {
                        Some("messages")
                    } else {
                        Option::None
                    }
                }
                (Out::Ok(a), Ok(Out::Ok(b))) if a == b => Option::None,
                _ => Some("outcome"),
            }
        };
        if let (Out::Fail(e), Ok(Out::Fail(g))) = (&e, &got) {
            t.add("names_required", e.expected.len() as u64);
            t.add("names_optional", g.expected.difference(&e.expected).count() as u64);
            let lost: Vec<_> = e.lost.difference(&g.expected).collect();
            let firsts: Vec<_> = e.firsts.difference(&g.expected).collect();
            let wrong: Vec<_> = g.expected.intersection(&e.wrong).filter(|x| !e.expected.contains(*x) && !e.also.contains(*x)).collect();
            for (sig, bad, what) in [(HIDES, lost, "not named"), (FIRSTS, firsts, "not named"), (PARTS, wrong, "named but not acceptable")] {
                if bad.len() > 0 {
                    t.hit(sig);
                    let what = format!("{:?} on {:?}: {:?} {}", g_, lossy(&inp), bad, what);
                    if is_known("C09", sig) {
                        t.known.insert(sig.into(), what);
                    } else {
                        t.violation(what);
                        return;
                    }
                }
            }
        }
        if let Some(what) = bad(&e, &got) {
            t.hit(what);
            if std::env::var("ONLY").map_or(false, |x| x != what) {
                continue;
            }
            let (g2, i2) = shrink(&g, &inp, &mut |g, i| want(g, i).map_or(false, |e| bad(&e, &on(k, g, i)) == Some(what)));
            t.violation(format!("{}: {:?} on {:?} (stream {}): {:?} should be {:?}", what, g2, lossy(&i2), k, on(k, &g2, &i2), want(&g2, &i2)));
            return;
        }
    }
}

/// Every named leaf at a random place: (parser's name, what was found there, what the report says)
fn leaves(r: &mut Rng, t: &mut Tally) {
    use combine::parser::char as ch;
    use combine::stream::position;
    let k = r.below(4);
    const POOL: &[char] = &['0', '7', '8', 'a', 'f', 'g', 'Z', 'F', ' ', '\t', '\n', '\r', 'é', 'ß', '_', '\0', '中'];
    let text: String = (0..k + r.below(4)).map(|_| *r.pick(POOL)).collect();
    let k = k.min(text.chars().count());
    let rest: Vec<char> = text.chars().skip(k).collect();
    type E<'a> = easy::Errors<char, &'a str, position::SourcePosition>;
    // (where the report should be relative to the leaf is its start for literals)
    macro_rules! leaf {
        ($($p: expr => $name: expr;)*) => {{
            let all: Vec<(&str, Box<dyn Fn(&str) -> Result<(), String> + '_>)> = vec![$((
                stringify!($p),
                Box::new(|text: &str| -> Result<(), String> {
                    let mut p = combine::skip_count_min_max(k, k, combine::any()).with($p.map(|_| ()));
                    let e: E = match p.easy_parse(position::Stream::new(text)) {
                        Ok(_) => return Ok(()),
                        Err(e) => e,
                    };
                    check(e, text, k, &rest, &$name)
                }),
            ),)*];
            let (name, f) = r.pick(&all);
            (*name, f(&text))
        }};
    }
    fn check(e: E, text: &str, k: usize, rest: &[char], name: &str) -> Result<(), String> {
        let mut at = (1, 1);
        text.chars().take(k).for_each(|c| at = if c == '\n' { (at.0 + 1, 1) } else { (at.0, at.1 + 1) });
        let mut found = vec![];
        let mut names = vec![];
        for x in &e.errors {
            match x {
                easy::Error::Unexpected(Info::Token(c)) => found.push(c.to_string()),
                easy::Error::Unexpected(i) => found.push(i.to_string().replace('`', "")),
                easy::Error::Expected(i) => names.push(i.to_string().replace('`', "")),
                x => return Err(format!("reports {:?}", x)),
            }
        }
        // a literal reports the first token which differs
        let common = name.chars().zip(rest).take_while(|(a, b)| a == *b).count();
        let place = match (name, rest) {
            ("crlf newline", ['\r', ..]) => 1,
            ("ab", _) | ("0é", _) => common,
            _ => 0,
        };
        let should = rest.get(place).map_or("end of input".to_string(), |c| c.to_string());
        let line_col = if name == "crlf newline" && place == 1 { (at.0, at.1 + 1) } else { at };
        let expects = if name == "crlf newline" && place == 1 { "lf newline" } else { name };
        if (e.position.line, e.position.column) != line_col {
            Err(format!("is at {:?} instead of {:?}", e.position, line_col))
        } else if found != [should.clone()] {
            Err(format!("found {:?} instead of {:?}", found, should))
        } else if names != [expects.to_string()] && !(names.is_empty() && name.len() == 2 + name.contains('é') as usize && common > 0) {
            Err(format!("expected {:?} instead of {:?}", names, expects))
        } else {
            Ok(())
        }
    }
    let (name, res) = leaf! {
        ch::digit() => "digit";
        ch::space() => "whitespace";
        ch::newline() => "lf newline";
        ch::crlf() => "crlf newline";
        ch::tab() => "tab";
        ch::upper() => "uppercase letter";
        ch::lower() => "lowercase letter";
        ch::alpha_num() => "letter or digit";
        ch::letter() => "letter";
        ch::oct_digit() => "octal digit";
        ch::hex_digit() => "hexadecimal digit";
        ch::string("ab") => "ab";
        ch::string("0é") => "0é";
        ch::string_cmp("ab", |a, b| a == b) => "ab";
        ch::char('0') => "0";
        combine::token('é') => "é";
        combine::one_of("0".chars()) => "0";
        combine::satisfy(|c| c == 'a').expected("an a") => "an a";
        combine::eof() => "end of input";
        combine::many1::<String, _, _>(ch::digit()) => "digit";
        combine::many1::<String, _, _>(ch::digit()).expected("number") => "number";
        combine::attempt((ch::digit(),)) => "digit";
    };
    t.evals += 1;
    t.hit("leaves");
    if let Err(what) = res {
        t.violation(format!("{} after {} tokens of {:?} {}", name, k, text, what));
    }
}

fn main() {
    let ctx = Ctx::new("C09");
    let cfg = Cfg {
        leaves: vec!["any", "token", "token", "token", "token", "satisfy", "satisfy_map", "one_of", "one_of", "none_of", "value"],
        inner: vec![
            "tuple", "tuple", "tuple", "tuple", "with", "skip", "between", "choice_tuple", "choice_array", "choice_slice", "or", "optional", "optional", "many", "many1",
            "skip_many", "skip_many1", "count", "skip_count", "count_min_max", "skip_count_min_max", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1", "chainr1",
            "map", "message", "expected", "expected", "silent", "lazy", "factory", "opaque", "no_partial", "either", "any_partial_state",
        ],
    };
    let wide = Cfg { leaves: vec!["token", "token", "token", "token", "one_of", "value"], inner: cfg.inner.clone() };
    ctx.par("reports", 1_000_000, 30_000_000, (30, 600), |r, _, t| case(&cfg, false, r, t));
    ctx.par("wide", 500_000, 20_000_000, (30, 600), |r, _, t| case(&wide, true, r, t));
    let long = cfg.clone().counted();
    ctx.par("long", 20_000, 600_000, (12, 200), |r, _, t| {
        r.big = 3;
        case(&long, false, r, t)
    });
    ctx.par("leaves", 200_000, 3_000_000, (10, 60), |r, _, t| leaves(r, t));
    ctx.finish(
        "a random grammar that decides by one token of look-ahead (its regular expression has no competing places) with random and grammar-directed inputs; non-trivial: the parse was rejected; distinct: (grammar, input, stream type)",
        &[("rejected", 20_000), ("names_required", 15_000), ("leaves", 50_000)],
    )
}
