//! Reference semantics: a direct, recursive interpreter of a grammar over the whole token sequence.
//! It has no partial state, no checkpoints and no error bookkeeping: it is the specification.
use crate::grammar::*;
use crate::mon::call;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    /// value, position after, committed
    Ok(V, usize, bool),
    Peek,
    Commit,
}
use R::*;

pub struct Model<'a> {
    pub inp: &'a [u8],
    /// width of a token in the units that ranges are measured in
    pub width: fn(u8) -> usize,
    pub fuel: Cell<usize>,
    pub out_of_fuel: Cell<bool>,
    /// deepest amount of work, for evidence
    pub steps: Cell<usize>,
    /// a search failed without committing although it had already consumed input
    pub taint: Cell<bool>,
    /// highest position examined (number of tokens whose value or absence was looked at)
    pub seen: Cell<usize>,
    /// number of times a Map node succeeded
    pub maps: Cell<u32>,
    /// a chain may try an operator again which matched nothing and was not followed by an operand
    pub maps_unsure: Cell<bool>,
}

impl<'a> Model<'a> {
    pub fn new(inp: &'a [u8], width: fn(u8) -> usize) -> Self {
        Model {
            inp,
            width,
            fuel: Cell::new(20_000.max(inp.len() * 30)),
            out_of_fuel: Cell::new(false),
            steps: Cell::new(0),
            taint: Cell::new(false),
            seen: Cell::new(0),
            maps: Cell::new(0),
            maps_unsure: Cell::new(false),
        }
    }

    fn at(&self, p: usize) -> Option<u8> {
        self.seen.set(self.seen.get().max(p + 1));
        self.inp.get(p).cloned()
    }

    /// token index reached after `n` units from `p`, or None (not on a boundary / too short)
    fn units(&self, p: usize, n: usize) -> Option<usize> {
        let mut i = p;
        let mut left = n;
        while left > 0 {
            let w = (self.width)(self.at(i)?);
            if w > left {
                return None;
            }
            left -= w;
            i += 1;
        }
        Some(i)
    }

    fn sat(&self, p: usize, f: impl Fn(u8) -> bool) -> R {
        match self.at(p) {
            Some(b) if f(b) => Ok(V::T(b), p + 1, true),
            _ => Peek,
        }
    }

    fn repeat(&self, p: usize, c: bool, max: usize, mut f: impl FnMut(usize) -> R) -> (Vec<V>, R) {
        let mut out = vec![];
        let (mut p, mut c) = (p, c);
        while out.len() < max {
            match f(p) {
                Ok(v, q, k) => {
                    out.push(v);
                    p = q;
                    c |= k;
                }
                Peek => break,
                Commit => return (out, Commit),
            }
            if self.out_of_fuel.get() {
                return (out, Commit);
            }
        }
        (out, Ok(V::U, p, c))
    }

    fn list(&self, x: (Vec<V>, R)) -> R {
        match x.1 {
            Ok(_, p, c) => Ok(V::L(x.0), p, c),
            e => e,
        }
    }

    fn seq2(&self, a: &G, b: &G, p: usize) -> Result<((V, V), usize, bool), R> {
        match self.ev(a, p) {
            Ok(v, q, c) => match self.ev(b, q) {
                Ok(w, r, d) => Result::Ok(((v, w), r, c || d)),
                Peek => Err(if c { Commit } else { Peek }),
                Commit => Err(Commit),
            },
            e => Err(e),
        }
    }

    fn seq2_op(&self, a: &G, b: &G, p: usize) -> Result<((V, V), usize, bool), R> {
        match self.ev(a, p) {
            Ok(v, q, c) => {
                call('o', a.consumes(), v.hash());
                match self.ev(b, q) {
                    Ok(w, r, d) => Result::Ok(((v, w), r, c || d)),
                    Peek => Err(if c { Commit } else { Peek }),
                    Commit => Err(Commit),
                }
            }
            e => Err(e),
        }
    }

    pub fn ev(&self, g: &G, p: usize) -> R {
        let r = self.node(g, p);
        // ranges are cheap for the parser but take time all the same
        let n = match (&r, g) {
            (Ok(_, q, _), _) => q - p,
            (_, G::RTake(_) | G::RUntilRange(_) | G::RTakeFn(_)) => self.inp.len() - p,
            _ => 0,
        } + match g {
            // these are built anew every time
            G::Then(..) | G::ThenPartial(..) | G::ThenRef(..) | G::Lazy(_) | G::Factory(_) => weight(g),
            G::Iterate(n, _) => weight(g).saturating_mul(*n),
            _ => 0,
        };
        self.fuel.set(self.fuel.get().saturating_sub(n / 2));
        r
    }

    fn node(&self, g: &G, p: usize) -> R {
        let f = self.fuel.get();
        self.steps.set(self.steps.get() + 1);
        if f == 0 {
            self.out_of_fuel.set(true);
            return Commit;
        }
        self.fuel.set(f - 1);
        match g {
            G::Any => self.sat(p, |_| true),
            G::Tok(b) => self.sat(p, |c| c == *b),
            G::Sat(k) | G::SatMap(k) => {
                let r = self.sat(p, |c| in_class(*k, c));
                if let Ok(v, ..) = &r {
                    call('s', true, v.hash())
                }
                r
            }
            G::OneOf(v) => self.sat(p, |c| v.contains(&c)),
            G::NoneOf(v) => self.sat(p, |c| !v.contains(&c)),
            G::Val(b) => Ok(V::T(*b), p, false),
            G::Produce(b) => {
                call('p', false, *b as usize);
                Ok(V::T(*b), p, false)
            }
            G::Eof => match self.at(p) {
                None => Ok(V::U, p, false),
                _ => Peek,
            },
            G::Fail => Peek,
            G::Str(s) => self.string(s, p, |a, b| a == b),
            // tokens_cmp is built with a comparison that identifies 'a' and 'b'
            G::StrCmp(s) => self.string(s, p, fold_eq),
            G::Seq(v) => {
                let mut out = vec![];
                let (mut q, mut c) = (p, false);
                for g in v {
                    match self.ev(g, q) {
                        Ok(v, r, k) => {
                            out.push(v);
                            q = r;
                            c |= k;
                        }
                        Peek => return if c { Commit } else { Peek },
                        Commit => return Commit,
                    }
                }
                Ok(V::L(out), q, c)
            }
            G::With(a, b) => match self.seq2(a, b, p) {
                Result::Ok(((_, v), q, c)) => Ok(v, q, c),
                Err(e) => e,
            },
            G::Skip(a, b) => match self.seq2(a, b, p) {
                Result::Ok(((v, _), q, c)) => Ok(v, q, c),
                Err(e) => e,
            },
            G::Between(o, cl, m) => {
                let g = G::Seq(vec![(**o).clone(), (**m).clone(), (**cl).clone()]);
                match self.ev(&g, p) {
                    Ok(V::L(mut v), q, c) => Ok(v.remove(1), q, c),
                    e => e,
                }
            }
            G::Alt(_, v) => {
                for g in v {
                    match self.ev(g, p) {
                        Peek => continue,
                        r => return r,
                    }
                }
                Peek
            }
            G::Opt(a) => match self.ev(a, p) {
                Ok(v, q, c) => Ok(V::Some(Box::new(v)), q, c),
                Peek => Ok(V::N, p, false),
                Commit => Commit,
            },
            G::Attempt(a) => match self.ev(a, p) {
                Commit => Peek,
                r => r,
            },
            G::Look(a) => match self.ev(a, p) {
                Ok(v, _, _) => Ok(v, p, false),
                e => e,
            },
            G::Not(a) => match self.ev(a, p) {
                Ok(..) => Peek,
                _ => Ok(V::U, p, false),
            },
            G::Many(a) => self.list(self.repeat(p, false, usize::MAX, |q| self.ev(a, q))),
            G::Many1(a) => match self.ev(a, p) {
                Ok(v, q, c) => {
                    let (mut out, r) = self.repeat(q, c, usize::MAX, |q| self.ev(a, q));
                    out.insert(0, v);
                    self.list((out, r))
                }
                e => e,
            },
            G::SkipMany(a) => unit(self.ev(&G::Many(a.clone()), p)),
            G::SkipMany1(a) => unit(self.ev(&G::Many1(a.clone()), p)),
            G::Count(n, a) => self.count(0, *n, a, p),
            G::SkipCount(n, a) => unit(self.count(0, *n, a, p)),
            G::CountMM(n, m, a) => self.count(*n, *m, a, p),
            G::SkipCountMM(n, m, a) => unit(self.count(*n, *m, a, p)),
            G::SepBy(a, s) => match self.ev(&G::SepBy1(a.clone(), s.clone()), p) {
                Peek => Ok(V::L(vec![]), p, false),
                r => r,
            },
            G::SepBy1(a, s) => match self.ev(a, p) {
                Ok(v, q, c) => {
                    let (mut out, r) = self.repeat(q, c, usize::MAX, |q| match self.seq2(s, a, q) {
                        Result::Ok(((_, v), q, c)) => Ok(v, q, c),
                        Err(e) => e,
                    });
                    out.insert(0, v);
                    self.list((out, r))
                }
                e => e,
            },
            G::SepEndBy(a, s) => match self.ev(&G::SepEndBy1(a.clone(), s.clone()), p) {
                Peek => Ok(V::L(vec![]), p, false),
                r => r,
            },
            G::SepEndBy1(a, s) => match self.ev(a, p) {
                Ok(v, q, c) => {
                    let mut out = vec![v];
                    let (mut q, mut c) = (q, c);
                    loop {
                        match self.seq2(s, &G::Opt(a.clone()), q) {
                            Result::Ok(((_, w), r, k)) => {
                                q = r;
                                c |= k;
                                match w {
                                    V::Some(w) => out.push(*w),
                                    _ => break,
                                }
                            }
                            Err(Peek) => break,
                            Err(e) => return e,
                        }
                        if self.out_of_fuel.get() {
                            return Commit;
                        }
                    }
                    Ok(V::L(out), q, c)
                }
                e => e,
            },
            G::ChainL(a, op) => match self.ev(a, p) {
                Ok(mut l, mut q, mut c) => loop {
                    match self.seq2_op(op, a, q) {
                        Result::Ok(((o, r), s, k)) => {
                            call('x', op.consumes(), l.hash() * 7 + r.hash());
                            l = V::L(vec![o, l, r]);
                            q = s;
                            c |= k;
                        }
                        Err(Peek) => return Ok(l, q, c),
                        Err(e) => return e,
                    }
                    if self.out_of_fuel.get() {
                        return Commit;
                    }
                },
                e => e,
            },
            G::ChainR(a, op) => match self.ev(a, p) {
                Ok(l, q, c) => {
                    let before = self.maps.get();
                    match self.seq2_op(op, g, q) {
                        Result::Ok(((o, r), s, k)) => {
                            call('x', op.consumes(), l.hash() * 7 + r.hash());
                            Ok(V::L(vec![o, l, r]), s, c || k)
                        }
                        Err(Peek) => {
                            if self.maps.get() != before {
                                self.maps_unsure.set(true)
                            }
                            Ok(l, q, c)
                        }
                        Err(e) => e,
                    }
                }
                e => e,
            },
            G::TakeUntil(e) => {
                let mut q = p;
                loop {
                    match self.ev(e, q) {
                        Ok(_, _, c) => return Ok(V::S(self.inp[p..q].to_vec()), q, c || q > p),
                        Commit => return Commit,
                        Peek => {}
                    }
                    // At the end of the input the search fails without committing
                    if self.at(q).is_none() || self.out_of_fuel.get() {
                        if q > p {
                            self.taint.set(true);
                        }
                        return Peek;
                    }
                    q += 1;
                }
            }
            G::SkipUntil(e) => unit(self.ev(&G::TakeUntil(e.clone()), p)),
            G::RepUntil(a, e) => {
                let (mut q, mut c) = (p, false);
                let mut out = vec![];
                loop {
                    match self.ev(e, q) {
                        Ok(_, _, k) => return Ok(V::L(out), q, c || k),
                        Commit => return Commit,
                        Peek => {}
                    }
                    match self.ev(a, q) {
                        Ok(v, r, k) => {
                            out.push(v);
                            q = r;
                            c |= k;
                        }
                        e => {
                            if q > p && e == Peek {
                                self.taint.set(true);
                            }
                            return e;
                        }
                    }
                    if self.out_of_fuel.get() {
                        return Commit;
                    }
                }
            }
            G::RepSkipUntil(a, e) => unit(self.ev(&G::RepUntil(a.clone(), e.clone()), p)),
            G::Escaped(a, esc, b) => {
                let (mut q, mut c) = (p, false);
                loop {
                    if self.out_of_fuel.get() {
                        return Commit;
                    }
                    match self.ev(a, q) {
                        Ok(_, r, k) => {
                            q = r;
                            c |= k;
                        }
                        Commit => return Commit,
                        Peek => {
                            if self.at(q) == Some(*esc) {
                                match self.ev(b, q + 1) {
                                    Ok(_, r, _) => {
                                        q = r;
                                        c = true;
                                    }
                                    _ => return Commit,
                                }
                            } else {
                                return Ok(V::U, q, c);
                            }
                        }
                    }
                }
            }
            G::Iterate(n, v) => {
                let (mut q, mut c) = (p, false);
                let mut out = vec![];
                for i in 0..*n {
                    call('i', false, i);
                    match self.ev(&v[i % v.len()], q) {
                        Ok(v, r, k) => {
                            out.push(v);
                            q = r;
                            c |= k;
                        }
                        Peek => return if c { Commit } else { Peek },
                        Commit => return Commit,
                    }
                }
                Ok(V::L(out), q, c)
            }
            G::Then(a, v) | G::ThenPartial(a, v) => match self.ev(a, p) {
                Ok(x, q, c) => {
                    match g {
                        G::Then(..) => call('t', a.consumes(), x.hash()),
                        _ => call('h', false, x.hash()),
                    }
                    match self.ev(&v[x.hash() % v.len()], q) {
                        Ok(y, r, k) => Ok(y, r, c || k),
                        Peek => {
                            if c {
                                Commit
                            } else {
                                Peek
                            }
                        }
                        Commit => Commit,
                    }
                }
                e => e,
            },
            G::ThenRef(a, v) => match self.ev(a, p) {
                Ok(x, q, c) => {
                    call('r', a.consumes(), x.hash());
                    match self.ev(&v[x.hash() % v.len()], q) {
                        Ok(y, r, k) => Ok(V::L(vec![x, y]), r, c || k),
                        Peek => {
                            if c {
                                Commit
                            } else {
                                Peek
                            }
                        }
                        Commit => Commit,
                    }
                }
                e => e,
            },
            G::Map(a) => match self.ev(a, p) {
                Ok(v, q, c) => {
                    self.maps.set(self.maps.get() + 1);
                    call('m', a.consumes(), v.hash());
                    call('n', a.consumes(), v.hash());
                    Ok(V::L(vec![v]), q, c)
                }
                e => e,
            },
            G::FlatMap(a, m) | G::AndThen(a, m) => match self.ev(a, p) {
                Ok(v, q, c) => {
                    call(if let G::FlatMap(..) = g { 'f' } else { 'a' }, a.consumes(), v.hash());
                    if v.hash() % m == 0 {
                        if c {
                            Commit
                        } else {
                            Peek
                        }
                    } else {
                        Ok(v, q, c)
                    }
                }
                e => e,
            },
            G::Recog(a) => match self.ev(a, p) {
                Ok(_, q, c) => Ok(V::S(self.inp[p..q].to_vec()), q, c),
                e => e,
            },
            G::Factory(a) => {
                call('y', false, 0);
                self.ev(a, p)
            }
            G::Msg(a) | G::Exp(a) | G::Silent(a) | G::Lazy(a) | G::Opaque(a) | G::NoPartial(a)
            | G::AnyState(a) | G::Either(_, a) => self.ev(a, p),
            G::RRange(s) => {
                // compared as a unit: never commits on failure
                if self.inp[p.min(self.inp.len())..].starts_with(s) {
                    self.seen.set(self.seen.get().max(p + s.len()));
                    Ok(V::S(s.clone()), p + s.len(), true)
                } else {
                    Peek
                }
            }
            G::RTake(n) => match self.units(p, *n) {
                Some(q) => Ok(V::S(self.inp[p..q].to_vec()), q, *n > 0),
                None => Peek,
            },
            G::RTakeWhile(k) | G::RTakeWhile1(k) => {
                let mut q = p;
                while self.at(q).map_or(false, |b| in_class(*k, b)) {
                    call('w', false, self.inp[q] as usize);
                    q += 1;
                }
                if q == p && matches!(g, G::RTakeWhile1(_)) {
                    Peek
                } else {
                    Ok(V::S(self.inp[p..q].to_vec()), q, q > p)
                }
            }
            G::RUntilRange(s) => {
                let mut q = p;
                loop {
                    if self.inp[q..].starts_with(s) {
                        return Ok(V::S(self.inp[p..q].to_vec()), q, q > p);
                    }
                    if q >= self.inp.len() {
                        return Peek;
                    }
                    q += 1;
                }
            }
            G::RTakeFn(b) => match self.inp[p..].iter().position(|c| c == b) {
                Some(i) => Ok(V::S(self.inp[p..p + i].to_vec()), p + i, i > 0),
                None => {
                    if p == self.inp.len() {
                        Peek
                    } else {
                        Commit
                    }
                }
            },
            G::RRecog(a) => match self.ev(a, p) {
                Ok(_, q, _) => Ok(V::S(self.inp[p..q].to_vec()), q, q > p),
                e => e,
            },
            G::RRecogVal(a) => match self.ev(a, p) {
                Ok(v, q, _) => Ok(V::L(vec![V::S(self.inp[p..q].to_vec()), v]), q, q > p),
                e => e,
            },
            G::RLenPrefix(k) => match self.sat(p, |c| in_class(*k, c)) {
                Ok(V::T(b), q, _) => match self.units(q, prefix_len(b)) {
                    Some(r) => Ok(V::S(self.inp[q..r].to_vec()), r, true),
                    None => Commit,
                },
                e => e,
            },
        }
    }

    fn count(&self, min: usize, max: usize, a: &G, p: usize) -> R {
        let (out, r) = self.repeat(p, false, max, |q| self.ev(a, q));
        match r {
            Ok(_, q, c) => {
                if out.len() < min {
                    if c {
                        Commit
                    } else {
                        Peek
                    }
                } else {
                    Ok(V::L(out), q, c)
                }
            }
            e => e,
        }
    }

    fn string(&self, s: &[u8], p: usize, eq: fn(u8, u8) -> bool) -> R {
        for (i, b) in s.iter().enumerate() {
            match self.at(p + i) {
                Some(c) if eq(*b, c) => {}
                _ => return if i > 0 { Commit } else { Peek },
            }
        }
        Ok(V::S(s.to_vec()), p + s.len(), !s.is_empty())
    }
}

fn weight(g: &G) -> usize {
    let mut n = 0;
    g.walk(&mut |g| {
        n += match g {
            G::Str(s) | G::StrCmp(s) | G::RRange(s) | G::RUntilRange(s) => s.len() / 8,
            _ => 0,
        }
    });
    n
}

/// The comparison given to tokens_cmp.
pub fn fold_eq(a: u8, b: u8) -> bool {
    let f = |c: u8| if c == b'b' { b'a' } else { c };
    f(a) == f(b)
}

/// The length which a token denotes in `length_prefix`.
pub fn prefix_len(b: u8) -> usize {
    (ALPHA.iter().position(|&x| x == b).unwrap_or(0)) % 5
}

fn unit(r: R) -> R {
    match r {
        Ok(_, p, c) => Ok(V::U, p, c),
        e => e,
    }
}
