//! Grammar AST, random generation of grammars and of inputs which (often) match them.
use crate::rng::Rng;

pub const ALPHA: &[u8] = b"abc,1\n";

/// A class of tokens: bit i set means ALPHA[i] is a member.
pub type Class = u8;

pub fn in_class(c: Class, b: u8) -> bool {
    crate::ledger::event();
    ALPHA.iter().position(|&x| x == b).map_or(false, |i| c >> i & 1 == 1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U,
    T(u8),
    S(Vec<u8>),
    L(Vec<V>),
    N,
    Some(Box<V>),
    /// stands for a `T` or a `U` while the ledger is kept
    D(crate::ledger::D),
}

impl V {
    pub fn hash(&self) -> usize {
        match self {
            V::U => 3,
            V::T(b) => *b as usize,
            V::S(s) => s.iter().fold(7 + s.len(), |a, b| a * 31 % 10007 + *b as usize),
            V::L(v) => v.iter().fold(11 + v.len(), |a, b| a * 37 % 10007 + b.hash()),
            V::N => 5,
            V::Some(v) => 1 + v.hash(),
            V::D(d) => d.get() as usize,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum AltKind {
    Tuple,
    Array,
    Slice,
    Or,
}

pub type B = Box<G>;

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum G {
    Any,
    Tok(u8),
    Sat(Class),
    SatMap(Class),
    OneOf(Vec<u8>),
    NoneOf(Vec<u8>),
    Val(u8),
    Produce(u8),
    Eof,
    Fail,
    Str(Vec<u8>),
    StrCmp(Vec<u8>),
    Seq(Vec<G>),
    With(B, B),
    Skip(B, B),
    Between(B, B, B),
    Alt(AltKind, Vec<G>),
    Opt(B),
    Attempt(B),
    Look(B),
    Not(B),
    Many(B),
    Many1(B),
    SkipMany(B),
    SkipMany1(B),
    Count(usize, B),
    SkipCount(usize, B),
    CountMM(usize, usize, B),
    SkipCountMM(usize, usize, B),
    SepBy(B, B),
    SepBy1(B, B),
    SepEndBy(B, B),
    SepEndBy1(B, B),
    ChainL(B, B),
    ChainR(B, B),
    TakeUntil(B),
    SkipUntil(B),
    RepUntil(B, B),
    RepSkipUntil(B, B),
    Escaped(B, u8, B),
    Iterate(usize, Vec<G>),
    Then(B, Vec<G>),
    ThenPartial(B, Vec<G>),
    ThenRef(B, Vec<G>),
    Map(B),
    FlatMap(B, usize),
    AndThen(B, usize),
    Recog(B),
    Msg(B),
    Exp(B),
    Silent(B),
    Lazy(B),
    Factory(B),
    Opaque(B),
    NoPartial(B),
    Either(bool, B),
    AnyState(B),
    // Range parsers
    RRange(Vec<u8>),
    RTake(usize),
    RTakeWhile(Class),
    RTakeWhile1(Class),
    RUntilRange(Vec<u8>),
    RTakeFn(u8),
    RRecog(B),
    RRecogVal(B),
    RLenPrefix(Class),
}

/// Names of all the node kinds, used to configure generators and to count coverage.
pub const KINDS: &[&str] = &[
    "any", "token", "satisfy", "satisfy_map", "one_of", "none_of", "value", "produce", "eof", "unexpected_any",
    "tokens", "tokens_cmp", "tuple", "with", "skip", "between", "choice_tuple", "choice_array", "choice_slice", "or",
    "optional", "attempt", "look_ahead", "not_followed_by", "many", "many1", "skip_many", "skip_many1", "count",
    "skip_count", "count_min_max", "skip_count_min_max", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1",
    "chainr1", "take_until", "skip_until", "repeat_until", "repeat_skip_until", "escaped", "iterate", "then",
    "then_partial", "then_ref", "map", "flat_map", "and_then", "recognize", "message", "expected", "silent", "lazy",
    "factory", "opaque", "no_partial", "either", "any_partial_state", "range", "take", "take_while", "take_while1", "take_until_range",
    "take_fn", "range_recognize", "recognize_with_value", "length_prefix",
];

impl G {
    pub fn kind(&self) -> &'static str {
        match self {
            G::Any => "any",
            G::Tok(_) => "token",
            G::Sat(_) => "satisfy",
            G::SatMap(_) => "satisfy_map",
            G::OneOf(_) => "one_of",
            G::NoneOf(_) => "none_of",
            G::Val(_) => "value",
            G::Produce(_) => "produce",
            G::Eof => "eof",
            G::Fail => "unexpected_any",
            G::Str(_) => "tokens",
            G::StrCmp(_) => "tokens_cmp",
            G::Seq(_) => "tuple",
            G::With(..) => "with",
            G::Skip(..) => "skip",
            G::Between(..) => "between",
            G::Alt(AltKind::Tuple, _) => "choice_tuple",
            G::Alt(AltKind::Array, _) => "choice_array",
            G::Alt(AltKind::Slice, _) => "choice_slice",
            G::Alt(AltKind::Or, _) => "or",
            G::Opt(_) => "optional",
            G::Attempt(_) => "attempt",
            G::Look(_) => "look_ahead",
            G::Not(_) => "not_followed_by",
            G::Many(_) => "many",
            G::Many1(_) => "many1",
            G::SkipMany(_) => "skip_many",
            G::SkipMany1(_) => "skip_many1",
            G::Count(..) => "count",
            G::SkipCount(..) => "skip_count",
            G::CountMM(..) => "count_min_max",
            G::SkipCountMM(..) => "skip_count_min_max",
            G::SepBy(..) => "sep_by",
            G::SepBy1(..) => "sep_by1",
            G::SepEndBy(..) => "sep_end_by",
            G::SepEndBy1(..) => "sep_end_by1",
            G::ChainL(..) => "chainl1",
            G::ChainR(..) => "chainr1",
            G::TakeUntil(_) => "take_until",
            G::SkipUntil(_) => "skip_until",
            G::RepUntil(..) => "repeat_until",
            G::RepSkipUntil(..) => "repeat_skip_until",
            G::Escaped(..) => "escaped",
            G::Iterate(..) => "iterate",
            G::Then(..) => "then",
            G::ThenPartial(..) => "then_partial",
            G::ThenRef(..) => "then_ref",
            G::Map(_) => "map",
            G::FlatMap(..) => "flat_map",
            G::AndThen(..) => "and_then",
            G::Recog(_) => "recognize",
            G::Msg(_) => "message",
            G::Exp(_) => "expected",
            G::Silent(_) => "silent",
            G::Lazy(_) => "lazy",
            G::Factory(_) => "factory",
            G::Opaque(_) => "opaque",
            G::NoPartial(_) => "no_partial",
            G::Either(..) => "either",
            G::AnyState(_) => "any_partial_state",
            G::RRange(_) => "range",
            G::RTake(_) => "take",
            G::RTakeWhile(_) => "take_while",
            G::RTakeWhile1(_) => "take_while1",
            G::RUntilRange(_) => "take_until_range",
            G::RTakeFn(_) => "take_fn",
            G::RRecog(_) => "range_recognize",
            G::RRecogVal(_) => "recognize_with_value",
            G::RLenPrefix(_) => "length_prefix",
        }
    }

    pub fn children(&self) -> Vec<&G> {
        match self {
            G::Seq(v) | G::Alt(_, v) | G::Iterate(_, v) => v.iter().collect(),
            G::With(a, b) | G::Skip(a, b) | G::SepBy(a, b) | G::SepBy1(a, b) | G::SepEndBy(a, b)
            | G::SepEndBy1(a, b) | G::ChainL(a, b) | G::ChainR(a, b) | G::RepUntil(a, b) | G::RepSkipUntil(a, b)
            | G::Escaped(a, _, b) => vec![a, b],
            G::Between(a, b, c) => vec![a, b, c],
            G::Then(a, v) | G::ThenPartial(a, v) | G::ThenRef(a, v) => {
                let mut r: Vec<&G> = vec![a];
                r.extend(v.iter());
                r
            }
            G::Opt(a) | G::Attempt(a) | G::Look(a) | G::Not(a) | G::Many(a) | G::Many1(a) | G::SkipMany(a)
            | G::SkipMany1(a) | G::Count(_, a) | G::SkipCount(_, a) | G::CountMM(_, _, a)
            | G::SkipCountMM(_, _, a) | G::TakeUntil(a) | G::SkipUntil(a) | G::Map(a) | G::FlatMap(a, _)
            | G::AndThen(a, _) | G::Recog(a) | G::Msg(a) | G::Exp(a) | G::Silent(a) | G::Lazy(a) | G::Factory(a)
            | G::Opaque(a) | G::NoPartial(a) | G::AnyState(a) | G::Either(_, a) | G::RRecog(a) | G::RRecogVal(a) => vec![a],
            _ => vec![],
        }
    }

    /// All the children, mutably (used by the shrinker).
    pub fn children_mut(&mut self) -> Vec<&mut G> {
        match self {
            G::Seq(v) | G::Alt(_, v) | G::Iterate(_, v) => v.iter_mut().collect(),
            G::With(a, b) | G::Skip(a, b) | G::SepBy(a, b) | G::SepBy1(a, b) | G::SepEndBy(a, b)
            | G::SepEndBy1(a, b) | G::ChainL(a, b) | G::ChainR(a, b) | G::RepUntil(a, b) | G::RepSkipUntil(a, b)
            | G::Escaped(a, _, b) => vec![a, b],
            G::Between(a, b, c) => vec![a, b, c],
            G::Then(a, v) | G::ThenPartial(a, v) | G::ThenRef(a, v) => {
                let mut r: Vec<&mut G> = vec![a];
                r.extend(v.iter_mut());
                r
            }
            G::Opt(a) | G::Attempt(a) | G::Look(a) | G::Not(a) | G::Many(a) | G::Many1(a) | G::SkipMany(a)
            | G::SkipMany1(a) | G::Count(_, a) | G::SkipCount(_, a) | G::CountMM(_, _, a)
            | G::SkipCountMM(_, _, a) | G::TakeUntil(a) | G::SkipUntil(a) | G::Map(a) | G::FlatMap(a, _)
            | G::AndThen(a, _) | G::Recog(a) | G::Msg(a) | G::Exp(a) | G::Silent(a) | G::Lazy(a) | G::Factory(a)
            | G::Opaque(a) | G::NoPartial(a) | G::AnyState(a) | G::Either(_, a) | G::RRecog(a) | G::RRecogVal(a) => vec![a],
            _ => vec![],
        }
    }

    pub fn walk(&self, f: &mut dyn FnMut(&G)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }

    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }

    pub fn has(&self, kinds: &[&str]) -> bool {
        let mut r = false;
        self.walk(&mut |g| r |= kinds.contains(&g.kind()));
        r
    }

    /// Every success of this parser consumes at least one token (conservative).
    pub fn consumes(&self) -> bool {
        match self {
            G::Any | G::Tok(_) | G::Sat(_) | G::SatMap(_) | G::OneOf(_) | G::NoneOf(_) => true,
            G::Fail => true,
            G::Val(_) | G::Produce(_) | G::Eof => false,
            G::Str(s) | G::StrCmp(s) | G::RRange(s) => !s.is_empty(),
            G::Seq(v) => v.iter().any(|g| g.consumes()),
            G::With(a, b) | G::Skip(a, b) => a.consumes() || b.consumes(),
            G::Between(a, b, c) => a.consumes() || b.consumes() || c.consumes(),
            G::Alt(_, v) => v.iter().all(|g| g.consumes()),
            G::Opt(_) | G::Look(_) | G::Not(_) | G::Many(_) | G::SkipMany(_) => false,
            G::Attempt(a) | G::Many1(a) | G::SkipMany1(a) | G::Map(a) | G::FlatMap(a, _) | G::AndThen(a, _)
            | G::Recog(a) | G::Msg(a) | G::Exp(a) | G::Silent(a) | G::Lazy(a) | G::Factory(a) | G::Opaque(a)
            | G::NoPartial(a) | G::AnyState(a) | G::Either(_, a) | G::RRecog(a) | G::RRecogVal(a) => a.consumes(),
            G::Count(..) | G::SkipCount(..) => false,
            G::CountMM(n, _, a) | G::SkipCountMM(n, _, a) => *n > 0 && a.consumes(),
            G::SepBy(..) | G::SepEndBy(..) => false,
            G::SepBy1(a, _) | G::SepEndBy1(a, _) | G::ChainL(a, _) | G::ChainR(a, _) => a.consumes(),
            G::TakeUntil(_) | G::SkipUntil(_) | G::RepUntil(..) | G::RepSkipUntil(..) | G::Escaped(..) => false,
            G::Iterate(n, v) => *n > 0 && v[0].consumes(),
            G::Then(a, v) | G::ThenPartial(a, v) | G::ThenRef(a, v) => {
                a.consumes() || v.iter().all(|g| g.consumes())
            }
            G::RTake(n) => *n > 0,
            G::RTakeWhile(_) | G::RUntilRange(_) | G::RTakeFn(_) => false,
            G::RTakeWhile1(_) | G::RLenPrefix(_) => true,
        }
    }
}

/// Which node kinds a generator may use.
#[derive(Clone)]
pub struct Cfg {
    pub leaves: Vec<&'static str>,
    pub inner: Vec<&'static str>,
}

pub const LEAVES: &[&str] = &[
    "any", "token", "token", "token", "satisfy", "satisfy_map", "one_of", "none_of", "value", "produce", "eof",
    "unexpected_any", "tokens", "tokens", "tokens_cmp",
];
pub const RLEAVES: &[&str] = &[
    "range", "take", "take_while", "take_while1", "take_until_range", "take_fn", "length_prefix",
];
pub const INNER: &[&str] = &[
    "tuple", "tuple", "tuple", "with", "skip", "between", "choice_tuple", "choice_tuple", "choice_array",
    "choice_slice", "or", "or", "optional", "attempt", "attempt", "look_ahead", "not_followed_by", "many", "many",
    "many1", "skip_many", "skip_many1", "count", "skip_count", "count_min_max", "skip_count_min_max", "sep_by",
    "sep_by1", "sep_end_by", "sep_end_by1", "chainl1", "chainr1", "take_until", "skip_until", "repeat_until",
    "repeat_skip_until", "escaped", "iterate", "then", "then_partial", "then_ref", "map", "flat_map", "and_then",
    "recognize", "message", "expected", "silent", "lazy", "factory", "opaque", "no_partial", "either", "any_partial_state",
];
/// The kinds which count, repeat or index
pub const COUNTED: &[&str] = &[
    "tuple", "choice_tuple", "choice_array", "choice_slice", "many", "many1", "skip_many", "skip_many1", "count",
    "skip_count", "count_min_max", "skip_count_min_max", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1",
    "chainr1", "take_until", "skip_until", "repeat_until", "repeat_skip_until", "escaped", "iterate",
];
pub const RINNER: &[&str] = &["range_recognize", "recognize_with_value"];

impl Cfg {
    pub fn new(range: bool) -> Self {
        let mut leaves = LEAVES.to_vec();
        let mut inner = INNER.to_vec();
        if range {
            leaves.extend(RLEAVES);
            inner.extend(RINNER);
        }
        Cfg { leaves, inner }
    }
    pub fn without(mut self, kinds: &[&str]) -> Self {
        self.leaves.retain(|k| !kinds.contains(k));
        self.inner.retain(|k| !kinds.contains(k));
        self
    }
    /// More of the kinds which count, repeat or index
    pub fn counted(mut self) -> Self {
        let v: Vec<&'static str> = COUNTED.iter().cloned().filter(|k| self.inner.contains(k)).collect();
        self.inner.extend(v);
        self
    }
    pub fn only(leaves: &[&'static str], inner: &[&'static str]) -> Self {
        Cfg { leaves: leaves.to_vec(), inner: inner.to_vec() }
    }
}

fn tok(r: &mut Rng) -> u8 {
    // biased towards a small set so that alternatives share prefixes
    if r.chance(2, 3) {
        ALPHA[r.below(3)]
    } else {
        ALPHA[r.below(ALPHA.len())]
    }
}

fn word(r: &mut Rng, lo: usize, hi: usize) -> Vec<u8> {
    let n = r.range(lo, hi);
    (0..n).map(|_| tok(r)).collect()
}

/// A word which may be long where large cases are wanted, and is then often of one token
fn words(r: &mut Rng, lo: usize, hi: usize) -> Vec<u8> {
    let n = r.reps(lo, hi);
    if n > hi && r.chance(2, 3) {
        return vec![tok(r); n];
    }
    (0..n).map(|_| tok(r)).collect()
}

fn class(r: &mut Rng) -> Class {
    1 + r.below((1 << ALPHA.len()) - 1) as u8
}

pub fn leaf(r: &mut Rng, cfg: &Cfg, consume: bool) -> G {
    for _ in 0..20 {
        let g = match *r.pick(&cfg.leaves) {
            "any" => G::Any,
            "token" => G::Tok(tok(r)),
            "satisfy" => G::Sat(class(r)),
            "satisfy_map" => G::SatMap(class(r)),
            "one_of" => G::OneOf(word(r, 1, 3)),
            "none_of" => G::NoneOf(word(r, 1, 3)),
            "value" => G::Val(tok(r)),
            "produce" => G::Produce(tok(r)),
            "eof" => G::Eof,
            "unexpected_any" => {
                if r.chance(1, 3) {
                    G::Fail
                } else {
                    continue;
                }
            }
            "tokens" => G::Str(words(r, 0, 4)),
            "tokens_cmp" => G::StrCmp(words(r, 0, 3)),
            "range" => G::RRange(words(r, 0, 3)),
            "take" => G::RTake(r.reps(0, 4)),
            "take_while" => G::RTakeWhile(class(r)),
            "take_while1" => G::RTakeWhile1(class(r)),
            "take_until_range" => G::RUntilRange(words(r, 1, 3)),
            "take_fn" => G::RTakeFn(tok(r)),
            "length_prefix" => G::RLenPrefix(class(r)),
            k => panic!("leaf kind {}", k),
        };
        if !consume || g.consumes() {
            return g;
        }
    }
    G::Tok(tok(r))
}

pub fn gen(r: &mut Rng, cfg: &Cfg, depth: usize, consume: bool) -> G {
    let depth = if r.big > 0 { depth.min(3) } else { depth };
    if depth == 0 || r.chance(1, 6) {
        return leaf(r, cfg, consume);
    }
    for _ in 0..30 {
        let k = *r.pick(&cfg.inner);
        let g = gen_kind(r, cfg, depth, k);
        if !consume || g.consumes() {
            return g;
        }
    }
    leaf(r, cfg, consume)
}

pub fn gen_kind(r: &mut Rng, cfg: &Cfg, depth: usize, k: &str) -> G {
    let d = depth.saturating_sub(1);
    macro_rules! any {
        () => {
            Box::new(gen(r, cfg, d, false))
        };
    }
    macro_rules! cons {
        () => {
            Box::new(gen(r, cfg, d, true))
        };
    }
    macro_rules! list {
        ($lo: expr, $hi: expr) => {{
            let n = r.range($lo, $hi);
            (0..n).map(|_| gen(r, cfg, d, false)).collect::<Vec<_>>()
        }};
    }
    // The sizes that `wide` can build
    macro_rules! wide {
        ($lo: expr, $hi: expr, $($n: expr),*) => {{
            let n = if (r.big == 1 || r.big == 2 || r.big > 0 && [$($n),*].len() > 2) && r.chance(1, 4) { *r.pick(&[$($n),*]) } else { r.range($lo, $hi) };
            // All the same, or nearly all leaves: else these become huge
            let d = if n > $hi { 0 } else { d };
            if n > $hi && r.chance(1, 2) {
                let c: Vec<G> = (0..r.range(1, 3)).map(|_| gen(r, cfg, d, false)).collect();
                (0..n).map(|_| c[r.below(c.len())].clone()).collect::<Vec<_>>()
            } else {
                (0..n).map(|_| gen(r, cfg, d, false)).collect::<Vec<_>>()
            }
        }};
    }
    match k {
        "tuple" => G::Seq(wide!(1, 5, 9, 20)),
        "with" => G::With(any!(), any!()),
        "skip" => G::Skip(any!(), any!()),
        "between" => G::Between(any!(), any!(), any!()),
        "choice_tuple" => G::Alt(AltKind::Tuple, wide!(1, 4, 9, 24)),
        "choice_array" => G::Alt(AltKind::Array, wide!(1, 4, 32)),
        "choice_slice" => G::Alt(AltKind::Slice, wide!(1, 4, 9, 33, 257, 300)),
        "or" => G::Alt(AltKind::Or, list!(2, 3)),
        "optional" => G::Opt(any!()),
        "attempt" => G::Attempt(any!()),
        "look_ahead" => G::Look(any!()),
        "not_followed_by" => G::Not(any!()),
        "many" => G::Many(cons!()),
        "many1" => G::Many1(cons!()),
        "skip_many" => G::SkipMany(cons!()),
        "skip_many1" => G::SkipMany1(cons!()),
        "count" => G::Count(r.reps(0, 3), any!()),
        "skip_count" => G::SkipCount(r.reps(0, 3), any!()),
        "count_min_max" => {
            let a = r.reps(0, 2);
            G::CountMM(a, a + r.reps(0, 2), any!())
        }
        "skip_count_min_max" => {
            let a = r.reps(0, 2);
            G::SkipCountMM(a, a + r.reps(0, 2), any!())
        }
        "sep_by" if r.chance(1, 3) => G::SepBy(any!(), cons!()),
        "sep_by" => G::SepBy(cons!(), any!()),
        "sep_by1" if r.chance(1, 3) => G::SepBy1(any!(), cons!()),
        "sep_by1" => G::SepBy1(cons!(), any!()),
        "sep_end_by" if r.chance(1, 3) => G::SepEndBy(any!(), cons!()),
        "sep_end_by" => G::SepEndBy(cons!(), any!()),
        "sep_end_by1" if r.chance(1, 3) => G::SepEndBy1(any!(), cons!()),
        "sep_end_by1" => G::SepEndBy1(cons!(), any!()),
        "chainl1" if r.chance(1, 3) => G::ChainL(any!(), cons!()),
        "chainl1" => G::ChainL(cons!(), any!()),
        "chainr1" if r.chance(1, 3) => G::ChainR(any!(), cons!()),
        "chainr1" => G::ChainR(cons!(), any!()),
        "take_until" => G::TakeUntil(any!()),
        "skip_until" => G::SkipUntil(any!()),
        "repeat_until" => G::RepUntil(cons!(), any!()),
        "repeat_skip_until" => G::RepSkipUntil(cons!(), any!()),
        "escaped" => G::Escaped(cons!(), tok(r), any!()),
        "iterate" => G::Iterate(r.reps(0, 4), list!(1, 3)),
        "then" => G::Then(any!(), list!(1, 2)),
        "then_partial" => G::ThenPartial(any!(), list!(1, 2)),
        "then_ref" => G::ThenRef(any!(), list!(1, 2)),
        "map" => G::Map(any!()),
        "flat_map" => G::FlatMap(any!(), r.range(2, 4)),
        "and_then" => G::AndThen(any!(), r.range(2, 4)),
        "recognize" => G::Recog(any!()),
        "message" => G::Msg(any!()),
        "expected" => G::Exp(any!()),
        "silent" => G::Silent(any!()),
        "lazy" => G::Lazy(any!()),
        "factory" => G::Factory(any!()),
        "opaque" => G::Opaque(any!()),
        "no_partial" => G::NoPartial(any!()),
        "either" => G::Either(r.chance(1, 2), any!()),
        "any_partial_state" => G::AnyState(any!()),
        "range_recognize" => G::RRecog(any!()),
        "recognize_with_value" => G::RRecogVal(any!()),
        k => panic!("inner kind {}", k),
    }
}

thread_local! {
    static STEPS: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
fn over(out: &[u8], budget: usize) -> bool {
    STEPS.with(|s| {
        s.set(s.get() + 1);
        out.len() > budget || s.get() > 300_000 + budget
    })
}

/// Append to `out` a string which is likely to be accepted by `g`.
pub fn sample(g: &G, r: &mut Rng, out: &mut Vec<u8>, budget: usize) {
    if over(out, budget) {
        return;
    }
    let cl = |r: &mut Rng, c: Class| {
        let m: Vec<u8> = ALPHA.iter().cloned().filter(|b| in_class(c, *b)).collect();
        *r.pick(&m)
    };
    match g {
        G::Any => out.push(tok(r)),
        G::Tok(b) => out.push(*b),
        G::Sat(c) | G::SatMap(c) => out.push(cl(r, *c)),
        G::OneOf(v) => out.push(*r.pick(v)),
        G::NoneOf(v) => {
            let m: Vec<u8> = ALPHA.iter().cloned().filter(|b| !v.contains(b)).collect();
            if !m.is_empty() {
                out.push(*r.pick(&m))
            }
        }
        G::Val(_) | G::Produce(_) | G::Eof | G::Fail => {}
        G::Str(s) | G::StrCmp(s) | G::RRange(s) => out.extend(s),
        G::Seq(v) => v.iter().for_each(|g| sample(g, r, out, budget)),
        G::With(a, b) | G::Skip(a, b) => {
            sample(a, r, out, budget);
            sample(b, r, out, budget);
        }
        G::Between(a, b, c) => {
            sample(a, r, out, budget);
            sample(c, r, out, budget);
            sample(b, r, out, budget);
        }
        G::Alt(_, v) => {
            let g = r.pick(v);
            sample(g, r, out, budget)
        }
        G::Opt(a) => {
            if r.chance(1, 2) {
                sample(a, r, out, budget)
            }
        }
        G::Look(a) => {
            if r.chance(1, 2) {
                sample(a, r, out, budget)
            }
        }
        G::Not(_) => {}
        G::Attempt(a) | G::Map(a) | G::FlatMap(a, _) | G::AndThen(a, _) | G::Recog(a) | G::Msg(a) | G::Exp(a)
        | G::Silent(a) | G::Lazy(a) | G::Factory(a) | G::Opaque(a) | G::NoPartial(a) | G::AnyState(a) | G::Either(_, a)
        | G::RRecog(a) | G::RRecogVal(a) => sample(a, r, out, budget),
        G::Many(a) | G::SkipMany(a) => {
            for _ in 0..r.reps(0, 4) {
                if over(out, budget) {
                    break;
                }
                sample(a, r, out, budget)
            }
        }
        G::Many1(a) | G::SkipMany1(a) => {
            for _ in 0..r.reps(1, 4) {
                if over(out, budget) {
                    break;
                }
                sample(a, r, out, budget)
            }
        }
        G::Count(n, a) | G::SkipCount(n, a) => {
            for _ in 0..*n {
                if over(out, budget) {
                    break;
                }
                sample(a, r, out, budget)
            }
        }
        G::CountMM(n, m, a) | G::SkipCountMM(n, m, a) => {
            let k = if r.big > 0 && r.chance(1, 2) { *m } else { r.range(*n, *m) };
            for _ in 0..k {
                if over(out, budget) {
                    break;
                }
                sample(a, r, out, budget)
            }
        }
        G::SepBy(a, s) | G::SepBy1(a, s) | G::SepEndBy(a, s) | G::SepEndBy1(a, s) | G::ChainL(a, s)
        | G::ChainR(a, s) => {
            let n = r.reps(1, 4);
            for i in 0..n {
                if over(out, budget) {
                    break;
                }
                sample(a, r, out, budget);
                if i + 1 < n || r.chance(1, 4) {
                    sample(s, r, out, budget)
                }
            }
        }
        G::TakeUntil(e) | G::SkipUntil(e) => {
            out.extend(words(r, 0, 5));
            sample(e, r, out, budget)
        }
        G::RepUntil(p, e) | G::RepSkipUntil(p, e) => {
            for _ in 0..r.reps(0, 3) {
                if over(out, budget) {
                    break;
                }
                sample(p, r, out, budget)
            }
            sample(e, r, out, budget)
        }
        G::Escaped(p, c, q) => {
            for _ in 0..r.reps(0, 3) {
                if over(out, budget) {
                    break;
                }
                if r.chance(1, 2) {
                    sample(p, r, out, budget)
                } else {
                    out.push(*c);
                    sample(q, r, out, budget)
                }
            }
        }
        G::Iterate(n, v) => {
            for i in 0..*n {
                if over(out, budget) {
                    break;
                }
                sample(&v[i % v.len()], r, out, budget)
            }
        }
        G::Then(a, v) | G::ThenPartial(a, v) | G::ThenRef(a, v) => {
            sample(a, r, out, budget);
            let g = r.pick(v);
            sample(g, r, out, budget)
        }
        G::RTake(n) => out.extend(word(r, *n, *n)),
        G::RTakeWhile(c) | G::RTakeWhile1(c) => {
            for _ in 0..r.reps(0, 12) {
                if over(out, budget) {
                    break;
                }
                out.push(cl(r, *c))
            }
        }
        G::RUntilRange(s) => {
            out.extend(words(r, 0, 6));
            out.extend(s)
        }
        G::RTakeFn(b) => {
            out.extend(words(r, 0, 5));
            out.push(*b)
        }
        G::RLenPrefix(c) => {
            out.push(cl(r, *c));
            out.extend(words(r, 0, 4))
        }
    }
}

/// Where an input of `n` tokens is cut; every place with a chance of 1 in `den`, or a few places of a long input
pub fn cuts(r: &mut Rng, n: usize, den: usize) -> Vec<usize> {
    if r.big == 0 || n < 60 || n < 700 && r.chance(1, 8) {
        return (0..=n).filter(|_| r.chance(1, den)).collect();
    }
    let mut c: Vec<usize> = (0..r.range(1, 6))
        .map(|_| if r.chance(1, 3) { *r.pick(&[1, 128, 255, 256, 257, 511, 512, 65535, 65536]) } else { r.below(n + 1) })
        .filter(|c| *c <= n)
        .collect();
    c.sort();
    c
}

/// An input for `g`: a sample of it, maybe mutated, followed by maybe some junk.
pub fn input_for(g: &G, r: &mut Rng, budget: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let budget = match r.big {
        0 => budget,
        2 => 140_000,
        _ => 1_200,
    };
    STEPS.with(|s| s.set(0));
    if r.chance(9, 10) {
        sample(g, r, &mut v, budget);
    } else {
        v = word(r, 0, 8);
    }
    for _ in 0..r.below(3) {
        let n = v.len();
        match r.below(4) {
            0 if n > 0 => {
                v.remove(r.below(n));
            }
            1 => {
                let i = r.below(n + 1);
                let t = tok(r);
                v.insert(i, t)
            }
            2 if n > 0 => {
                let i = r.below(n);
                v[i] = tok(r)
            }
            3 if n > 0 => v.truncate(r.below(n + 1)),
            _ => {}
        }
    }
    if r.chance(1, 2) {
        v.extend(word(r, 0, 5));
    }
    v
}

/// Adds one message to `v`, as it should be
pub fn message(g: &G, r: &mut Rng, v: &mut Vec<u8>) {
    STEPS.with(|s| s.set(0));
    let mut m = vec![];
    sample(g, r, &mut m, 24);
    v.extend(m)
}

/// Shrinks (grammar, input) while `bad` holds.
pub fn shrink(g: &G, input: &[u8], bad: &mut dyn FnMut(&G, &[u8]) -> bool) -> (G, Vec<u8>) {
    let mut g = g.clone();
    let mut inp = input.to_vec();
    let mut steps = 0;
    let t0 = std::time::Instant::now();
    let late = || t0.elapsed().as_secs() >= 20;
    'outer: loop {
        steps += 1;
        if steps > 400 || late() {
            break;
        }
        // whole blocks of a long input first
        let mut n = inp.len() / 2;
        while n >= 8 {
            let mut i = 0;
            while i + n <= inp.len() && !late() {
                let mut c = inp.clone();
                c.drain(i..i + n);
                if bad(&g, &c) {
                    inp = c
                } else {
                    i += n
                }
            }
            n /= 2;
        }
        for i in 0..inp.len() {
            let mut c = inp.clone();
            c.remove(i);
            if late() {
                break 'outer;
            }
            if bad(&g, &c) {
                inp = c;
                continue 'outer;
            }
        }
        for c in shrunk(&g) {
            if late() {
                break 'outer;
            }
            if well_formed(&c) && bad(&c, &inp) {
                g = c;
                continue 'outer;
            }
        }
        break;
    }
    (g, inp)
}

/// The termination side conditions that the documentation puts on the caller.
pub fn well_formed(g: &G) -> bool {
    let here = match g {
        G::Many(a) | G::Many1(a) | G::SkipMany(a) | G::SkipMany1(a) => a.consumes(),
        G::SepBy(a, s) | G::SepBy1(a, s) | G::SepEndBy(a, s) | G::SepEndBy1(a, s) | G::ChainL(a, s)
        | G::ChainR(a, s) => a.consumes() || s.consumes(),
        G::RepUntil(a, _) | G::RepSkipUntil(a, _) | G::Escaped(a, _, _) => a.consumes(),
        _ => true,
    };
    here && g.children().iter().all(|c| well_formed(c))
}

/// Smaller numbers
fn less(n: usize) -> Vec<usize> {
    let mut v = vec![];
    if n > 4 {
        v.extend([n / 2, n - n / 4, n - n / 8])
    }
    if n > 0 {
        v.push(n - 1)
    }
    v
}

/// The sizes of tuples and arrays that can be built
fn wide(k: Option<AltKind>, n: usize) -> bool {
    match k {
        None => n <= 5 || n == 9 || n == 20,
        Some(AltKind::Tuple) => n <= 4 || n == 9 || n == 24,
        Some(AltKind::Array) => n <= 4 || n == 32,
        _ => true,
    }
}

fn shrunk(g: &G) -> Vec<G> {
    let mut out: Vec<G> = Vec::new();
    // replace by a child
    for c in g.children() {
        out.push(c.clone());
    }
    match g {
        G::Seq(v) if v.len() > 5 => {
            out.extend([20, 9, 5, 2].iter().filter(|n| **n < v.len()).map(|n| G::Seq(v[..*n].to_vec())));
            out.extend([20, 9, 5, 2].iter().filter(|n| **n < v.len()).map(|n| G::Seq(v[v.len() - *n..].to_vec())));
        }
        G::Alt(k, v) if v.len() > 4 => {
            for n in [257, 256, 33, 32, 24, 9, 4, 2] {
                if n < v.len() && wide(Some(*k), n) {
                    out.push(G::Alt(*k, v[..n].to_vec()));
                    out.push(G::Alt(*k, v[v.len() - n..].to_vec()))
                }
            }
        }
        G::Seq(v) if v.len() > 1 => {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(G::Seq(w));
            }
        }
        G::Alt(k, v) if v.len() > if *k == AltKind::Or { 2 } else { 1 } => {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(G::Alt(*k, w));
            }
        }
        G::Iterate(n, v) => {
            for m in less(*n) {
                out.push(G::Iterate(m, v.clone()));
            }
            if v.len() > 1 {
                out.push(G::Iterate(*n, v[..1].to_vec()));
            }
        }
        G::Then(a, v) if v.len() > 1 => out.push(G::Then(a.clone(), v[..1].to_vec())),
        G::ThenPartial(a, v) if v.len() > 1 => out.push(G::ThenPartial(a.clone(), v[..1].to_vec())),
        G::ThenRef(a, v) if v.len() > 1 => out.push(G::ThenRef(a.clone(), v[..1].to_vec())),
        G::Str(s) if s.len() > 1 => less(s.len()).into_iter().for_each(|m| out.push(G::Str(s[s.len() - m..].to_vec()))),
        G::StrCmp(s) if s.len() > 4 => less(s.len()).into_iter().for_each(|m| out.push(G::StrCmp(s[..m].to_vec()))),
        G::RRange(s) if s.len() > 4 => less(s.len()).into_iter().for_each(|m| out.push(G::RRange(s[..m].to_vec()))),
        G::RTake(n) if *n > 4 => less(*n).into_iter().for_each(|m| out.push(G::RTake(m))),
        G::Count(n, a) => less(*n).into_iter().for_each(|m| out.push(G::Count(m, a.clone()))),
        G::SkipCount(n, a) => less(*n).into_iter().for_each(|m| out.push(G::SkipCount(m, a.clone()))),
        G::CountMM(n, m, a) if *m > 4 => {
            less(*m).into_iter().filter(|k| k >= n).for_each(|k| out.push(G::CountMM(*n, k, a.clone())));
            less(*n).into_iter().for_each(|k| out.push(G::CountMM(k, *m, a.clone())))
        }
        G::SkipCountMM(n, m, a) if *m > 4 => {
            less(*m).into_iter().filter(|k| k >= n).for_each(|k| out.push(G::SkipCountMM(*n, k, a.clone())));
            less(*n).into_iter().for_each(|k| out.push(G::SkipCountMM(k, *m, a.clone())))
        }
        _ => {}
    }
    if g.children().is_empty() && !matches!(g, G::Tok(_) | G::Val(_)) {
        out.push(G::Tok(b'a'));
        out.push(G::Val(b'a'));
    }
    // shrink inside
    let n = g.children().len();
    for i in 0..n {
        let subs = shrunk(g.children()[i]);
        for s in subs {
            let mut c = g.clone();
            *c.children_mut()[i] = s;
            out.push(c);
        }
    }
    out
}
