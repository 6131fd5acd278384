//! C18: grammars written as a user would, without any type erasure inside, do what their type-erased twins do.
#[allow(unused_imports)]
use combine::error::{ParseError, ParseResult, StreamError};
#[allow(unused_imports)]
use combine::parser::choice::choice;
#[allow(unused_imports)]
use combine::parser::combinator::{any_partial_state, attempt, factory, lazy, look_ahead, no_partial, not_followed_by, recognize};
#[allow(unused_imports)]
use combine::parser::error::unexpected_any;
#[allow(unused_imports)]
use combine::parser::range::{
    length_prefix, range, recognize as range_recognize, recognize_with_value, take, take_fn, take_until_range, take_while, take_while1,
};
#[allow(unused_imports)]
use combine::parser::repeat::*;
#[allow(unused_imports)]
use combine::parser::sequence::between;
#[allow(unused_imports)]
use combine::parser::token::*;
#[allow(unused_imports)]
use combine::stream::{easy, MaybePartialStream, StreamErrorFor, StreamOnce};
#[allow(unused_imports)]
use combine::{opaque, optional, EasyParser, Parser, RangeStream};
use vcore::{build::*, grammar::*, model::*, mon::Mon, run::*, sources::*, statics::*};

mod grammars {
    #![allow(unused)]
    use super::*;
    include!("../static_gen.rs");
}

fn main() {
    let ctx = Ctx::new("C18");
    let a = grammars::all::<easy::Stream<PIdx<S8>>>();
    ctx.par("static", 60_000, 3_000_000, (15, 300), |r, _, t| whole("easy bytes", true, &a, r, t));
    let b = grammars::all::<MaybePartialStream<Mon<Str>>>();
    ctx.par("static-parts", 60_000, 3_000_000, (15, 300), |r, _, t| parts("text", &b, r, t));
    ctx.finish("statically typed grammars next to their type-erased twins and the model, whole and in parts; distinct: (grammar, input, cuts)", &[
        ("evaluations", 50_000),
        ("ok_committed", 3_000),
        ("failed_committed", 3_000),
        ("resumptions", 10_000),
    ])
}
