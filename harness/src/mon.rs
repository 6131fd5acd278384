//! A monitored stream: delegates to the real stream, counts the events at its boundary and enforces a
//! logical step budget (so that a parser which stops making progress is a verdict and not a timeout).
use combine::error::ParseResult;
use combine::stream::{Positioned, RangeStreamOnce, ResetStream, StreamErrorFor, StreamOnce};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Ev {
    pub uncons: u64,
    pub ranges: u64,
    pub whiles: u64,
    pub checkpoints: u64,
    pub resets: u64,
    pub ends: u64,
    /// tokens shown to the predicates of `uncons_while`
    pub shown: u64,
}

impl Ev {
    pub fn all(&self) -> u64 {
        self.uncons + self.ranges + self.whiles + self.checkpoints + self.resets + self.shown
    }
}

thread_local! {
    static EV: Cell<Ev> = Cell::new(Ev::default());
    static FUEL: Cell<u64> = Cell::new(u64::MAX);
}

thread_local! {
    static CALLS: std::cell::RefCell<Option<Vec<(char, usize)>>> = std::cell::RefCell::new(None);
}
/// From now on remember which functions of the user are called, and what with
pub fn record() {
    CALLS.with(|c| *c.borrow_mut() = Some(vec![]))
}
pub fn recorded() -> Vec<(char, usize)> {
    CALLS.with(|c| c.borrow_mut().take().unwrap_or_default())
}
/// A function of the user is called. `consumes`: what it is given is sure to be made of something in the input
pub fn call(kind: char, consumes: bool, value: usize) {
    CALLS.with(|c| {
        if let Some(c) = &mut *c.borrow_mut() {
            c.push((if consumes { kind.to_ascii_uppercase() } else { kind }, value))
        }
    })
}

/// One more operation of a stream which is not a `Mon`
pub fn tick() {
    ev(|e| e.uncons += 1)
}

/// Start observing; more than `fuel` stream operations panic.
pub fn start(fuel: u64) {
    EV.with(|e| e.set(Ev::default()));
    FUEL.with(|f| f.set(fuel));
}
pub fn events() -> Ev {
    EV.with(|e| e.get())
}

fn shown() {
    EV.with(|e| {
        let mut x = e.get();
        x.shown += 1;
        e.set(x)
    })
}

fn ev(f: impl FnOnce(&mut Ev)) {
    EV.with(|e| {
        let mut x = e.get();
        f(&mut x);
        e.set(x)
    });
    FUEL.with(|f| {
        let n = f.get();
        if n == 0 {
            panic!("step budget exhausted: the parser does not terminate on this input");
        }
        f.set(n - 1)
    });
}

#[derive(Clone, Debug)]
pub struct Mon<S>(pub S);

impl<S: StreamOnce> StreamOnce for Mon<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        let r = self.0.uncons();
        ev(|e| {
            e.uncons += 1;
            e.ends += r.is_err() as u64
        });
        r
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S: Positioned> Positioned for Mon<S> {
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S: ResetStream> ResetStream for Mon<S> {
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        ev(|e| e.checkpoints += 1);
        self.0.checkpoint()
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), S::Error> {
        ev(|e| e.resets += 1);
        self.0.reset(c)
    }
}
impl<S: RangeStreamOnce> RangeStreamOnce for Mon<S> {
    fn uncons_range(&mut self, n: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        ev(|e| e.ranges += 1);
        self.0.uncons_range(n)
    }
    fn uncons_while<F>(&mut self, mut f: F) -> Result<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        ev(|e| e.whiles += 1);
        self.0.uncons_while(|t| {
            shown();
            f(t)
        })
    }
    fn uncons_while1<F>(&mut self, mut f: F) -> ParseResult<S::Range, StreamErrorFor<Self>>
    where
        F: FnMut(S::Token) -> bool,
    {
        ev(|e| e.whiles += 1);
        self.0.uncons_while1(|t| {
            shown();
            f(t)
        })
    }
    fn distance(&self, end: &S::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> S::Range {
        self.0.range()
    }
}
