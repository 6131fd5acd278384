//! Values whose every creation and every drop is recorded, and which the code under test must not lose, duplicate
//! or keep: the ledger of C16. Also the place from which the harness' user functions panic.
use crate::build::{Rg, Tk};
use crate::grammar::V;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

/// The most values tracked in one episode
const MAX: usize = 1 << 16;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PANIC_IN: Cell<u64> = const { Cell::new(u64::MAX) };
    static LED: RefCell<Led> = RefCell::new(Led::default());
    static SLICES: RefCell<HashMap<Vec<u8>, &'static [D]>> = RefCell::new(HashMap::new());
}

#[derive(Default)]
struct Led {
    /// of each value ever made, whether it is alive; never reallocated, so that the ledger allocates nothing itself
    state: Vec<bool>,
    live: usize,
    made: u64,
    dropped: u64,
    events: u64,
    bad: Vec<String>,
}

pub fn on() -> bool {
    ON.with(|x| x.get())
}

/// Start recording; the `panic_in`th event panics.
pub fn start(panic_in: Option<u64>) {
    LED.with(|l| {
        let mut l = l.borrow_mut();
        let n = l.state.capacity();
        l.state.clear();
        if n < MAX {
            l.state.reserve_exact(MAX)
        }
        l.state.push(false);
        l.live = 0;
        l.made = 0;
        l.dropped = 0;
        l.events = 0;
        l.bad.clear();
    });
    ON.with(|x| x.set(true));
    set_panic(panic_in);
}

pub fn set_panic(panic_in: Option<u64>) {
    PANIC_IN.with(|x| x.set(panic_in.unwrap_or(u64::MAX)));
}

pub struct Report {
    pub live: usize,
    pub made: u64,
    pub dropped: u64,
    pub events: u64,
    pub bad: Vec<String>,
}

pub fn report() -> Report {
    LED.with(|l| {
        let l = l.borrow();
        Report { live: l.live, made: l.made, dropped: l.dropped, events: l.events, bad: l.bad.clone() }
    })
}

pub fn stop() {
    ON.with(|x| x.set(false));
    set_panic(None);
}

pub const PANIC: &str = "a user function panicked";

/// Called from everything that stands for a function of the user
pub fn event() {
    if !on() {
        return;
    }
    LED.with(|l| l.borrow_mut().events += 1);
    PANIC_IN.with(|x| {
        let n = x.get();
        if n != u64::MAX {
            if n == 0 {
                x.set(u64::MAX);
                panic!("{}", PANIC);
            }
            x.set(n - 1);
        }
    });
}

/// A tracked value. `body` gives the sanitizers something to watch.
pub struct D {
    body: Box<u8>,
    id: u32,
}

impl D {
    pub fn new(b: u8) -> D {
        if !on() {
            return D { body: Box::new(b), id: 0 };
        }
        let id = LED.with(|l| {
            let mut l = l.borrow_mut();
            if l.state.len() == MAX {
                return 0;
            }
            l.made += 1;
            l.live += 1;
            l.state.push(true);
            l.state.len() as u32 - 1
        });
        D { body: Box::new(b), id }
    }
    pub fn get(&self) -> u8 {
        if self.id != 0 && on() {
            LED.with(|l| {
                let mut l = l.borrow_mut();
                if !l.state[self.id as usize] {
                    l.bad.push(format!("value {} is used after it was dropped", self.id))
                }
            })
        }
        *self.body
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        event();
        D::new(self.get())
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.get() == o.get()
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "D({})", *self.body)
    }
}
impl std::fmt::Display for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "D({})", *self.body)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        if self.id != 0 && on() {
            LED.with(|l| {
                let mut l = l.borrow_mut();
                l.dropped += 1;
                if std::mem::replace(&mut l.state[self.id as usize], false) {
                    l.live -= 1
                } else {
                    let m = format!("value {} is dropped twice", self.id);
                    l.bad.push(m)
                }
            })
        }
    }
}

impl Tk for D {
    fn b(&self) -> u8 {
        event();
        self.get()
    }
    fn f(b: u8) -> D {
        D::new(b)
    }
}

impl Rg for &'static [D] {
    fn of(b: &[u8]) -> Self {
        SLICES.with(|m| {
            *m.borrow_mut()
                .entry(b.to_vec())
                .or_insert_with(|| Box::leak(b.iter().map(|b| D { body: Box::new(*b), id: 0 }).collect::<Vec<_>>().into_boxed_slice()))
        })
    }
    fn bytes(&self) -> Vec<u8> {
        self.iter().map(|c| c.b()).collect()
    }
}

/// Applied to the output of every parser: with the ledger on, values without parts become tracked ones
pub fn track(v: V) -> V {
    if !on() {
        return v;
    }
    event();
    match v {
        V::T(b) => V::D(D::new(b)),
        V::U => V::D(D::new(0)),
        v => v,
    }
}

/// The number of tracked values in a result
pub fn within(v: &V) -> usize {
    match v {
        V::D(d) => (d.id != 0) as usize,
        V::L(v) => v.iter().map(within).sum(),
        V::Some(v) => within(v),
        _ => 0,
    }
}

type SD = &'static [D];
#[cfg(feature = "std")]
type ESD = combine::stream::easy::Stream<combine::stream::position::Stream<SD, combine::stream::position::IndexPositioner>>;
crate::ranged! { combine::stream::MaybePartialStream<crate::mon::Mon<SD>> }
#[cfg(feature = "std")]
crate::ranged! { combine::stream::MaybePartialStream<crate::mon::Mon<ESD>> }
