//! A counting allocator, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = NET.try_with(|x| {
        let v = x.get() + n as i64;
        x.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|x| x.set(x.get() + n as u64));
    let _ = BIGGEST.try_with(|x| x.set(x.get().max(n as u64)));
}
fn sub(n: usize) {
    let _ = NET.try_with(|x| x.set(x.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes allocated and not freed by this thread (may be negative)
pub fn net() -> i64 {
    NET.with(|x| x.get())
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Mem {
    /// the most that was live at any moment beyond what was live at the start
    pub peak: u64,
    /// everything that was allocated
    pub total: u64,
    pub biggest: u64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Mem) {
    let n0 = net();
    PEAK.with(|p| p.set(n0));
    let t0 = TOTAL.with(|x| x.get());
    BIGGEST.with(|x| x.set(0));
    let r = f();
    let m = Mem {
        peak: (PEAK.with(|p| p.get()) - n0).max(0) as u64,
        total: TOTAL.with(|x| x.get()) - t0,
        biggest: BIGGEST.with(|x| x.get()),
    };
    (r, m)
}
