//! How much memory a call of the library has in use at once, beyond what was in
//! use before it: the allocator counts what this thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Meter;
#[global_allocator]
static METER: Meter = Meter;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static TOP: Cell<i64> = const { Cell::new(0) };
    static WORST: Cell<i64> = const { Cell::new(0) };
}

fn count(by: i64) {
    let _ = HELD.try_with(|h| {
        h.set(h.get() + by);
        let _ = TOP.try_with(|t| t.set(t.get().max(h.get())));
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may exist while the contents are moved
        count(n as i64);
        let q = System.realloc(p, l, n);
        count(-(l.size() as i64));
        q
    }
}

/// Runs one call of the library.
pub fn metered<T>(f: impl FnOnce() -> T) -> T {
    let before = HELD.with(Cell::get);
    TOP.with(|t| t.set(before));
    let x = f();
    let most = TOP.with(Cell::get) - before;
    WORST.with(|w| w.set(w.get().max(most)));
    x
}

/// The most that any call used since the last time this was asked, and at least `floor`
pub fn most(floor: usize) -> usize {
    WORST.with(|w| w.replace(0)).max(0).max(floor as i64) as usize
}
