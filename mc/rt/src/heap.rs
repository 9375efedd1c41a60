//! How much memory is in use, per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes this thread allocated and that weren't freed by it.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// What `f` allocates and keeps doesn't count.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let before = live();
    let r = f();
    LIVE.with(|l| l.set(before));
    r
}
