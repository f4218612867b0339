//! Accounting allocator: what the current thread holds and has requested.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Accounting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static REQUESTED: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if n > 0 {
        let _ = REQUESTED.try_with(|l| l.set(l.get() + n));
    }
}

unsafe impl GlobalAlloc for Accounting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes allocated minus bytes released by this thread.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}
/// Bytes requested by this thread so far.
pub fn requested() -> i64 {
    REQUESTED.with(Cell::get)
}
