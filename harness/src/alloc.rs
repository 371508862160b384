//! Counts the live bytes of each thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// The bytes which this thread may allocate from now on.
pub fn limit(bytes: Option<i64>) {
    LIMIT.with(|l| l.set(bytes.map_or(i64::MAX, |b| live() + b)));
}

fn add(n: i64) {
    let _ = LIVE.try_with(|x| {
        x.set(x.get() + n);
        if n > 0 && LIMIT.try_with(|l| l.get() < x.get()).unwrap_or(false) {
            std::process::abort();
        }
    });
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes which this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}
