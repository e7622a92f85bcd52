//! Counting allocator: net number of live allocations, and of live bytes, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static BYTES: Cell<i64> = const { Cell::new(0) };
}

fn bytes(n: i64) {
    let _ = BYTES.try_with(|c| c.set(c.get() + n));
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        bytes(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        bytes(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bytes(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
