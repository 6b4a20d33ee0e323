//! Counts heap allocations made while the calling thread is inside a library call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
}
#[inline]
fn note() {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}
#[inline]
pub fn arm() {
    ARMED.with(|a| a.set(true));
}
/// Stops counting; returns and clears the count.
#[inline]
pub fn disarm() -> u64 {
    ARMED.with(|a| a.set(false));
    COUNT.with(|c| c.replace(0))
}
pub fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}
