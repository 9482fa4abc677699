//! Counts the memory that each thread has allocated.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// bytes allocated minus bytes released by this thread
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n;
        l.set(x);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if x > p.get() {
                    p.set(x)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new as isize - l.size() as isize);
        System.realloc(p, l, new)
    }
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// How much more than at the beginning is in use after this, and while it runs.
pub fn measure<T>(f: impl FnOnce() -> T) -> (isize, isize, T) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (live() - before, peak - before, r)
}
