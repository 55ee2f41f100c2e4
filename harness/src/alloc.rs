//! Counts what a thread has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: isize) {
    // threads that are ending have no counters any more
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// bytes this thread has allocated and not released
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
/// what `f` returns, and how much more than before it was allocated at some time meanwhile
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get() - before).max(0) as usize)
}
