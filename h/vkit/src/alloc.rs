//! Allocation monitor: counts live/peak bytes and the largest single request per
//! thread, so code asking for memory its input cannot justify is observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Monitor;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn note(size: usize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + size as i64);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get())
            }
        });
    });
    let _ = LARGEST.try_with(|l| {
        if size > l.get() {
            l.set(size)
        }
    });
}
fn forget(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        forget(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note(n - l.size());
        } else {
            forget(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// Measure `f`. Returns (result, peak growth, largest request).
pub fn measured<T>(f: impl FnOnce() -> T) -> (Result<T, crate::PanicInfo>, usize, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let r = crate::guard(f);
    let peak = PEAK.with(|p| p.get()) - base;
    let largest = LARGEST.with(|l| l.get());
    (r, peak.max(0) as usize, largest)
}
