//! Global allocator that keeps per-thread counts of requested bytes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Requests beyond this fail, as they would on a machine of ordinary size.
const LIMIT: usize = 1 << 34;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Old and new block may exist at the same time.
        add(n as isize);
        add(-(l.size() as isize));
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Peak number of bytes requested above the level at the start, and number of requests.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let calls = CALLS.with(|c| c.get());
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    let calls = CALLS.with(|c| c.get()) - calls;
    (r, peak.max(0) as usize, calls)
}
