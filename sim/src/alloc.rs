//! Counting allocator: live and peak heap bytes of the process, with a hard cap so that runaway
//! memory ends the run (exit status 77) instead of the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
pub const CAP: usize = 1 << 31;
pub const CAP_EXIT: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn add(n: usize) {
    let live = LIVE.load(Relaxed) + n;
    LIVE.store(live, Relaxed);
    ALLOCS.store(ALLOCS.load(Relaxed) + 1, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
        if live > CAP {
            // SAFETY: ends the process at once.
            unsafe { _exit(CAP_EXIT) }
        }
    }
}
#[inline]
fn sub(n: usize) {
    LIVE.store(LIVE.load(Relaxed).wrapping_sub(n), Relaxed);
}

// The simulator is single-threaded; plain load/store pairs are enough.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block may coexist during the copy
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
