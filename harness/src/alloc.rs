//! Counting allocator: live bytes, peak and largest request since the last `reset`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);

fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    BIGGEST.fetch_max(n, Relaxed);
    CALLS.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        grow(n);
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    let l = LIVE.load(Relaxed);
    BASE.store(l, Relaxed);
    PEAK.store(l, Relaxed);
    BIGGEST.store(0, Relaxed);
    CALLS.store(0, Relaxed);
}
/// (peak above the level at `reset`, biggest single request, number of requests)
pub fn used() -> (usize, usize, usize) {
    (
        PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed)),
        BIGGEST.load(Relaxed),
        CALLS.load(Relaxed),
    )
}
