//! A counting allocator: the seam for memory use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() { up(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            up(n);
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

fn up(n: usize) {
    let x = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(x, Relaxed);
}

/// Start measuring; returns the baseline.
pub fn mark() -> usize {
    let x = LIVE.load(Relaxed);
    PEAK.store(x, Relaxed);
    x
}
pub fn peak_since(base: usize) -> usize { PEAK.load(Relaxed).saturating_sub(base) }
