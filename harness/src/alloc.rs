//! An allocator that accounts for every byte, so that a decoding's peak
//! memory is a number and a runaway allocation is refused.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(3 << 30);

fn grow(n: usize) -> bool {
    let now = CURRENT.fetch_add(n, Relaxed) + n;
    if now > CAP.load(Relaxed) {
        CURRENT.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(now, Relaxed);
    LARGEST.fetch_max(n, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        CURRENT.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // old and new blocks may both be live while the contents move
        if !grow(new) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, new) };
        if q.is_null() {
            CURRENT.fetch_sub(new, Relaxed);
        } else {
            CURRENT.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

pub fn held() -> usize {
    CURRENT.load(Relaxed)
}

pub struct Meter {
    base: usize,
    calls: usize,
}

pub fn start() -> Meter {
    let base = CURRENT.load(Relaxed);
    PEAK.store(base, Relaxed);
    LARGEST.store(0, Relaxed);
    Meter { base, calls: CALLS.load(Relaxed) }
}

impl Meter {
    /// (peak bytes above the start, largest single request, requests)
    pub fn stop(&self) -> (usize, usize, usize) {
        (
            PEAK.load(Relaxed).saturating_sub(self.base),
            LARGEST.load(Relaxed),
            CALLS.load(Relaxed) - self.calls,
        )
    }
}
