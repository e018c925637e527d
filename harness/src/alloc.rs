//! Allocation monitor: observes the largest single non-zeroed reservation and the growth of the
//! live memory while armed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Monitor;
static ARMED: AtomicBool = AtomicBool::new(false);
static MAX: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
/// Single reservations above this size are refused while armed (the process aborts, which the
/// supervisor reports), so that the sandbox stays usable.
const REFUSE: usize = 1 << 30;

fn note(size: usize) -> bool {
    MAX.fetch_max(size, Relaxed);
    let live = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
    PEAK.fetch_max(live, Relaxed);
    size <= REFUSE
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Relaxed) && !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    // Zeroed memory is reserved lazily by the system and used by a dependency for reading of
    // blobs; it is not observed.
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARMED.load(Relaxed) {
            if n > l.size() && !note(n) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Observed {
    pub max_single: usize,
    pub peak: usize,
}

pub fn observe<T>(f: impl FnOnce() -> T) -> (T, Observed) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.store(false, Relaxed)
        }
    }
    MAX.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    ARMED.store(true, Relaxed);
    let d = Disarm;
    let r = f();
    drop(d);
    (
        r,
        Observed {
            max_single: MAX.load(Relaxed),
            peak: PEAK.load(Relaxed).max(0) as usize,
        },
    )
}

/// Memory which may be reserved while reading `input` bytes of untrusted data.
pub fn within(o: Observed, input: usize) -> bool {
    o.max_single <= (24 << 20) + 256 * input && o.peak <= (192 << 20) + 4096 * input
}
