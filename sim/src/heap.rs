//! The simulator's heap. While armed it counts every request, and in "exhausted" mode refuses it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct Heap;

static ARMED: AtomicBool = AtomicBool::new(false);
static EXHAUSTED: AtomicBool = AtomicBool::new(false);
static REQUESTS: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);

impl Heap {
    #[inline]
    fn refuse(&self, size: usize) -> bool {
        if !ARMED.load(Relaxed) {
            return false;
        }
        REQUESTS.fetch_add(1, Relaxed);
        LARGEST.fetch_max(size as u64, Relaxed);
        EXHAUSTED.load(Relaxed)
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if self.refuse(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

/// Runs `f` with the heap armed. Returns its value, how many requests it made and the largest.
pub fn armed<T>(exhausted: bool, f: impl FnOnce() -> T) -> (T, u64, u64) {
    REQUESTS.store(0, Relaxed);
    LARGEST.store(0, Relaxed);
    EXHAUSTED.store(exhausted, Relaxed);
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.store(false, Relaxed);
        }
    }
    let guard = Disarm;
    ARMED.store(true, Relaxed);
    let v = f();
    drop(guard);
    (v, REQUESTS.load(Relaxed), LARGEST.load(Relaxed))
}
