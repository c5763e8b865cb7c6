//! Global allocator wrapper: accounts the system under test's allocations (only while the current
//! thread runs SUT code), enforces a per-run budget and offers scheduling points.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    /// true while SUT code runs on this (simulated) thread
    pub static SUT: Cell<bool> = const { Cell::new(false) };
    /// simulated thread index + 1, 0 = not simulated
    pub static SIM: Cell<usize> = const { Cell::new(0) };
}

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static TICKS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static MAX_LIVE: AtomicI64 = AtomicI64::new(i64::MAX);
pub static MAX_TICKS: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MAX_BYTES: AtomicU64 = AtomicU64::new(u64::MAX);
/// allocations until the next scheduling point (u64::MAX = none)
pub static YIELD_IN: AtomicU64 = AtomicU64::new(u64::MAX);

pub struct SimAlloc;

#[inline]
fn sut() -> bool {
    SUT.try_with(|s| s.get()).unwrap_or(false)
}

pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let was = SUT.with(|s| s.replace(false));
    let r = f();
    SUT.with(|s| s.set(was));
    r
}
/// Run `f` as system-under-test code.
pub fn as_sut<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            SUT.with(|s| s.set(self.0));
        }
    }
    let _g = G(SUT.with(|s| s.replace(true)));
    f()
}

pub fn reset() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    TICKS.store(0, Relaxed);
    BYTES.store(0, Relaxed);
}
/// Restart peak/tick/byte measurement at the current live level; returns the live level.
pub fn mark() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    TICKS.store(0, Relaxed);
    BYTES.store(0, Relaxed);
    l
}

#[cold]
#[inline(never)]
fn over(what: &str) -> ! {
    SUT.with(|s| s.set(false));
    crate::die(what)
}

#[inline]
fn on_alloc(size: usize) {
    let t = TICKS.load(Relaxed) + 1;
    TICKS.store(t, Relaxed);
    let b = BYTES.load(Relaxed) + size as u64;
    BYTES.store(b, Relaxed);
    let l = LIVE.load(Relaxed) + size as i64;
    LIVE.store(l, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if l > MAX_LIVE.load(Relaxed) {
        over("memory-budget");
    }
    if t > MAX_TICKS.load(Relaxed) {
        over("step-budget");
    }
    if b > MAX_BYTES.load(Relaxed) {
        over("allocation-volume-budget");
    }
    let y = YIELD_IN.load(Relaxed);
    if y != u64::MAX {
        if y == 0 {
            YIELD_IN.store(u64::MAX, Relaxed);
            harness(crate::sched::alloc_point);
        } else {
            YIELD_IN.store(y - 1, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sut() {
            on_alloc(l.size());
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sut() {
            LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if sut() {
            on_alloc(l.size());
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sut() {
            LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
            on_alloc(n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
