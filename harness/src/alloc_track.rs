//! Counting allocator: per-thread live bytes and peak since the start of the case.
//! A thread that exceeds HARD_CAP gets a failed allocation (the process aborts; the parent
//! process isolates the case and reports it).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BASE: Cell<i64> = const { Cell::new(0) };
}
pub const HARD_CAP: i64 = 3 << 30;

fn add(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 {
            let base = BASE.try_with(|b| b.get()).unwrap_or(0);
            if v - base > HARD_CAP {
                return false;
            }
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
        l.set(v);
        true
    })
    .unwrap_or(true)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
/// Starts a new measurement.
pub fn reset() {
    let l = LIVE.with(|l| l.get());
    BASE.with(|b| b.set(l));
    PEAK.with(|p| p.set(l));
}
/// Peak bytes above the level at `reset`.
pub fn peak() -> u64 {
    let b = BASE.with(|b| b.get());
    (PEAK.with(|p| p.get()) - b).max(0) as u64
}
