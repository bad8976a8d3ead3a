//! Counting allocator: per-thread totals of what an execution allocates, and a hard stop for run-away growth.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// One case may not keep more than this alive.
const LIMIT: i64 = 3 << 30;

fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = CALLS.try_with(|t| t.set(t.get() + 1));
    let _ = LIVE.try_with(|t| {
        let v = t.get() + n as i64;
        t.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        if v > LIMIT {
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            unsafe { _exit(crate::frame::EXIT_MEMORY) }
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|t| t.set(t.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
}
pub fn reset() {
    TOTAL.with(|t| t.set(0));
    CALLS.with(|t| t.set(0));
    LIVE.with(|t| t.set(0));
    PEAK.with(|t| t.set(0));
}
/// (bytes allocated, peak of live bytes, allocation calls) since `reset`.
pub fn read() -> (u64, u64, u64) {
    (TOTAL.with(|t| t.get()), PEAK.with(|t| t.get()).max(0) as u64, CALLS.with(|t| t.get()))
}
