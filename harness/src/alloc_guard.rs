//! Allocator that bounds the live memory a single case may hold on its thread.  A case is a few
//! kilobytes of input; a step that makes it hold more than the limit has run away (for instance an
//! unbounded push in a loop).  The process then aborts and the supervising process reports the case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;
const LIMIT: i64 = 1 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}
pub fn begin_case() {
    LIVE.with(|l| l.set(0));
    ACTIVE.with(|a| a.set(true));
}
pub fn end_case() {
    ACTIVE.with(|a| a.set(false));
}
/// Starts a measurement of the memory this thread holds at most; the present amount.
pub fn mark() -> i64 {
    let l = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(l));
    l
}
/// The most that was held since [`mark`].
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
fn add(n: i64) -> bool {
    ACTIVE
        .try_with(|a| {
            if !a.get() {
                return true;
            }
            LIVE.try_with(|l| {
                let v = l.get() + n;
                l.set(v);
                let _ = PEAK.try_with(|p| {
                    if v > p.get() {
                        p.set(v);
                    }
                });
                v < LIMIT
            })
            .unwrap_or(true)
        })
        .unwrap_or(true)
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
