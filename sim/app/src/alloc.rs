//! Counting allocator: live bytes and high-water mark, and a refusal of absurd
//! requests (a request beyond `LIMIT` fails as on a machine without that memory;
//! Rust then aborts, which the orchestrator attributes to the run).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

pub const LIMIT: usize = 1 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<usize> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        let _ = BIG.try_with(|b| {
            if l.size() > b.get() {
                b.set(l.size())
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        let _ = BIG.try_with(|b| {
            if l.size() > b.get() {
                b.set(l.size())
            }
        });
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        let _ = BIG.try_with(|b| {
            if n > b.get() {
                b.set(n)
            }
        });
        System.realloc(p, l, n)
    }
}

/// start measuring on this thread
pub fn reset() -> i64 {
    BIG.with(|b| b.set(0));
    LIVE.with(|l| {
        PEAK.with(|p| p.set(l.get()));
        l.get()
    })
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// (peak live bytes, biggest single request) since `reset`
pub fn peak() -> (i64, usize) {
    (PEAK.with(|p| p.get()), BIG.with(|b| b.get()))
}
