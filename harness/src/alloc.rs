//! Counting allocator: live and peak heap bytes per thread; during a call of the code under test an
//! allocation beyond the hard limit fails (which aborts, and the supervisor reports it).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
fn allowed(n: usize) -> bool {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let lim = LIMIT.try_with(|l| l.get()).unwrap_or(i64::MAX);
    lim == i64::MAX || LIVE.try_with(|l| l.get()).unwrap_or(0).saturating_add(n as i64) <= lim
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !allowed(l.size()) { return std::ptr::null_mut(); }
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as i64); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !allowed(l.size()) { return std::ptr::null_mut(); }
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size() as i64); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !allowed(n - l.size()) { return std::ptr::null_mut(); }
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as i64 - l.size() as i64); }
        q
    }
}

pub fn live() -> i64 { LIVE.with(|l| l.get()) }
pub fn calls() -> u64 { CALLS.with(|l| l.get()) }
pub fn reset_peak() { PEAK.with(|p| p.set(live())) }
pub fn peak() -> i64 { PEAK.with(|p| p.get()) }
pub const CALL_LIMIT: i64 = 512 << 20;
pub fn enter() { LIMIT.with(|l| l.set(live() + CALL_LIMIT)) }
pub fn leave() { LIMIT.with(|l| l.set(i64::MAX)) }
