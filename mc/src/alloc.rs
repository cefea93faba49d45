//! Counting global allocator: per-thread live and peak bytes, and a hard cap per request so that
//! an absurd reservation ends the process (the supervisor turns that into a verdict) instead of
//! taking the sandbox's memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
pub const HARD_CAP: usize = 3 << 30;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<i64> = const { Cell::new(0) };
}

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static CALL: Cell<Option<(fn(usize), usize)>> = const { Cell::new(None) };
}
/// every allocation, growth and release of a thread is a point at which the explorer may switch
#[inline]
fn point() {
    let _ = COUNT.try_with(|c| {
        let n = c.get();
        c.set(n + 1);
        let _ = AT.try_with(|a| if n == a.get() { a.set(u64::MAX); if let Some((f, d)) = CALL.with(|c| c.take()) { f(d) } });
    });
}
/// runs f; at its point number n, g is run. Returns also how many points there were.
pub fn switch_at<T>(n: u64, g: &mut dyn FnMut(), f: impl FnOnce() -> T) -> (T, u64) {
    fn go(d: usize) { let g: &mut &mut dyn FnMut() = unsafe { &mut *(d as *mut &mut dyn FnMut()) }; g() }
    let mut g = g;
    let start = COUNT.with(|c| c.get());
    CALL.with(|c| c.set(Some((go, &mut g as *mut _ as usize))));
    AT.with(|a| a.set(start.saturating_add(n)));
    let r = f();
    AT.with(|a| a.set(u64::MAX));
    CALL.with(|c| c.set(None));
    (r, COUNT.with(|c| c.get()) - start)
}

#[inline]
fn add(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = BIGGEST.try_with(|b| if n as i64 > b.get() { b.set(n as i64) });
}
#[inline]
fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP { return std::ptr::null_mut(); }
        point();
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP { return std::ptr::null_mut(); }
        point();
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD_CAP { return std::ptr::null_mut(); }
        point();
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

/// Runs f and returns its result with the peak number of bytes live above the starting level.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as u64)
}
