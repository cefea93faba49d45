//! A scheduler at the granularity of instructions: the processor's trap flag makes every instruction of
//! the thread that runs one operation a point at which the whole of another operation runs on another thread.
//! Only the instructions of this executable count (the code under test is linked into it), not those of libc.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Shared { asked: AtomicU64, done: AtomicU64, stop: AtomicBool, all: AtomicU64, late: AtomicU64, first: u64, every: u64, limit: u64 }
thread_local! { static CUR: Cell<*const Shared> = const { Cell::new(std::ptr::null()) }; }

#[cfg(target_arch = "x86_64")]
mod arch {
    use super::*;
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
        fn sched_yield() -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    #[repr(C)]
    struct Action { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
    extern "C" fn trap(_: i32, _: usize, ctx: *mut u8) {
        let p = CUR.with(|c| c.get());
        if p.is_null() { return }
        let s = unsafe { &*p };
        // ucontext: flags, link and stack take 40 bytes, the instruction pointer is the 17th register saved
        let ip = unsafe { *(ctx.add(40 + 16 * 8) as *const usize) };
        if unsafe { ip < &__executable_start as *const u8 as usize || ip >= &etext as *const u8 as usize } { return }
        let n = s.all.fetch_add(1, Relaxed);
        if n >= s.limit { unsafe { *(ctx.add(40 + 17 * 8) as *mut usize) &= !0x100 } return }
        if n < s.first || (n - s.first) % s.every != 0 { return }
        let a = s.asked.load(Acquire);
        if s.done.load(Acquire) != a { return } // the other one still waits for something this thread holds
        s.asked.store(a + 1, Release);
        let mut t = None;
        let mut k = 0u64;
        while s.done.load(Acquire) != a + 1 {
            k += 1;
            if k % 64 == 0 {
                unsafe { sched_yield(); }
                if k % 1024 == 0 && t.get_or_insert_with(Instant::now).elapsed() > Duration::from_millis(30) { s.late.fetch_add(1, Relaxed); return }
            } else { std::hint::spin_loop() }
        }
    }
    pub fn install() {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 0x4000_0004, restorer: 0 };
            assert_eq!(unsafe { sigaction(5, &a, std::ptr::null_mut()) }, 0);
        });
    }
    #[inline(always)]
    pub fn on() { unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } }
    #[inline(always)]
    pub fn off() { unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") } }
}
#[cfg(not(target_arch = "x86_64"))]
mod arch { pub fn install() {} pub fn on() {} pub fn off() {} }

#[derive(Debug, Clone, Copy)]
pub struct Steps {
    /// instructions of this executable that f took (one more than the limit if there were more)
    pub all: u64,
    /// times that g ran to its end in between
    pub switches: u64,
    /// times that g did not end before f went on
    pub late: u64,
}
/// Runs f (which must not unwind); before each `every`th of its instructions from `first` on, g runs on another thread.
pub fn interleave<T>(limit: u64, first: u64, every: u64, g: impl FnMut() + Send, f: impl FnOnce() -> T) -> (T, Steps) {
    arch::install();
    let s = Shared { first, every, limit, ..Default::default() };
    let sh = &s;
    std::thread::scope(|sc| {
        let mut g = g;
        if every < u64::MAX {
            sc.spawn(move || {
                let mut k = 0u64;
                loop {
                    let d = sh.done.load(Acquire);
                    if sh.asked.load(Acquire) != d { k = 0; g(); sh.done.store(d + 1, Release) }
                    else if sh.stop.load(Acquire) { break }
                    else { k += 1; if k % 64 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                }
            });
        }
        CUR.with(|c| c.set(sh));
        arch::on();
        let r = f();
        arch::off();
        CUR.with(|c| c.set(std::ptr::null()));
        let st = Steps { all: s.all.load(Acquire), switches: s.asked.load(Acquire) - s.late.load(Acquire), late: s.late.load(Acquire) };
        s.stop.store(true, Release);
        (r, st)
    })
}
