//! The clocks, as the code under test sees them: the executable's own clock_gettime, which asks the kernel unless
//! this thread has put an imagined clock in its place.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Clock {
    Real,
    /// the same at every reading
    Stopped,
    /// so many nanoseconds pass from one reading to the next
    Steps(i64),
    /// nothing passes, but so many nanoseconds between two readings
    Jump { before: u64, by: i64 },
}
thread_local! {
    static MODE: Cell<Clock> = const { Cell::new(Clock::Real) };
    static READ: Cell<u64> = const { Cell::new(0) };
}
const START: i64 = 1_000_000 * 1_000_000_000;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let mode = MODE.try_with(|m| m.get()).unwrap_or(Clock::Real);
    let n = READ.try_with(|c| { let n = c.get(); c.set(n + 1); n }).unwrap_or(0);
    let now = match mode {
        Clock::Real => return libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int,
        Clock::Stopped => START,
        Clock::Steps(d) => START.saturating_add(d.saturating_mul(n as i64)),
        Clock::Jump { before, by } => if n < before { START } else { START + by },
    };
    (*ts).tv_sec = now.div_euclid(1_000_000_000) as _;
    (*ts).tv_nsec = now.rem_euclid(1_000_000_000) as _;
    0
}
/// runs f on this thread with the given clock; how often it was read
pub fn with<T>(c: Clock, f: impl FnOnce() -> T) -> (T, u64) {
    READ.with(|r| r.set(0));
    MODE.with(|m| m.set(c));
    struct Back;
    impl Drop for Back { fn drop(&mut self) { MODE.with(|m| m.set(Clock::Real)) } }
    let b = Back;
    let r = f();
    let n = READ.with(|r| r.get());
    drop(b);
    (r, n)
}
