//! Simulated clock. The executable defines `clock_gettime`, which takes precedence over libc's, so
//! that every wall-clock read of the code under test is an input chosen by the explorer (per thread).
use std::cell::Cell;

thread_local! {
    static FAKE: Cell<i64> = const { Cell::new(i64::MIN) };
    static READS: Cell<u64> = const { Cell::new(0) };
    /// How far the simulated clock has run ahead: also the monotonic clocks show it.
    static AHEAD: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }

extern "C" { fn syscall(num: i64, ...) -> i64; }
const SYS_CLOCK_GETTIME: i64 = 228;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if clk == 0 || clk == 5 {
        let f = FAKE.with(|c| c.get());
        if f != i64::MIN {
            READS.with(|c| c.set(c.get() + 1));
            (*ts).sec = f;
            (*ts).nsec = nanos(f);
            return 0;
        }
    }
    let r = syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32;
    if matches!(clk, 1 | 4 | 6 | 7) && FAKE.with(|c| c.get()) != i64::MIN { (*ts).sec += AHEAD.with(|a| a.get()); }
    r
}

/// The fraction of the second the simulated clock shows at a second: none, the smallest, the largest and others.
pub fn nanos(sec: i64) -> i64 { [0, 123_456_789, 1, 999_999_999, 500_000_000][(sec.div_euclid(60) * 7 + sec).rem_euclid(5) as usize] }

/// Sets this thread's simulated wall clock (UTC seconds since 1970), or None for the real one.
pub fn set(t: Option<i64>) {
    let t = t.unwrap_or(i64::MIN);
    let old = FAKE.with(|c| c.replace(t));
    if t != i64::MIN && old != i64::MIN && t > old { AHEAD.with(|a| a.set(a.get().saturating_add(t - old).min(1 << 40))); }
}
