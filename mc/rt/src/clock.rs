//! The clock of the process, under the control of the environment: time passes when it says so.
//!
//! `clock_gettime` is defined here, so everything linked into the program (the standard library included) reads this
//! clock. It only ever goes forward, separately for each thread (but the date starts again after a thousand years:
//! hyper can't write years of five digits).

use std::cell::Cell;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

const CLOCK_GETTIME: i64 = 228;
const CLOCK_REALTIME: i32 = 0;
const MILLENNIUM: i64 = 1000 * 365 * 86_400;

thread_local! {
    static SKEW: Cell<i64> = const { Cell::new(0) };
}

/// Lets time pass for this thread.
pub fn advance(seconds: i64) {
    SKEW.with(|s| s.set(s.get() + seconds));
}

/// Overrides the C library's function.
///
/// # Safety
///
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, time: *mut Timespec) -> i32 {
    let r = syscall(CLOCK_GETTIME, clock as i64, time);
    if r == 0 {
        let skew = SKEW.with(|s| s.get());
        (*time).sec += if clock == CLOCK_REALTIME { skew % MILLENNIUM } else { skew };
    }
    r as i32
}

/// Whether the override is in effect.
pub fn works() -> bool {
    let (a, b) = (std::time::Instant::now(), std::time::SystemTime::now());
    advance(1000);
    a.elapsed().as_secs() >= 1000 && b.elapsed().map_or(false, |d| d.as_secs() >= 1000)
}
