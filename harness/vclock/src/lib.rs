//! A clock per thread: what the code under test sees as the time can be moved forward.
//!
//! The libc entry point that std and tokio read the time with is defined here. A thread that never calls
//! [`freeze`] sees the real time.

use libc::{c_int, c_long, clockid_t, timespec};
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    /// nanoseconds the monotonic clock of this thread stands at, if it is frozen
    static FROZEN: Cell<Option<u64>> = const { Cell::new(None) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: clockid_t, tp: *mut timespec) -> c_int {
    if clock == libc::CLOCK_MONOTONIC || clock == libc::CLOCK_BOOTTIME {
        if let Ok(Some(n)) = FROZEN.try_with(|f| f.get()) {
            (*tp).tv_sec = (n / 1_000_000_000) as i64;
            (*tp).tv_nsec = (n % 1_000_000_000) as i64;
            return 0;
        }
    }
    if clock == libc::CLOCK_REALTIME {
        if let Ok(Some(n)) = FROZEN.try_with(|f| f.get()) {
            (*tp).tv_sec = (n / 1_000_000_000) as i64 + EPOCH;
            (*tp).tv_nsec = (n % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock as c_long, tp) as c_int
}

/// What the wall clock of a frozen thread is ahead of its monotonic one.
const EPOCH: i64 = 1_700_000_000;

/// From now on until the guard is dropped, the clocks of this thread move only by [`advance`].
pub fn freeze() -> Frozen {
    let mut t = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as c_long, &mut t) };
    // a round start keeps cases repeatable, the offset leaves room below
    FROZEN.with(|f| f.set(Some((t.tv_sec as u64 + 1_000_000) * 1_000_000_000)));
    Frozen(())
}

pub struct Frozen(());
impl Drop for Frozen {
    fn drop(&mut self) {
        FROZEN.with(|f| f.set(None));
    }
}

pub fn advance(d: Duration) {
    FROZEN.with(|f| f.set(f.get().map(|n| n + d.as_nanos() as u64)));
}
