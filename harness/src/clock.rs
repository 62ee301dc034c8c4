//! The clocks that the code under test sees: those of the system, moved forward at will. The standard
//! library's calls of clock_gettime come here, so a history can let hours pass between two steps.
use std::time::{Duration, Instant};

#[cfg(not(miri))]
mod hook {
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    pub static AHEAD: AtomicI64 = AtomicI64::new(0);
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    const SYS_CLOCK_GETTIME: i64 = 228;
    /// # Safety
    /// As clock_gettime(2).
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
        let r = syscall(SYS_CLOCK_GETTIME, id as i64, t) as i32;
        // the wall clock and the monotonic clocks, not those of CPU time
        if r == 0 && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
            let n = (*t).nsec + AHEAD.load(Relaxed);
            (*t).sec += n.div_euclid(1_000_000_000);
            (*t).nsec = n.rem_euclid(1_000_000_000);
        }
        r
    }
}

/// Lets time pass for the code under test.
pub fn advance(d: Duration) {
    // one clock for all: other threads may be in the middle of a history
    if crate::frame::shared() {
        return;
    }
    #[cfg(not(miri))]
    {
        let a = Instant::now();
        hook::AHEAD.fetch_add(d.as_nanos() as i64, std::sync::atomic::Ordering::Relaxed);
        assert!(a.elapsed() >= d, "the clock did not move");
    }
    #[cfg(miri)]
    {
        let _ = (d, Instant::now());
    }
}

/// Back to the present; only between cases, as no time noted before may be looked at after it.
pub fn reset() {
    #[cfg(not(miri))]
    hook::AHEAD.store(0, std::sync::atomic::Ordering::Relaxed);
}
