//! The clock of the process: as many seconds ahead of the real one as HARNESS_SHIFT says, so that
//! what depends on the time of day, the day or the year can be seen at any time.
use std::sync::atomic::{AtomicI64, Ordering};

static SHIFT: AtomicI64 = AtomicI64::new(0);

pub fn init() {
    let shift = std::env::var("HARNESS_SHIFT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    SHIFT.store(shift, Ordering::SeqCst);
}

#[cfg(all(target_os = "linux", any(target_arch = "x86_64", target_arch = "aarch64")))]
mod replaced {
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(number: std::ffi::c_long, ...) -> std::ffi::c_long;
    }
    const NUMBER: std::ffi::c_long = if cfg!(target_arch = "x86_64") { 228 } else { 113 };
    const CLOCK_REALTIME: std::ffi::c_int = 0;

    /// stands in for the function of the C library, which std calls
    ///
    /// # Safety
    /// as for that one
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: std::ffi::c_int, at: *mut Timespec) -> std::ffi::c_int {
        let r = syscall(NUMBER, std::ffi::c_long::from(id), at);
        if r == 0 && id == CLOCK_REALTIME {
            (*at).sec += super::SHIFT.load(super::Ordering::SeqCst);
        }
        r as std::ffi::c_int
    }
}
