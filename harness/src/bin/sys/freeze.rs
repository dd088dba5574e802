//! Clock and process id under control of the monitor: with the switch on, every process of the
//! experiment sees the same time and id, so nothing derived from them can differ.
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

pub static FROZEN: AtomicBool = AtomicBool::new(false);
pub static ASKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn frozen() -> bool { FROZEN.load(SeqCst) }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if frozen() && (0..=7).contains(&c) {
        ASKED.fetch_add(1, SeqCst);
        (*t).tv_sec = 1_700_000_000;
        (*t).tv_nsec = 123_456_789;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, c, t) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut libc::c_void) -> libc::c_int {
    if frozen() {
        ASKED.fetch_add(1, SeqCst);
        (*t).tv_sec = 1_700_000_000;
        (*t).tv_usec = 123_456;
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, t, z) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if frozen() {
        ASKED.fetch_add(1, SeqCst);
        return 4242;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}
