//! Interposed libc entry points: clocks, sleeping and randomness. On a thread
//! where a simulation is active they read and advance virtual time; elsewhere
//! they go to the kernel.
use crate::core::{now, rand_bytes, set_now, sim_on, SEC};
use std::cell::Cell;

/// Virtual monotonic clock base. Any constant works.
const MONO0: u64 = 50_000 * SEC;
/// What the wall clock shows when a run starts, in seconds.
pub const REAL0: u64 = 1_700_000_000;

thread_local! {
    /// How far the wall clock is off, in seconds.
    static SKEW: Cell<i64> = const { Cell::new(0) };
}
/// Sets the wall clock forward or back for the rest of the run.
pub fn set_skew(secs: i64) {
    SKEW.with(|c| c.set(secs))
}
fn wall() -> u64 {
    ((REAL0 as i64 + SKEW.with(|c| c.get())) as u64) * SEC
}

/// A system call without libc in between: the result, or minus an errno.
#[inline]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
/// Turns a raw result into libc's convention.
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn sys(n: libc::c_long, a: usize, b: usize, c: usize, d: usize) -> libc::c_int {
    ret(raw(n, a, b, c, d, 0, 0)) as libc::c_int
}

/// Some crates ask for randomness through `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom && sim_on() {
        return getrandom(a as *mut libc::c_void, b, c as libc::c_uint) as libc::c_long;
    }
    ret(raw(n, a, b, c, d, e, f)) as libc::c_long
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !sim_on() {
        return sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0);
    }
    let t = now() + if clk == libc::CLOCK_REALTIME { wall() } else { MONO0 };
    (*ts).tv_sec = (t / SEC) as _;
    (*ts).tv_nsec = (t % SEC) as _;
    0
}

unsafe fn dur(ts: *const libc::timespec) -> u64 {
    (*ts).tv_sec as u64 * SEC + (*ts).tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if !sim_on() {
        return -(raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as libc::c_int);
    }
    let d = dur(req);
    let target = if flags & libc::TIMER_ABSTIME != 0 {
        d.saturating_sub(if clk == libc::CLOCK_REALTIME { wall() } else { MONO0 })
    } else {
        now().saturating_add(d)
    };
    crate::net::sleep_until(target);
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !sim_on() {
        return sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0);
    }
    set_now(now().saturating_add(dur(req)));
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !sim_on() {
        return ret(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0));
    }
    rand_bytes(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as libc::ssize_t
}
