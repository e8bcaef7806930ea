//! Raw system calls and the bodies of the libc functions that the harness binary overrides.
//! (x86_64 Linux only.)
use std::sync::atomic::{AtomicU32, Ordering};

#[inline]
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    core::arch::asm!("syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

const FUTEX_WAIT_PRIVATE: usize = 128;
const FUTEX_WAKE_PRIVATE: usize = 1 | 128;

pub fn raw_futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex, a as *const _ as usize, FUTEX_WAIT_PRIVATE, val as usize, 0, 0, 0);
    }
}
pub fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        raw_syscall(libc::SYS_futex, a as *const _ as usize, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    }
}

unsafe fn ret_errno(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn sim_clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if crate::active() {
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => crate::realtime_ns(),
            _ => 1_000_000_000_000 + crate::now_ns(),
        };
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as libc::c_int
}

pub unsafe fn sim_getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    if crate::active() && len > 0 && !buf.is_null() {
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        if crate::fill_bytes(s) {
            return len as isize;
        }
    }
    ret_errno(raw_syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0))
}

/// std's locks, condvars and parking all reach the kernel through `syscall(SYS_futex, ..)`.
pub unsafe fn sim_syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom {
        return sim_getrandom(a as *mut _, b, c as u32) as libc::c_long;
    }
    if n == libc::SYS_futex && crate::active() {
        let op = b as i32 & 127;
        // FUTEX_WAIT = 0, FUTEX_WAIT_BITSET = 9
        if op == 0 || op == 9 {
            let word = a as *const AtomicU32;
            if (*word).load(Ordering::SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let deadline = if d == 0 {
                None
            } else {
                let ts = &*(d as *const libc::timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                if op == 9 {
                    // absolute, monotonic unless FUTEX_CLOCK_REALTIME (256)
                    if b & 256 != 0 {
                        Some(ns.saturating_sub(crate::epoch_ns()))
                    } else {
                        Some(ns.saturating_sub(1_000_000_000_000))
                    }
                } else {
                    Some(crate::now_ns() + ns)
                }
            };
            let ok = crate::block_on_word(word, c as u32, deadline);
            if !ok {
                // A real deadlock of the simulated program on the scheduler thread. There is no
                // way to continue this run.
                crate::deadlocked();
            }
            if (*word).load(Ordering::SeqCst) == c as u32 && deadline.is_some_and(|d| d <= crate::now_ns()) {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            return 0;
        }
    }
    ret_errno(raw_syscall(n, a, b, c, d, e, f)) as libc::c_long
}

pub unsafe fn sim_nanosleep(req: *const libc::timespec) -> libc::c_int {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let word = AtomicU32::new(0);
    let deadline = crate::now_ns() + ns;
    while crate::now_ns() < deadline {
        crate::block_on_word(&word, 0, Some(deadline));
    }
    0
}

/// Define the overriding symbols; must be expanded in the binary crate.
#[macro_export]
macro_rules! install_overrides {
    () => {
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(clk: ::libc::clockid_t, ts: *mut ::libc::timespec) -> ::libc::c_int {
            $crate::sys::sim_clock_gettime(clk, ts)
        }
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut ::libc::c_void, len: usize, flags: ::libc::c_uint) -> isize {
            $crate::sys::sim_getrandom(buf, len, flags)
        }
        #[no_mangle]
        pub unsafe extern "C" fn getentropy(buf: *mut ::libc::c_void, len: usize) -> ::libc::c_int {
            if $crate::sys::sim_getrandom(buf, len, 0) < 0 { -1 } else { 0 }
        }
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: ::libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> ::libc::c_long {
            $crate::sys::sim_syscall(n, a, b, c, d, e, f)
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_nanosleep(clk: ::libc::clockid_t, flags: ::libc::c_int, req: *const ::libc::timespec, rem: *mut ::libc::timespec) -> ::libc::c_int {
            if $crate::active() && flags == 0 {
                return $crate::sys::sim_nanosleep(req);
            }
            let r = $crate::sys::raw_syscall(::libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
            -r as ::libc::c_int
        }
        #[no_mangle]
        pub unsafe extern "C" fn nanosleep(req: *const ::libc::timespec, rem: *mut ::libc::timespec) -> ::libc::c_int {
            if $crate::active() {
                return $crate::sys::sim_nanosleep(req);
            }
            if $crate::sys::raw_syscall(::libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) < 0 { -1 } else { 0 }
        }
    };
}
