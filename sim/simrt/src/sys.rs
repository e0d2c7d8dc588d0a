//! System-call seams: futex waits, entropy, sleeping and clocks of tasks inside library calls go
//! through the simulator; everything else goes to the kernel.

use crate::sched;
use crate::{armed, Disarm};
use libc::{c_int, c_long, c_void, size_t, timespec};

#[inline]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

fn simulated() -> bool {
    armed() && sched::active() && sched::me() < sched::MAXT
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if simulated() {
        let _g = Disarm::new();
        if n == libc::SYS_getrandom && b == 0 {
            return 0;
        }
        if n == libc::SYS_getrandom {
            let r = sched::entropy(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return ret(r as c_long);
        }
        if n == libc::SYS_futex && !sched::foreign() {
            let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let v = (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
                if v != c as u32 {
                    return ret(-(libc::EAGAIN as c_long));
                }
                return if sched::block_on(a, d != 0) { 0 } else { ret(-(libc::ETIMEDOUT as c_long)) };
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return sched::wake(a, c) as c_long;
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> isize {
    syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() {
        sched::sys_yield();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if simulated() {
        sched::sys_yield();
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if simulated() {
        sched::sys_yield();
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, c as usize, fl as usize, a as usize, b as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut timespec) -> c_int {
    if simulated() {
        let _g = Disarm::new();
        let ns = sched::clock();
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0)) as c_int
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;

/// The library creates no threads today; if it ever does, they run outside the simulator and the
/// futex seam stands aside so that the creator is not reported as blocked.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: StartFn, x: *mut c_void) -> c_int {
    if simulated() {
        let _g = Disarm::new();
        sched::set_foreign();
    }
    let _g = Disarm::new();
    let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
    let real: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int = std::mem::transmute(p);
    real(t, a, f, x)
}

macro_rules! cov {
    ($($n:ident $s:expr, $w:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: usize) { sched::bus(a, $s, $w) }
    )* };
}
cov! {
    __sanitizer_cov_load1 1, false;
    __sanitizer_cov_load2 2, false;
    __sanitizer_cov_load4 4, false;
    __sanitizer_cov_load8 8, false;
    __sanitizer_cov_load16 16, false;
    __sanitizer_cov_store1 1, true;
    __sanitizer_cov_store2 2, true;
    __sanitizer_cov_store4 4, true;
    __sanitizer_cov_store8 8, true;
    __sanitizer_cov_store16 16, true;
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    sched::edge()
}
