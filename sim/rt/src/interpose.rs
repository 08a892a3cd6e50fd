//! libc entry points through which the code under test (and std) reaches the clock, sleeping,
//! randomness and futex waiting. Inside a simulated run they are answered by the simulator.
use crate::*;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

pub const CLOCK_BASE_SEC: u64 = 1_000_000;

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if active() && cur() != 0 {
        let t = clock_read();
        (*ts).sec = (CLOCK_BASE_SEC + t / 1_000_000_000) as i64;
        (*ts).nsec = (t % 1_000_000_000) as i64;
        yield_point(Kind::Clock);
        return 0;
    }
    if active() {
        let t = rt_time_main();
        (*ts).sec = (CLOCK_BASE_SEC + t / 1_000_000_000) as i64;
        (*ts).nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

fn rt_time_main() -> u64 {
    clock_read()
}

unsafe fn do_sleep(req: *const Timespec) {
    let d = ((*req).sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*req).nsec as u64);
    sleep_ns(d);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_sim() {
        do_sleep(req);
        return 0;
    }
    ret(raw6(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_sim() {
        if flags & 1 != 0 {
            let t = ((*req).sec as u64 - CLOCK_BASE_SEC) * 1_000_000_000 + (*req).nsec as u64;
            let n = now_ns();
            sleep_ns(t.saturating_sub(n));
        } else {
            do_sleep(req);
        }
        return 0;
    }
    -raw6(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        yield_point(Kind::User);
        return 0;
    }
    ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32
}

static mut RAND_STATE: u64 = 0x1234_5678_9ABC_DEF1;
pub fn seed_getrandom(s: u64) {
    unsafe { RAND_STATE = s | 1 }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    // Always deterministic in this process.
    for i in 0..len {
        RAND_STATE = RAND_STATE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (RAND_STATE >> 33) as u8;
    }
    len as isize
}

/// `syscall(2)` wrapper as called by std (futex, getrandom, ...).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const SYS_FUTEX: i64 = 202;
    const SYS_GETRANDOM: i64 = 318;
    if n == SYS_FUTEX && in_sim() {
        let op = b & 0x7f;
        match op {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                let p = a as *const std::sync::atomic::AtomicU32;
                if (*p).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                if let Some(s) = stats_mut() {
                    s.futex_blocks += 1;
                }
                let ts = d as *const Timespec;
                if ts.is_null() {
                    block(a as usize, "futex");
                    return 0;
                }
                let mut dur = ((*ts).sec as u64).saturating_mul(1_000_000_000) + (*ts).nsec as u64;
                if op == 9 {
                    dur = dur.saturating_sub(CLOCK_BASE_SEC * 1_000_000_000 + now_ns());
                }
                if block_timeout(a as usize, dur, "futex") {
                    *__errno_location() = 110;
                    return -1;
                }
                return 0;
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                return wake_n(a as usize, c.max(0) as usize) as i64;
            }
            _ => {}
        }
    }
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw6(n, a, b, c, d, e, f))
}

/// Referenced by the binary so that this module is linked in.
pub fn link_me() {}
