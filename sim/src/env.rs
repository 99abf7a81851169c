//! libc symbols defined by the simulator, so that what the standard library asks of the operating
//! system inside a run is answered by the simulation: random bytes, clock readings, futexes.
//! On threads that are not part of a run they go straight to the kernel.

use std::arch::asm;
use std::cell::{Cell, RefCell};

use crate::rng::Rng;

thread_local! {
    static RANDOM: RefCell<Option<Rng>> = const { RefCell::new(None) };
    /// What a futex wait/wake does on this thread: (op, addr, value) -> result.
    static FUTEX: Cell<Option<fn(bool, usize, u32) -> isize>> = const { Cell::new(None) };
}

pub fn set_random(rng: Option<Rng>) {
    RANDOM.with(|r| *r.borrow_mut() = rng);
}
pub fn set_futex(f: Option<fn(bool, usize, u32) -> isize>) {
    FUTEX.with(|c| c.set(f));
}

#[inline]
unsafe fn raw(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") num => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let done = RANDOM
        .try_with(|r| match r.try_borrow_mut() {
            Ok(mut r) => match r.as_mut() {
                Some(rng) => {
                    for i in 0..len {
                        *buf.add(i) = rng.u64() as u8;
                    }
                    true
                }
                None => false,
            },
            Err(_) => false,
        })
        .unwrap_or(false);
    if done {
        len as isize
    } else {
        ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
    }
}

thread_local! {
    /// Jumps of the wall clock: (from when on (ns), by how much (ns)).
    static JUMPS: RefCell<Vec<(u64, i64)>> = const { RefCell::new(Vec::new()) };
}
pub fn set_jumps(j: Vec<(u64, i64)>) {
    JUMPS.with(|c| *c.borrow_mut() = j);
}
/// What the wall clock shows.
fn wall(ns: u64) -> u64 {
    let run = ns - 1_000_000_000_000;
    let by: i64 = JUMPS
        .try_with(|j| j.borrow().iter().filter(|j| j.0 <= run).map(|j| j.1).sum())
        .unwrap_or(0);
    (1_700_000_000_000_000_000i64 + run as i64).saturating_add(by).max(0) as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if let Some(ns) = simhook::clock() {
        // both clocks start at a fixed, arbitrary point
        let mut ns = ns + 1_000_000_000_000;
        if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            ns = wall(ns);
        }
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == libc::SYS_futex {
        if let Ok(Some(h)) = FUTEX.try_with(|c| c.get()) {
            match (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let now = (*(a as *const std::sync::atomic::AtomicU32))
                        .load(std::sync::atomic::Ordering::SeqCst);
                    if now != c as u32 {
                        return ret(-(libc::EAGAIN as i64));
                    }
                    return ret(h(true, a as usize, c as u32) as i64);
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return ret(h(false, a as usize, c as u32) as i64);
                }
                _ => {}
            }
        }
    }
    ret(raw(num, a, b, c, d, e, f))
}

/// Reports a condition that makes it impossible to go on with the process, and ends it.
/// The parent process turns it into a violation of the run that was executing.
pub fn fatal(kind: &str) -> ! {
    let line = format!("F {kind}\n");
    unsafe {
        raw(libc::SYS_write, 1, line.as_ptr() as i64, line.len() as i64, 0, 0, 0);
        raw(libc::SYS_exit_group, 3, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
