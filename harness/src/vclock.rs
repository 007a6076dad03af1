//! A virtual monotonic clock: interposes `clock_gettime()`, `nanosleep()` & `clock_nanosleep()`, so that what the
//! code under test takes for elapsed time is exactly what the user closures say they spent, and sleeping is instantaneous.
//! Every thread has its own time, starting at the latest time of any thread plus a start-up delay.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

#[repr(C)]
pub struct Timespec { pub tv_sec: i64, pub tv_nsec: i64 }

extern "C" { fn syscall(num: i64, ...) -> i64; }

const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const CLOCK_MONOTONIC: i32 = 1;

static ENABLED: AtomicBool = AtomicBool::new(false);
static LATEST: AtomicU64 = AtomicU64::new(1_000_000_000_000);
static STARTUP_DELAY: AtomicU64 = AtomicU64::new(0);
/// total time slept so far, for statistics
pub static SLEPT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static NOW: Cell<u64> = const { Cell::new(0) };
    static MAIN: Cell<bool> = const { Cell::new(false) };
}

/// to be called by the main thread -- whose time is the latest one of all threads
pub fn enable(startup_delay: u64) {
    MAIN.with(|m| m.set(true));
    NOW.with(|n| n.set(0));
    LATEST.store(1_000_000_000_000, SeqCst);
    STARTUP_DELAY.store(startup_delay, SeqCst);
    ENABLED.store(true, SeqCst);
}
pub fn disable() {
    ENABLED.store(false, SeqCst);
}

pub fn now() -> u64 {
    NOW.with(|n| {
        if MAIN.with(|m| m.get()) {
            let t = n.get().max(LATEST.load(SeqCst));
            n.set(t);
        } else if n.get() == 0 {
            n.set(LATEST.load(SeqCst) + STARTUP_DELAY.load(SeqCst));
            LATEST.fetch_max(n.get(), SeqCst);
        }
        n.get()
    })
}

/// spends `ns` of this thread's time
pub fn advance(ns: u64) {
    let t = now() + ns;
    NOW.with(|n| n.set(t));
    LATEST.fetch_max(t, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if clk == CLOCK_MONOTONIC && ENABLED.load(SeqCst) {
        let t = now();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        0
    } else {
        syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32
    }
}

unsafe fn virtual_sleep(req: *const Timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    SLEPT.fetch_add(ns, SeqCst);
    advance(ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if ENABLED.load(SeqCst) { virtual_sleep(req); 0 } else { syscall(SYS_NANOSLEEP, req, rem) as i32 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if ENABLED.load(SeqCst) && flags == 0 { virtual_sleep(req); 0 }
    else { -(syscall(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req, rem) as i32) }
}

/// really sleeps, regardless of the virtual clock
pub fn real_sleep_ms(ms: u64) {
    let ts = Timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe { syscall(SYS_NANOSLEEP, &ts as *const Timespec, std::ptr::null_mut::<Timespec>()); }
}
