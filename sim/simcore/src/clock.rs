//! Time and operating-system randomness as the library sees them: inside a library
//! call both come from the plan, everywhere else from the machine.

use crate::prng::{mix, Prng};
use crate::sched;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static SEED: AtomicU64 = AtomicU64::new(0);
static NOW: AtomicU64 = AtomicU64::new(0);
/// every look at the clock takes a microsecond, every sleep as long as it asks for
static SPENT: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);

/// Simulated time (in microseconds) of the machine with this seed.
pub fn set(seed: u64, now: u64) {
    SEED.store(seed, Relaxed);
    NOW.store(now, Relaxed);
}

/// Looks of the library at a clock, requests of the library for randomness of the system.
pub fn used() -> (u64, u64) {
    (READS.load(Relaxed), DRAWS.load(Relaxed))
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

#[cfg(target_arch = "x86_64")]
const NUMBERS: [c_long; 4] = [228, 35, 230, 318];
#[cfg(not(target_arch = "x86_64"))]
const NUMBERS: [c_long; 4] = [113, 101, 115, 278];

/// Microseconds on clock `id`. Each machine starts at some date; every 40 ms its wall
/// clock may be set back or forward, and on some machines it was suspended meanwhile.
fn virtual_us(id: c_int) -> u64 {
    let s = SEED.load(Relaxed);
    let us = NOW.load(Relaxed) + SPENT.fetch_add(1, Relaxed);
    if id == 2 || id == 3 {
        return us;
    }
    const SECOND: u64 = 1_000_000;
    let interval = us / 40_000;
    let longest = [0, SECOND, 3600 * SECOND, 86_400 * SECOND][(mix(s, 1) % 4) as usize];
    let suspended = if longest == 0 { 0 } else { interval * longest + mix(s, mix(2, interval)) % longest };
    let up = (1 + mix(s, 3) % 10_000_000) * SECOND + us + suspended;
    if id != 0 && id != 5 {
        return up;
    }
    let epoch = [0, (1 << 31) - 11_000_000, 1_700_000_000, 4_102_444_800, mix(s, 4) >> 32][(mix(s, 5) % 5) as usize];
    let step = mix(s, mix(6, interval));
    let off = [0, 0, 0, 1, 60, 3600, 86_400, 31_536_000][(step % 8) as usize] * SECOND;
    let t = epoch * SECOND + up;
    if step & 256 == 0 { t + off } else { t.saturating_sub(off) }
}

/// # Safety
/// as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Timespec) -> c_int {
    if !sched::in_library() {
        return syscall(NUMBERS[0], id as c_long, ts) as c_int;
    }
    READS.fetch_add(1, Relaxed);
    let t = virtual_us(id);
    ts.write(Timespec { sec: (t / 1_000_000) as i64, nsec: (t % 1_000_000 * 1000) as i64 });
    0
}

fn pass(req: &Timespec, until: Option<c_int>) {
    let t = req.sec.max(0) as u64 * 1_000_000 + req.nsec as u64 / 1000;
    let d = until.map_or(t, |id| t.saturating_sub(virtual_us(id)));
    READS.fetch_add(1, Relaxed);
    SPENT.fetch_add(d, Relaxed);
}

/// # Safety
/// as nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> c_int {
    if !sched::in_library() {
        return syscall(NUMBERS[1], req, rem) as c_int;
    }
    pass(&*req, None);
    0
}

/// # Safety
/// as clock_nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const Timespec, rem: *mut Timespec) -> c_int {
    if !sched::in_library() {
        let r = syscall(NUMBERS[2], id as c_long, flags as c_long, req, rem);
        return if r == 0 { 0 } else { *__errno_location() };
    }
    pass(&*req, (flags & 1 == 1).then_some(id));
    0
}

/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if !sched::in_library() {
        return syscall(NUMBERS[3], buf, n, flags as c_long) as isize;
    }
    let k = DRAWS.fetch_add(1, Relaxed);
    Prng::new(mix(SEED.load(Relaxed), mix(7, k))).fill(std::slice::from_raw_parts_mut(buf as *mut u8, n));
    n as isize
}
