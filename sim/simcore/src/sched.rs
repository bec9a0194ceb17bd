//! Token-passing execution of real threads: exactly one actor runs at a time,
//! for a number of library steps (basic-block edges) chosen by the simulator.

use crate::api::Lib;
use crate::exec::{exec, Out, Req};
use crate::sys;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU32, Ordering::*};
use std::sync::{Arc, Mutex};
use std::thread::Thread;
use std::time::Duration;

const IDLE: u32 = 0;
const RUN: u32 = 1;
const YIELD: u32 = 2;
const DONE: u32 = 3;
const QUIT: u32 = 4;
const BLOCKED: u32 = 5;

struct Tl {
    /// inside the library (steps count) or in simulator code
    active: Cell<bool>,
    steps: Cell<u64>,
    trace: Cell<u64>,
    budget: Cell<i64>,
    crash: Cell<bool>,
    slot: Cell<*const Slot>,
    /// first visits of edges still to come before the quantum starts to count
    fresh: Cell<u32>,
    after: Cell<i64>,
    epoch: Cell<u32>,
    /// epoch of the last visit of every edge
    seen: Cell<*mut u32>,
    mem: Cell<Mem>,
}

/// Memory accesses of the operation under way.
#[derive(Clone, Copy)]
pub struct Mem {
    pub count: u64,
    pub hash: u64,
    /// stack address at which the operation starts
    base: usize,
    /// caller's buffers: address, length
    bufs: [(usize, usize); 3],
}

const NO_MEM: Mem = Mem { count: 0, hash: 0, base: 0, bufs: [(0, 0); 3] };

/// Quantum counted from the first visit of an edge: FRESH | visits << 20 | steps.
pub const FRESH: u64 = 1 << 40;

thread_local! {
    static TL: Tl = const { Tl {
        active: Cell::new(false), steps: Cell::new(0), trace: Cell::new(0),
        budget: Cell::new(i64::MAX), crash: Cell::new(false), slot: Cell::new(std::ptr::null()),
        fresh: Cell::new(0), after: Cell::new(0), epoch: Cell::new(0), seen: Cell::new(std::ptr::null_mut()),
        mem: Cell::new(NO_MEM),
    } };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// number of instrumented edges; 0 in flavours without preemption points
static EDGES: AtomicU32 = AtomicU32::new(0);
static mut COVER: *mut u8 = std::ptr::null_mut();

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    TL.with(|t| {
        if !t.active.get() {
            return;
        }
        let id = *guard;
        t.steps.set(t.steps.get() + 1);
        t.trace.set((t.trace.get() ^ id as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23));
        if !COVER.is_null() {
            *COVER.add(id as usize) = 1;
        }
        if t.fresh.get() != 0 && first_visit(t, id) {
            t.fresh.set(t.fresh.get() - 1);
            if t.fresh.get() == 0 {
                t.budget.set(t.after.get() + 1);
            }
        }
        let b = t.budget.get() - 1;
        t.budget.set(b);
        if b <= 0 {
            slow(t);
        }
    })
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

const STACK: usize = 4 << 20;

/// A load or store of the library. Where it goes is named by what the operation
/// itself determines: offset in a caller's buffer, in the operation's own stack
/// frames or in the program's data; elsewhere only the alignment counts.
fn access(a: usize, kind: u64) {
    TL.with(|t| {
        if !t.active.get() {
            return;
        }
        let mut m = t.mem.get();
        let (lo, hi) = (&raw const __executable_start as usize, &raw const _end as usize);
        let place = if a < m.base && m.base - a < STACK {
            1 << 48 | (m.base - a)
        } else if let Some(i) = m.bufs.iter().position(|b| a.wrapping_sub(b.0) < b.1) {
            (2 + i) << 48 | (a - m.bufs[i].0)
        } else if a >= lo && a < hi {
            5 << 48 | (a - lo)
        } else {
            6 << 48 | (a & 15)
        };
        m.count += 1;
        m.hash = (m.hash ^ place as u64 ^ kind.rotate_left(56)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
        t.mem.set(m);
    })
}

macro_rules! accesses {
    ($($name:ident $kind:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(a: usize) {
            access(a, $kind)
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 1;
    __sanitizer_cov_load2 2;
    __sanitizer_cov_load4 3;
    __sanitizer_cov_load8 4;
    __sanitizer_cov_load16 5;
    __sanitizer_cov_store1 6;
    __sanitizer_cov_store2 7;
    __sanitizer_cov_store4 8;
    __sanitizer_cov_store8 9;
    __sanitizer_cov_store16 10;
}

/// In the flavour that watches memory, copies, fills and comparisons are not
/// expanded in place and come here. A comparison touches what precedes the first
/// difference.
#[cfg(sim_mem)]
mod block {
    use super::access;
    use std::arch::asm;

    #[no_mangle]
    unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        access(to as usize, 11 + ((n as u64) << 8));
        access(from as usize, 12);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memset(to: *mut u8, v: i32, n: usize) -> *mut u8 {
        access(to as usize, 13 + ((n as u64) << 8));
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") v as u8, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n && a.add(i).read_volatile() == b.add(i).read_volatile() {
            i += 1;
        }
        access(a as usize, 14 + ((i as u64) << 8));
        access(b as usize, 15 + ((n as u64) << 8));
        if i == n {
            0
        } else {
            *a.add(i) as i32 - *b.add(i) as i32
        }
    }

    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

#[repr(C, align(4096))]
struct Page([u8; 64]);

/// Calls `f` at a stack address that is a multiple of 4096, so that the layout
/// of all frames below does not depend on the thread or on the callers.
#[inline(never)]
pub fn on_page<T>(f: &mut dyn FnMut(usize) -> T) -> T {
    let page = std::hint::black_box(Page([0; 64]));
    let r = f(&raw const page as usize);
    std::hint::black_box(&page);
    r
}

fn first_visit(t: &Tl, id: u32) -> bool {
    if t.seen.get().is_null() {
        t.seen.set(Vec::leak(vec![0u32; edges() as usize + 2]).as_mut_ptr());
    }
    // SAFETY: ids are at most the number of edges
    let last = unsafe { &mut *t.seen.get().add(id as usize) };
    std::mem::replace(last, t.epoch.get()) != t.epoch.get()
}

fn set_budget(t: &Tl, q: i64) {
    if q != i64::MAX && q as u64 >= FRESH {
        t.fresh.set((q as u64 >> 20 & 0xfffff) as u32);
        t.after.set((q & 0xfffff) + 1);
        t.budget.set(i64::MAX);
    } else {
        t.fresh.set(0);
        t.budget.set(q);
    }
}

#[cold]
fn slow(t: &Tl) {
    if t.crash.get() {
        unsafe { sys::_exit(96) }
    }
    t.active.set(false);
    yield_now(t);
    t.active.set(true);
}

pub fn edges() -> u32 {
    EDGES.load(Relaxed)
}

/// Shared coverage map; call before forking.
pub fn cover_init() -> *mut u8 {
    let p = sys::shared(edges() as usize + 2);
    unsafe { COVER = p };
    p
}

fn yield_now(t: &Tl) {
    let s = t.slot.get();
    if s.is_null() {
        t.budget.set(i64::MAX);
        return;
    }
    let s = unsafe { &*s };
    s.state.store(YIELD, Release);
    s.owner.unpark();
    while s.state.load(Acquire) != RUN {
        std::thread::park();
    }
    set_budget(t, s.budget.load(Acquire));
}

/// Simulator code called from the library starts: stop counting steps.
pub fn leave_library() -> bool {
    TL.with(|t| t.active.replace(false))
}
pub fn in_library() -> bool {
    TL.try_with(|t| t.active.get()).unwrap_or(false)
}
pub fn enter_library(was: bool) {
    TL.with(|t| t.active.set(was))
}

/// Preemption point at an entropy request.
pub fn seam() {
    let c = SEAM_CRASH.with(|c| {
        let v = c.get();
        c.set((v - 1).max(0));
        v
    });
    if c == 1 {
        unsafe { sys::_exit(96) }
    }
    TL.with(|t| {
        if !t.crash.get() {
            yield_now(t)
        }
    })
}

/// Outer counters, so that a nested operation counts on its own.
pub fn begin(base: usize, bufs: [(usize, usize); 3]) -> (u64, u64, bool, Mem) {
    TL.with(|t| t.epoch.set(t.epoch.get() + 1));
    TL.with(|t| {
        let m = t.mem.replace(Mem { base, bufs, ..NO_MEM });
        (t.steps.replace(0), t.trace.replace(0), t.active.replace(true), m)
    })
}
/// Steps, path, number of memory accesses, their places.
pub fn end(saved: (u64, u64, bool, Mem)) -> [u64; 4] {
    TL.with(|t| {
        t.active.set(saved.2);
        let m = t.mem.replace(saved.3);
        [t.steps.replace(saved.0), t.trace.replace(saved.1), m.count, m.hash]
    })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let was = leave_library();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        enter_library(was);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs one operation in this (fresh) process, dying after `crash` steps
/// (positive) or at entropy request -crash (negative); 0 = no crash.
pub fn run_plain(lib: &Lib, req: &Req, crash: i64) -> Out {
    TL.with(|t| {
        t.crash.set(crash > 0);
        t.budget.set(if crash > 0 { crash } else { i64::MAX });
    });
    SEAM_CRASH.with(|c| c.set((-crash).max(0)));
    exec(lib, req)
}

thread_local! { static SEAM_CRASH: Cell<i64> = const { Cell::new(0) }; }

pub struct Slot {
    state: AtomicU32,
    budget: AtomicI64,
    req: Mutex<Option<Req>>,
    out: Mutex<Option<Out>>,
    owner: Thread,
    tid: AtomicI64,
    /// remaining steps of the thread, to be written only while it sleeps
    left: AtomicPtr<i64>,
}

pub enum Stop {
    Yield,
    Done(Box<Out>),
    /// waiting for something another thread holds
    Blocked,
}

pub struct Actor {
    slot: Arc<Slot>,
    thread: Thread,
    /// was last seen waiting for another thread
    blocked: AtomicBool,
}

impl Actor {
    pub fn spawn(lib: Lib) -> Actor {
        let slot = Arc::new(Slot {
            state: AtomicU32::new(IDLE),
            budget: AtomicI64::new(0),
            req: Mutex::new(None),
            out: Mutex::new(None),
            owner: std::thread::current(),
            tid: AtomicI64::new(0),
            left: AtomicPtr::new(std::ptr::null_mut()),
        });
        let s = slot.clone();
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || actor(lib, s))
            .unwrap_or_else(|_| sys::harness_error("thread"));
        Actor { slot, thread: h.thread().clone(), blocked: AtomicBool::new(false) }
    }
    pub fn submit(&self, req: Req) {
        *self.slot.req.lock().unwrap() = Some(req);
    }
    /// Lets the actor run for `budget` steps (see FRESH) or to its next entropy request.
    /// One that waited for another thread goes on by itself as soon as it can, up to
    /// its next step; then only the place where it stopped is collected here.
    pub fn resume(&self, budget: i64) -> Stop {
        let s = &self.slot;
        if !self.blocked.swap(false, Relaxed) {
            s.budget.store(budget, Release);
            s.state.store(RUN, Release);
            self.thread.unpark();
        }
        self.wait()
    }
    fn wait(&self) -> Stop {
        let s = &self.slot;
        let mut quiet = 0;
        loop {
            match s.state.load(Acquire) {
                YIELD => return Stop::Yield,
                DONE => {
                    s.state.store(IDLE, Release);
                    let o = s.out.lock().unwrap().take().unwrap();
                    return Stop::Done(Box::new(o));
                }
                _ => {}
            }
            std::thread::park_timeout(Duration::from_millis(50));
            let st = s.state.load(Acquire);
            if st == RUN || st == BLOCKED {
                if self.sleeping() {
                    quiet += 1;
                } else {
                    quiet = 0;
                }
                if quiet >= 4 && s.state.compare_exchange(st, BLOCKED, AcqRel, Acquire).is_ok() {
                    // SAFETY: the thread sleeps
                    unsafe { s.left.load(Acquire).write_volatile(0) };
                    self.blocked.store(true, Relaxed);
                    return Stop::Blocked;
                }
            }
        }
    }
    fn sleeping(&self) -> bool {
        let t = self.slot.tid.load(Acquire);
        match std::fs::read_to_string(format!("/proc/self/task/{t}/stat")) {
            Ok(s) => s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')).unwrap_or(false),
            Err(_) => false,
        }
    }
}

impl Drop for Actor {
    fn drop(&mut self) {
        if self.slot.state.load(Acquire) == IDLE {
            self.slot.state.store(QUIT, Release);
            self.thread.unpark();
        }
    }
}

fn actor(lib: Lib, s: Arc<Slot>) {
    s.tid.store(unsafe { sys::gettid() } as i64, Release);
    TL.with(|t| {
        t.slot.set(Arc::as_ptr(&s));
        s.left.store(t.budget.as_ptr(), Release);
    });
    loop {
        match s.state.load(Acquire) {
            RUN => {}
            QUIT => return,
            _ => {
                std::thread::park();
                continue;
            }
        }
        let req = s.req.lock().unwrap().take();
        let Some(req) = req else {
            sys::harness_error("resume without request");
        };
        TL.with(|t| set_budget(t, s.budget.load(Acquire)));
        let out = exec(&lib, &req);
        *s.out.lock().unwrap() = Some(out);
        s.state.store(DONE, Release);
        s.owner.unpark();
    }
}
