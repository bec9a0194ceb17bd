//! Allocator that keeps account of the memory the library holds: blocks allocated
//! inside a library call and not freed yet, whoever frees them.

use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// Bytes held by the library.
pub fn held() -> i64 {
    LIVE.load(Relaxed)
}

/// Allocations made by the library so far.
pub fn allocations() -> u64 {
    COUNT.load(Relaxed)
}

pub struct Accounts;

/// every block is preceded by a note of what it counts for
fn head(l: Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Accounts {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l);
        let Some(size) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let p = System.alloc(Layout::from_size_align_unchecked(size, h));
        if p.is_null() {
            return p;
        }
        let n = if sched::in_library() { l.size() as i64 } else { 0 };
        if n > 0 {
            LIVE.fetch_add(n, Relaxed);
            COUNT.fetch_add(1, Relaxed);
        }
        let p = p.add(h);
        (p as *mut i64).sub(1).write(n);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(l);
        let n = (p as *mut i64).sub(1).read();
        if n > 0 {
            LIVE.fetch_sub(n, Relaxed);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

/// Threads and open files of this process.
pub fn threads_and_files() -> (i64, i64) {
    let n = |d: &str| std::fs::read_dir(d).map(|d| d.count() as i64).unwrap_or(0);
    (n("/proc/self/task"), n("/proc/self/fd"))
}
