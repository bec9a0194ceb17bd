//! The few system calls the simulator needs.

use std::os::raw::{c_int, c_void};

extern "C" {
    fn fork() -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn close(fd: c_int) -> c_int;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn gettid() -> c_int;
    fn getppid() -> c_int;
    fn prctl(option: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int;
}

#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

pub const SIGKILL: c_int = 9;

/// `fork`, with a child that does not outlive the process it comes from.
pub fn fork_child() -> c_int {
    let parent = std::process::id() as c_int;
    let pid = unsafe { fork() };
    if pid < 0 {
        harness_error("fork");
    }
    if pid == 0 {
        const PR_SET_PDEATHSIG: c_int = 1;
        unsafe {
            prctl(PR_SET_PDEATHSIG, SIGKILL as u64, 0, 0, 0);
            if getppid() != parent {
                _exit(0)
            }
        }
    }
    pid
}

pub fn mkpipe() -> (c_int, c_int) {
    let mut f = [0 as c_int; 2];
    if unsafe { pipe(f.as_mut_ptr()) } != 0 {
        harness_error("pipe");
    }
    (f[0], f[1])
}

/// A failure of the simulator itself, never of the code under test.
pub fn harness_error(what: &str) -> ! {
    eprintln!("HARNESS-ERROR {what}");
    unsafe { _exit(3) }
}

pub fn write_all(fd: c_int, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
        if n <= 0 {
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

/// false on end of file
pub fn read_exact(fd: c_int, b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { read(fd, b[at..].as_mut_ptr() as *mut c_void, b.len() - at) };
        if n == 0 {
            return false;
        }
        if n < 0 {
            if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return false;
        }
        at += n as usize;
    }
    true
}

/// Reads to end of file; None if it took longer than `ms`.
pub fn read_to_end_timeout(fd: c_int, ms: u64) -> Option<Vec<u8>> {
    let end = std::time::Instant::now() + std::time::Duration::from_millis(ms);
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let left = end.saturating_duration_since(std::time::Instant::now()).as_millis();
        if left == 0 {
            return None;
        }
        let mut p = PollFd { fd, events: 1, revents: 0 };
        let r = unsafe { poll(&mut p, 1, left.min(1_000_000) as c_int) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { read(fd, buf.as_mut_ptr() as *mut c_void, buf.len()) };
        if n == 0 {
            return Some(out);
        }
        if n > 0 {
            out.extend_from_slice(&buf[..n as usize]);
        }
    }
}

/// Anonymous memory shared with forked children.
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    if p as isize == -1 {
        harness_error("mmap");
    }
    p as *mut u8
}

pub struct Exit {
    pub signal: Option<i32>,
    pub code: i32,
}

pub fn reap(pid: c_int) -> Exit {
    let mut st: c_int = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return Exit { signal: None, code: -1 };
        }
    }
    if st & 0x7f != 0 {
        Exit { signal: Some(st & 0x7f), code: 0 }
    } else {
        Exit { signal: None, code: (st >> 8) & 0xff }
    }
}
