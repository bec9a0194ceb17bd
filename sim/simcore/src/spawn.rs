//! Fresh processes: a helper forked before the first library call starts one
//! new process per request, so the operation runs with no history at all.

use crate::api::Lib;
use crate::clock;
use crate::exec::{Out, Req};
use crate::prng::hash_bytes;
use crate::sched;
use crate::sys;
use crate::wire::{R, W};

pub enum Fresh {
    Out(Box<Out>),
    /// died where it was told to
    Crashed,
    /// died on its own
    Died(String),
}

pub struct Spawner {
    to: i32,
    from: i32,
    pid: i32,
}

impl Spawner {
    pub fn start(lib: &Lib) -> Spawner {
        let (r1, w1) = sys::mkpipe();
        let (r2, w2) = sys::mkpipe();
        let pid = sys::fork_child();
        if pid == 0 {
            unsafe {
                sys::close(w1);
                sys::close(r2);
            }
            serve(lib, r1, w2);
        }
        unsafe {
            sys::close(r1);
            sys::close(w2);
        }
        Spawner { to: w1, from: r2, pid }
    }

    pub fn run(&self, req: &Req, crash: i64) -> Fresh {
        self.run_after(&[], &[], req, crash)
    }

    /// Runs an operation in a fresh process in which another thread has performed
    /// `elsewhere` and then this one `first`.
    pub fn run_after(&self, elsewhere: &[Req], first: &[Req], req: &Req, crash: i64) -> Fresh {
        let mut w = W::default();
        for list in [elsewhere, first] {
            w.u(list.len() as u64);
            for q in list {
                q.w(&mut w);
            }
        }
        w.u(crash.unsigned_abs());
        w.flag(crash < 0);
        req.w(&mut w);
        let mut head = (w.0.len() as u32).to_le_bytes();
        if !sys::write_all(self.to, &head) || !sys::write_all(self.to, &w.0) || !sys::read_exact(self.from, &mut head) {
            sys::harness_error("spawner gone");
        }
        let mut b = vec![0u8; u32::from_le_bytes(head) as usize];
        if !sys::read_exact(self.from, &mut b) || b.is_empty() {
            sys::harness_error("spawner gone");
        }
        match b[0] {
            0 => Fresh::Out(Box::new(Out::r(&mut R::new(&b[1..])))),
            1 => Fresh::Crashed,
            _ => Fresh::Died(String::from_utf8_lossy(&b[1..]).into_owned()),
        }
    }
}

impl Drop for Spawner {
    fn drop(&mut self) {
        unsafe {
            sys::close(self.to);
            sys::close(self.from);
        }
        sys::reap(self.pid);
    }
}

fn serve(lib: &Lib, from: i32, to: i32) -> ! {
    loop {
        let mut head = [0u8; 4];
        if !sys::read_exact(from, &mut head) {
            unsafe { sys::_exit(0) }
        }
        let mut b = vec![0u8; u32::from_le_bytes(head) as usize];
        if !sys::read_exact(from, &mut b) {
            unsafe { sys::_exit(0) }
        }
        let (r, w) = sys::mkpipe();
        let pid = sys::fork_child();
        if pid == 0 {
            clock::set(hash_bytes(&b), 0);
            let rd = &mut R::new(&b);
            let mut list = || (0..rd.u()).map(|_| Req::r(rd)).collect::<Vec<_>>();
            let (elsewhere, first) = (list(), list());
            if !elsewhere.is_empty() {
                let run = || elsewhere.iter().for_each(|q| drop(sched::run_plain(lib, q, 0)));
                std::thread::scope(|s| s.spawn(run).join().ok());
            }
            for q in first {
                sched::run_plain(lib, &q, 0);
            }
            let c = rd.u() as i64;
            let crash = if rd.flag() { -c } else { c };
            let req = Req::r(rd);
            let out = sched::run_plain(lib, &req, crash);
            let mut wr = W(vec![0]);
            out.w(&mut wr);
            sys::write_all(w, &wr.0);
            unsafe { sys::_exit(0) }
        }
        unsafe { sys::close(w) };
        let mut reply = sys::read_to_end_timeout(r, 600_000).unwrap_or_default();
        unsafe { sys::close(r) };
        let e = sys::reap(pid);
        if e.code == 96 {
            reply = vec![1];
        } else if e.signal.is_some() || e.code != 0 || reply.is_empty() {
            reply = vec![2];
            reply.extend(format!("signal {:?} code {}", e.signal, e.code).into_bytes());
        }
        let head = (reply.len() as u32).to_le_bytes();
        if !sys::write_all(to, &head) || !sys::write_all(to, &reply) {
            unsafe { sys::_exit(0) }
        }
    }
}
