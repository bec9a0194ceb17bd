//! One library operation, executed with a simulated entropy source, inside the
//! current thread. Used by the in-process actors, by restarted nodes and by the
//! isolation oracle alike.

use crate::api::{DrbgObj, DrbgState, Entropy, Lib, Res};
use crate::prng::{mix, Prng};
use crate::sched;
use crate::wire::{R, W};
use std::fmt;
use std::sync::Mutex;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Where an operation's entropy comes from.
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    /// healthy source
    Prng(u64),
    /// degraded source: stuck, repeating, low diversity, ...
    Pattern(u8, u64),
    /// a real generator of the library, seeded for this operation
    Drbg(u64),
    /// a live generator of the library shared with other operations
    Shared(u8),
    /// exactly these bytes, then a healthy continuation
    Fixed(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SrcFault {
    /// error of a certain kind after having filled `partial`/255 of the buffer
    Fail { draw: u8, partial: u8, kind: u8 },
    /// the source panics
    Panic { draw: u8, partial: u8 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub src: Src,
    pub fault: Option<SrcFault>,
    /// operation re-entering the library from within request `.0`
    pub nested: Option<(u8, Box<Req>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DrbgOp {
    Init([u8; 48]),
    Bytes(u64),
    /// so many requests of so many bytes
    Many(u64, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Keygen { pk: Vec<u8>, sk: Vec<u8> },
    Enc { ct: Vec<u8>, ss: Vec<u8>, pk: Vec<u8> },
    Dec { ss: Vec<u8>, ct: Vec<u8>, sk: Vec<u8> },
    /// on a live instance, or on one restored from a state
    Drbg { inst: u8, st: Option<DrbgState>, op: DrbgOp, fill: u8 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub kind: Kind,
    pub ent: Option<Ent>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    /// the marker of the injected failure if it is the source's own error
    Err { own: bool, text: String },
    /// panic; `own` if it is the injected one
    Panic { own: bool, text: String },
}

#[derive(Clone, Debug)]
pub struct Out {
    pub status: Status,
    /// output buffers: (pk, sk) / (ct, ss) / (ss) / (bytes)
    pub bufs: Vec<Vec<u8>>,
    pub draws: Vec<u64>,
    /// all bytes the source handed out, in order
    pub drawn: Vec<u8>,
    pub reseeds: u64,
    pub st: Option<DrbgState>,
    pub nested: Option<Box<Out>>,
    pub steps: u64,
    pub trace: u64,
    /// memory accesses: number and hash over their places
    pub accesses: u64,
    pub places: u64,
}

#[derive(Debug)]
pub struct SourceFailed(pub u64);
impl std::error::Error for SourceFailed {}
impl fmt::Display for SourceFailed {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "entropy source failed ({:x})", self.0)
    }
}

pub const ERRORS: u8 = 12;

/// Errors a source may report: one of its own, those of the operating system,
/// mere texts.
fn error(kind: u8, draw: usize) -> Box<dyn std::error::Error> {
    use std::io::{Error, ErrorKind::*};
    let own = SourceFailed(draw as u64);
    match kind {
        0 => Box::new(own),
        1 => Box::new(Error::new(Interrupted, own)),
        2 => Box::new(Error::new(WouldBlock, own)),
        3 => Box::new(Error::new(TimedOut, own)),
        4 => Box::new(Error::new(UnexpectedEof, own)),
        5 => Box::new(Error::new(Other, own)),
        6 => own.to_string().into(),
        7 => String::new().into(),
        8 => Box::new(std::fmt::Error),
        k => Box::new(Error::from_raw_os_error([4, 5, 11][k as usize % 3])),
    }
}

/// is this the error handed in?
fn same_error(kind: u8, draw: usize, e: &(dyn std::error::Error + 'static)) -> bool {
    use std::io::Error;
    let mine = |e: &SourceFailed| e.0 == draw as u64;
    let model = error(kind, draw);
    match kind {
        0 => e.downcast_ref().is_some_and(mine),
        1..=5 => {
            let inner = e.downcast_ref::<Error>().and_then(|e| e.get_ref());
            inner.and_then(|e| e.downcast_ref()).is_some_and(mine)
                && e.downcast_ref::<Error>().map(|e| e.kind()) == model.downcast_ref::<Error>().map(|e| e.kind())
        }
        6 | 7 => e.to_string() == model.to_string(),
        8 => e.is::<std::fmt::Error>(),
        _ => e.downcast_ref::<Error>().and_then(|e| e.raw_os_error()) == model.downcast_ref::<Error>().and_then(|e| e.raw_os_error()),
    }
}

/// payload of an injected panic
pub struct SourcePanicked;

pub const PATTERNS: u8 = 14;

pub fn seed48(seed: u64) -> [u8; 48] {
    let mut s = [0u8; 48];
    Prng::new(mix(seed, 48)).fill(&mut s);
    s
}

/// Live generators of the run, and what was drawn from them as entropy.
pub static INSTANCES: Mutex<Vec<Option<Box<dyn DrbgObj>>>> = Mutex::new(vec![]);
pub static SHARED_LOG: Mutex<Vec<(u8, Vec<u8>)>> = Mutex::new(vec![]);

fn pattern(kind: u8, g: &mut Prng, s: u64, x: &mut [u8]) {
    let n = x.len() as u64;
    match kind {
        // stuck at one value
        0 => x.fill(0),
        1 => x.fill(0xff),
        2 => x.fill((s >> 8) as u8),
        // short cycles; 15 bytes = four sorting keys of the fixed-type sampler
        3 | 4 => {
            let l = if kind == 3 { 1 + s % 64 } else { 15 } as usize;
            let mut c = vec![0u8; l];
            g.fill(&mut c);
            for (i, b) in x.iter_mut().enumerate() {
                *b = c[i % l];
            }
        }
        // dies after a while / wakes up late
        5 | 6 => {
            g.fill(x);
            if n > 0 {
                let cut = g.below(n + 1) as usize;
                let v = if s & 1 == 0 { 0 } else { 0xff };
                if kind == 5 {
                    x[cut..].fill(v)
                } else {
                    x[..cut].fill(v)
                }
            }
        }
        // few distinct values
        7 => {
            let vals = [0u8, 255, (s >> 8) as u8, (s >> 16) as u8];
            for b in x.iter_mut() {
                *b = vals[g.below(4) as usize];
            }
        }
        8 => {
            let m = [1u8, 3, 0x80, 0xc0, 0x81][(s % 5) as usize];
            for b in x.iter_mut() {
                *b = g.u64() as u8 & m;
            }
        }
        // running counter
        9 => {
            for (i, b) in x.iter_mut().enumerate() {
                *b = (i as u64).wrapping_mul(s | 1).wrapping_add(s >> 32) as u8;
            }
        }
        // a healthy source that sticks for stretches
        10 => {
            let mut i = 0;
            while i < x.len() {
                let l = (1 + g.below(48) as usize).min(x.len() - i);
                if g.chance(50) {
                    g.fill(&mut x[i..i + l]);
                } else {
                    let v = g.u64() as u8;
                    x[i..i + l].fill(v);
                }
                i += l;
            }
        }
        // sparse / dense
        11 | 12 => {
            let base = if kind == 11 { 0 } else { 0xff };
            x.fill(base);
            let k = 1 + g.below(8);
            for _ in 0..k {
                if n > 0 {
                    let p = g.below(n) as usize;
                    x[p] ^= g.u64() as u8;
                }
            }
        }
        // one residue class modulo 3: a constant small polynomial
        _ => {
            let r = (s % 3) as u8;
            for b in x.iter_mut() {
                *b = (g.below(85) * 3) as u8 + r;
            }
        }
    }
}

struct Source<'a> {
    lib: &'a Lib,
    ent: &'a Ent,
    gen: Prng,
    at: usize,
    real: Option<Box<dyn DrbgObj>>,
    draws: Vec<u64>,
    drawn: Vec<u8>,
    reseeds: u64,
    nested: Option<Box<Out>>,
}

impl<'a> Source<'a> {
    fn new(lib: &'a Lib, ent: &'a Ent) -> Source<'a> {
        let mut real = None;
        let gen = match &ent.src {
            Src::Prng(s) | Src::Pattern(_, s) => Prng::new(*s),
            Src::Drbg(s) => {
                let mut d = (lib.drbg_new)();
                d.init(seed48(*s));
                real = Some(d);
                Prng::new(0)
            }
            _ => Prng::new(0),
        };
        Source { lib, ent, gen, at: 0, real, draws: vec![], drawn: vec![], reseeds: 0, nested: None }
    }
    fn produce(&mut self, x: &mut [u8]) -> Res {
        match &self.ent.src {
            Src::Prng(_) => self.gen.fill(x),
            Src::Pattern(k, s) => pattern(*k, &mut self.gen, *s, x),
            Src::Drbg(_) => self.real.as_mut().unwrap().randombytes(x)?,
            Src::Fixed(b) => {
                for v in x.iter_mut() {
                    *v = match b.get(self.at) {
                        Some(v) => *v,
                        None => self.gen.u64() as u8,
                    };
                    self.at += 1;
                }
            }
            Src::Shared(i) => {
                let mut wait = 0;
                let mut obj = loop {
                    let o = INSTANCES.lock().unwrap().get_mut(*i as usize).and_then(|o| o.take());
                    match o {
                        Some(o) => break o,
                        None if wait > 200 => return Err(Box::new(SourceFailed(99))),
                        None => sched::seam(),
                    }
                    wait += 1;
                };
                let r = obj.randombytes(x);
                INSTANCES.lock().unwrap()[*i as usize] = Some(obj);
                SHARED_LOG.lock().unwrap().push((*i, x.to_vec()));
                r?
            }
        }
        self.drawn.extend_from_slice(x);
        Ok(())
    }
}

impl Entropy for Source<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Res {
        let saved = sched::leave_library();
        let draw = self.draws.len();
        self.draws.push(x.len() as u64);
        // an operation that keeps asking is cut off
        if draw > 4096 {
            unsafe { crate::sys::_exit(97) }
        }
        sched::seam();
        if let Some((d, req)) = &self.ent.nested {
            if *d as usize == draw {
                let mut out = exec(self.lib, req);
                out.nested = None;
                self.nested = Some(Box::new(out));
            }
        }
        let r = match &self.ent.fault {
            Some(SrcFault::Fail { draw: d, partial, kind }) if *d as usize == draw => {
                let n = x.len() * *partial as usize / 255;
                let _ = self.produce(&mut x[..n]);
                Err(error(*kind, draw))
            }
            Some(SrcFault::Panic { draw: d, partial }) if *d as usize == draw => {
                let n = x.len() * *partial as usize / 255;
                let _ = self.produce(&mut x[..n]);
                std::panic::panic_any(SourcePanicked)
            }
            _ => self.produce(x),
        };
        sched::enter_library(saved);
        r
    }
    fn randombytes_init(&mut self, seed: [u8; 48]) {
        let saved = sched::leave_library();
        self.reseeds += 1;
        let _ = seed;
        sched::enter_library(saved);
    }
}

/// The bytes a source hands out, for the independent implementation.
pub fn draw(lib: &Lib, ent: &Ent, sizes: &[usize]) -> (Status, Vec<u64>, Vec<u8>) {
    let mut s = Source::new(lib, ent);
    for (i, n) in sizes.iter().enumerate() {
        let mut x = vec![0u8; *n];
        s.draws.push(*n as u64);
        let hit = match &ent.fault {
            Some(SrcFault::Fail { draw, .. }) | Some(SrcFault::Panic { draw, .. }) => *draw as usize == i,
            None => false,
        };
        if hit || s.produce(&mut x).is_err() {
            return (Status::Err { own: true, text: String::new() }, s.draws, s.drawn);
        }
    }
    (Status::Ok, s.draws, s.drawn)
}

pub fn exec(lib: &Lib, req: &Req) -> Out {
    let mut bufs: Vec<Vec<u8>> = match &req.kind {
        Kind::Keygen { pk, sk } => vec![pk.clone(), sk.clone()],
        Kind::Enc { ct, ss, .. } => vec![ct.clone(), ss.clone()],
        Kind::Dec { ss, .. } => vec![ss.clone()],
        Kind::Drbg { op, fill, .. } => match op {
            DrbgOp::Bytes(n) => vec![vec![*fill; *n as usize + 32]],
            DrbgOp::Many(k, n) => vec![vec![*fill; (k * n) as usize + 32]],
            DrbgOp::Init(_) => vec![],
        },
    };
    let none = Ent { src: Src::Prng(0), fault: None, nested: None };
    let mut source = Source::new(lib, req.ent.as_ref().unwrap_or(&none));
    let mut drbg = match &req.kind {
        Kind::Drbg { st: Some(st), .. } => Some((lib.drbg_restore)(st)),
        Kind::Drbg { st: None, inst, .. } => {
            Some(INSTANCES.lock().unwrap()[*inst as usize].take().expect("instance free"))
        }
        _ => None,
    };
    let at = |b: &[u8]| (b.as_ptr() as usize, b.len());
    let places = match &req.kind {
        Kind::Keygen { .. } => [at(&bufs[0]), at(&bufs[1]), (0, 0)],
        Kind::Enc { pk, .. } => [at(&bufs[0]), at(&bufs[1]), at(pk)],
        Kind::Dec { ct, sk, .. } => [at(&bufs[0]), at(ct), at(sk)],
        Kind::Drbg { .. } => [(0, 0); 3],
    };
    let mut call = || -> Res {
        match &req.kind {
            Kind::Keygen { .. } => {
                let (a, b) = bufs.split_at_mut(1);
                (lib.keypair)(&mut a[0], &mut b[0], &mut source)
            }
            Kind::Enc { pk, .. } => {
                let (a, b) = bufs.split_at_mut(1);
                (lib.enc)(&mut a[0], &mut b[0], pk, &mut source)
            }
            Kind::Dec { ct, sk, .. } => (lib.dec)(&mut bufs[0], ct, sk),
            Kind::Drbg { op, .. } => {
                let d = drbg.as_mut().unwrap();
                match op {
                    DrbgOp::Init(s) => {
                        d.init(*s);
                        Ok(())
                    }
                    DrbgOp::Bytes(n) => d.randombytes(&mut bufs[0][16..16 + *n as usize]),
                    DrbgOp::Many(k, n) => {
                        let (k, n) = (*k as usize, *n as usize);
                        (0..k).try_for_each(|i| d.randombytes(&mut bufs[0][16 + i * n..16 + (i + 1) * n]))
                    }
                }
            }
        }
    };
    let (res, [steps, trace, accesses, places]) = sched::on_page(&mut |base| {
        let before = sched::begin(base, places);
        let res = catch_unwind(AssertUnwindSafe(&mut call));
        (res, sched::end(before))
    });
    let status = match res {
        Ok(Ok(())) => Status::Ok,
        Ok(Err(e)) => {
            let own = match req.ent.as_ref().and_then(|e| e.fault.as_ref()) {
                Some(SrcFault::Fail { draw, kind, .. }) if source.draws.len() > *draw as usize => {
                    same_error(*kind, *draw as usize, &*e)
                }
                _ => e.is::<SourceFailed>(),
            };
            Status::Err { own, text: e.to_string() }
        }
        Err(p) => {
            let own = p.downcast_ref::<SourcePanicked>().is_some();
            let text = if own { "injected".to_string() } else { sched::last_panic() };
            Status::Panic { own, text }
        }
    };
    let st = drbg.as_ref().map(|d| d.save());
    if let (Kind::Drbg { st: None, inst, .. }, Some(d)) = (&req.kind, drbg) {
        INSTANCES.lock().unwrap()[*inst as usize] = Some(d);
    }
    Out {
        status,
        bufs,
        draws: source.draws,
        drawn: source.drawn,
        reseeds: source.reseeds,
        st,
        nested: source.nested,
        steps,
        trace,
        accesses,
        places,
    }
}

// ---- serialisation ----

fn w_st(w: &mut W, s: &DrbgState) {
    w.b(&s.key);
    w.b(&s.v);
    w.u(s.count as u32 as u64);
}

fn r_st(r: &mut R) -> DrbgState {
    let mut s = DrbgState { key: [0; 32], v: [0; 16], count: 0 };
    let k = r.b();
    let v = r.b();
    if k.len() == 32 && v.len() == 16 {
        s.key.copy_from_slice(&k);
        s.v.copy_from_slice(&v);
    }
    s.count = r.u() as u32 as i32;
    s
}

impl Src {
    pub fn w(&self, w: &mut W) {
        match self {
            Src::Prng(s) => {
                w.u(0);
                w.u(*s)
            }
            Src::Pattern(k, s) => {
                w.u(1);
                w.u(*k as u64);
                w.u(*s)
            }
            Src::Drbg(s) => {
                w.u(2);
                w.u(*s)
            }
            Src::Shared(i) => {
                w.u(3);
                w.u(*i as u64)
            }
            Src::Fixed(b) => {
                w.u(4);
                w.b(b)
            }
        }
    }
    pub fn r(r: &mut R) -> Src {
        match r.u() {
            0 => Src::Prng(r.u()),
            1 => Src::Pattern(r.u() as u8, r.u()),
            2 => Src::Drbg(r.u()),
            3 => Src::Shared(r.u() as u8),
            _ => Src::Fixed(r.b()),
        }
    }
}

impl SrcFault {
    pub fn w(f: &Option<SrcFault>, w: &mut W) {
        match f {
            None => w.u(0),
            Some(SrcFault::Fail { draw, partial, kind }) => {
                w.u(1);
                w.u(*draw as u64);
                w.u(*partial as u64);
                w.u(*kind as u64)
            }
            Some(SrcFault::Panic { draw, partial }) => {
                w.u(2);
                w.u(*draw as u64);
                w.u(*partial as u64)
            }
        }
    }
    pub fn r(r: &mut R) -> Option<SrcFault> {
        match r.u() {
            0 => None,
            1 => Some(SrcFault::Fail { draw: r.u() as u8, partial: r.u() as u8, kind: r.u() as u8 }),
            _ => Some(SrcFault::Panic { draw: r.u() as u8, partial: r.u() as u8 }),
        }
    }
}

impl Req {
    pub fn w(&self, w: &mut W) {
        match &self.kind {
            Kind::Keygen { pk, sk } => {
                w.u(0);
                w.b(pk);
                w.b(sk)
            }
            Kind::Enc { ct, ss, pk } => {
                w.u(1);
                w.b(ct);
                w.b(ss);
                w.b(pk)
            }
            Kind::Dec { ss, ct, sk } => {
                w.u(2);
                w.b(ss);
                w.b(ct);
                w.b(sk)
            }
            Kind::Drbg { inst, st, op, fill } => {
                w.u(3);
                w.u(*inst as u64);
                w.flag(st.is_some());
                if let Some(st) = st {
                    w_st(w, st);
                }
                w.u(*fill as u64);
                match op {
                    DrbgOp::Init(s) => {
                        w.u(0);
                        w.b(s)
                    }
                    DrbgOp::Bytes(n) => {
                        w.u(1);
                        w.u(*n)
                    }
                    DrbgOp::Many(k, n) => {
                        w.u(2);
                        w.u(*k);
                        w.u(*n)
                    }
                }
            }
        }
        match &self.ent {
            None => w.u(0),
            Some(e) => {
                w.u(1);
                e.src.w(w);
                SrcFault::w(&e.fault, w);
                match &e.nested {
                    None => w.u(0),
                    Some((d, q)) => {
                        w.u(1);
                        w.u(*d as u64);
                        q.w(w)
                    }
                }
            }
        }
    }
    pub fn r(r: &mut R) -> Req {
        let kind = match r.u() {
            0 => Kind::Keygen { pk: r.b(), sk: r.b() },
            1 => Kind::Enc { ct: r.b(), ss: r.b(), pk: r.b() },
            2 => Kind::Dec { ss: r.b(), ct: r.b(), sk: r.b() },
            _ => {
                let inst = r.u() as u8;
                let st = if r.flag() { Some(r_st(r)) } else { None };
                let fill = r.u() as u8;
                let op = match r.u() {
                    0 => {
                        let b = r.b();
                        let mut s = [0u8; 48];
                        s[..b.len().min(48)].copy_from_slice(&b[..b.len().min(48)]);
                        DrbgOp::Init(s)
                    }
                    1 => DrbgOp::Bytes(r.u()),
                    _ => DrbgOp::Many(r.u(), r.u()),
                };
                Kind::Drbg { inst, st, op, fill }
            }
        };
        let ent = if r.flag() {
            let src = Src::r(r);
            let fault = SrcFault::r(r);
            let nested = if r.flag() { Some((r.u() as u8, Box::new(Req::r(r)))) } else { None };
            Some(Ent { src, fault, nested })
        } else {
            None
        };
        Req { kind, ent }
    }
}

impl Out {
    pub fn w(&self, w: &mut W) {
        match &self.status {
            Status::Ok => w.u(0),
            Status::Err { own, text } => {
                w.u(1);
                w.flag(*own);
                w.b(text.as_bytes())
            }
            Status::Panic { own, text } => {
                w.u(2);
                w.flag(*own);
                w.b(text.as_bytes())
            }
        }
        w.u(self.bufs.len() as u64);
        for b in &self.bufs {
            w.b(b);
        }
        w.u(self.draws.len() as u64);
        for d in &self.draws {
            w.u(*d);
        }
        w.b(&self.drawn);
        w.u(self.reseeds);
        match &self.st {
            None => w.u(0),
            Some(s) => {
                w.u(1);
                w_st(w, s)
            }
        }
        match &self.nested {
            None => w.u(0),
            Some(n) => {
                w.u(1);
                n.w(w)
            }
        }
        w.u(self.steps);
        w.u(self.trace);
        w.u(self.accesses);
        w.u(self.places);
    }
    pub fn r(r: &mut R) -> Out {
        let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
        let status = match r.u() {
            0 => Status::Ok,
            1 => Status::Err { own: r.flag(), text: s(r.b()) },
            _ => Status::Panic { own: r.flag(), text: s(r.b()) },
        };
        let n = r.u();
        let bufs = (0..n).map(|_| r.b()).collect();
        let n = r.u();
        let draws = (0..n).map(|_| r.u()).collect();
        let drawn = r.b();
        let reseeds = r.u();
        let st = if r.flag() { Some(r_st(r)) } else { None };
        let nested = if r.flag() { Some(Box::new(Out::r(r))) } else { None };
        Out { status, bufs, draws, drawn, reseeds, st, nested, steps: r.u(), trace: r.u(), accesses: r.u(), places: r.u() }
    }
}
