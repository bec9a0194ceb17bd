//! A plan is everything a run does, as explicit data: what the parties do and
//! when, which faults hit which message, disk block, entropy request or
//! process, and how the scheduler decides. A run is a pure function of its
//! plan and of the code under test.

use crate::exec::{Src, SrcFault};
use crate::ntru::Params;
use crate::prng::Prng;
use crate::wire::{R, W};

/// Damage to a byte string (message in transit or block on disk).
#[derive(Clone, Debug, PartialEq)]
pub struct Tamper {
    pub kind: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

pub const TAMPERS: [&str; 16] = [
    "bit_flip", "byte_set", "byte_xor", "range_fill", "range_random", "splice", "unused_bits", "truncate_refill",
    "constant", "rotate", "swap_blocks", "random", "coeff_set", "coeff_add", "coeffs_constant", "burst_flip",
];

fn coeff_get(b: &[u8], logq: usize, i: usize) -> u32 {
    let mut v = 0u32;
    for k in 0..logq {
        let p = i * logq + k;
        v |= (((b[p / 8] >> (p % 8)) & 1) as u32) << k;
    }
    v
}

fn coeff_put(b: &mut [u8], logq: usize, i: usize, v: u32) {
    for k in 0..logq {
        let p = i * logq + k;
        b[p / 8] = b[p / 8] & !(1 << (p % 8)) | ((((v >> k) & 1) as u8) << (p % 8));
    }
}

impl Tamper {
    pub fn apply(&self, x: &mut [u8], other: &[u8], p: &Params) {
        let n = x.len();
        if n == 0 {
            return;
        }
        let at = (self.a % n as u64) as usize;
        let end = |len: u64| (at + len.max(1) as usize).min(n);
        let coeffs = (n * 8 / p.logq).max(1);
        let ci = (self.a % coeffs as u64) as usize;
        match self.kind {
            0 => {
                let bit = (self.a % (8 * n as u64)) as usize;
                x[bit / 8] ^= 1 << (bit % 8)
            }
            1 => x[at] = self.b as u8,
            2 => x[at] ^= self.b as u8,
            3 => {
                let e = end(self.b);
                x[at..e].fill(self.c as u8)
            }
            4 => {
                let e = end(self.b);
                Prng::new(self.c).fill(&mut x[at..e])
            }
            5 => {
                let e = end(self.b).min(other.len().max(at));
                if at < e {
                    x[at..e].copy_from_slice(&other[at..e])
                }
            }
            6 => {
                let m = p.pad_mask();
                let v = (self.a as u8) & m;
                x[n - 1] |= if v == 0 { m } else { v }
            }
            7 => x[at..].fill(self.c as u8),
            8 => x.fill(self.c as u8),
            9 => x.rotate_left(at),
            10 => {
                let h = n / 2;
                let l = (self.b as usize).clamp(1, h.max(1));
                let (lo, hi) = x.split_at_mut(h);
                let s = at.min(h.saturating_sub(l));
                for i in 0..l.min(lo.len().saturating_sub(s)).min(hi.len().saturating_sub(s)) {
                    std::mem::swap(&mut lo[s + i], &mut hi[s + i]);
                }
            }
            11 => Prng::new(self.a).fill(x),
            12 => coeff_put(x, p.logq, ci.min(coeffs - 1), self.b as u32),
            13 => {
                let v = coeff_get(x, p.logq, ci).wrapping_add(self.b as u32);
                coeff_put(x, p.logq, ci, v)
            }
            14 => {
                for i in 0..coeffs {
                    coeff_put(x, p.logq, i, self.b as u32)
                }
            }
            _ => {
                let mut g = Prng::new(self.c);
                for _ in 0..(2 + self.b % 30) {
                    let bit = g.below(8 * n as u64) as usize;
                    x[bit / 8] ^= 1 << (bit % 8)
                }
            }
        }
    }

    pub fn random(g: &mut Prng, p: &Params, n: usize) -> Tamper {
        let q = p.q() as u64;
        let fills = [0u64, 0xff, 0xf2, 0x79, 0x80, 0x7f, 0x55, 0xaa, 1];
        let pos = |g: &mut Prng| match g.below(5) {
            0 => g.below(4).min(n as u64 - 1),
            1 => n as u64 - 1 - g.below(4).min(n as u64 - 1),
            _ => g.below(n as u64),
        };
        let kind = *g.pick(&[0u8, 0, 0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13, 13, 13, 14, 15]);
        let (mut a, mut b, mut c) = (g.u64() >> 8, g.u64() >> 8, g.u64() >> 8);
        match kind {
            0 => a = if g.chance(25) { 8 * n as u64 - 1 - g.below(16) } else { g.below(8 * n as u64) },
            1 | 2 => {
                a = pos(g);
                b = 1 + g.below(255)
            }
            3 | 4 => {
                a = pos(g);
                b = if g.chance(50) { 1 + g.below(16) } else { 1 + g.below(n as u64) };
                if kind == 3 {
                    c = *g.pick(&fills)
                }
            }
            5 => {
                a = pos(g);
                b = 1 + g.below(n as u64)
            }
            6 => a = g.below(256),
            7 => {
                a = pos(g);
                c = if g.chance(70) { 0 } else { *g.pick(&fills) }
            }
            8 => c = if g.chance(60) { *g.pick(&fills) } else { g.below(256) },
            9 => a = 1 + g.below(n as u64 - 1),
            10 => {
                a = pos(g);
                b = 1 + g.below(n as u64 / 2)
            }
            12 | 13 => {
                let co = (n * 8 / p.logq) as u64;
                a = match g.below(4) {
                    0 => 0,
                    1 => co - 1 - g.below(3).min(co - 1),
                    _ => g.below(co),
                };
                b = if kind == 13 {
                    *g.pick(&[1, q - 1, 2, q - 2, 3, q - 3, q / 2, q / 4, 4, 8, 16, 32])
                } else {
                    *g.pick(&[0, 1, q - 1, q / 2, q / 2 - 1, q / 2 + 1, 2, 3])
                }
            }
            14 => b = if g.chance(60) { *g.pick(&[0, 1, q - 1, q / 2, q / 2 - 1]) } else { g.below(q) },
            _ => {}
        }
        Tamper { kind, a, b, c }
    }

    pub fn w(&self, w: &mut W) {
        w.u(self.kind as u64);
        w.u(self.a);
        w.u(self.b);
        w.u(self.c)
    }
    pub fn r(r: &mut R) -> Tamper {
        Tamper { kind: r.u() as u8, a: r.u(), b: r.u(), c: r.u() }
    }
}

pub fn w_tampers(t: &[Tamper], w: &mut W) {
    w.u(t.len() as u64);
    t.iter().for_each(|t| t.w(w))
}
pub fn r_tampers(r: &mut R) -> Vec<Tamper> {
    let n = r.u();
    (0..n).map(|_| Tamper::r(r)).collect()
}

/// Entropy of one operation.
#[derive(Clone, Debug, PartialEq)]
pub struct EntSpec {
    pub src: Src,
    pub fault: Option<SrcFault>,
    /// (request, kind, seed): operation that re-enters the library
    pub nested: Option<(u8, u8, u64)>,
}

impl EntSpec {
    pub fn healthy(seed: u64) -> EntSpec {
        EntSpec { src: Src::Prng(seed), fault: None, nested: None }
    }
    fn w(&self, w: &mut W) {
        self.src.w(w);
        SrcFault::w(&self.fault, w);
        w.flag(self.nested.is_some());
        if let Some((a, b, c)) = self.nested {
            w.u(a as u64);
            w.u(b as u64);
            w.u(c)
        }
    }
    fn r(r: &mut R) -> EntSpec {
        let src = Src::r(r);
        let fault = SrcFault::r(r);
        let nested = if r.flag() { Some((r.u() as u8, r.u() as u8, r.u())) } else { None };
        EntSpec { src, fault, nested }
    }
}

/// Who performs a step and in which buffers.
#[derive(Clone, Debug, PartialEq)]
pub struct By {
    pub node: u8,
    /// the independent implementation instead of the library
    pub model: bool,
    /// output buffers before the call: 0 zeros, 1 = 0xff, 2 in place (old key), else random
    pub prior: u64,
    /// process dies during the operation: >0 after that many steps, <0 at that
    /// entropy request; the operation is then repeated
    pub crash: i64,
}

impl By {
    fn w(&self, w: &mut W) {
        w.u(self.node as u64);
        w.flag(self.model);
        w.u(self.prior);
        w.u(self.crash.unsigned_abs());
        w.flag(self.crash < 0)
    }
    fn r(r: &mut R) -> By {
        let node = r.u() as u8;
        let model = r.flag();
        let prior = r.u();
        let c = r.u() as i64;
        By { node, model, prior, crash: if r.flag() { -c } else { c } }
    }
}

/// One copy of a message arriving somewhere.
#[derive(Clone, Debug, PartialEq)]
pub struct Deliv {
    pub delay: u64,
    /// added to the addressee's index: 0 = the right one
    pub misdirect: u8,
    pub by: By,
    pub tamper: Vec<Tamper>,
}

impl Deliv {
    fn w(&self, w: &mut W) {
        w.u(self.delay);
        w.u(self.misdirect as u64);
        self.by.w(w);
        w_tampers(&self.tamper, w)
    }
    fn r(r: &mut R) -> Deliv {
        Deliv { delay: r.u(), misdirect: r.u() as u8, by: By::r(r), tamper: r_tampers(r) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// (re)generate the key pair of a slot and store it
    Keygen { t: u64, slot: u8, by: By, ent: EntSpec, disk: Vec<Tamper>, pkdisk: Vec<Tamper> },
    /// a client encapsulates under the slot's public key and sends
    Enc { t: u64, slot: u8, by: By, ent: EntSpec, deliv: Vec<Deliv> },
    /// an adversary sends a crafted ciphertext
    Forge { t: u64, slot: u8, kind: u8, seed: u64, deliv: Vec<Deliv> },
    /// storage of a slot decays
    Decay { t: u64, slot: u8, which: u8, tamper: Vec<Tamper> },
    /// process restart: memory is lost, keys come back from storage
    Restart { t: u64, node: u8 },
    /// a node's thread is not scheduled for a while
    Stall { t: u64, node: u8, dur: u64 },
    /// generator: new (a = state kind), b = seed
    DrbgNew { t: u64, inst: u8, kind: u8, a: u64, b: u64 },
    DrbgInit { t: u64, inst: u8, node: u8, seed: u64 },
    DrbgReq { t: u64, inst: u8, node: u8, len: u64, fill: u8 },
    /// n requests of len bytes each, one after the other
    DrbgMany { t: u64, inst: u8, node: u8, n: u64, len: u64, fill: u8 },
    /// inst becomes a copy of from
    DrbgClone { t: u64, inst: u8, from: u8 },
    /// remember / return to the saved state of an instance (kind: 0 live, 1 via bytes in a new process)
    DrbgSave { t: u64, inst: u8 },
    DrbgRestore { t: u64, inst: u8 },
}

impl Item {
    pub fn time(&self) -> u64 {
        match self {
            Item::Keygen { t, .. }
            | Item::Enc { t, .. }
            | Item::Forge { t, .. }
            | Item::Decay { t, .. }
            | Item::Restart { t, .. }
            | Item::Stall { t, .. }
            | Item::DrbgNew { t, .. }
            | Item::DrbgInit { t, .. }
            | Item::DrbgReq { t, .. }
            | Item::DrbgMany { t, .. }
            | Item::DrbgClone { t, .. }
            | Item::DrbgSave { t, .. }
            | Item::DrbgRestore { t, .. } => *t,
        }
    }
    pub fn w(&self, w: &mut W) {
        match self {
            Item::Keygen { t, slot, by, ent, disk, pkdisk } => {
                w.u(0);
                w.u(*t);
                w.u(*slot as u64);
                by.w(w);
                ent.w(w);
                w_tampers(disk, w);
                w_tampers(pkdisk, w)
            }
            Item::Enc { t, slot, by, ent, deliv } => {
                w.u(1);
                w.u(*t);
                w.u(*slot as u64);
                by.w(w);
                ent.w(w);
                w.u(deliv.len() as u64);
                deliv.iter().for_each(|d| d.w(w))
            }
            Item::Forge { t, slot, kind, seed, deliv } => {
                w.u(2);
                w.u(*t);
                w.u(*slot as u64);
                w.u(*kind as u64);
                w.u(*seed);
                w.u(deliv.len() as u64);
                deliv.iter().for_each(|d| d.w(w))
            }
            Item::Decay { t, slot, which, tamper } => {
                w.u(3);
                w.u(*t);
                w.u(*slot as u64);
                w.u(*which as u64);
                w_tampers(tamper, w)
            }
            Item::Restart { t, node } => {
                w.u(4);
                w.u(*t);
                w.u(*node as u64)
            }
            Item::Stall { t, node, dur } => {
                w.u(5);
                w.u(*t);
                w.u(*node as u64);
                w.u(*dur)
            }
            Item::DrbgNew { t, inst, kind, a, b } => {
                w.u(6);
                w.u(*t);
                w.u(*inst as u64);
                w.u(*kind as u64);
                w.u(*a);
                w.u(*b)
            }
            Item::DrbgInit { t, inst, node, seed } => {
                w.u(7);
                w.u(*t);
                w.u(*inst as u64);
                w.u(*node as u64);
                w.u(*seed)
            }
            Item::DrbgMany { t, inst, node, n, len, fill } => {
                w.u(12);
                w.u(*t);
                w.u(*inst as u64);
                w.u(*node as u64);
                w.u(*n);
                w.u(*len);
                w.u(*fill as u64)
            }
            Item::DrbgReq { t, inst, node, len, fill } => {
                w.u(8);
                w.u(*t);
                w.u(*inst as u64);
                w.u(*node as u64);
                w.u(*len);
                w.u(*fill as u64)
            }
            Item::DrbgClone { t, inst, from } => {
                w.u(9);
                w.u(*t);
                w.u(*inst as u64);
                w.u(*from as u64)
            }
            Item::DrbgSave { t, inst } => {
                w.u(10);
                w.u(*t);
                w.u(*inst as u64)
            }
            Item::DrbgRestore { t, inst } => {
                w.u(11);
                w.u(*t);
                w.u(*inst as u64)
            }
        }
    }
    pub fn r(r: &mut R) -> Item {
        let kind = r.u();
        let t = r.u();
        let s = r.u() as u8;
        match kind {
            0 => Item::Keygen {
                t,
                slot: s,
                by: By::r(r),
                ent: EntSpec::r(r),
                disk: r_tampers(r),
                pkdisk: r_tampers(r),
            },
            1 => {
                let (by, ent) = (By::r(r), EntSpec::r(r));
                let n = r.u();
                Item::Enc { t, slot: s, by, ent, deliv: (0..n).map(|_| Deliv::r(r)).collect() }
            }
            2 => {
                let (kind, seed) = (r.u() as u8, r.u());
                let n = r.u();
                Item::Forge { t, slot: s, kind, seed, deliv: (0..n).map(|_| Deliv::r(r)).collect() }
            }
            3 => Item::Decay { t, slot: s, which: r.u() as u8, tamper: r_tampers(r) },
            4 => Item::Restart { t, node: s },
            5 => Item::Stall { t, node: s, dur: r.u() },
            6 => Item::DrbgNew { t, inst: s, kind: r.u() as u8, a: r.u(), b: r.u() },
            7 => Item::DrbgInit { t, inst: s, node: r.u() as u8, seed: r.u() },
            8 => Item::DrbgReq { t, inst: s, node: r.u() as u8, len: r.u(), fill: r.u() as u8 },
            9 => Item::DrbgClone { t, inst: s, from: r.u() as u8 },
            10 => Item::DrbgSave { t, inst: s },
            12 => Item::DrbgMany { t, inst: s, node: r.u() as u8, n: r.u(), len: r.u(), fill: r.u() as u8 },
            _ => Item::DrbgRestore { t, inst: s },
        }
    }
}

/// How operations that are under way are interleaved.
#[derive(Clone, Debug, PartialEq)]
pub struct SchedSpec {
    pub seed: u64,
    /// 0 an operation runs to its end, 1 switch at entropy requests, 2 switch
    /// also after a number of library steps, 3 switch also where an operation
    /// enters code it has not run before, 4 only node 0 and there again and again
    pub mode: u8,
    /// log2 of the longest stretch of steps (mode 2), selects the reach in new edges (modes 3, 4)
    pub log_quantum: u8,
    /// explicit decisions (steps, pause) for the first resumptions; used by
    /// minimised replays
    pub fixed: Vec<(u64, u64)>,
    /// after the explicit decisions: run to the end
    pub only_fixed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub variant: String,
    pub flavor: String,
    pub nodes: u8,
    pub slots: u8,
    pub sched: SchedSpec,
    pub items: Vec<Item>,
}

impl Plan {
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = W::default();
        w.b(self.prop.as_bytes());
        w.b(self.variant.as_bytes());
        w.b(self.flavor.as_bytes());
        w.u(self.nodes as u64);
        w.u(self.slots as u64);
        w.u(self.sched.seed);
        w.u(self.sched.mode as u64);
        w.u(self.sched.log_quantum as u64);
        w.u(self.sched.fixed.len() as u64);
        for (a, b) in &self.sched.fixed {
            w.u(*a);
            w.u(*b);
        }
        w.flag(self.sched.only_fixed);
        w.u(self.items.len() as u64);
        self.items.iter().for_each(|i| i.w(&mut w));
        w.0
    }
    pub fn from_bytes(d: &[u8]) -> Plan {
        let r = &mut R::new(d);
        let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
        let (prop, variant, flavor) = (s(r.b()), s(r.b()), s(r.b()));
        let (nodes, slots) = (r.u() as u8, r.u() as u8);
        let (seed, mode, log_quantum) = (r.u(), r.u() as u8, r.u() as u8);
        let n = r.u();
        let fixed = (0..n).map(|_| (r.u(), r.u())).collect();
        let only_fixed = r.flag();
        let n = r.u();
        let items = (0..n).map(|_| Item::r(r)).collect();
        Plan {
            prop,
            variant,
            flavor,
            nodes,
            slots,
            sched: SchedSpec { seed, mode, log_quantum, fixed, only_fixed },
            items,
        }
    }
}
