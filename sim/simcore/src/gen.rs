//! Plans from seeds: what happens in run `idx` of a property's check.

use crate::exec::{Src, SrcFault, ERRORS, PATTERNS};
use crate::ntru::Params;
use crate::plan::{By, Deliv, EntSpec, Item, Plan, SchedSpec, Tamper};
use crate::prng::{mix, Prng};
use crate::world::FORGES;

pub struct Ctx<'a> {
    pub prop: &'a str,
    pub params: &'a Params,
    pub flavor: &'a str,
    pub seed: u64,
    pub idx: u64,
    pub total: u64,
    /// entropy seeds known to drive intermediate values to their limits
    pub corpus: &'a [u64],
    pub thorough: bool,
}

/// sessions in the longest history of a batch
const MARATHON: u64 = 9000;

struct G<'a> {
    g: Prng,
    c: &'a Ctx<'a>,
    nodes: u64,
    slots: u64,
    items: Vec<Item>,
    /// virtual time span of the run
    span: u64,
    seeds: u64,
    model: u64,
    crash: u64,
    dirty: u64,
    /// schedule mode, when the plan depends on one
    mode: Option<u8>,
}

impl G<'_> {
    fn t(&mut self) -> u64 {
        self.g.below(self.span)
    }
    /// distinct within a run and between runs
    fn fresh(&mut self) -> u64 {
        self.seeds += 1;
        mix(self.c.seed, self.seeds) >> 4
    }
    fn node(&mut self) -> u8 {
        self.g.below(self.nodes) as u8
    }
    fn slot(&mut self) -> u8 {
        self.g.below(self.slots) as u8
    }
    fn by(&mut self) -> By {
        let prior = if self.g.chance(self.dirty) { *self.g.pick(&[1, 2, 3, 4, 5]) } else { 0 };
        let prior = if prior >= 3 { 3 + self.g.below(1 << 40) } else { prior };
        let mut crash = 0;
        if self.g.chance(self.crash) {
            crash = if self.c.flavor == "instr" && self.g.chance(70) {
                let b = self.g.below(23);
                1 + self.g.below(1 << b) as i64
            } else {
                -(1 + self.g.below(2) as i64)
            };
        }
        By { node: self.node(), model: self.g.chance(self.model), prior, crash }
    }
    fn src(&mut self, pattern: u64) -> Src {
        let s = self.fresh();
        if self.g.chance(pattern) {
            Src::Pattern(self.g.below(PATTERNS as u64) as u8, s)
        } else if self.g.chance(20) {
            Src::Drbg(s)
        } else {
            Src::Prng(s)
        }
    }
    fn ent(&mut self, pattern: u64, fault: u64, draws: u64, nested: u64) -> EntSpec {
        let src = self.src(pattern);
        let f = if self.g.chance(fault) {
            let draw = self.g.below(draws) as u8;
            let partial = *self.g.pick(&[0u8, 0, 255, 1, 128, 254]);
            let kind = if self.g.chance(50) { 0 } else { self.g.below(ERRORS as u64) as u8 };
            Some(if self.g.chance(75) { SrcFault::Fail { draw, partial, kind } } else { SrcFault::Panic { draw, partial } })
        } else {
            None
        };
        let nested = if self.g.chance(nested) {
            Some((self.g.below(draws) as u8, self.g.below(4) as u8, self.fresh()))
        } else {
            None
        };
        EntSpec { src, fault: f, nested }
    }
    fn soon(&mut self) -> u64 {
        let b = self.g.below(5);
        self.g.below(1 << b)
    }
    fn delay(&mut self) -> u64 {
        match self.g.below(4) {
            0 => self.g.below(100),
            1 => self.g.below(10_000),
            2 => self.g.below(self.span),
            _ => self.g.below(self.span * 50),
        }
    }
    fn tampers(&mut self, n: usize) -> Vec<Tamper> {
        let k = if self.g.chance(75) { 1 } else { 2 + self.g.below(2) };
        (0..k).map(|_| Tamper::random(&mut self.g, self.c.params, n)).collect()
    }
    fn deliv(&mut self, tamper: u64, misdirect: u64) -> Deliv {
        let ct = self.c.params.ct_bytes();
        let tamper = if self.g.chance(tamper) { self.tampers(ct) } else { vec![] };
        let misdirect = if self.g.chance(misdirect) { 1 + self.g.below(2) as u8 } else { 0 };
        Deliv { delay: self.delay(), misdirect, by: self.by(), tamper }
    }
    fn delivs(&mut self, tamper: u64, misdirect: u64) -> Vec<Deliv> {
        let k = *self.g.pick(&[0u64, 1, 1, 1, 1, 2, 2, 3]);
        (0..k).map(|_| self.deliv(tamper, misdirect)).collect()
    }
    fn keygen(&mut self, t: u64, slot: u8, ent: EntSpec) {
        let by = self.by();
        self.items.push(Item::Keygen { t, slot, by, ent, disk: vec![], pkdisk: vec![] });
    }
    fn first_keys(&mut self, pattern: u64) {
        for s in 0..self.slots as u8 {
            let e = self.ent(pattern, 0, 2, 0);
            let t = self.g.below(100);
            self.keygen(t, s, e);
        }
    }
    /// A long life in one process, so that what accumulates over a history
    /// can show: a few runs of every batch, one of them very long, one a marathon.
    /// Nodes do not restart and nothing is preempted in these.
    fn long_life(&mut self) -> Option<u64> {
        let marathon = self.c.idx == 2 && self.c.flavor == "release";
        if !marathon && (self.c.flavor == "instr" || self.c.idx % 128 != 61) {
            return None;
        }
        self.crash = 0;
        self.model = 0;
        let l = if self.c.idx == 61 && self.c.flavor == "release" { 1100 } else { 90 + self.g.below(240) };
        let l = if marathon { MARATHON } else { l };
        for _ in 0..(l / 4).min(1000) {
            let (t, slot) = (100 + self.t(), self.slot());
            let e = self.ent(10, 10, 2, 0);
            self.keygen(t, slot, e);
        }
        Some(l)
    }
    fn restarts(&mut self, max: u64) {
        for _ in 0..self.g.below(max + 1) {
            let (t, node) = (self.t(), self.node());
            self.items.push(Item::Restart { t, node });
        }
    }
    fn stalls(&mut self, max: u64) {
        for _ in 0..self.g.below(max + 1) {
            let (t, node) = (self.t(), self.node());
            let dur = self.g.below(self.span * 2);
            self.items.push(Item::Stall { t, node, dur });
        }
    }
    fn forges(&mut self, n: u64) {
        for _ in 0..n {
            let (t, slot) = (100 + self.t(), self.slot());
            let kind = self.g.below(FORGES.len() as u64) as u8;
            let seed = self.fresh();
            let mut d = self.delivs(10, 5);
            if d.is_empty() {
                d.push(self.deliv(0, 0));
            }
            self.items.push(Item::Forge { t, slot, kind, seed, deliv: d });
        }
    }
}

fn sched(g: &mut Prng, instr: bool, interleave: u64) -> SchedSpec {
    let seed = g.u64() >> 8;
    let mode = if !g.chance(interleave) {
        0
    } else if instr && g.chance(85) {
        2 + g.below(2) as u8
    } else {
        1
    };
    let log_quantum = *g.pick(&[3u8, 8, 13, 17, 20, 22]);
    SchedSpec { seed, mode, log_quantum, fixed: vec![], only_fixed: false }
}

pub fn generate(c: &Ctx) -> Plan {
    let mut g0 = Prng::new(c.seed);
    let instr = c.flavor == "instr";
    let sp = match c.prop {
        "C05" => sched(&mut g0, instr, 90),
        "C07" => sched(&mut g0, instr, 70),
        _ => sched(&mut g0, instr, 50),
    };
    let span = *g0.pick(&[2_000u64, 50_000, 1_000_000, 60_000_000]);
    let mut g = G {
        nodes: 2 + g0.below(3),
        slots: 1 + g0.below(3),
        g: g0,
        c,
        items: vec![],
        span,
        seeds: 0,
        model: 0,
        crash: 6,
        dirty: 40,
        mode: None,
    };
    match c.prop {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C11" | "C14" => c11(&mut g),
        "C15" => c15(&mut g),
        _ => {}
    }
    let (nodes, slots) = (g.nodes as u8, g.slots as u8);
    let mut sp = sp;
    if let Some(m) = g.mode {
        sp.mode = m;
    }
    let mut items = g.items;
    items.sort_by_key(|i| i.time());
    Plan {
        prop: c.prop.into(),
        variant: c.params.name.into(),
        flavor: c.flavor.into(),
        nodes,
        slots,
        sched: sp,
        items,
    }
}

/// Operations compete on different threads and are switched where they enter
/// new code. Either a few start almost at once, or one of them (on node 0) is
/// stopped again and again and another node completes an operation each time.
/// Keys and the ciphertexts to decapsulate come from the independent
/// implementation, so that all library work of the run is in the competition.
fn race(g: &mut G) {
    let duel = g.g.chance(60);
    g.mode = Some(if duel {
        4
    } else if g.g.chance(85) {
        3
    } else {
        2
    });
    g.crash = 0;
    g.nodes = if duel { 2 } else { 2 + g.g.below(3) };
    g.slots = 1 + g.g.below(2);
    for s in 0..g.slots as u8 {
        let e = g.ent(10, 0, 2, 0);
        g.keygen(s as u64, s, e);
        if let Some(Item::Keygen { by, .. }) = g.items.last_mut() {
            by.model = true;
        }
    }
    let pick = |g: &mut G| *g.g.pick(&[2, 2, 2, 2, 2, 2, 1, 1, 1, 0]);
    let first = pick(g);
    let same = g.g.chance(65);
    let n = if duel { 4 + g.g.below(9) } else { 2 + g.g.below(5) };
    for i in 0..n {
        let slot = g.slot();
        let kind = if i == 0 || same { first } else { pick(g) };
        if kind == 0 && i > 3 {
            break;
        }
        let (node, t) = if !duel {
            (((i + g.g.below(2)) % g.nodes) as u8, 10_000 + g.soon())
        } else if i == 0 {
            (0, 10_000)
        } else {
            (1, 9_900 + 300 * i)
        };
        match kind {
            0 => {
                let e = g.ent(15, 8, 2, 8);
                g.keygen(t, slot, e);
                if let Some(Item::Keygen { by, .. }) = g.items.last_mut() {
                    by.node = node;
                }
            }
            1 => {
                let (mut by, ent) = (g.by(), g.ent(15, 8, 1, 8));
                by.node = node;
                g.items.push(Item::Enc { t, slot, by, ent, deliv: vec![] });
            }
            _ => {
                let (mut by, ent) = (g.by(), g.ent(15, 0, 1, 0));
                by.model = true;
                let mut x = g.deliv(25, 10);
                x.delay = t - 500;
                x.by.node = node;
                g.items.push(Item::Enc { t: 500, slot, by, ent, deliv: vec![x] });
            }
        }
    }
}

fn c01(g: &mut G) {
    if g.c.flavor == "instr" && g.c.idx % 4 == 3 {
        return race(g);
    }
    g.first_keys(15);
    for _ in 0..g.g.below(3) {
        // rotation, possibly failing
        let (t, slot) = (100 + g.t(), g.slot());
        let e = g.ent(15, 40, 2, 5);
        g.keygen(t, slot, e);
        if let Some(Item::Keygen { by, .. }) = g.items.last_mut() {
            by.prior = 2;
        }
    }
    let life = g.long_life();
    for _ in 0..life.unwrap_or(2 + g.g.below(6)) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(25, 8, 1, 5));
        let mut d = g.delivs(15, 5);
        if g.g.chance(50) {
            d.push(g.deliv(0, 0));
        }
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    let k = g.g.below(2);
    g.forges(k);
    if life.is_none() {
        g.restarts(2);
        g.stalls(2);
    }
}

fn c02(g: &mut G) {
    if g.c.flavor == "instr" && g.c.idx % 4 == 3 {
        return race(g);
    }
    g.first_keys(5);
    let life = g.long_life();
    let bits = 8 * g.c.params.ct_bytes() as u64;
    for e in 0..life.map_or(1 + g.g.below(2), |l| l / 4) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(10, 0, 1, 0));
        let mut d = g.delivs(100, 20);
        if e == 0 || life.is_some() {
            // the single-bit damages sweep over all positions from run to run
            let n = 4;
            for k in 0..n {
                let mut x = g.deliv(0, 0);
                let a = (g.c.idx * n + k).wrapping_mul(0x9E37_79B1) % bits;
                x.tamper = vec![Tamper { kind: 0, a, b: 0, c: 0 }];
                d.push(x);
            }
            let mut x = g.deliv(0, 0);
            x.tamper = vec![Tamper { kind: 6, a: g.g.below(256), b: 0, c: 0 }];
            d.push(x);
        }
        d.push(g.deliv(0, 60));
        d.push(g.deliv(0, 0));
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    let k = 2 + g.g.below(4);
    g.forges(k);
    if g.g.chance(30) {
        let (t, slot) = (100 + g.t(), g.slot());
        let e = g.ent(5, 20, 2, 0);
        g.keygen(t, slot, e);
    }
    if life.is_none() {
        g.restarts(1);
        g.stalls(1);
    }
}

fn c03(g: &mut G) {
    if g.c.flavor == "instr" && g.c.idx % 4 == 3 {
        return race(g);
    }
    g.model = 30;
    g.first_keys(30);
    let life = g.long_life();
    for _ in 0..life.map_or(2 + g.g.below(5), |l| l / 2) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(35, 5, 1, 5));
        let d = g.delivs(30, 8);
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    for _ in 0..1 + g.g.below(2) {
        let (t, slot) = (100 + g.t(), g.slot());
        let e = g.ent(40, 10, 2, 5);
        g.keygen(t, slot, e);
    }
    let k = g.g.below(3);
    g.forges(k);
    if life.is_none() {
        g.restarts(1);
    }
}

fn c04(g: &mut G) {
    g.dirty = 80;
    g.first_keys(5);
    let life = g.long_life();
    for round in 0..2 + g.g.below(4) {
        let slot = g.slot();
        let mut t = 100 + g.t();
        // some failures in a row, then the same operation with a healthy source
        let k = match life {
            Some(l) if round == 0 => l / 2,
            _ => 1 + g.g.below(3),
        };
        let rot = g.g.chance(50);
        let retry = g.src(15);
        for i in 0..=k {
            let mut e = g.ent(15, 100, if rot { 2 } else { 1 }, 5);
            if g.g.chance(60) {
                e.src = retry.clone();
            }
            if i == k {
                e = EntSpec { src: retry.clone(), fault: None, nested: None };
            }
            if rot {
                g.keygen(t, slot, e);
                if let Some(Item::Keygen { by, .. }) = g.items.last_mut() {
                    if g.g.chance(60) {
                        by.prior = 2;
                    }
                    by.node = slot;
                }
            } else {
                let by = g.by();
                let d = g.delivs(5, 0);
                g.items.push(Item::Enc { t, slot, by, ent: e, deliv: d });
            }
            t += g.g.below(1000);
            if rot && g.g.chance(70) {
                // the pair that was to be replaced keeps working
                let (by, ent) = (g.by(), g.ent(5, 0, 1, 0));
                let mut d = vec![g.deliv(0, 0)];
                d[0].by.node = slot;
                g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
                t += g.g.below(1000);
            }
        }
    }
    if life.is_none() {
        g.restarts(1);
        g.stalls(1);
    }
}

fn c05(g: &mut G) {
    if g.c.flavor == "instr" && g.c.idx % 4 != 0 {
        return race(g);
    }
    g.dirty = 75;
    g.nodes = 2 + g.g.below(4);
    g.crash = 4;
    // bring operations close together so that they overlap
    if g.g.chance(70) {
        g.span = *g.g.pick(&[300, 2_000, 20_000]);
    }
    g.first_keys(15);
    let life = g.long_life();
    for _ in 0..life.map_or(3 + g.g.below(5), |l| l / 2) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(20, 15, 1, 20));
        let mut d = g.delivs(30, 10);
        if g.g.chance(40) {
            d.push(g.deliv(10, 0));
        }
        for x in d.iter_mut() {
            if g.g.chance(70) {
                x.delay = g.g.below(g.span);
            }
        }
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    for _ in 0..g.g.below(3) {
        let (t, slot) = (100 + g.t(), g.slot());
        let e = g.ent(20, 20, 2, 20);
        g.keygen(t, slot, e);
    }
    // keys that differ a little from ones used before
    if g.g.chance(40) {
        let (pkb, skb) = (g.c.params.pk_bytes(), g.c.params.sk_bytes());
        for _ in 0..1 + g.g.below(2) {
            let (t, slot) = (100 + g.t(), g.slot());
            let which = 1 + g.g.below(2) as u8;
            let tamper = g.tampers(if which == 1 { pkb } else { skb });
            g.items.push(Item::Decay { t, slot, which, tamper });
        }
    }
    let k = g.g.below(2);
    g.forges(k);
    for _ in 0..g.g.below(4) {
        let (t, inst, node) = (g.t(), g.g.below(3) as u8, g.node());
        let len = g.g.below(400);
        if g.g.chance(30) {
            let seed = g.fresh();
            g.items.push(Item::DrbgInit { t, inst, node, seed });
        } else {
            g.items.push(Item::DrbgReq { t, inst, node, len, fill: g.seeds as u8 });
        }
    }
    if life.is_none() {
        g.restarts(2);
        g.stalls(2);
    }
}

fn c06(g: &mut G) {
    if g.c.flavor == "instr" && g.c.idx % 4 == 3 {
        return race(g);
    }
    // parties share generators, private ones come and go
    let shared = 1 + g.g.below(2);
    for i in 0..shared {
        let a = g.fresh();
        // a healthy generator; never two with the same seed
        g.items.push(Item::DrbgNew { t: 0, inst: i as u8, kind: 1, a: a * 16 + 7, b: 0 });
    }
    let pick = |g: &mut G, e: &mut EntSpec| {
        if g.g.chance(50) {
            e.src = Src::Shared(g.g.below(shared) as u8);
        }
    };
    for s in 0..g.slots as u8 {
        let mut e = g.ent(20, 0, 2, 5);
        pick(g, &mut e);
        let t = g.g.below(100);
        g.keygen(t, s, e);
    }
    let life = g.long_life();
    for _ in 0..life.map_or(3 + g.g.below(6), |l| l * 2 / 3) {
        let (t, slot) = (100 + g.t(), g.slot());
        let rot = g.g.chance(35);
        let mut e = g.ent(30, 20, if rot { 2 } else { 1 }, 8);
        pick(g, &mut e);
        if rot {
            g.keygen(t, slot, e);
        } else {
            let by = g.by();
            let d = g.delivs(25, 10);
            g.items.push(Item::Enc { t, slot, by, ent: e, deliv: d });
        }
    }
    for _ in 0..g.g.below(2) {
        let (t, inst) = (g.t(), g.g.below(shared) as u8);
        g.items.push(Item::DrbgSave { t, inst });
        let t = t + g.g.below(g.span);
        g.items.push(Item::DrbgRestore { t, inst });
    }
    let k = g.g.below(2);
    g.forges(k);
    if life.is_none() {
        g.restarts(1);
        g.stalls(1);
    }
}

/// many requests in one process, now and then
fn many(g: &mut G, insts: u64) {
    if g.c.idx % 128 != 61 {
        return;
    }
    let (t, inst, node) = (1 + g.t(), g.g.below(insts) as u8, g.node());
    let n = if g.c.idx == 61 && g.c.flavor != "instr" { 140_000 } else { 300 + g.g.below(10_000) };
    let n = if g.c.idx == 189 && g.c.flavor == "release" { (1 << if g.c.thorough { 21 } else { 20 }) + 5 } else { n };
    let len = *g.g.pick(&[1u64, 1, 16, 17, 32]);
    g.items.push(Item::DrbgMany { t, inst, node, n, len, fill: 3 });
}

/// one very long request in a few runs of a batch
fn huge(g: &mut G) {
    if g.c.idx % 64 == 17 {
        let l = 1_048_576 + g.g.below(70_000);
        g.items.push(Item::DrbgReq { t: 1, inst: 0, node: 0, len: l, fill: 9 });
    }
}
fn len(g: &mut G) -> u64 {
    match g.g.below(12) {
        0 => 0,
        1 => 1 + g.g.below(15),
        2 => 16 * (1 + g.g.below(8)),
        3 => (16 * (1 + g.g.below(8))).wrapping_add(*g.g.pick(&[1, u64::MAX])),
        4 => *g.g.pick(&[32, 48, 255, 256, 257, 1000]),
        5 => 4000 + g.g.below(200),
        // any order of magnitude
        8 => {
            let most = if g.g.chance(10) { 12 } else { 8 };
            let b = 6 + g.g.below(most);
            (1 << b) + g.g.below(1 << b)
        }
        6 if g.g.chance(15) => 65_536 + g.g.below(40),
        7 if g.c.thorough && g.g.chance(3) => 1_048_576 + g.g.below(100_000),
        _ => 1 + g.g.below(600),
    }
}

fn c07(g: &mut G) {
    let insts = 1 + g.g.below(4);
    for i in 0..insts {
        let kind = *g.g.pick(&[0u8, 1, 1, 1, 2]);
        let a = g.fresh();
        let ones = g.g.below(17);
        let b = ones | (g.g.below(12) << 8) | (g.g.below(1000) << 16);
        g.items.push(Item::DrbgNew { t: 0, inst: i as u8, kind, a, b });
    }
    huge(g);
    for _ in 0..10 + g.g.below(30) {
        let (t, inst, node) = (1 + g.t(), g.g.below(insts) as u8, g.node());
        let it = match g.g.below(20) {
            0 | 1 => {
                let seed = g.fresh() >> 2;
                Item::DrbgInit { t, inst, node, seed }
            }
            2 => Item::DrbgClone { t, inst: g.g.below(6) as u8, from: inst },
            3 => Item::DrbgSave { t, inst },
            4 => Item::DrbgRestore { t, inst },
            _ => {
                let len = len(g);
                Item::DrbgReq { t, inst, node, len, fill: g.g.below(256) as u8 }
            }
        };
        g.items.push(it);
    }
    many(g, insts);
    // key generation and encapsulation on the same generators
    if g.g.chance(25) {
        let e = EntSpec { src: Src::Shared(0), fault: None, nested: None };
        let t = g.t();
        g.keygen(t, 0, e.clone());
        let (by, t) = (g.by(), t + 1 + g.g.below(1000));
        g.items.push(Item::Enc { t, slot: 0, by, ent: e, deliv: vec![] });
    }
    g.restarts(1);
    g.stalls(1);
}

fn c08(g: &mut G) {
    let insts = 1 + g.g.below(3);
    for i in 0..insts {
        let a = g.fresh();
        let ones = if g.g.chance(40) { 16 } else { g.g.below(17) };
        let low = if g.g.chance(70) { g.g.below(6) } else { g.g.below(256) };
        let count: i32 = match g.g.below(6) {
            0 => i32::MAX,
            1 => i32::MAX - g.g.below(4) as i32,
            2 => i32::MIN + g.g.below(3) as i32,
            3 => -1 - g.g.below(3) as i32,
            4 if g.g.chance(30) => 10i32.pow(g.g.below(10) as u32) - g.g.below(6) as i32,
            4 => (1 << g.g.below(31)) - g.g.below(6) as i32,
            _ => g.g.u64() as i32,
        };
        let b = ones | (low << 8) | ((count as u32 as u64) << 16);
        g.items.push(Item::DrbgNew { t: 0, inst: i as u8, kind: 2, a, b });
    }
    huge(g);
    for _ in 0..6 + g.g.below(20) {
        let (t, inst, node) = (1 + g.t(), g.g.below(insts) as u8, g.node());
        let it = match g.g.below(20) {
            0 => {
                let seed = g.fresh() >> 2;
                Item::DrbgInit { t, inst, node, seed }
            }
            1 => Item::DrbgClone { t, inst: g.g.below(6) as u8, from: inst },
            2 => {
                // age again
                let (a, ones) = (g.fresh(), *g.g.pick(&[16u64, 8, 3]));
                let b = ones | (g.g.below(5) << 8) | ((i32::MAX as u32 as u64) << 16);
                Item::DrbgNew { t, inst, kind: 2, a, b }
            }
            _ => {
                let len = len(g);
                Item::DrbgReq { t, inst, node, len, fill: g.g.below(256) as u8 }
            }
        };
        g.items.push(it);
    }
    many(g, insts);
    // old generators serve key generation too
    if g.g.chance(30) {
        let e = EntSpec { src: Src::Shared(0), fault: None, nested: None };
        let t = g.t();
        g.keygen(t, 0, e.clone());
        let (by, t) = (g.by(), t + 1 + g.g.below(1000));
        g.items.push(Item::Enc { t, slot: 0, by, ent: e, deliv: vec![] });
    }
    g.restarts(1);
}

fn c09(g: &mut G) {
    g.slots = 1 + g.g.below(2);
    let (pkb, skb) = (g.c.params.pk_bytes(), g.c.params.sk_bytes());
    let corpus = g.c.corpus;
    for s in 0..g.slots as u8 {
        let mut e = g.ent(40, 0, 2, 0);
        // every corpus entry is used in the first runs, then again at random
        let k = g.c.idx as usize * 2 + s as usize;
        if k < corpus.len() {
            e.src = Src::Prng(corpus[k]);
        } else if !corpus.is_empty() && g.g.chance(10) {
            e.src = Src::Prng(*g.g.pick(corpus));
        }
        let t = g.g.below(100);
        let by = g.by();
        let disk = if g.g.chance(50) { g.tampers(skb) } else { vec![] };
        let pkdisk = if g.g.chance(40) { g.tampers(pkb) } else { vec![] };
        g.items.push(Item::Keygen { t, slot: s, by, ent: e, disk, pkdisk });
    }
    let life = g.long_life();
    for _ in 0..life.map_or(2 + g.g.below(4), |l| l / 2) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(40, 0, 1, 0));
        let mut d = g.delivs(45, 10);
        d.push(g.deliv(40, 0));
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    for _ in 0..1 + g.g.below(3) {
        let (t, slot) = (100 + g.t(), g.slot());
        let which = g.g.below(3) as u8;
        let tamper = g.tampers(if which == 1 { pkb } else { skb });
        g.items.push(Item::Decay { t, slot, which, tamper });
    }
    let k = g.g.below(3);
    g.forges(k);
    if life.is_none() {
        g.restarts(2);
    }
}

fn c11(g: &mut G) {
    g.crash = 0;
    g.first_keys(40);
    for _ in 0..2 + g.g.below(3) {
        let (t, slot) = (100 + g.t(), g.slot());
        let (by, ent) = (g.by(), g.ent(40, 5, 1, 5));
        let mut d = g.delivs(60, 15);
        d.push(g.deliv(0, 0));
        g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
    }
    let k = 1 + g.g.below(3);
    g.forges(k);
    let skb = g.c.params.sk_bytes();
    if g.g.chance(50) {
        let (t, slot) = (g.t(), g.slot());
        let tamper = g.tampers(skb);
        g.items.push(Item::Decay { t, slot, which: 2, tamper });
    }
    g.restarts(1);
}

/// A long life in one process, mixed or devoted to one kind of event, so that
/// whatever an event leaves behind adds up.
fn c15(g: &mut G) {
    g.mode = Some(0);
    g.crash = 0;
    g.span = 1_000_000;
    g.first_keys(10);
    let theme = if g.c.idx < 8 { g.c.idx } else { g.g.below(8) };
    let n = if g.c.idx < 8 && g.c.flavor == "release" { 6000 } else { 100 + g.g.below(300) };
    for _ in 0..n {
        let (t, slot) = (100 + g.t(), g.slot());
        let what = if theme < 2 { g.g.below(6) } else { theme - 2 };
        match what {
            0 | 1 => {
                let fail = if what == 0 { 0 } else { 100 };
                let e = g.ent(20, fail, 2, 3);
                g.keygen(t, slot, e);
            }
            2 | 3 => {
                let fail = if what == 2 { 0 } else { 100 };
                let (by, ent) = (g.by(), g.ent(20, fail, 1, 3));
                let mut d = vec![g.deliv(50, 10)];
                d[0].delay = g.g.below(1000);
                g.items.push(Item::Enc { t, slot, by, ent, deliv: d });
            }
            4 => {
                g.forges(1);
                if let Some(Item::Forge { t: at, deliv, .. }) = g.items.last_mut() {
                    *at = t;
                    deliv.iter_mut().for_each(|d| d.delay %= 1000);
                }
            }
            _ => {
                let (inst, node, fill) = (g.g.below(3) as u8, g.node(), 7);
                if g.g.chance(10) {
                    let seed = g.fresh();
                    g.items.push(Item::DrbgInit { t, inst, node, seed });
                } else {
                    let len = len(g);
                    g.items.push(Item::DrbgReq { t, inst, node, len, fill });
                }
            }
        }
    }
}
