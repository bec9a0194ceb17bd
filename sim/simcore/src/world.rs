//! The simulated deployment: parties, network, storage, processes, virtual
//! time - and the oracles that watch every step.

use crate::api::{DrbgState, Lib};
use crate::clock;
use crate::drbg::Drbg;
use crate::exec::{self, seed48, DrbgOp, Ent, Kind, Out, Req, Src, SrcFault, Status, INSTANCES, SHARED_LOG};
use crate::heap;
use crate::ntru::{Model, Params};
use crate::plan::{By, Deliv, EntSpec, Item, Plan, TAMPERS};
use crate::prng::{hash_bytes, hash_str, mix, Prng};
use crate::sched::{self, Actor, Stop, FRESH};
use crate::spawn::{Fresh, Spawner};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Report {
    pub stats: BTreeMap<String, u64>,
    /// hash of the complete event log
    pub log: u64,
    /// hash of the order in which concurrent operations were interleaved
    pub order: u64,
    /// hash of what was done to whom, without the seeds of the contents
    pub shape: u64,
    pub sim_us: u64,
    pub decisions: Vec<(u64, u64)>,
    pub viol: Option<Viol>,
    pub events: Vec<String>,
}

struct Gen {
    pk: Vec<u8>,
    pk_pub: Vec<u8>,
    sk_mem: Vec<u8>,
    sk_disk: Vec<u8>,
    home: usize,
    sound: bool,
    /// key pair as generated
    pk_orig: Vec<u8>,
    sk_orig: Vec<u8>,
}

struct Ct {
    bytes: Vec<u8>,
    key: Option<Vec<u8>>,
    slot: usize,
    gen: usize,
    /// encapsulated under the public key as generated
    good_pk: bool,
}

enum Purpose {
    Keygen { item: usize },
    Enc { item: usize, slot: usize, gen: usize, good_pk: bool },
    Dec { ct: Option<usize>, slot: usize, gen: usize, what: &'static str },
    Drbg { inst: usize },
}

struct Job {
    why: Purpose,
    req: Req,
    by: By,
    resumes: u64,
    before: Option<DrbgState>,
    /// another operation was under way on another thread
    overlapped: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Item(usize),
    Resume(usize),
    Deliver(usize, usize, usize),
}

struct Inst {
    model: Drbg,
    saved: Option<(DrbgState, Drbg)>,
    live: bool,
}

pub struct World<'a> {
    lib: Lib,
    model: Model,
    plan: &'a Plan,
    prop: &'a str,
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    actors: Vec<Option<Actor>>,
    remote: Vec<bool>,
    queue: Vec<VecDeque<Job>>,
    running: Vec<Option<Job>>,
    stall: Vec<u64>,
    blocked: Vec<u32>,
    retries: Vec<u32>,
    abandoned: Vec<Actor>,
    slots: Vec<Vec<Gen>>,
    cts: Vec<Ct>,
    inst: Vec<Inst>,
    g: Prng,
    fixed: usize,
    switches: u64,
    spawner: Spawner,
    canon: HashMap<(usize, u8, u8), (u64, u64)>,
    /// kinds of operations completed by the thread of each node
    did: Vec<u8>,
    sender_keys: HashMap<Vec<u8>, Vec<u8>>,
    results: HashMap<Vec<u8>, u64>,
    rejected: u64,
    failed: u64,
    verbose: bool,
    fin: bool,
    /// what the library holds after each operation, beyond what first ones prepared: memory, threads, files
    held: Vec<[i64; 3]>,
    last_held: [i64; 3],
    prepared: [i64; 3],
    firsts: HashMap<(usize, &'static str, &'static str), usize>,
    pub rep: Report,
}

pub const MAX_INST: usize = 6;

fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Keygen { .. } => "keygen",
        Kind::Enc { .. } => "enc",
        Kind::Dec { .. } => "dec",
        Kind::Drbg { op: DrbgOp::Init(_), .. } => "drbg_init",
        Kind::Drbg { .. } => "drbg_bytes",
    }
}

fn bit(k: &Kind) -> u8 {
    match k {
        Kind::Keygen { .. } => 1,
        Kind::Enc { .. } => 2,
        Kind::Dec { .. } => 4,
        _ => 0,
    }
}

/// The operation with the same inputs and entropy and nothing around it.
fn lone(req: &Req, out: &Out, before: Option<&DrbgState>) -> Req {
    let mut r = req.clone();
    match &mut r.kind {
        Kind::Keygen { pk, sk } => {
            pk.fill(0);
            sk.fill(0)
        }
        Kind::Enc { ct, ss, .. } => {
            ct.fill(0);
            ss.fill(0)
        }
        Kind::Dec { ss, .. } => ss.fill(0),
        Kind::Drbg { st, .. } => {
            if st.is_none() {
                *st = before.cloned()
            }
        }
    }
    if let Some(e) = &mut r.ent {
        e.nested = None;
        if let Src::Shared(_) = e.src {
            e.src = Src::Fixed(out.drawn.clone());
        }
    }
    r
}

fn hex(b: &[u8]) -> String {
    b.iter().take(8).map(|x| format!("{x:02x}")).collect::<String>() + if b.len() > 8 { ".." } else { "" }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} instead of {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("byte {i} of {} is {:02x}, expected {:02x}", a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

impl<'a> World<'a> {
    pub fn new(lib: Lib, params: Params, plan: &'a Plan, verbose: bool) -> World<'a> {
        let n = plan.nodes.max(1) as usize;
        let mut inst = INSTANCES.lock().unwrap();
        inst.clear();
        inst.resize_with(MAX_INST, || None);
        drop(inst);
        SHARED_LOG.lock().unwrap().clear();
        let spawner = Spawner::start(&lib);
        World {
            lib,
            model: Model::new(params),
            plan,
            prop: &plan.prop,
            now: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            actors: (0..n).map(|_| None).collect(),
            remote: vec![false; n],
            queue: (0..n).map(|_| VecDeque::new()).collect(),
            running: (0..n).map(|_| None).collect(),
            stall: vec![0; n],
            blocked: vec![0; n],
            retries: vec![0; plan.items.len()],
            abandoned: vec![],
            slots: (0..plan.slots.max(1)).map(|_| vec![]).collect(),
            cts: vec![],
            inst: (0..MAX_INST).map(|_| Inst { model: Drbg::new(), saved: None, live: false }).collect(),
            g: Prng::new(plan.sched.seed),
            fixed: 0,
            switches: 0,
            spawner,
            canon: HashMap::new(),
            did: vec![0; n],
            sender_keys: HashMap::new(),
            results: HashMap::new(),
            rejected: 0,
            failed: 0,
            verbose,
            fin: false,
            held: vec![],
            last_held: [0; 3],
            prepared: [0; 3],
            firsts: HashMap::new(),
            rep: Report::default(),
        }
    }

    fn stat(&mut self, k: &str, n: u64) {
        *self.rep.stats.entry(k.to_string()).or_insert(0) += n;
    }

    fn ev(&mut self, tag: &str, node: usize, x: u64) {
        self.rep.log = mix(mix(mix(self.rep.log, hash_str(tag)), mix(self.now, node as u64)), x);
        if self.verbose {
            let s = format!("t={} node={} {} {:016x}", self.now, node, tag, x);
            self.rep.events.push(s);
        }
    }

    /// reports a broken property; only the one under check counts
    fn fail(&mut self, props: &[&str], class: &str, detail: String) {
        if props.contains(&self.prop) && self.rep.viol.is_none() {
            self.rep.viol = Some(Viol { class: class.to_string(), detail: format!("t={}us {detail}", self.now) });
        }
    }

    fn push(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(Reverse((t, self.seq, e)));
    }

    fn is(&self, props: &[&str]) -> bool {
        props.contains(&self.prop)
    }

    // ---- main loop ----

    pub fn run(mut self) -> Report {
        self.sizes();
        if self.rep.viol.is_some() {
            return std::mem::take(&mut self.rep);
        }
        for (i, it) in self.plan.items.iter().enumerate() {
            self.seq += 1;
            self.heap.push(Reverse((it.time(), self.seq, Ev::Item(i))));
        }
        self.drain();
        self.judge_held();
        if self.rep.viol.is_none() && !self.is(&["C07", "C08"]) {
            self.fin = true;
            self.finale();
        }
        self.rep.sim_us = self.now;
        let (reads, draws) = clock::used();
        self.stat("clock_reads_by_library", reads);
        self.stat("system_randomness_requests_by_library", draws);
        // actors that are parked in the middle of an operation stay behind;
        // the process ends with the run
        for a in self.actors.drain(..).flatten().chain(self.abandoned.drain(..)) {
            std::mem::forget(a);
        }
        std::mem::take(&mut self.rep)
    }

    fn drain(&mut self) {
        while let Some(Reverse((t, _, e))) = self.heap.pop() {
            if self.rep.viol.is_some() {
                return;
            }
            self.now = self.now.max(t);
            match e {
                Ev::Item(i) => self.item(i),
                Ev::Resume(n) => self.resume(n),
                Ev::Deliver(ct, item, d) => self.deliver(ct, item, d),
            }
            let deadlock = self.running.iter().any(|r| r.is_some())
                && self.running.iter().zip(&self.blocked).all(|(r, b)| r.is_none() || *b > 4)
                && self.heap.iter().all(|Reverse((_, _, e))| matches!(e, Ev::Resume(_)));
            if deadlock && !self.abandoned.is_empty() {
                // the abandoned ones may hold what the others wait for
                for a in std::mem::take(&mut self.abandoned) {
                    while let Stop::Yield = a.resume(i64::MAX) {}
                    std::mem::forget(a);
                }
                self.blocked.fill(0);
            } else if deadlock {
                self.fail(&["C05", "C09", "C01"], "deadlock", "operations wait for each other for ever".into());
                return;
            }
        }
    }

    fn sizes(&mut self) {
        let p = &self.model.p;
        let want = (p.pk_bytes(), p.sk_bytes(), p.ct_bytes(), 32);
        let got = (self.lib.pk_bytes, self.lib.sk_bytes, self.lib.ct_bytes, self.lib.ss_bytes);
        let name = p.name;
        if want != got {
            self.fail(&["C03"], "sizes", format!("sizes {got:?} instead of {want:?}"));
        }
        if self.lib.variant != name {
            self.fail(&["C03"], "name", format!("algorithm name {} instead of {name}", self.lib.variant));
        }
    }

    // ---- items ----

    fn ent(&mut self, e: &EntSpec, slot: usize) -> Ent {
        let nested = e.nested.map(|(draw, kind, seed)| {
            let (pkb, skb, ctb) = (self.lib.pk_bytes, self.lib.sk_bytes, self.lib.ct_bytes);
            let src = |s| Some(Ent { src: Src::Prng(s), fault: None, nested: None });
            let key = self.slots[slot].last();
            let kind = match (kind % 4, key) {
                (1, Some(k)) => Kind::Enc { ct: vec![0x5a; ctb], ss: vec![0x5a; 32], pk: k.pk_orig.clone() },
                (2, Some(k)) => {
                    let mut ct = vec![0u8; ctb];
                    match self.cts.iter().rev().find(|c| c.slot == slot) {
                        Some(c) => ct.copy_from_slice(&c.bytes),
                        None => Prng::new(seed).fill(&mut ct),
                    }
                    Kind::Dec { ss: vec![0x5a; 32], ct, sk: k.sk_orig.clone() }
                }
                (3, _) => {
                    let s = seed48(seed);
                    let mut st = DrbgState { key: [0; 32], v: [0; 16], count: 1 };
                    st.key.copy_from_slice(&s[..32]);
                    st.v.copy_from_slice(&s[32..]);
                    Kind::Drbg { inst: 0, st: Some(st), op: DrbgOp::Bytes(1 + seed % 300), fill: 0x5a }
                }
                _ => Kind::Keygen { pk: vec![0x5a; pkb], sk: vec![0x5a; skb] },
            };
            let ent = match kind {
                Kind::Keygen { .. } | Kind::Enc { .. } => src(seed),
                _ => None,
            };
            (draw, Box::new(Req { kind, ent }))
        });
        Ent { src: e.src.clone(), fault: e.fault.clone(), nested }
    }

    fn prior(&self, by: &By, len: usize, old: Option<&[u8]>, salt: u64) -> Vec<u8> {
        match by.prior {
            0 => vec![0; len],
            1 => vec![0xff; len],
            2 => old.map(|o| o.to_vec()).unwrap_or_else(|| vec![0; len]),
            s => {
                let mut v = vec![0; len];
                Prng::new(mix(s, salt)).fill(&mut v);
                v
            }
        }
    }

    fn node(&self, n: u8) -> usize {
        n as usize % self.remote.len()
    }
    fn slot(&self, s: u8) -> usize {
        s as usize % self.slots.len()
    }

    fn item(&mut self, i: usize) {
        let plan = self.plan;
        let id = i;
        match &plan.items[i] {
            Item::Keygen { slot, by, ent, .. } => {
                let slot = self.slot(*slot);
                let e = self.ent(ent, slot);
                let old = self.slots[slot].last();
                let pk = self.prior(by, self.lib.pk_bytes, old.map(|k| &k.pk[..]), 1);
                let sk = self.prior(by, self.lib.sk_bytes, old.map(|k| &k.sk_mem[..]), 2);
                if by.prior == 2 && old.is_some() {
                    self.stat("op.rotation_in_place", 1);
                }
                let req = Req { kind: Kind::Keygen { pk, sk }, ent: Some(e) };
                self.submit(Job { why: Purpose::Keygen { item: i }, req, by: by.clone(), resumes: 0, before: None, overlapped: false });
            }
            Item::Enc { slot, by, ent, .. } => {
                let slot = self.slot(*slot);
                let Some(k) = self.slots[slot].last() else {
                    return self.later(id);
                };
                let (pk, good) = (k.pk_pub.clone(), k.pk_pub == k.pk_orig);
                let gen = self.slots[slot].len() - 1;
                let e = self.ent(ent, slot);
                let old = self.cts.last().map(|c| c.bytes.clone());
                let ct = self.prior(by, self.lib.ct_bytes, old.as_deref(), 1);
                let ss = self.prior(by, 32, None, 2);
                let req = Req { kind: Kind::Enc { ct, ss, pk }, ent: Some(e) };
                let why = Purpose::Enc { item: i, slot, gen, good_pk: good };
                self.submit(Job { why, req, by: by.clone(), resumes: 0, before: None, overlapped: false });
            }
            Item::Forge { slot, kind, seed, deliv, .. } => {
                let slot = self.slot(*slot);
                let Some(k) = self.slots[slot].last() else {
                    return self.later(id);
                };
                let bytes = forge(&self.model, *kind, *seed, &k.pk_orig, &k.sk_orig);
                let gen = self.slots[slot].len() - 1;
                self.stat(&format!("fault.forge_{}", FORGES[*kind as usize % FORGES.len()]), 1);
                self.rep.shape = mix(self.rep.shape, 1000 + *kind as u64);
                self.cts.push(Ct { bytes, key: None, slot, gen, good_pk: false });
                let c = self.cts.len() - 1;
                for (d, x) in deliv.iter().enumerate() {
                    self.push(self.now + x.delay, Ev::Deliver(c, i, d));
                }
            }
            Item::Decay { slot, which, tamper, .. } => {
                let slot = self.slot(*slot);
                let n = self.slots[slot].len();
                if n == 0 {
                    return;
                }
                let other = if n > 1 { self.slots[slot][0].sk_orig.clone() } else { vec![] };
                let k = self.slots[slot].last_mut().unwrap();
                for t in tamper {
                    match which % 3 {
                        0 => t.apply(&mut k.sk_disk, &other, &self.model.p),
                        1 => t.apply(&mut k.pk_pub, &[], &self.model.p),
                        _ => t.apply(&mut k.sk_mem, &other, &self.model.p),
                    }
                }
                for t in tamper {
                    self.stat(&format!("fault.disk_{}", TAMPERS[t.kind as usize % 16]), 1);
                }
            }
            Item::Restart { node, .. } => {
                let n = self.node(*node);
                self.restart(n);
            }
            Item::Stall { node, dur, .. } => {
                let n = self.node(*node);
                self.stall[n] = self.stall[n].max(self.now + dur);
                self.stat("fault.stall", 1);
                self.ev("stall", n, *dur);
            }
            Item::DrbgNew { inst, kind, a, b, .. } => {
                let i = *inst as usize % MAX_INST;
                if !self.free(i) {
                    return self.later(id);
                }
                let (obj, m) = self.drbg_make(*kind, *a, *b);
                INSTANCES.lock().unwrap()[i] = Some(obj);
                self.inst[i].model = m;
                self.inst[i].live = true;
                self.ev("drbg_new", i, *a);
            }
            Item::DrbgInit { inst, node, seed, .. } => self.drbg_op(id, *inst, *node, DrbgOp::Init(seed_kind(*seed)), 0),
            Item::DrbgReq { inst, node, len, fill, .. } => self.drbg_op(id, *inst, *node, DrbgOp::Bytes(*len), *fill),
            Item::DrbgMany { inst, node, n, len, fill, .. } => self.drbg_op(id, *inst, *node, DrbgOp::Many(*n, *len), *fill),
            Item::DrbgClone { inst, from, .. } => {
                let (i, f) = (*inst as usize % MAX_INST, *from as usize % MAX_INST);
                if i == f || !self.inst[f].live {
                    return self.stat("skipped_items", 1);
                }
                if !self.free(i) || !self.free(f) {
                    return self.later(id);
                }
                let mut t = INSTANCES.lock().unwrap();
                let c = t[f].as_ref().unwrap().dup();
                t[i] = Some(c);
                drop(t);
                self.inst[i].model = self.inst[f].model.clone();
                self.inst[i].live = true;
                self.stat("op.drbg_clone", 1);
                self.ev("drbg_clone", i, f as u64);
            }
            Item::DrbgSave { inst, .. } => {
                let i = *inst as usize % MAX_INST;
                if !self.inst[i].live {
                    return self.stat("skipped_items", 1);
                }
                if !self.free(i) {
                    return self.later(id);
                }
                let t = INSTANCES.lock().unwrap();
                let o = t[i].as_ref().unwrap();
                let st = o.save();
                let same = o.same(&st);
                drop(t);
                if !same {
                    self.fail(&["C07"], "saved state differs", "a state saved and restored is not equal to the live one".into());
                }
                self.inst[i].saved = Some((st, self.inst[i].model.clone()));
                self.stat("op.drbg_save", 1);
                self.ev("drbg_save", i, 0);
            }
            Item::DrbgRestore { inst, .. } => {
                let i = *inst as usize % MAX_INST;
                let Some((st, m)) = self.inst[i].saved.clone() else {
                    return self.stat("skipped_items", 1);
                };
                if !self.free(i) {
                    return self.later(id);
                }
                INSTANCES.lock().unwrap()[i] = Some((self.lib.drbg_restore)(&st));
                self.inst[i].model = m;
                self.inst[i].live = true;
                self.stat("fault.drbg_rollback_restore", 1);
                self.ev("drbg_restore", i, 0);
            }
        }
    }

    /// what an item needs is not there yet or in use: try again shortly
    fn later(&mut self, i: usize) {
        self.retries[i] += 1;
        if self.retries[i] > 40 {
            return self.stat("skipped_items", 1);
        }
        let t = self.now + 5_000 * self.retries[i] as u64;
        self.push(t, Ev::Item(i));
    }

    fn drbg_make(&mut self, kind: u8, a: u64, b: u64) -> (Box<dyn crate::api::DrbgObj>, Drbg) {
        let mut m = Drbg::new();
        match kind {
            0 => ((self.lib.drbg_new)(), m),
            1 => {
                let mut o = (self.lib.drbg_new)();
                o.init(seed_kind(a));
                m.init(&seed_kind(a));
                self.stat("op.drbg_seed", 1);
                (o, m)
            }
            _ => {
                // a state as restored from storage, about to carry or to wrap
                let mut g = Prng::new(a);
                g.fill(&mut m.key);
                g.fill(&mut m.v);
                let ones = (b & 0x1f).min(16) as usize;
                let low = ((b >> 8) & 0xff) as u8;
                if ones > 0 {
                    for x in m.v[16 - ones..].iter_mut() {
                        *x = 0xff;
                    }
                    m.v[15] = 0xffu8.wrapping_sub(low);
                }
                let count = (b >> 16) as u32 as i32;
                m.count = Some(count);
                self.stat("fault.drbg_aged_state", 1);
                let st = DrbgState { key: m.key, v: m.v, count };
                ((self.lib.drbg_restore)(&st), m)
            }
        }
    }

    fn free(&self, i: usize) -> bool {
        let busy = |j: &Job| matches!(j.why, Purpose::Drbg { inst } if inst == i);
        !self.running.iter().flatten().any(busy) && !self.queue.iter().flatten().any(busy)
    }

    fn drbg_op(&mut self, id: usize, inst: u8, node: u8, op: DrbgOp, fill: u8) {
        let i = inst as usize % MAX_INST;
        if !self.free(i) {
            return self.later(id);
        }
        if !self.inst[i].live {
            INSTANCES.lock().unwrap()[i] = Some((self.lib.drbg_new)());
            self.inst[i].model = Drbg::new();
            self.inst[i].live = true;
        }
        let by = By { node, model: false, prior: 0, crash: 0 };
        let req = Req { kind: Kind::Drbg { inst: i as u8, st: None, op, fill }, ent: None };
        self.submit(Job { why: Purpose::Drbg { inst: i }, req, by, resumes: 0, before: None, overlapped: false });
    }

    fn restart(&mut self, n: usize) {
        self.stat("fault.restart", 1);
        self.ev("restart", n, 0);
        if let Some(j) = self.running[n].take() {
            // abandoned in the middle; whoever wanted it asks again
            self.stat("fault.abandoned_mid_operation", 1);
            if let Some(a) = self.actors[n].take() {
                self.abandoned.push(a);
            }
            self.remote[n] = true;
            self.blocked[n] = 0;
            if let Purpose::Drbg { inst } = j.why {
                // the generator died with the process
                self.inst[inst].live = false;
            } else {
                self.queue[n].push_front(j);
            }
        }
        self.remote[n] = true;
        self.pump(n);
    }

    // ---- execution ----

    fn submit(&mut self, j: Job) {
        let n = self.node(j.by.node);
        self.queue[n].push_back(j);
        self.pump(n);
    }

    fn pump(&mut self, n: usize) {
        while self.running[n].is_none() && self.rep.viol.is_none() {
            let Some(mut j) = self.queue[n].pop_front() else {
                return;
            };
            self.refresh(&mut j, n);
            self.ev(kind_name(&j.req.kind), n, 1);
            if j.by.model {
                let out = self.by_model(&j.req);
                self.stat("op.by_model", 1);
                self.done(j, out, n);
                continue;
            }
            let shared = matches!(&j.req.ent, Some(Ent { src: Src::Shared(_), .. }));
            let drbg = matches!(j.why, Purpose::Drbg { .. });
            if (j.by.crash != 0 || self.remote[n]) && !shared && !drbg {
                let crash = j.by.crash;
                match self.spawner.run(&j.req, crash) {
                    Fresh::Out(o) => {
                        self.stat("op.in_fresh_process", 1);
                        self.done(j, *o, n)
                    }
                    Fresh::Crashed => {
                        self.stat(if crash > 0 { "fault.crash_at_step" } else { "fault.crash_at_request" }, 1);
                        self.ev("crash", n, crash as u64);
                        self.remote[n] = true;
                        j.by.crash = 0;
                        self.queue[n].push_front(j);
                    }
                    Fresh::Died(s) => {
                        let d = format!("{} killed its process ({s})", kind_name(&j.req.kind));
                        self.fail(ABORT_PROPS, "process died", d);
                    }
                }
                continue;
            }
            if let Purpose::Drbg { inst } = j.why {
                let t = INSTANCES.lock().unwrap();
                match t[inst].as_ref() {
                    Some(o) => j.before = Some(o.save()),
                    None => continue,
                }
            }
            if self.actors[n].is_none() {
                self.actors[n] = Some(Actor::spawn(self.lib));
            }
            self.actors[n].as_ref().unwrap().submit(j.req.clone());
            self.running[n] = Some(j);
            if self.plan.sched.mode == 0 || self.fin {
                self.resume(n);
            } else {
                self.push(self.now, Ev::Resume(n));
            }
        }
    }

    /// keys are read when the operation really starts
    fn refresh(&mut self, j: &mut Job, n: usize) {
        if let (Purpose::Dec { slot, gen, .. }, Kind::Dec { sk, .. }) = (&j.why, &mut j.req.kind) {
            let k = &self.slots[*slot][*gen];
            let src = if self.remote[n] || k.home != n { &k.sk_disk } else { &k.sk_mem };
            sk.clone_from(src);
        }
    }

    fn decision(&mut self, n: usize) -> (u64, u64) {
        let s = &self.plan.sched;
        let d = if self.fixed < s.fixed.len() {
            s.fixed[self.fixed]
        } else if s.only_fixed || s.mode == 0 || self.fin || self.switches > 600 {
            (0, 0)
        } else if s.mode == 4 {
            if n == 0 {
                let reach = (sched::edges() as u64 * (s.log_quantum as u64 % 4 + 1) / 8).max(1);
                let first = self.running[n].as_ref().is_some_and(|j| j.resumes == 0);
                let k = 1 + self.g.below(if first { reach } else { 3 });
                let after = if self.g.chance(80) { 0 } else { self.g.below(200) };
                (FRESH | k << 20 | after, 250 + self.g.below(100))
            } else {
                (0, 0)
            }
        } else {
            let q = if s.mode == 2 {
                let b = self.g.below(s.log_quantum.max(1) as u64 + 1);
                if self.g.chance(15) {
                    0
                } else {
                    1 + self.g.below(1 << b)
                }
            } else if s.mode == 3 && !self.g.chance(30) {
                // close to where the operation enters new code
                let b = self.g.below(10);
                let after = if self.g.chance(60) { 0 } else { self.g.below(1 << b) };
                let reach = (sched::edges() as u64 * (s.log_quantum as u64 % 4 + 1) / 8).max(1);
                FRESH | (1 + self.g.below(reach)) << 20 | after
            } else {
                0
            };
            let b = self.g.below(18);
            (q, self.g.below(1 << b))
        };
        self.fixed += 1;
        self.rep.decisions.push(d);
        d
    }

    fn resume(&mut self, n: usize) {
        if self.running[n].is_none() {
            return;
        }
        if self.stall[n] > self.now && !self.fin {
            let t = self.stall[n];
            return self.push(t, Ev::Resume(n));
        }
        loop {
            let (q, pause) = self.decision(n);
            clock::set(self.plan.sched.seed, self.now);
            let a = self.actors[n].as_ref().unwrap();
            let stop = a.resume(if q == 0 { i64::MAX } else { q as i64 });
            let others = self.running.iter().filter(|r| r.is_some()).count() as u64;
            let j = self.running[n].as_mut().unwrap();
            j.resumes += 1;
            let tag = mix(hash_str(kind_name(&j.req.kind)), mix(n as u64, j.resumes));
            if others > 1 {
                self.running.iter_mut().flatten().for_each(|j| j.overlapped = true);
                self.rep.order = mix(self.rep.order, mix(tag, if q >= FRESH { q >> 20 } else { 64 - q.leading_zeros() as u64 }));
            }
            self.shared_draws();
            match stop {
                Stop::Done(out) => {
                    self.blocked[n] = 0;
                    let j = self.running[n].take().unwrap();
                    self.done(j, *out, n);
                    if !self.fin {
                        self.pump(n);
                    }
                    return;
                }
                Stop::Yield => {
                    self.blocked[n] = 0;
                    self.switches += 1;
                    self.ev("yield", n, tag);
                    self.stat("switches", 1);
                    if others > 1 {
                        self.stat("switches_concurrent", 1);
                    }
                    if (self.plan.sched.mode == 0 && self.plan.sched.fixed.is_empty()) || self.fin {
                        continue;
                    }
                    return self.push(self.now + pause, Ev::Resume(n));
                }
                Stop::Blocked => {
                    self.blocked[n] += 1;
                    self.stat("blocked_polls", 1);
                    return self.push(self.now + 1000, Ev::Resume(n));
                }
            }
        }
    }

    fn shared_draws(&mut self) {
        let log: Vec<_> = SHARED_LOG.lock().unwrap().drain(..).collect();
        for (i, b) in log {
            let m = &mut self.inst[i as usize % MAX_INST].model;
            let mut w = vec![0u8; b.len()];
            m.bytes(&mut w);
            self.stat("op.shared_draw", 1);
            if w != b {
                let d = format!("generator {i} as entropy source: {}", first_diff(&b, &w));
                self.fail(&["C07", "C08"], "wrong bytes", d);
            }
        }
    }

    fn by_model(&mut self, req: &Req) -> Out {
        let p = &self.model.p;
        let sizes: Vec<usize> = match req.kind {
            Kind::Keygen { .. } => vec![p.seed_bytes(), 32],
            Kind::Enc { .. } => vec![p.seed_bytes()],
            _ => vec![],
        };
        let (status, draws, drawn) = match &req.ent {
            Some(e) => exec::draw(&self.lib, e, &sizes),
            None => (Status::Ok, vec![], vec![]),
        };
        let mut bufs = vec![];
        if status == Status::Ok {
            bufs = match &req.kind {
                Kind::Keygen { .. } => {
                    let k = self.model.keypair(&drawn[..sizes[0]], &drawn[sizes[0]..]);
                    vec![k.pk, k.sk]
                }
                Kind::Enc { pk, .. } => {
                    let (c, k) = self.model.encap(&drawn, pk);
                    vec![c, k]
                }
                Kind::Dec { ct, sk, .. } => vec![self.model.decap(ct, sk).k],
                _ => vec![],
            };
        }
        self.shared_draws();
        Out { status, bufs, draws, drawn, reseeds: 0, st: None, nested: None, steps: 0, trace: 0, accesses: 0, places: 0 }
    }

    // ---- results ----

    fn done(&mut self, j: Job, out: Out, n: usize) {
        let name = kind_name(&j.req.kind);
        self.stat(&format!("op.{name}"), 1);
        let h = out.bufs.iter().fold(mix(out.steps, out.places), |h, b| mix(h, hash_bytes(b)));
        let code = match &out.status {
            Status::Ok => "ok",
            Status::Err { .. } => "err",
            Status::Panic { .. } => "panic",
        };
        self.ev(code, n, h);
        let source = match &j.req.ent {
            Some(Ent { src: Src::Pattern(k, _), .. }) => 100 + *k as u64,
            Some(Ent { src: Src::Prng(_), .. }) => 1,
            Some(Ent { src: Src::Drbg(_), .. }) => 2,
            Some(_) => 3,
            None => 0,
        };
        let shape = mix(mix(hash_str(name), hash_str(code)), mix(j.by.prior.min(3), mix(source, out.draws.len() as u64)));
        self.rep.shape = mix(self.rep.shape, mix(shape, self.remote[n] as u64));
        self.stat("steps", out.steps);
        if out.accesses > 0 {
            self.stat("memory_accesses", out.accesses);
        }
        if !j.by.model {
            let (mut own, mut others) = (0, [0, 0]);
            if j.resumes > 0 {
                own = self.did[n];
                for (i, r) in self.running.iter().enumerate().filter(|(i, _)| *i != n) {
                    others[0] |= self.did[i];
                    others[1] |= self.did[i] | r.as_ref().map_or(0, |j| bit(&j.req.kind));
                }
                self.did[n] |= bit(&j.req.kind);
            }
            self.judge(&j.req, &out, j.before.as_ref());
            self.judge_path(&j.req, &out, [own, own], others, j.overlapped);
            if let (Some(o), Some(e)) = (&out.nested, &j.req.ent) {
                if let Some((_, q)) = &e.nested {
                    self.stat("fault.reentered", 1);
                    self.judge(q, o, None);
                    self.judge_path(q, o, [own, own | bit(&j.req.kind)], others, j.overlapped);
                    self.did[n] |= bit(&q.kind);
                }
            }
        }
        if self.prop == "C15" && self.running.iter().all(|r| r.is_none()) {
            let (threads, files) = heap::threads_and_files();
            let own = self.actors.iter().flatten().count() as i64;
            let now = [heap::held(), threads - own, files];
            // the first operation of its kind on a thread, and the longest request so
            // far, may prepare something for those that follow
            let size = match &j.req.kind {
                Kind::Drbg { op: DrbgOp::Bytes(n) | DrbgOp::Many(_, n), .. } => *n as usize + 1,
                _ => 1,
            };
            let mut kinds = vec![(n, name, code)];
            if let (Some(_), Some(Ent { nested: Some((_, q)), .. })) = (&out.nested, &j.req.ent) {
                kinds.push((n, kind_name(&q.kind), "nested"));
            }
            let mut first = false;
            for k in kinds {
                let longest = self.firsts.entry(k).or_default();
                first |= *longest < size;
                *longest = size.max(*longest);
            }
            for i in 0..3 {
                let grown = now[i] - self.last_held[i];
                if first && grown > 0 {
                    self.prepared[i] += grown;
                }
            }
            self.last_held = now;
            self.held.push([0, 1, 2].map(|i| now[i] - self.prepared[i]));
        }
        if self.rep.viol.is_some() {
            return;
        }
        let plan = self.plan;
        match j.why {
            Purpose::Keygen { item } => {
                let Item::Keygen { slot, disk, pkdisk, .. } = &plan.items[item] else { return };
                let slot = self.slot(*slot);
                if out.status != Status::Ok {
                    self.failed += 1;
                    if let (2, Some(k)) = (j.by.prior, self.slots[slot].last_mut()) {
                        if out.bufs.len() == 2 && !self.remote[n] {
                            // the buffers are the live key pair
                            k.pk.clone_from(&out.bufs[0]);
                            if k.pk_pub == k.pk_orig {
                                k.pk_pub.clone_from(&out.bufs[0]);
                            }
                            k.sk_mem.clone_from(&out.bufs[1]);
                        }
                    }
                    return;
                }
                let (pk, sk) = (out.bufs[0].clone(), out.bufs[1].clone());
                let seed = self.model.p.seed_bytes();
                let healthy = is_healthy(j.req.ent.as_ref());
                let sound = healthy
                    || (out.drawn.len() >= seed + 32 && self.model.keypair(&out.drawn[..seed], &out.drawn[seed..seed + 32]).sound);
                let (mut sk_disk, mut pk_pub) = (sk.clone(), pk.clone());
                let (osk, opk) = match self.slots[slot].last() {
                    Some(o) => (o.sk_orig.clone(), o.pk_orig.clone()),
                    None => (vec![0; sk.len()], vec![0; pk.len()]),
                };
                for t in disk {
                    t.apply(&mut sk_disk, &osk, &self.model.p);
                    self.stat(&format!("fault.disk_{}", TAMPERS[t.kind as usize % 16]), 1);
                }
                for t in pkdisk {
                    t.apply(&mut pk_pub, &opk, &self.model.p);
                    self.stat(&format!("fault.pkdisk_{}", TAMPERS[t.kind as usize % 16]), 1);
                }
                if !sound {
                    self.stat("keys_unsound", 1);
                }
                self.slots[slot].push(Gen {
                    pk_orig: pk.clone(),
                    sk_orig: sk.clone(),
                    pk,
                    pk_pub,
                    sk_mem: sk,
                    sk_disk,
                    home: n,
                    sound,
                });
            }
            Purpose::Enc { item, slot, gen, good_pk } => {
                if out.status != Status::Ok {
                    self.failed += 1;
                    return;
                }
                let (bytes, key) = (out.bufs[0].clone(), out.bufs[1].clone());
                self.sender_keys.insert(key.clone(), bytes.clone());
                self.cts.push(Ct { bytes, key: Some(key), slot, gen, good_pk });
                let c = self.cts.len() - 1;
                if self.fin {
                    return;
                }
                let Item::Enc { deliv, .. } = &plan.items[item] else { return };
                if deliv.is_empty() {
                    self.stat("fault.message_lost", 1);
                }
                if deliv.len() > 1 {
                    self.stat("fault.message_duplicated", deliv.len() as u64 - 1);
                }
                for (d, x) in deliv.iter().enumerate() {
                    self.push(self.now + x.delay, Ev::Deliver(c, item, d));
                }
            }
            Purpose::Dec { ct, slot, gen, what } => self.judge_dec(&j.req, &out, ct, slot, gen, what, n),
            Purpose::Drbg { inst } => self.judge_drbg(&j.req, &out, inst),
        }
    }

    fn deliver(&mut self, ct: usize, item: usize, d: usize) {
        let plan = self.plan;
        let x: &Deliv = match &plan.items[item] {
            Item::Enc { deliv, .. } | Item::Forge { deliv, .. } => &deliv[d],
            _ => return,
        };
        let c = &self.cts[ct];
        let (mut slot, mut gen) = (c.slot, c.gen);
        let mut bytes = c.bytes.clone();
        let other = self.cts[..ct].iter().rev().find(|o| o.bytes != c.bytes).map(|o| o.bytes.clone());
        let other = other.unwrap_or_else(|| {
            let k = self.slots[slot].last().unwrap();
            k.pk_orig.clone()
        });
        let mut what = "intact";
        if self.cts.len() > ct + 1 && self.cts[ct + 1..].iter().any(|o| o.slot == slot) {
            self.stat("fault.message_reordered", 1);
        }
        if x.misdirect > 0 {
            let s = (slot + x.misdirect as usize) % self.slots.len();
            if s != slot && !self.slots[s].is_empty() {
                slot = s;
                gen = self.slots[s].len() - 1;
            } else if gen > 0 {
                gen -= 1;
            } else if self.slots[slot].len() > 1 {
                gen = self.slots[slot].len() - 1;
            }
            self.stat("fault.message_misdirected", 1);
            what = "misdirected";
        }
        for t in &x.tamper {
            t.apply(&mut bytes, &other, &self.model.p);
            what = "damaged";
        }
        for t in &x.tamper {
            self.stat(&format!("fault.net_{}", TAMPERS[t.kind as usize % 16]), 1);
        }
        self.rep.shape = x.tamper.iter().fold(mix(self.rep.shape, x.misdirect as u64), |h, t| {
            mix(h, mix(t.kind as u64, if t.kind == 0 { t.a } else { 0 }))
        });
        let n = self.node(x.by.node);
        self.ev("deliver", n, hash_bytes(&bytes));
        let ss = self.prior(&x.by, 32, self.cts[ct].key.as_deref(), 3);
        let sk = self.slots[slot][gen].sk_mem.clone();
        let req = Req { kind: Kind::Dec { ss, ct: bytes, sk }, ent: None };
        let why = Purpose::Dec { ct: Some(ct), slot, gen, what };
        self.submit(Job { why, req, by: x.by.clone(), resumes: 0, before: None, overlapped: false });
    }

    /// once the faults are over, a new session with every key completes
    fn finale(&mut self) {
        let nodes = self.remote.len();
        for s in 0..self.slots.len() {
            let Some(k) = self.slots[s].last() else { continue };
            let n = (0..nodes).find(|n| self.running[*n].is_none());
            let Some(n) = n else { continue };
            let gen = self.slots[s].len() - 1;
            let good_pk = k.pk_pub == k.pk_orig;
            let pk = k.pk_pub.clone();
            let home = k.home;
            let by = By { node: n as u8, model: false, prior: 1, crash: 0 };
            let ent = Ent { src: Src::Prng(mix(self.plan.sched.seed, 1000 + s as u64)), fault: None, nested: None };
            let req = Req { kind: Kind::Enc { ct: vec![0xff; self.lib.ct_bytes], ss: vec![0xff; 32], pk }, ent: Some(ent) };
            let before = self.cts.len();
            self.submit(Job { why: Purpose::Enc { item: 0, slot: s, gen, good_pk }, req, by: by.clone(), resumes: 0, before: None, overlapped: false });
            if self.cts.len() == before || self.rep.viol.is_some() {
                continue;
            }
            let c = self.cts.len() - 1;
            let (bytes, sk) = (self.cts[c].bytes.clone(), vec![]);
            let mut by = by;
            if self.running[home].is_none() {
                by.node = home as u8;
            }
            self.stat("op.final_session", 1);
            let req = Req { kind: Kind::Dec { ss: vec![0; 32], ct: bytes, sk }, ent: None };
            self.submit(Job { why: Purpose::Dec { ct: Some(c), slot: s, gen, what: "final" }, req, by, resumes: 0, before: None, overlapped: false });
        }
    }
}

pub const ABORT_PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09"];

/// entropy that cannot yield a zero secret or a repeated result
pub fn is_healthy(e: Option<&Ent>) -> bool {
    matches!(e, Some(Ent { src: Src::Prng(_) | Src::Drbg(_) | Src::Shared(_), .. }))
}

/// 48-byte seeds including degenerate ones
pub fn seed_kind(s: u64) -> [u8; 48] {
    match s % 16 {
        0 => [0; 48],
        1 => [0xff; 48],
        2 => {
            let mut x = [0u8; 48];
            x[(s >> 8) as usize % 48] = (s >> 16) as u8 | 1;
            x
        }
        3 => {
            let mut x = [0u8; 48];
            for (i, b) in x.iter_mut().enumerate() {
                *b = i as u8;
            }
            x
        }
        _ => seed48(s),
    }
}

pub const FORGES: [&str; 16] = [
    "m_one_coefficient", "m_unbalanced", "m_extra_pair", "r_one_out_of_range", "r_many_out_of_range", "r_and_m", "valid_unused_bits",
    "zero_plaintext", "r_minus_two", "m_arbitrary", "r_half_q", "valid", "r_and_unused_bits", "m_only_plus_wrong", "m_only_minus_wrong",
    "r_power_of_two",
];

/// A ciphertext an adversary could build from the public key. The sum f(1) of
/// the secret polynomial only serves to pick variants that come through.
pub fn forge(md: &Model, kind: u8, seed: u64, pk: &[u8], sk: &[u8]) -> Vec<u8> {
    let mut g = Prng::new(seed);
    let f = Model::lift_signed(&md.unpack_s3(&sk[..md.p.s3_bytes()]));
    let f1 = f.iter().fold(0u16, |a, x| a.wrapping_add(*x));
    let q = md.p.q() as u16;
    let mut c = vec![];
    // a message with m(1) != 0 shifts all coefficients of c*f by a constant
    // when decrypted: try for a small one
    for _ in 0..12 {
        let (x, k) = forge_one(md, kind, g.u64(), pk);
        c = x;
        let shift = k.wrapping_mul(f1) & (q - 1);
        if shift < q / 8 || shift > q - q / 8 {
            break;
        }
    }
    c
}

fn forge_one(md: &Model, kind: u8, seed: u64, pk: &[u8]) -> (Vec<u8>, u16) {
    let p = &md.p;
    let n = p.n;
    let mut g = Prng::new(seed);
    let mut s = vec![0u8; p.seed_bytes()];
    g.fill(&mut s);
    let (r, mut m) = md.sample_rm(&s);
    let mut rs = Model::lift_signed(&r);
    let kind = kind as usize % FORGES.len();
    let at = |g: &mut Prng| match g.below(6) {
        0 => 0,
        1 => n - 2,
        2 => n - 3,
        3 => g.below(8) as usize,
        _ => g.below(n as u64 - 1) as usize,
    };
    // changes up to k coefficients of m from one value to another
    let change = |m: &mut [u16], g: &mut Prng, k: u64, from: u16, to: u16| {
        for _ in 0..k {
            let off = g.below(n as u64) as usize;
            if let Some(i) = (0..n - 1).map(|i| (i + off) % (n - 1)).find(|&i| m[i] == from) {
                m[i] = to;
            }
        }
    };
    let amount = |g: &mut Prng| match g.below(3) {
        0 => 1 + g.below(4),
        1 => 1 + g.below(60),
        _ => 1u64 << g.below(7),
    };
    let q = p.q() as u16;
    match kind {
        // one coefficient too many or too few
        0 => {
            let i = at(&mut g);
            m[i] = (m[i] + 1 + g.below(2) as u16) % 3;
        }
        // right number of nonzero coefficients, wrong balance
        1 => {
            let k = amount(&mut g);
            let from = 1 + g.below(2) as u16;
            change(&mut m, &mut g, k, from, 3 - from);
        }
        // balanced but heavier or lighter
        2 => {
            let k = amount(&mut g);
            let lighter = g.chance(50);
            for v in [1, 2] {
                let (from, to) = if lighter { (v, 0) } else { (0, v) };
                change(&mut m, &mut g, k, from, to);
            }
        }
        3 | 12 => {
            let i = at(&mut g);
            rs[i] = *g.pick(&[2u16, 3, 4, 5, 6, 7, 8, q - 3, q - 2, q - 4, q - 5]);
        }
        4 => {
            let k = 2 + g.below(6);
            for _ in 0..k {
                let i = at(&mut g);
                rs[i] = *g.pick(&[2u16, q - 2, 3, q - 3, q / 2]);
            }
        }
        5 => {
            let i = at(&mut g);
            rs[i] = *g.pick(&[2u16, q - 2, q / 2]);
            let i = at(&mut g);
            m[i] = (m[i] + 1) % 3;
        }
        7 => {
            rs.fill(0);
            if g.chance(50) {
                m.fill(0);
            }
        }
        8 => {
            let i = at(&mut g);
            rs[i] = q - 2;
        }
        9 => {
            for x in m.iter_mut().take(n - 1) {
                *x = g.below(3) as u16;
            }
        }
        10 => {
            let i = at(&mut g);
            rs[i] = rs[i].wrapping_add(q / 2);
        }
        // one of the two counts is right
        13 | 14 => {
            let v = if kind == 13 { 1 } else { 2 };
            let k = amount(&mut g);
            if g.chance(50) {
                change(&mut m, &mut g, k, v, 0);
            } else {
                change(&mut m, &mut g, k, 0, v);
            }
        }
        15 => {
            let i = at(&mut g);
            let b = 1u16 << (1 + g.below(p.logq as u64 - 2));
            let d = g.below(4) as u16;
            rs[i] = if g.chance(50) { b + d } else { 0u16.wrapping_sub(b + d) };
        }
        _ => {}
    }
    let (mut c, k) = md.encrypt_any(&rs, &m, pk);
    if kind == 6 || kind == 12 {
        let mask = p.pad_mask();
        let bits: Vec<u8> = (0..8).map(|i| 1u8 << i).filter(|b| b & mask != 0).collect();
        if !bits.is_empty() {
            let l = c.len();
            c[l - 1] |= if g.chance(30) { mask } else { *g.pick(&bits) };
        }
    }
    (c, k)
}

// ---- oracles ----

impl World<'_> {
    /// what holds for every single operation
    fn judge(&mut self, req: &Req, out: &Out, before: Option<&DrbgState>) {
        let name = kind_name(&req.kind);
        let drbg = matches!(req.kind, Kind::Drbg { .. });
        let fault = req.ent.as_ref().and_then(|e| e.fault.clone());
        let (idx, is_panic) = match &fault {
            Some(SrcFault::Fail { draw, .. }) => (*draw as usize, false),
            Some(SrcFault::Panic { draw, .. }) => (*draw as usize, true),
            None => (usize::MAX, false),
        };
        let hit = out.draws.len() > idx;
        if hit {
            self.stat(if is_panic { "fault.source_panic" } else { "fault.source_error" }, 1);
            if let Some(SrcFault::Fail { kind: 1.., .. }) = &fault {
                self.stat("fault.source_error_of_foreign_type", 1);
            }
        } else if fault.is_some() {
            self.stat("fault.source_not_reached", 1);
        }
        if let Some(Ent { src: Src::Pattern(k, _), .. }) = &req.ent {
            self.stat(&format!("fault.source_pattern_{k}"), 1);
        }
        let own = matches!(&out.status, Status::Err { own: true, .. } | Status::Panic { own: true, .. });
        let untouched = match &req.kind {
            Kind::Keygen { pk, sk } => out.bufs[0] == *pk && out.bufs[1] == *sk,
            Kind::Enc { ct, ss, .. } => out.bufs[0] == *ct && out.bufs[1] == *ss,
            _ => true,
        };

        // C04: failing source
        if hit {
            let want = match &out.status {
                Status::Err { own: true, .. } => !is_panic,
                Status::Panic { own: true, .. } => is_panic,
                _ => false,
            };
            if !want {
                let d = format!("{name}: source failed at request {idx}, operation returned {:?}", out.status);
                self.fail(&["C04"], "source failure not reported", d);
            }
            if out.draws.len() > idx + 1 {
                let d = format!("{name}: {} requests after the failed one", out.draws.len() - idx - 1);
                self.fail(&["C04"], "requests after failure", d);
            }
        }
        if own && !untouched {
            let d = format!("{name}: source failed at request {idx}, caller's buffers were modified");
            self.fail(&["C04"], "buffers modified", d);
        }

        // unexpected failure of the operation itself
        if out.status != Status::Ok && !own {
            let d = format!("{name} returned {:?}", out.status);
            let props: &[&str] = match req.kind {
                Kind::Drbg { .. } => &["C07", "C08"],
                Kind::Dec { .. } => &["C01", "C02", "C03", "C09"],
                _ => &["C01", "C03", "C09"],
            };
            self.fail(props, "operation failed", d.clone());
            if fault.is_some() || self.failed > 0 {
                self.fail(&["C04"], "operation failed", d);
            }
        }

        // C06: draw pattern
        let p = &self.model.p;
        let want: Vec<u64> = match req.kind {
            Kind::Keygen { .. } => vec![p.seed_bytes() as u64, 32],
            Kind::Enc { .. } => vec![p.seed_bytes() as u64],
            _ => vec![],
        };
        if out.reseeds > 0 {
            self.fail(&["C06"], "reseeded", format!("{name} reseeded its source {} times", out.reseeds));
        }
        let pattern_ok = if out.status == Status::Ok {
            out.draws == want
        } else {
            want.starts_with(&out.draws)
        };
        if !pattern_ok {
            let d = format!("{name} ({:?}) requested {:?} bytes, expected {want:?}", out.status, out.draws);
            self.fail(&["C06"], "request pattern", d);
        }
        if self.is(&["C06"]) && out.status == Status::Ok && is_healthy(req.ent.as_ref()) && !out.draws.is_empty() {
            // a public key depends on the first request only
            let first = (out.draws[0] as usize).min(out.drawn.len());
            let mut named = vec![];
            for (i, b) in out.bufs.iter().enumerate() {
                let mut k = vec![i as u8];
                k.extend_from_slice(b);
                let used = if i == 0 { &out.drawn[..first] } else { &out.drawn[..] };
                named.push((k, hash_bytes(used)));
            }
            for (k, src) in named {
                if let Some(old) = self.results.insert(k, src) {
                    if old != src {
                        self.fail(&["C06"], "repeated result", format!("{name}: two operations with different entropy returned the same value"));
                    } else {
                        self.stat("same_entropy_again", 1);
                    }
                }
            }
        }

        // C03 / C09: specified bytes
        if self.is(&["C03", "C09"]) && out.status == Status::Ok && !drbg {
            let seed = self.model.p.seed_bytes();
            let want: Option<Vec<(Vec<u8>, &str)>> = match &req.kind {
                Kind::Keygen { .. } if out.drawn.len() >= seed + 32 => {
                    let k = self.model.keypair(&out.drawn[..seed], &out.drawn[seed..seed + 32]);
                    Some(vec![(k.pk, "public key"), (k.sk, "secret key")])
                }
                Kind::Enc { pk, .. } if out.drawn.len() >= seed => {
                    let (c, k) = self.model.encap(&out.drawn[..seed], pk);
                    Some(vec![(c, "ciphertext"), (k, "shared key")])
                }
                Kind::Dec { ct, sk, .. } => Some(vec![(self.model.decap(ct, sk).k, "shared key")]),
                _ => None,
            };
            match want {
                None => self.fail(&["C03", "C09"], "entropy", format!("{name} drew only {} bytes", out.drawn.len())),
                Some(w) => {
                    self.stat("compared_with_model", 1);
                    for (i, (b, what)) in w.iter().enumerate() {
                        if *b != out.bufs[i] {
                            let d = format!("{name}: {what} differs from the specification, {}", first_diff(&out.bufs[i], b));
                            self.fail(&["C03", "C09"], "wrong bytes", d);
                        }
                    }
                }
            }
        }

        // C05 (and retry after failure in C04, single source in C06): the same
        // operation alone in a fresh process
        let alone = match self.prop {
            "C05" => true,
            "C04" => self.failed > 0 && fault.is_none(),
            "C06" => !out.draws.is_empty(),
            _ => false,
        };
        if alone && !(own && fault.is_none()) {
            self.alone(req, out, before);
        }
    }

    /// C11, C14: path and memory accesses. Something may have been prepared by earlier
    /// operations of the same thread (`own`) or of others; either counts as done or not.
    /// Where threads meet while something is being prepared, the path may be a third one;
    /// then what counts is the operation's path when it does not meet others.
    fn judge_path(&mut self, req: &Req, out: &Out, own: [u8; 2], others: [u8; 2], overlapped: bool) {
        if !["C11", "C14"].contains(&self.prop) || out.status != Status::Ok || matches!(req.kind, Kind::Drbg { .. }) {
            return;
        }
        let k = bit(&req.kind).trailing_zeros() as usize;
        let name = kind_name(&req.kind);
        let seen = self.observed(out);
        let c = self.canonical(k, 0, 0);
        self.stat("traces_compared", 1);
        let mut known = seen == c;
        for h in [(own[0], others[0]), (own[1], others[0]), (own[0], others[1]), (own[1], others[1]), (7, 7)] {
            known = known || self.canonical(k, h.0, h.1) == seen;
        }
        if !known && overlapped {
            if let Fresh::Out(o) = self.spawner.run(&lone(req, out, None), 0) {
                known = self.observed(&o) == c;
                self.stat("paths_of_meeting_threads", known as u64);
            }
        }
        if !known {
            let (what, class) = match self.prop {
                "C11" => ("took {} steps (path", "different steps"),
                _ => ("made {} memory accesses (places", "different memory accesses"),
            };
            let d = format!(
                "{name} {} {:016x}), reference execution {} ({:016x})",
                what.replace("{}", &seen.0.to_string()), seen.1, c.0, c.1
            );
            self.fail(&["C11", "C14"], class, d);
        }
    }

    /// C15: what is still held after an eighth, a quarter, a half and all of a history.
    /// What is prepared once (per thread, per kind of operation) comes early; what is
    /// left behind by operations grows at least as much in every doubled interval.
    fn judge_held(&mut self) {
        let n = self.held.len();
        if n < 64 {
            return;
        }
        self.stat("histories_measured", 1);
        self.stat("library_allocations", heap::allocations());
        for (i, what) in ["bytes of memory", "threads", "open files"].iter().enumerate() {
            let at = |k: usize| self.held[k - 1][i];
            let [a, b, c, d] = [at(n / 8), at(n / 4), at(n / 2), at(n)];
            if a < b && b - a <= c - b && c - b <= d - c {
                let d = format!("{what} held after {}, {}, {} and {n} operations: {a}, {b}, {c}, {d}", n / 8, n / 4, n / 2);
                self.fail(&["C15"], "something is left behind", d);
            }
        }
    }

    fn observed(&self, o: &Out) -> (u64, u64) {
        if self.prop == "C11" {
            (o.steps, o.trace)
        } else {
            (o.accesses, o.places)
        }
    }

    /// path of the same kind of operation on fixed ordinary inputs, in a fresh process
    /// in which this thread (`own`) and another one have performed operations on other inputs
    fn canonical(&mut self, k: usize, own: u8, others: u8) -> (u64, u64) {
        if let Some(c) = self.canon.get(&(k, own, others)) {
            return *c;
        }
        let (l, md) = (&self.lib, &self.model);
        let ordinary = |k: usize, seed: u64| {
            let mut s = vec![0u8; md.p.seed_bytes()];
            Prng::new(seed).fill(&mut s);
            let kg = md.keypair(&s, &[seed as u8; 32]);
            let ent = Some(Ent { src: Src::Prng(seed + 1), fault: None, nested: None });
            match k {
                0 => Req { kind: Kind::Keygen { pk: vec![0; l.pk_bytes], sk: vec![0; l.sk_bytes] }, ent },
                1 => Req { kind: Kind::Enc { ct: vec![0; l.ct_bytes], ss: vec![0; 32], pk: kg.pk }, ent },
                _ => {
                    let (ct, _) = md.encap(&s, &kg.pk);
                    Req { kind: Kind::Dec { ss: vec![0; 32], ct, sk: kg.sk }, ent: None }
                }
            }
        };
        let history = |m: u8| (0..3).filter(|k| m >> k & 1 == 1).map(|k| ordinary(k, 11)).collect::<Vec<_>>();
        let c = match self.spawner.run_after(&history(others), &history(own), &ordinary(k, 1), 0) {
            Fresh::Out(o) if o.status == Status::Ok => self.observed(&o),
            _ => (0, 0),
        };
        self.canon.insert((k, own, others), c);
        c
    }

    fn alone(&mut self, req: &Req, out: &Out, before: Option<&DrbgState>) {
        let name = kind_name(&req.kind);
        let r = lone(req, out, before);
        let props = &["C04", "C05", "C06"];
        match self.spawner.run(&r, 0) {
            Fresh::Out(o) => {
                self.stat("compared_alone", 1);
                if std::mem::discriminant(&o.status) != std::mem::discriminant(&out.status) {
                    let d = format!("{name}: {:?}, alone {:?}", out.status, o.status);
                    self.fail(props, "outcome differs from the operation alone", d);
                } else if out.status == Status::Ok {
                    if o.draws != out.draws {
                        let d = format!("{name}: requests {:?}, alone {:?}", out.draws, o.draws);
                        self.fail(props, "requests differ from the operation alone", d);
                    }
                    for (a, b) in out.bufs.iter().zip(&o.bufs) {
                        if a != b {
                            let d = format!("{name}: {} (expected: same operation alone)", first_diff(a, b));
                            self.fail(props, "result differs from the operation alone", d);
                        }
                    }
                    if let (Some(a), Some(b)) = (&out.st, &o.st) {
                        if a != b {
                            self.fail(props, "state differs from the operation alone", format!("{name}: generator state differs"));
                        }
                    }
                }
            }
            Fresh::Crashed => {}
            Fresh::Died(s) => self.fail(props, "process died", format!("{name} alone: {s}")),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_dec(&mut self, req: &Req, out: &Out, ct: Option<usize>, slot: usize, gen: usize, what: &str, n: usize) {
        let Kind::Dec { ct: rx, sk, .. } = &req.kind else { return };
        let k = &self.slots[slot][gen];
        let sk_ok = *sk == k.sk_orig;
        let sound = k.sound;
        let c = ct.map(|c| &self.cts[c]);
        let intact = c.is_some_and(|c| c.slot == slot && c.gen == gen && c.good_pk && c.bytes == *rx && c.key.is_some());
        if out.status != Status::Ok {
            return;
        }
        let ss = &out.bufs[0];
        if intact && sk_ok && sound {
            let want = c.unwrap().key.clone().unwrap();
            self.stat("deliveries_intact", 1);
            if *ss != want {
                let by = if self.remote[n] { "after restart" } else { "same process" };
                let d = format!("{what} delivery to slot {slot} ({by}): receiver has {}, sender {}", hex(ss), hex(&want));
                self.fail(&["C01"], "keys differ", d.clone());
                if self.rejected > 0 {
                    self.fail(&["C02"], "keys differ after a rejected message", d.clone());
                }
                if self.failed > 0 {
                    self.fail(&["C04"], "keys differ after a failed operation", d);
                }
            }
        } else if self.is(&["C02"]) {
            let m = self.model.decap(rx, sk);
            if m.fail {
                self.rejected += 1;
                self.stat("deliveries_rejected", 1);
                let only = match m.why {
                    1 => "rejected_only_for_unused_bits",
                    2 => "rejected_only_for_number_of_plus_ones",
                    4 => "rejected_only_for_number_of_minus_ones",
                    6 => "rejected_only_for_both_numbers",
                    8 => "rejected_only_for_r",
                    _ => "rejected_for_several_reasons",
                };
                self.stat(only, 1);
                if let Some(sent) = self.sender_keys.get(ss) {
                    let d = format!("{what} message to slot {slot}: returned the key of ciphertext {}", hex(sent));
                    self.fail(&["C02"], "sender's key returned for an invalid message", d);
                }
                if *ss != m.k {
                    let d = format!("{what} message to slot {slot}: key {} is not the rejection key {}", hex(ss), hex(&m.k));
                    self.fail(&["C02"], "wrong rejection key", d);
                }
            } else {
                self.stat("deliveries_valid_otherwise", 1);
            }
        } else {
            self.stat("deliveries_damaged", 1);
        }
        self.rep.shape = mix(self.rep.shape, mix(intact as u64, sk_ok as u64));
    }

    fn judge_drbg(&mut self, req: &Req, out: &Out, inst: usize) {
        let Kind::Drbg { op, fill, .. } = &req.kind else { return };
        let m = &mut self.inst[inst].model;
        let props = &["C07", "C08"];
        self.rep.shape = mix(self.rep.shape, inst as u64);
        match op {
            DrbgOp::Init(s) => m.init(s),
            DrbgOp::Bytes(_) | DrbgOp::Many(..) => {
                let (k, len) = match op {
                    DrbgOp::Many(k, len) => (*k, *len),
                    DrbgOp::Bytes(len) => (1, *len),
                    _ => (0, 0),
                };
                let l = (k * len) as usize;
                let mut w = vec![0u8; l];
                let mut rest = &mut w[..];
                for _ in 0..k {
                    let (a, b) = rest.split_at_mut(len as usize);
                    m.bytes(a);
                    rest = b;
                }
                self.rep.shape = mix(self.rep.shape, mix(k, len));
                *self.rep.stats.entry("drbg_requests_compared".into()).or_insert(0) += k;
                *self.rep.stats.entry("drbg_bytes_compared".into()).or_insert(0) += l as u64;
                let b = &out.bufs[0];
                if b[..16].iter().chain(&b[16 + l..]).any(|x| x != fill) {
                    self.fail(props, "wrote outside the buffer", format!("request of {l} bytes on generator {inst}"));
                } else if b[16..16 + l] != w[..] {
                    let d = format!("generator {inst}, request of {l}: {}", first_diff(&b[16..16 + l], &w));
                    self.fail(props, "wrong bytes", d);
                }
            }
        }
        let m = self.inst[inst].model.clone();
        if let Some(st) = &out.st {
            if st.key != m.key || st.v != m.v {
                self.fail(props, "wrong state", format!("generator {inst}: key or v after the step is not the specified one"));
            }
            if let Some(c) = m.count {
                if st.count != c {
                    self.fail(&["C07"], "wrong count", format!("generator {inst}: count {} instead of {c}", st.count));
                }
            }
        }
    }
}

/// sched is used through the actors only
pub fn edges() -> u32 {
    sched::edges()
}
