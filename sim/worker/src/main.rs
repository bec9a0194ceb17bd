//! Runs simulations of one parameter set in one build flavour.
//!
//!   worker run PROP FLAVOR SEED FIRST STEP END TOTAL TIER CORPUS DEADLINE_MS LOGS
//!   worker plan-run FILE [verbose]      (one plan, as hex, "-" = stdin)
//!   worker minimise FILE
//!
//! Every run happens in a process forked from a parent that never calls the
//! library.

use simcore::gen::{generate, Ctx};
use simcore::ntru::Params;
use simcore::plan::{Item, Plan};
use simcore::prng::{hash_str, mix};
use simcore::world::World;
use simcore::{sched, sys};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static HEAP: simcore::heap::Accounts = simcore::heap::Accounts;

#[derive(Default, Clone)]
struct Res {
    stats: BTreeMap<String, u64>,
    log: u64,
    order: u64,
    shape: u64,
    sim_us: u64,
    decisions: Vec<(u64, u64)>,
    viol: Option<(String, String)>,
    events: Vec<String>,
    /// failure of the simulator
    error: Option<String>,
}

/// a run of `items` may take this long
fn watchdog_ms(items: usize) -> u64 {
    45_000 + 10 * items as u64
}

extern "C" {
    fn setpgid(pid: i32, pgid: i32) -> i32;
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn params() -> Params {
    let name = if cfg!(feature = "ntruhps2048509") {
        "ntruhps2048509"
    } else if cfg!(feature = "ntruhps2048677") {
        "ntruhps2048677"
    } else if cfg!(feature = "ntruhps4096821") {
        "ntruhps4096821"
    } else {
        "ntruhrss701"
    };
    Params::by_name(name).unwrap_or_else(|| sys::harness_error("parameter set"))
}

/// one simulated run in a fresh process
fn simulate(plan: &Plan, params: &Params, verbose: bool) -> Res {
    let (r, w) = sys::mkpipe();
    let pid = sys::fork_child();
    if pid == 0 {
        unsafe {
            setpgid(0, 0);
            sys::close(r);
        }
        let rep = World::new(shim::lib(), params.clone(), plan, verbose).run();
        let mut s = String::new();
        for (k, v) in &rep.stats {
            let _ = writeln!(s, "S {k} {v}");
        }
        let _ = writeln!(s, "H {} {} {} {}", rep.log, rep.order, rep.shape, rep.sim_us);
        for (a, b) in &rep.decisions {
            let _ = writeln!(s, "D {a} {b}");
        }
        if let Some(v) = &rep.viol {
            let _ = writeln!(s, "V {}|{}", v.class, v.detail.replace('\n', " "));
        }
        for e in &rep.events {
            let _ = writeln!(s, "E {e}");
        }
        s.push_str("END\n");
        sys::write_all(w, s.as_bytes());
        unsafe { sys::_exit(0) }
    }
    unsafe {
        setpgid(pid, pid);
        sys::close(w);
    }
    let got = sys::read_to_end_timeout(r, watchdog_ms(plan.items.len()));
    let mut res = Res::default();
    let hang = got.is_none();
    unsafe {
        sys::kill(-pid, sys::SIGKILL);
        sys::close(r);
    }
    let e = sys::reap(pid);
    if hang {
        res.viol = Some(("hang".into(), "an operation does not terminate".into()));
        return res;
    }
    let text = String::from_utf8_lossy(&got.unwrap()).into_owned();
    if !text.ends_with("END\n") {
        if e.code == 3 {
            res.error = Some("simulator failed".into());
        } else if e.code == 97 {
            res.viol = Some(("endless requests".into(), "an operation requests entropy without end".into()));
        } else if e.code == 101 {
            res.error = Some("simulator panicked".into());
        } else {
            res.viol = Some(("process died".into(), format!("signal {:?} code {}", e.signal, e.code)));
        }
        return res;
    }
    for l in text.lines() {
        let mut it = l.splitn(2, ' ');
        let tag = it.next().unwrap_or("");
        let rest = it.next().unwrap_or("");
        let num: Vec<u64> = match tag {
            "H" | "D" => rest.split(' ').filter_map(|x| x.parse().ok()).collect(),
            _ => vec![],
        };
        match tag {
            "S" => {
                if let Some((k, v)) = rest.rsplit_once(' ') {
                    *res.stats.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
            }
            "H" => {
                res.log = num[0];
                res.order = num[1];
                res.shape = num[2];
                res.sim_us = num[3];
            }
            "D" => res.decisions.push((num[0], num[1])),
            "V" => {
                let (c, d) = rest.split_once('|').unwrap_or((rest, ""));
                res.viol = Some((c.into(), d.into()));
            }
            "E" => res.events.push(rest.into()),
            _ => {}
        }
    }
    res
}

fn reportable(prop: &str, class: &str) -> bool {
    match class {
        "hang" | "process died" => simcore::world::ABORT_PROPS.contains(&prop),
        "endless requests" => ["C01", "C03", "C04", "C06", "C09"].contains(&prop),
        _ => true,
    }
}

/// did the run meet what the property is about?
fn nontrivial(prop: &str, s: &BTreeMap<String, u64>) -> bool {
    let any = |ks: &[&str]| ks.iter().any(|k| s.get(*k).copied().unwrap_or(0) > 0);
    match prop {
        "C01" => any(&["deliveries_intact"]) && s.iter().any(|(k, v)| k.starts_with("fault.") && *v > 0),
        "C02" => any(&["deliveries_rejected"]),
        "C03" => any(&["compared_with_model"]),
        "C04" => any(&["fault.source_error", "fault.source_panic"]),
        "C05" => {
            any(&["compared_alone"])
                && any(&["switches_concurrent", "fault.reentered", "fault.source_panic", "fault.source_error", "fault.restart"])
        }
        "C06" => any(&["op.keygen", "op.enc"]),
        "C07" => any(&["op.drbg_bytes"]),
        "C08" => any(&["fault.drbg_aged_state"]),
        "C09" => any(&["deliveries_damaged"]),
        "C15" => any(&["histories_measured"]),
        _ => any(&["traces_compared"]),
    }
}

fn describe(p: &Plan) -> String {
    let mut s = format!("{} nodes, {} keys, schedule mode {} quantum 2^{}: ", p.nodes, p.slots, p.sched.mode, p.sched.log_quantum);
    for i in &p.items {
        let _ = write!(s, "{i:?}; ");
    }
    s.truncate(2500);
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    sched::install_panic_hook();
    let cover = sched::cover_init();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2..], cover),
        Some("plan-run") => plan_run(&args[2], args.len() > 3),
        Some("minimise") => minimise(&args[2]),
        Some("info") => {
            let l = shim::lib();
            println!("{} {} {} {} {} edges {}", l.variant, l.pk_bytes, l.sk_bytes, l.ct_bytes, l.ss_bytes, sched::edges());
        }
        // the 100 records of the known-answer file, from the reference model
        Some("kat") => {
            let model = simcore::ntru::Model::new(params());
            let n = model.p.seed_bytes();
            let mut master = simcore::drbg::Drbg::new();
            let mut entropy = [0u8; 48];
            for (i, b) in entropy.iter_mut().enumerate() {
                *b = i as u8;
            }
            master.init(&entropy);
            for _ in 0..100 {
                let mut seed = [0u8; 48];
                master.bytes(&mut seed);
                let mut rng = simcore::drbg::Drbg::new();
                rng.init(&seed);
                let (mut a, mut b, mut c) = (vec![0u8; n], [0u8; 32], vec![0u8; n]);
                rng.bytes(&mut a);
                rng.bytes(&mut b);
                let k = model.keypair(&a, &b);
                rng.bytes(&mut c);
                let (ct, ss) = model.encap(&c, &k.pk);
                println!("{} {} {} {} {}", hexs(&seed), hexs(&k.pk), hexs(&k.sk), hexs(&ct), hexs(&ss));
            }
        }
        _ => {
            eprintln!("usage: worker run|plan-run|minimise");
            std::process::exit(2)
        }
    }
}

fn load(file: &str) -> Plan {
    let t = std::fs::read_to_string(file).unwrap_or_else(|_| sys::harness_error("plan file"));
    let h = t.lines().find_map(|l| l.strip_prefix("plan ")).unwrap_or_else(|| sys::harness_error("no plan in file"));
    Plan::from_bytes(&unhex(h))
}

fn run(a: &[String], cover: *mut u8) {
    let n = |i: usize| a[i].parse::<u64>().unwrap_or_else(|_| sys::harness_error("argument"));
    let (prop, flavor) = (&a[0], &a[1]);
    let (seed, first, step, end, total) = (n(2), n(3), n(4), n(5), n(6));
    let thorough = a[7] == "thorough";
    let corpus: Vec<u64> = std::fs::read_to_string(&a[8])
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split(' ').nth(2).and_then(|x| x.parse().ok()))
        .collect();
    let deadline = Duration::from_millis(n(9));
    let logs = a[10] == "1";
    let p = params();
    let start = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut orders = HashSet::new();
    let mut shapes = HashSet::new();
    let mut nontriv = HashSet::new();
    let (mut runs, mut sim_us) = (0u64, 0u64);
    let mut i = first;
    while i < end {
        if start.elapsed() > deadline {
            break;
        }
        let s = mix(mix(seed, hash_str(prop)), mix(hash_str(p.name), mix(hash_str(flavor), i)));
        let c = Ctx { prop, params: &p, flavor, seed: s, idx: i, total, corpus: &corpus, thorough };
        let plan = generate(&c);
        let r = simulate(&plan, &p, false);
        if let Some(e) = r.error {
            println!("ERROR run {i}: {e}");
            println!("PLAN {}", hexs(&plan.bytes()));
            std::process::exit(3);
        }
        runs += 1;
        sim_us += r.sim_us;
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        if r.order != 0 {
            orders.insert(r.order);
        }
        let shape = mix(r.shape, r.order);
        shapes.insert(shape);
        if nontrivial(prop, &r.stats) {
            nontriv.insert(shape);
        }
        if i == 0 {
            println!("SAMPLE {}", describe(&plan));
        }
        if logs {
            println!("LOG {i} {:016x} {}", r.log, r.sim_us);
        }
        if let Some((c, d)) = &r.viol {
            if reportable(prop, c) {
                println!("VIOL {i} {s} {c}|{d}");
                println!("PLAN {}", hexs(&plan.bytes()));
                break;
            }
            *stats.entry("runs_cut_short".into()).or_insert(0) += 1;
        }
        i += step;
    }
    let edges = sched::edges() as usize;
    let cov: Vec<u8> = unsafe { std::slice::from_raw_parts(cover, edges + 1) }.to_vec();
    for (k, v) in stats {
        println!("S {k} {v}");
    }
    println!("N runs {runs}");
    println!("N sim_us {sim_us}");
    println!("N edges_total {edges}");
    for o in orders {
        println!("O {o:x}");
    }
    for o in shapes {
        println!("P {o:x}");
    }
    for o in nontriv {
        println!("Q {o:x}");
    }
    let hit: Vec<String> = cov.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, _)| i.to_string()).collect();
    println!("C {}", hit.join(" "));
    println!("DONE");
}

fn plan_run(file: &str, verbose: bool) {
    let plan = load(file);
    let p = params();
    let r = simulate(&plan, &p, verbose);
    for e in &r.events {
        println!("{e}");
    }
    if let Some(e) = r.error {
        println!("ERROR {e}");
        std::process::exit(3)
    }
    println!("log {:016x}", r.log);
    match r.viol {
        Some((c, d)) if reportable(&plan.prop, &c) => {
            println!("VIOL {c}|{d}");
            std::process::exit(1)
        }
        _ => println!("held"),
    }
}

/// Smaller plans that still break the same property in the same way.
fn minimise(file: &str) {
    let p = params();
    let mut best = load(file);
    let end = Instant::now() + Duration::from_secs(60);
    let r0 = simulate(&best, &p, false);
    let Some((class, _)) = r0.viol.clone() else {
        println!("NOREPRO");
        return;
    };
    if class == "hang" {
        emit(&best, &r0);
        return;
    }
    let mut last = r0.clone();
    let mut tries = 0u64;
    let mut attempt = |cand: Plan, best: &mut Plan, last: &mut Res| -> bool {
        if cand == *best || Instant::now() > end {
            return false;
        }
        tries += 1;
        let r = simulate(&cand, &p, false);
        if r.viol.as_ref().is_some_and(|v| v.0 == class) {
            *best = cand;
            *last = r;
            true
        } else {
            false
        }
    };
    // simplest schedule first, else the recorded one made explicit
    let mut c = best.clone();
    c.sched.mode = 0;
    if !attempt(c, &mut best, &mut last) {
        let mut c = best.clone();
        c.sched.fixed = last.decisions.clone();
        c.sched.only_fixed = true;
        attempt(c, &mut best, &mut last);
    }
    loop {
        let mut changed = false;
        // drop items, halves first
        let mut size = best.items.len();
        while size >= 1 {
            let mut i = 0;
            while i < best.items.len() {
                let mut c = best.clone();
                let e = (i + size).min(c.items.len());
                c.items.drain(i..e);
                if attempt(c, &mut best, &mut last) {
                    changed = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // simplify what is left
        for i in 0..best.items.len() {
            for step in 0..12 {
                let mut k = 0;
                loop {
                    let mut c = best.clone();
                    if i >= c.items.len() || !simpler(&mut c.items[i], step, k) {
                        break;
                    }
                    if attempt(c, &mut best, &mut last) {
                        changed = true;
                    } else {
                        k += 1;
                    }
                    if k > 40 {
                        break;
                    }
                }
            }
        }
        // fewer switches
        if !best.sched.fixed.is_empty() {
            let mut size = best.sched.fixed.len();
            while size >= 1 {
                let mut i = 0;
                while i < best.sched.fixed.len() {
                    let mut c = best.clone();
                    let e = (i + size).min(c.sched.fixed.len());
                    c.sched.fixed.drain(i..e);
                    if attempt(c, &mut best, &mut last) {
                        changed = true;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
        if !changed || Instant::now() > end {
            break;
        }
    }
    println!("TRIES {tries}");
    emit(&best, &last);
}

/// One simplification; false when this kind has nothing (more) to offer.
fn simpler(it: &mut Item, step: u32, k: usize) -> bool {
    use simcore::exec::Src;
    match it {
        Item::Keygen { by, ent, disk, pkdisk, .. } => match step {
            0 if ent.nested.is_some() => ent.nested = None,
            1 if ent.fault.is_some() => ent.fault = None,
            2 if by.crash != 0 => by.crash = 0,
            3 if by.prior != 0 => by.prior = 0,
            4 if k < disk.len() => {
                disk.remove(k);
            }
            5 if k < pkdisk.len() => {
                pkdisk.remove(k);
            }
            6 if ent.src != Src::Prng(1) => ent.src = Src::Prng(1),
            7 if by.model => by.model = false,
            8 if by.node != 0 => by.node = 0,
            _ => return false,
        },
        Item::Enc { by, ent, deliv, .. } => match step {
            0 if ent.nested.is_some() => ent.nested = None,
            1 if ent.fault.is_some() => ent.fault = None,
            2 if by.crash != 0 => by.crash = 0,
            3 if by.prior != 0 => by.prior = 0,
            4 if k < deliv.len() => {
                deliv.remove(k);
            }
            6 if ent.src != Src::Prng(1) => ent.src = Src::Prng(1),
            7 if by.model => by.model = false,
            8 if by.node != 0 => by.node = 0,
            9.. => return simpler_deliv(deliv, step, k),
            _ => return false,
        },
        Item::Forge { deliv, seed, .. } => match step {
            4 if k < deliv.len() => {
                deliv.remove(k);
            }
            6 if *seed != 1 => *seed = 1,
            9.. => return simpler_deliv(deliv, step, k),
            _ => return false,
        },
        Item::Decay { tamper, .. } => match step {
            4 if k < tamper.len() && tamper.len() > 1 => {
                tamper.remove(k);
            }
            _ => return false,
        },
        Item::DrbgReq { len, node, .. } => match step {
            0 if *len > 0 => *len = 0,
            1 if *len > 1 => *len /= 2,
            2 if *len > 0 => *len -= 1,
            8 if *node != 0 => *node = 0,
            _ => return false,
        },
        Item::DrbgMany { len, n, node, .. } => match step {
            0 if *len > 0 => *len = 0,
            1 if *len > 1 => *len /= 2,
            2 if *n > 1 => *n /= 2,
            3 if *n > 1 => *n -= (*n / 8).max(1),
            4 if *n > 1 => *n -= 1,
            8 if *node != 0 => *node = 0,
            _ => return false,
        },
        _ => return false,
    }
    true
}

fn simpler_deliv(d: &mut [simcore::plan::Deliv], step: u32, k: usize) -> bool {
    let i = k / 4;
    if i >= d.len() {
        return false;
    }
    let x = &mut d[i];
    match (step, k % 4) {
        (9, j) if j < x.tamper.len() => {
            x.tamper.remove(j);
        }
        (10, 0) => x.by.crash = 0,
        (10, 1) => x.by.prior = 0,
        (10, 2) => x.misdirect = 0,
        (10, 3) => x.delay = 0,
        (11, 0) => x.by.node = 0,
        (11, 1) => x.by.model = false,
        _ => {}
    }
    true
}

fn emit(p: &Plan, r: &Res) {
    if let Some((c, d)) = &r.viol {
        println!("VIOL {c}|{d}");
    }
    println!("LOGHASH {:016x}", r.log);
    for i in &p.items {
        println!("# {i:?}");
    }
    println!("# schedule {:?}", p.sched);
    println!("PLAN {}", hexs(&p.bytes()));
}
