"""C10: the known-answer tool against a simulated, failing file system.

The real tool (examples/katkem.rs of /repo) runs in a scratch directory with
faultfs.c between it and the file system. One episode is a list of steps:

  ["gen", faults, space, tool]    create request and response file
  ["verify", faults, tool]        verify the response file
  ["retry", tool]                 create again, without faults (after a crash)
  ["put"]                         start from the correct files
  ["stale", n]                    start from files left by an earlier, longer run
  ["damage", kind, a, b]          damage the response file

faults = [[op, call number, kind, argument], ...]; everything is data, so an
episode can be minimised and replayed.
"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VARIANTS = ["ntruhps2048509", "ntruhps2048677", "ntruhps4096821", "ntruhrss701"]
EPISODES = {"quick": 150, "thorough": 1600}
TIMEOUT = 60
FIELDS = ("seed", "pk", "sk", "ct", "ss")


def driver():
    import __main__
    return __main__


# ---- building ----

def build(variants, scratch):
    d = driver()
    os.makedirs(d.TARGET, exist_ok=True)
    lock = open(os.path.join(d.TARGET, "lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    tool = os.path.join(HERE, "tool")
    lockfile = os.path.join(tool, "Cargo.lock")
    saved = open(lockfile, "rb").read()
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    paths, errors = {}, []
    stamp = d.tree_hash()

    def one(v, flavor):
        t = os.path.join(d.TARGET, f"kat-{flavor}-{v}")
        sf = os.path.join(t, "stamp")
        if not os.path.exists(sf) or open(sf).read() != stamp:
            shutil.rmtree(t, ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", flavor, "--features", v, "--target-dir", t],
                           cwd=tool, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            errors.append(r.stdout[-3000:])
            return
        with open(sf, "w") as fh:
            fh.write(stamp)
        dest = os.path.join(scratch, f"katkem-{v}-{flavor}")
        shutil.copy2(os.path.join(t, flavor, "katkem"), dest)
        paths[(v, flavor)] = dest

    try:
        ts = [threading.Thread(target=one, args=(v, f)) for v in variants for f in ("release", "checked")]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        if open(lockfile, "rb").read() != saved:
            with open(lockfile, "wb") as fh:
                fh.write(saved)
        lock.close()
    if errors:
        raise d.CheckError("build of the known-answer tool failed:\n" + errors[0])
    so = os.path.join(scratch, "faultfs.so")
    r = subprocess.run(["cc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "faultfs.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise d.CheckError("build of faultfs failed:\n" + r.stdout)
    workers, errs = d.build([(v, "release") for v in variants], scratch)
    if errs:
        raise d.CheckError("build failed:\n" + str(list(errs.values())[0]))
    return paths, so, workers


# ---- the specified files ----

class Ref:
    """the specified records, computed by the reference model"""

    def __init__(self, variant, worker):
        out = subprocess.run([worker, "kat"], stdout=subprocess.PIPE, check=True).stdout.decode()
        self.records = []
        for line in out.splitlines():
            self.records.append(dict(zip(FIELDS, [bytes.fromhex(x) for x in line.split()])))
        assert len(self.records) == 100
        self.texts = []
        for i, r in enumerate(self.records):
            self.texts.append("".join([f"count = {i}\n"] + [f"{k} = {r[k].hex().upper()}\n" for k in FIELDS]) + "\n")
        self.header = f"# {variant}\n\n"
        self.rsp = (self.header + "".join(self.texts)).encode()
        self.req = "".join(f"count = {i}\nseed = {r['seed'].hex().upper()}\npk = \nsk = \nct = \nss = \n\n"
                           for i, r in enumerate(self.records)).encode()
        self.offsets = [len(self.header)]
        for t in self.texts:
            self.offsets.append(self.offsets[-1] + len(t))


def parse(data):
    """independent, tolerant reader: list of {field: bytes} for all records"""
    res, cur = [], {}
    for line in data.decode("latin-1").split("\n"):
        s = line.strip()
        if s == "":
            if cur:
                res.append(cur)
            cur = {}
            continue
        if s.startswith("#"):
            continue
        k, _, v = s.partition("=")
        try:
            cur[k.strip()] = int(v) if k.strip() == "count" else bytes.fromhex(v.strip())
        except ValueError:
            cur[k.strip()] = None
    if cur:
        res.append(cur)
    return res


def missing(ref, data, fields=FIELDS):
    """first specified record that data does not hold, or None"""
    have = {tuple(r.get(k) for k in fields) for r in parse(data)}
    for i, r in enumerate(ref.records):
        if tuple(r[k] for k in fields) not in have:
            return i
    return None


def only_copies(ref, data, fields=FIELDS):
    """data holds at least 100 records and each of the first 100 is a complete, specified one"""
    spec = {tuple(r[k] for k in fields) for r in ref.records}
    got = parse(data)[:100]
    return len(got) == 100 and all(tuple(r.get(k) for k in fields) in spec for r in got)


def wrong_file(ref, data, fields=FIELDS):
    """why data is not exactly the specified sequence of records, or None"""
    got = parse(data)
    if len(got) != 100:
        return f"{len(got)} records instead of 100"
    for i, (r, g) in enumerate(zip(ref.records, got)):
        if g.get("count") != i:
            return f"record {i} has count {g.get('count')}"
        for k in fields:
            if g.get(k) != r[k]:
                return f"record {i}: {k} differs from the specified value"
    return None


# ---- one episode ----

DAMAGE = ["flip", "zero", "tear", "cut", "misdirect", "duprec", "swaprec", "droprec", "insrec", "blank", "dropline", "garble",
          "lastline", "mixrec", "fieldcopy"]


def damage(ref, data, kind, a, b):
    n = len(data)
    if n == 0:
        return data
    block = (512, 4096)[b % 2]
    if kind == "flip":
        p = a % (8 * n)
        d = bytearray(data)
        d[p // 8] ^= 1 << (p % 8)
        return bytes(d)
    if kind == "zero":
        p = a % n // block * block
        return data[:p] + bytes(min(block, n - p)) + data[p + block:]
    if kind == "tear":
        return data[:a % n]
    if kind == "cut":
        p = a % n // block * block
        return data[:p] + data[p + block:]
    if kind == "misdirect":
        p, q = a % n // block * block, b % n // block * block
        return data[:p] + data[q:q + min(block, n - p)] + data[p + block:]
    if kind == "garble":
        p = a % n
        return data[:p] + b"0123456789ABCDEF#=\n x\r"[b % 22:b % 22 + 1] + data[p + 1:]
    # record faults work on whatever the file holds now
    recs = data.split(b"\n\n")
    head, recs = recs[0], recs[1:]
    if recs and recs[-1].strip() == b"":
        recs = recs[:-1]
    if not recs:
        return data
    i, j = a % len(recs), b % len(recs)
    if kind == "duprec":
        recs[i] = recs[j]
    elif kind == "swaprec":
        recs[i], recs[j] = recs[j], recs[i]
    elif kind == "droprec":
        recs.pop(i)
    elif kind == "insrec":
        recs.insert(i, recs[j])
    elif kind == "lastline":
        recs[-1] = b"\n".join(recs[-1].split(b"\n")[:1 + a % 5])
    elif kind in ("blank", "dropline", "fieldcopy", "mixrec"):
        lines = recs[i].split(b"\n")
        k = (a // len(recs)) % len(lines)
        other = recs[j].split(b"\n")
        if kind == "blank":
            lines[k] = lines[k].split(b"=")[0] + b"= "
        elif kind == "dropline":
            lines.pop(k)
        elif kind == "fieldcopy":
            lines[k] = other[k] if k < len(other) else lines[k]
        else:
            lines = lines[:k] + other[k:]
        recs[i] = b"\n".join(lines)
    return b"\n\n".join([head] + recs) + b"\n\n"


class Env:
    def __init__(self, paths, so, refs, scratch):
        self.paths, self.so, self.refs, self.scratch = paths, so, refs, scratch


def run_tool(env, variant, flavor, work, args, faults, space, tag):
    logf, seen = os.path.join(work, f"log{tag}"), os.path.join(work, f"seen{tag}")
    e = {"PATH": os.environ.get("PATH", ""), "LD_PRELOAD": env.so, "KATFS_PREFIX": os.path.join(work, "d") + "/",
         "KATFS_FAULTS": ";".join(f"{o}:{a}:{k}:{x}" for o, a, k, x in faults), "KATFS_SPACE": str(space),
         "KATFS_LOG": logf, "KATFS_SEEN": seen, "RUST_BACKTRACE": "0"}
    try:
        r = subprocess.run([env.paths[(variant, flavor)]] + args, env=e, cwd=work, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TIMEOUT)
        code = r.returncode
    except subprocess.TimeoutExpired:
        code = 124
    events = open(logf, "rb").read() if os.path.exists(logf) else b""
    got = open(seen, "rb").read() if os.path.exists(seen) else b""
    return code, events, got


def slurp(p):
    try:
        return open(p, "rb").read()
    except OSError:
        return b""


def spit(p, data):
    with open(p, "wb") as fh:
        fh.write(data)


def fired_in(events):
    res = {}
    for line in events.decode().splitlines():
        op, _, what, _ = line.split(" ")
        if what not in ("ok", "fail"):
            k = {"o": "open", "r": "read", "w": "write"}[op] + "." + what
            res[k] = res.get(k, 0) + 1
    return res


def run_episode(env, ep, name):
    """returns dict(viol, log, stats, ops, nontrivial)"""
    v = ep["variant"]
    ref = env.refs[v]
    work = os.path.join(env.scratch, name)
    os.makedirs(os.path.join(work, "d"))
    req, rsp = os.path.join(work, "d", "kat.req"), os.path.join(work, "d", "kat.rsp")
    h = hashlib.sha256()
    stats, viol, ops = {}, None, 0
    tamper = False
    shape = [v]

    def bump(k, n=1):
        stats[k] = stats.get(k, 0) + n

    try:
        for i, st in enumerate(ep["steps"]):
            kind = st[0]
            h.update(kind.encode())
            if kind == "put":
                spit(req, ref.req)
                spit(rsp, ref.rsp)
            elif kind == "stale":
                spit(req, ref.req + ref.req[:st[1]])
                spit(rsp, ref.rsp + ref.rsp[:st[1]])
                bump("fault.stale_longer_file")
            elif kind == "damage":
                new = damage(ref, slurp(rsp), st[1], st[2], st[3])
                if new != slurp(rsp):
                    spit(rsp, new)
                    bump("fault.damage." + st[1])
                    tamper = True
                shape.append(("damage", st[1]))
            elif kind in ("gen", "retry"):
                faults, space, tool = (st[1], st[2], st[3]) if kind == "gen" else ([], -1, st[1])
                code, events, _ = run_tool(env, v, tool, work, [req, rsp], faults, space, i)
                h.update(f"{code}".encode() + events)
                ops += events.count(b"\n")
                f = fired_in(events)
                for k, n in f.items():
                    bump("fault." + k, n)
                tamper = tamper or bool(f)
                bump("gen.success" if code == 0 else "gen.failure")
                shape.append((kind, sorted(f.items()), [x[:3] for x in faults], code))
                if code == 0:
                    w = wrong_file(ref, slurp(req), ("seed",))
                    if w:
                        viol = ("generator reported success, request file is wrong", w)
                    w = w or wrong_file(ref, slurp(rsp))
                    if w and not viol:
                        viol = ("generator reported success, response file is wrong", w)
                elif not f:
                    viol = ("generator failed without any fault", f"exit status {code}")
            elif kind == "verify":
                faults, tool = st[1], st[2]
                data = slurp(rsp)
                code, events, seen = run_tool(env, v, tool, work, [rsp], faults, -1, i)
                h.update(f"{code}".encode() + events)
                ops += events.count(b"\n")
                f = fired_in(events)
                for k, n in f.items():
                    bump("fault." + k, n)
                tamper = tamper or bool(f)
                bump("verify.success" if code == 0 else "verify.failure")
                shape.append((kind, sorted(f.items()), [x[:3] for x in faults], code))
                if code == 0:
                    m = missing(ref, seen)
                    if m is not None and only_copies(ref, seen):
                        viol = ("verifier reported success for a file in which copies of other records replace a record",
                                f"record {m} was not in what it read")
                    elif m is not None:
                        viol = ("verifier reported success for a file that lacks a record", f"record {m} was not in what it read")
                elif wrong_file(ref, data) is None and data.startswith(b"#") \
                        and all(k in ("read.short", "read.eintr") for k in f):
                    viol = ("verifier refused a correct file", f"exit status {code}")
            else:
                raise driver().CheckError("bad step " + kind)
            if viol:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {"viol": viol, "log": h.hexdigest()[:16], "stats": stats, "ops": ops, "nontrivial": tamper,
            "shape": hashlib.sha256(repr(shape).encode()).hexdigest()[:16]}


# ---- generation ----

def write_faults(r, total, n):
    kinds = ["short", "eintr", "eio", "enospc", "crash", "torn"]
    # rare failure mixed into transient ones
    res = []
    for _ in range(n):
        k = r.choice(kinds) if r.random() < 0.5 else r.choice(["short", "eintr"])
        at = r.randrange(total) if r.random() < 0.8 else max(0, total - 1 - r.randrange(40))
        res.append(["w", at, k, r.randrange(1 << 16)])
    if r.random() < 0.06:
        res.append(["o", r.randrange(2), r.choice(["eintr", "eio", "enospc", "eacces", "crash"]), 0])
    return sorted(res, key=lambda x: (x[1], x[2]))


def read_faults(r, total, n, transient):
    kinds = ["short", "eintr"] if transient else ["short", "eintr", "eio", "eof", "flip", "flip", "crash"]
    return sorted(([["r", r.randrange(total), r.choice(kinds), r.randrange(1 << 16)] for _ in range(n)]), key=lambda x: (x[1], x[2]))


def generate(seed, variant, idx, ref):
    r = random.Random(f"C10/{seed}/{variant}/{idx}")
    tool = "checked" if r.random() < 0.15 else "release"
    writes, reads = 3203, len(ref.rsp) // 8192 + 2
    total = len(ref.req) + len(ref.rsp)
    steps = []
    # the generator at work
    mode = r.random()
    if idx == 0:
        steps = [["gen", [], -1, "release"], ["verify", [], "release"]]
    elif idx == 1:
        steps = [["gen", [], -1, "checked"], ["verify", [], "checked"]]
    elif idx == 2:
        # the history of the listed finding: one record lost, another one there twice
        steps = [["put"], ["damage", "duprec", r.randrange(50), 50 + r.randrange(50)], ["verify", [], "release"]]
    elif mode < 0.30:
        if r.random() < 0.3:
            steps.append(["stale", r.randrange(1, 20000)])
        space = -1
        faults = []
        if r.random() < 0.25:
            space = r.choice([r.randrange(total), total - 1 - r.randrange(300), total - 1, total, len(ref.req), r.randrange(4096)])
        if space < 0 or r.random() < 0.5:
            faults = write_faults(r, writes, r.randint(1, 6))
        steps.append(["gen", faults, space, tool])
        steps.append(["verify", [], "release"])
        if r.random() < 0.3:
            steps += [["retry", tool], ["verify", [], "release"]]
    elif mode < 0.80:
        steps.append(["put"])
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            k = r.choice(DAMAGE)
            a = r.randrange(1 << 40)
            if k == "tear" and r.random() < 0.4:
                a = len(ref.rsp) - 1 - r.randrange(600)
            if k == "flip" and r.random() < 0.4:
                # late in the file, or in a separator or key name
                a = 8 * (len(ref.rsp) - 1 - r.randrange(700)) + r.randrange(8)
            steps.append(["damage", k, a, r.randrange(1 << 40)])
        f = read_faults(r, reads, r.randint(1, 3), True) if r.random() < 0.3 else []
        steps.append(["verify", f, tool])
    else:
        steps.append(["put"])
        steps.append(["verify", read_faults(r, reads, r.randint(1, 5), r.random() < 0.35), tool])
    return {"variant": variant, "steps": steps}


# ---- minimisation ----

def minimise(env, ep, what, budget_s=60):
    end = time.time() + budget_s
    n = [0]

    def bad(e):
        if time.time() > end:
            return False
        n[0] += 1
        r = run_episode(env, e, f"min{n[0]}")
        return r["viol"] is not None and r["viol"][0] == what

    def steps_variants(steps):
        for i in range(len(steps) - 1, -1, -1):
            if len(steps) > 1:
                yield steps[:i] + steps[i + 1:]
        for i, s in enumerate(steps):
            if s[0] in ("gen", "verify"):
                if s[0] == "gen" and s[2] >= 0:
                    yield steps[:i] + [["gen", s[1], -1, s[3]]] + steps[i + 1:]
                for k in range(len(s[1])):
                    yield steps[:i] + [[s[0], s[1][:k] + s[1][k + 1:]] + s[2:]] + steps[i + 1:]

    cur = ep["steps"]
    again = True
    while again and time.time() < end:
        again = False
        for c in steps_variants(cur):
            if bad({"variant": ep["variant"], "steps": c}):
                cur, again = c, True
                break
    return {"variant": ep["variant"], "steps": cur}, n[0]


# ---- entry points ----

def setup(variants, scratch):
    paths, so, workers = build(variants, scratch)
    refs = {v: Ref(v, workers[(v, "release")]) for v in variants}
    return Env(paths, so, refs, scratch)


def check(seed, tier, scratch):
    d = driver()
    t0 = time.time()
    env = setup(VARIANTS, scratch)
    t_build = time.time() - t0
    t1 = time.time()
    cap = 300 if tier == "quick" else 600
    todo = [(i, v) for i in range(EPISODES[tier]) for v in VARIANTS]
    known = d.known_findings()
    results, mu, stop, errors = {}, threading.Lock(), threading.Event(), []

    def listed(viol):
        return [k for k in known if k[0] == "C10" and k[1] in "|".join(viol)]

    def work(names):
        while not stop.is_set():
            with mu:
                if not todo or time.time() - t1 > cap:
                    return
                i, v = todo.pop(0)
            ep = generate(seed, v, i, env.refs[v])
            try:
                r = run_episode(env, ep, f"{names}-{v}-{i}")
            except Exception as e:  # error of the machinery, not a verdict
                errors.append(f"episode {v}/{i}: {e!r}")
                stop.set()
                return
            with mu:
                results[(v, i)] = r
            if r["viol"] and not listed(r["viol"]):
                stop.set()

    ts = [threading.Thread(target=work, args=("e",)) for _ in range(d.JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise d.CheckError(errors[0])
    t_run = time.time() - t1

    lines, code, viols, stats_known = [], 0, 0, [0]
    for (v, i), r in sorted(results.items()):
        if not r["viol"]:
            continue
        hit = listed(r["viol"])
        if hit:
            line = f"KNOWN-FINDING: property=C10 {hit[0][2]}"
            if line not in lines:
                lines.append(line)
            stats_known[0] += 1
            continue
        ep, tries = minimise(env, generate(seed, v, i, env.refs[v]), r["viol"][0])
        m = run_episode(env, ep, "final")
        os.makedirs(os.path.join(d.EVID, "replay"), exist_ok=True)
        p = os.path.join(d.EVID, "replay", f"C10-{v}-{i}.replay")
        with open(p, "w") as fh:
            fh.write(f"# replay with: ./check replay {os.path.relpath(p, VERIF)}\n")
            fh.write(f"property C10\nvariant {v}\nseed {seed} run {i}\n")
            fh.write(f"violation {'|'.join(m['viol'] or r['viol'])}\nminimiser-tries {tries}\nlog {m['log']}\n")
            fh.write("episode " + json.dumps(ep) + "\n")
        d.log(f"C10: {'|'.join(m['viol'] or r['viol'])}  [{v} episode {i}]")
        lines.append(f"VIOLATION property=C10 replay={p}")
        code, viols = 1, 1
        break

    # determinism: some episodes again, one at a time
    re, diff = 0, 0
    if not viols:
        for (v, i), r in sorted(results.items()):
            if i in (2, 3, 4, 5):
                re += 1
                diff += run_episode(env, generate(seed, v, i, env.refs[v]), f"again-{v}-{i}")["log"] != r["log"]
        if diff:
            d.log(f"C10: WARNING {diff} of {re} episodes did not repeat exactly")
    stats = {}
    for r in results.values():
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    ev = {
        "property": "C10", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len({r["shape"] for r in results.values() if r["nontrivial"]}),
            "rule": "one evaluation = one episode (create, damage, crash, retry, verify) generated from (VERIF_SEED, parameter set, index); "
                    "non-trivial = at least one injected fault fired or the file was changed; distinct = different parameter set, steps, "
                    "kinds and call numbers of file faults, kinds of damage, or exit statuses",
            "samples": [generate(seed, v, i, env.refs[v]) for (v, i) in sorted(results)[2:5]],
            "distinct_interleavings": len({r["log"] for r in results.values()}),
            "interleaving_measure": "different sequences of file operations with their results and exit statuses",
            "simulated_file_operations": sum(r["ops"] for r in results.values()),
            "episodes_with_listed_finding": stats_known[0],
            "simulated_seconds": 0,
            "runs_per_hour": int(len(results) / max(t_run, 0.001) * 3600),
            "faults_injected": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")},
            "counters": {k: n for k, n in sorted(stats.items()) if not k.startswith("fault.")},
            "determinism": {"runs_repeated_in_other_processes": re, "event_logs_different": diff},
            "real_code": "examples/katkem.rs with the library, built from /repo's working tree, as its own process",
            "simulated": "results of the tool's open, read and write calls, disk space, crashes, file contents; expected records come from the reference model",
            "build_s": round(t_build, 1),
        },
        "assumptions": ["the tool uses no clock and no threads, so there is no simulated time and no scheduling to explore",
                        "data accepted by write() is kept: loss after a successful exit is covered only as damage to the file"],
        "wall_s": round(time.time() - t0, 2),
        "violations": viols,
    }
    d.write_evidence("C10", ev)
    for line in lines:
        print(line, flush=True)
    d.log(f"C10 {tier}: {len(results)} episodes, build {t_build:.1f}s run {t_run:.1f}s")
    return code


def replay(path, scratch):
    kv = {}
    for line in open(path):
        k, _, r = line.rstrip("\n").partition(" ")
        kv.setdefault(k, r)
    ep = json.loads(kv["episode"])
    env = setup([ep["variant"]], scratch)
    rs = [run_episode(env, ep, f"replay{i}") for i in range(2)]
    print("steps " + json.dumps(ep["steps"]))
    print("event log identical to the reported one:", rs[0]["log"] == kv.get("log"), "- the two replays agree:", rs[0]["log"] == rs[1]["log"])
    if rs[0]["viol"]:
        print("VIOL " + "|".join(rs[0]["viol"]))
        print(f"VIOLATION property=C10 replay={path}")
        return 1
    print("not reproduced on this tree")
    return 0
