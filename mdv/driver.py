"""Search driver: seeded cases, determinism gate, minimisation, replay files, evidence."""
import os, sys, json, time, copy, hashlib, subprocess, threading, collections, traceback
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
from . import core
from .core import VERIF, CheckError, NPROC

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "build", "replay")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Acc:
    """What was actually covered."""

    def __init__(self):
        self.lk = threading.Lock()
        self.c = collections.Counter()
        self.fired = collections.Counter()
        self.out = collections.Counter()
        self.sched = set()
        self.iohist = set()
        self.feat = collections.Counter()
        self.simtime = 0.0
        self.deadline = None

    def add(self, r):
        """account for one simulated process lifetime"""
        with self.lk:
            self.c["runs"] += 1
            for k in ("io_ops", "allocs", "regions", "switches", "preempts", "races", "accesses", "clock_reads"):
                self.c[k] += r.stats.get(k, 0)
            if r.stats.get("regions", 0) and r.plan.get("threads", 1) > 1:
                self.sched.add(r.stats.get("sched_hash"))
            self.iohist.add(r.stats.get("iohash"))
            for k, n in r.fired:
                if n:
                    self.fired[k] += 1
            self.out[r.cls()] += 1


class Abandoned(Exception):
    """the time of the check is over: the case gives no verdict"""


class Ctx:
    """Per-case execution context: every simulated run goes through it."""

    def __init__(self, acc):
        self.acc = acc
        self.h = hashlib.sha256()
        self.dirs = []
        self.log = []
        self.over = []

    def late(self):
        if self.acc.deadline and time.time() > self.acc.deadline:
            raise Abandoned()

    def run(self, cfg, plan=None, d=None, **kw):
        self.late()
        r = core.run(cfg, plan, d, **kw)
        return self._done(r)

    def run_dir(self, *a, **kw):
        self.late()
        return self._done(core.run_dir(*a, **kw))

    def _done(self, r):
        self.late()
        self.acc.add(r)
        if r.dir not in self.dirs:
            self.dirs.append(r.dir)
        if r.stats.get("overruns"):
            self.over.append((r.stats, dict(r.plan)))
        self.h.update(("%s %s %s" % (r.cls(), r.stats.get("iohash"), r.stats.get("sched_hash"))).encode())
        self.log.append({"outcome": r.cls(), "faults_fired": [k for k, n in r.fired if n], "io_ops": r.stats.get("io_ops"), "sched_hash": r.stats.get("sched_hash")})
        return r

    def newdir(self):
        d = core.newdir()
        self.dirs.append(d)
        return d

    def drop(self, d):
        core.drop(d)

    def close(self):
        for d in self.dirs:
            core.drop(d)


class Outcome:
    def __init__(self):
        self.viol = []          # [(kind, text)]
        self.nontrivial = False
        self.skip = None        # reason when the case could not be evaluated
        self.known = []         # known findings seen: (id, text)
        self.hash = ""
        self.steps = 0
        self.simtime = 0.0
        self.sample = None
        self.log = []

    def bad(self, kind, text):
        self.viol.append((kind, text))


def execute(prop, case, acc):
    ctx = Ctx(acc)
    o = Outcome()
    try:
        prop.check(ctx, case, o)
        if prop.memory and ctx.over and not o.viol:
            s, p = ctx.over[0]
            o.bad("memory", "a run with %s wrote outside a heap block: byte %d of a block of %d bytes allocated in %s, noticed in %s" % (
                ", ".join("%s=%s" % (k, p[k]) for k in ("threads", "fill", "mode") if k in p) or "the default settings", s["over_at"], s["over_size"], core.where(s["over_alloc"]), core.where(s["over_free"])))
        ctx.h.update(json.dumps(o.viol).encode())
        o.hash = ctx.h.hexdigest()
        o.log = ctx.log
    finally:
        ctx.close()
    return o


def load_known():
    try:
        return json.load(open(KNOWN))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def save_replay(prop, case, o, name):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, name + ".json")
    with open(p, "w") as f:
        json.dump({"property": prop.id, "case": case, "violation": o.viol[:20], "hash": o.hash, "trace": o.log,
                   "replay_cmd": "python3-vt %s/check.py %s --replay %s" % (VERIF, prop.id, p)}, f, indent=1)
    return p


def minimise(prop, case, o, acc, budget):
    t0 = time.time()
    kinds = set(k for k, _ in o.viol)
    changed = True
    tried = 0
    while changed and time.time() - t0 < budget:
        changed = False
        for c2 in prop.shrink(case):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                o2 = execute(prop, c2, acc)
            except CheckError:
                continue
            if o2.viol and (set(k for k, _ in o2.viol) & kinds):
                case, o = c2, o2
                changed = True
                break
    return case, o, tried


def report(prop, case, o, acc, minbudget):
    """Gate, minimise, write the replay file, confirm in a fresh process. Returns path or raises CheckError."""
    o2 = execute(prop, case, acc)
    if o2.hash != o.hash:
        raise CheckError("violation is not reproducible in-process (nondeterminism outside the simulator): %s" % (o.viol[:3],))
    case, o, tried = minimise(prop, case, o, acc, minbudget)
    path = save_replay(prop, case, o, "%s-%s" % (prop.id, o.hash[:12]))
    env = dict(os.environ, MDV_NOBUILD="1")
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop.id, "--replay", path], capture_output=True, text=True, env=env)
    if p.returncode != 1:
        raise CheckError("replay in a fresh process did not reproduce the violation (exit %d)\n%s" % (p.returncode, p.stdout[-1500:] + p.stderr[-1500:]))
    return path, case, o


def replay(prop, path):
    j = json.load(open(path))
    acc = Acc()
    o = execute(prop, j["case"], acc)
    for k, t in o.viol:
        print("  %s: %s" % (k, t))
    if not o.viol:
        print("replay: no violation")
        return 0
    same = o.hash == j.get("hash")
    print("replay: violation reproduced%s" % (" exactly" if same else " (different trace hash: the code or the machine differs)"))
    if os.environ.get("MDV_NOBUILD") and not same:
        return 2
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def search(prop, tier, seed):
    t0 = time.time()
    budget = prop.budget[tier]
    if os.environ.get("MDV_BUDGET"):
        budget = float(os.environ["MDV_BUDGET"])
    acc = Acc()
    acc.deadline = t0 + budget + 45
    known = [k for k in load_known()["findings"] if k["property"] == prop.id]
    prop.known = known
    kseen = {}
    n = nt = skipped = abandoned = 0
    skips = collections.Counter()
    samples = []
    steps = 0
    simtime = 0.0
    viol = None
    err = None
    maxc = prop.max_cases[tier]
    cases = prop.cases(seed, tier)
    with ThreadPoolExecutor(NPROC) as ex:
        pend = {}
        src = iter(cases)
        done = False
        results = {}
        order = 0
        nextout = 0
        while True:
            while not done and len(pend) < NPROC + 2:
                if (n + len(pend)) >= maxc or time.time() - t0 > budget or viol:
                    done = True
                    break
                try:
                    c = next(src)
                except StopIteration:
                    done = True
                    break
                pend[ex.submit(execute, prop, c, acc)] = c
            if not pend:
                break
            fin, _ = wait(list(pend), return_when=FIRST_COMPLETED)
            for f in fin:
                c = pend.pop(f)
                try:
                    o = f.result()
                except Abandoned:
                    abandoned += 1
                    continue
                except CheckError as e:
                    err = e
                    done = True
                    continue
                n += 1
                steps += o.steps
                simtime += o.simtime
                if o.skip:
                    skipped += 1
                    skips[o.skip] += 1
                    continue
                for kid, txt in o.known:
                    kseen.setdefault(kid, txt)
                if o.nontrivial:
                    nt += 1
                    if o.sample and len(samples) < 6 and (n % 7 == 1 or len(samples) < 2):
                        samples.append(o.sample)
                if o.viol and viol is None:
                    viol = (c, o)
                    done = True
                    acc.deadline = time.time()
    acc.deadline = None
    if err and not viol:
        raise err
    code = 0
    vrec = None
    if viol:
        c, o = viol
        path, c, o = report(prop, c, o, acc, float(os.environ.get("MDV_MIN", prop.min_budget)))
        for k, t in o.viol[:8]:
            print("  %s: %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        vrec = {"replay": path, "what": o.viol[:8]}
        code = 1
    wall = time.time() - t0
    for k in known:
        if k["id"] in kseen:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    unseen = [k["id"] for k in known if k["id"] not in kseen]
    cov = {
        "evaluations": n - skipped, "distinct_nontrivial": nt, "rule": prop.rule, "samples": samples or ["none"],
        "seeds": n, "skipped_cases": dict(skips), "abandoned_at_the_time_limit": abandoned, "simulated_runs": acc.c["runs"], "simulated_runs_per_hour": round(acc.c["runs"] * 3600 / max(wall, 1e-9)),
        "seeds_per_hour": round(n * 3600 / max(wall, 1e-9)),
        "simulated_time_steps": steps, "simulated_model_time_units": simtime,
        "faults_injected": dict(acc.fired), "run_outcomes": dict(acc.out),
        "distinct_interleavings": len(acc.sched), "distinct_io_histories": len(acc.iohist),
        "interleaving_measure": "distinct hashes of the (fiber, yield point) sequence over runs with >1 thread; I/O histories: distinct hashes of the operation sequence",
        "totals": {k: acc.c[k] for k in ("regions", "switches", "preempts", "io_ops", "allocs", "races", "clock_reads")},
        "real_code": "all of MDLIB (and SETS callbacks where a set-up is used), HDF5, SuiteSparse, libm as shipped",
        "stubbed": "OpenMP runtime (deterministic fibers), libc file/heap/clock/rand entry points (seams in front of the real calls), process death (exit at an operation)",
        "known_findings_seen": sorted(kseen), "known_findings_not_exercised": unseen,
    }
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "wall_s": round(wall, 2)}
    if vrec:
        ev["violation"] = vrec
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d nontrivial, %d skipped), %d simulated runs, %d interleavings, %d faults fired, %.0f s" % (prop.id, tier, n, nt, skipped, acc.c["runs"], len(acc.sched), sum(acc.fired.values()), wall))
    return code
