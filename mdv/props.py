"""The properties: case generation, oracles, shrinking."""
import os, random, shutil, copy, re
import numpy as np
from . import params as P_, core, gen, inv, heat, chemo, surface, history
from .core import load, newdir, drop, outputs
from .compare import compare, step_of

NULLSETS = ("ViscousSinker", "Shrinking", "Shrinking_preload")      # null solutions: nothing but rounding noise to compare
RTOL, INTS = 5e-4, 0.02


def rng(*a):
    return random.Random("-".join(str(x) for x in a))


def bpname(k):
    return "Breakpoint%05d.dat" % k


def par(cfg, k, default=0.0):
    try:
        return float(cfg["par"].get(k, default))
    except ValueError:
        return default


def breakpoints(d):
    """{step: bytes} of the files a user would restart from"""
    res = {}
    for f in os.listdir(d):
        m = re.fullmatch(r"Breakpoint(\d+)\.dat", f)
        if m:
            with open(os.path.join(d, f), "rb") as h:
                res[int(m.group(1))] = h.read()
    return res


def model_time(files):
    t = 0.0
    for n, f in files.items():
        if f and n.startswith("Output") and "Model/Params" in f:
            t = max(t, float(f["Model/Params"][1][0]))
    return t


def compare_dirs(a, b, names, rtol, cfg, ints=INTS, skip=(), iters=True, rename=None):
    """compare output files; -> [(file, dataset, what, magnitude)]"""
    res = []
    for n in names:
        if n not in b:
            res.append((n, "<file>", "missing", 9.0))
            continue
        o = n.replace("Particles", "Output")
        ex = [x for x in (a.get(o), b.get(o)) if x] if o != n else ()
        for t in compare(a[n], b[n], rtol, step_of(n), skip=skip, cfg=cfg, ints=ints, iters=iters, extra=ex):
            res.append((n,) + t)
    return res


def show(t):
    return "%s %s %s%s" % (t[0], t[1], t[2], " (relative %.2g)" % t[3] if t[2] == "differs" else "")


# ------------------------------------------------------------------------------------------------ shrinking of configurations
def shrink_cfg(cfg):
    if "set" in cfg.get("sc", {}):
        p = cfg["par"]
        if p["Nt"] > 2:
            yield dict(cfg, par=dict(p, Nt=p["Nt"] - 1))
        return
    p = cfg["par"]

    def w(**kw):
        return dict(cfg, par=dict(p, **kw))
    if p["Nt"] > 2:
        yield w(Nt=2)
        yield w(Nt=p["Nt"] - 1)
    for k, v in (("thermal", 0), ("anisotropy", 0), ("compressible", 0), ("elastic", 0), ("finite_strain", 0), ("marker_noise", 0), ("track_T_P_x_z", 0), ("surface_processes", 0), ("melting", 0),
                 ("Newton", 0), ("line_search", 0), ("reseed_mode", 0), ("RK", 1), ("preload", 0), ("shear_heating", 0), ("adiab_heating", 0), ("initial_cooling", 0), ("constant_dt", 1), ("subgrid_diffusion", 0)):
        if p.get(k, v) != v and k not in cfg.get("keep", ()):
            yield w(**{k: v})
    if p["Nx"] > 15:
        yield w(Nx=p["Nx"] - 4)
    if p["Nz"] > 15:
        yield w(Nz=p["Nz"] - 4)


def shrink_plan(pl):
    if pl.get("threads", 1) > 2:
        yield dict(pl, threads=2)
    fs = pl.get("faults", [])
    for i in range(len(fs)):
        if len(fs) > 1:
            yield dict(pl, faults=fs[:i] + fs[i + 1:])
    for k in ("fill", "stackfill", "clock"):
        if pl.get(k):
            q = dict(pl)
            q.pop(k)
            yield q


# ------------------------------------------------------------------------------------------------ plans
def sched_plan(r, threads=None):
    t = threads or r.choice([2, 2, 3, 3, 4, 5])
    m = r.choice([0, 1, 1, 2, 3, 3, 3])
    pl = {"threads": t, "mode": m, "seed": r.randrange(1, 1 << 30), "interval": r.choice([30, 100, 500, 3000])}
    if m == 3:
        pl.update(detect=1, hotp=r.choice([0.03, 0.1, 0.3, 0.6, 1]))
    return pl


def env_plan(r):
    return {"fill": r.choice([1, 2, 3, 4]), "stackfill": r.choice([0, 1, 2, 3, 4]), "clock": r.choice([0, 1, 2, 3]), "seed": r.randrange(1, 1 << 30)}


class Prop:
    level = "exploration"
    budget = {"quick": 100, "thorough": 1500}
    max_cases = {"quick": 100000, "thorough": 1000000}
    min_budget = 40
    weights = {"box": 5, "litho": 3, "set": 4, "chem": 2, "kinematic": 1}
    cells = 450
    sets_excluded = ()
    known = ()
    memory = False              # a write outside a heap block is a violation of this property

    def cfg(self, r, fam=None, name=None, nt=None):
        if name is None and fam is None:
            fam = r.choices(list(self.weights), list(self.weights.values()))[0]
        if fam == "set" or name:
            ok = [s for s in gen.SETNAMES if s not in self.sets_excluded]
            c = gen.fromset(r, name or r.choice(ok), cells=self.cells, nt=nt)
        else:
            c = gen.spice(r, gen.FAMS[fam](r))
            if nt:
                c["par"]["Nt"] = nt
        return c

    def cases(self, seed, tier):
        """each set-up once and the generated families in turn, then random draws"""
        i = 0
        names = [s for s in gen.SETNAMES if s not in self.sets_excluded]
        rng(self.id, seed, "order").shuffle(names)
        fams = [f for f, w in self.weights.items() for _ in range(int(w)) if f != "set"]
        ns = int(self.weights.get("set", 0))
        while True:
            r = rng(self.id, seed, i)
            slot = i % (len(fams) + ns)
            if slot < ns:
                fam, name = "set", names[(i // (len(fams) + ns) * ns + slot) % len(names)]
            else:
                fam, name = fams[slot - ns], None
            c = self.make(r, fam, name)
            i += 1
            if c is not None:
                c["seed"] = "%s-%s-%d" % (self.id, seed, i - 1)
                yield c

    def is_known(self, kid):
        return any(k["id"] == kid for k in self.known)

    def shrink(self, case):
        if "cfg" in case:
            for c in shrink_cfg(case["cfg"]):
                yield dict(case, cfg=c)
        if "plan" in case:
            for p in shrink_plan(case["plan"]):
                yield dict(case, plan=p)

    def brief(self, case):
        """a case written out for the evidence file"""
        c = dict(case)
        if "cfg" in c:
            p = c["cfg"]["par"]
            c["cfg"] = {"name": c["cfg"]["name"], "Nx": p["Nx"], "Nz": p["Nz"], "Nt": p["Nt"], "on": [k for k in ("elastic", "thermal", "anisotropy", "compressible", "free_surface", "melting", "chemical_diffusion", "surface_processes", "Newton", "periodic_x") if str(p.get(k, 0)) not in ("0", "0.0")]}
        return c


# ================================================================================================ C01 restart equivalence
class C01(Prop):
    id = "C01"
    rule = "a case = one generated model or repository set-up, run uninterrupted and continued from one of its breakpoints (or from a breakpoint of a continued run, or of a shorter run); non-trivial when at least one later step was compared field by field"
    cells = 400
    rtol = 1e-5

    def make(self, r, fam, name):
        cfg = self.cfg(r, fam, name, nt=r.choice([3, 3, 4]))
        if r.random() < 0.15 and fam == "box":
            cfg["par"].update(safe_mode=1, nit_max=20)
        p = cfg["par"]
        nt = p["Nt"]
        mode = r.choice(["same", "same", "longer", "chain"])
        k = r.randrange(1, nt)
        case = {"cfg": cfg, "mode": mode, "k": k, "plan": {"fill": 1}, "rplan": {"fill": r.choice([1, 2, 3, 4]), "stackfill": r.choice([0, 1, 2, 3, 4]), "clock": r.choice([0, 1])}}
        if mode == "chain":
            case["k"] = 1
            case["k2"] = r.randrange(2, nt) if nt > 2 else 1
        return case

    def classify(self, cfg, t):
        """known finding a difference belongs to, or None"""
        ds = t[1]
        if ds == "Flags/tag_t_fine" and t[2].startswith("differs") and re.match(r"Output_(Before|After)|Outputx\d", t[0]):
            return "K5"
        if t[2] not in ("differs",):
            return None
        if par(cfg, "mechanical", 1) == 0:
            kept = ["Particles/x", "Particles/z", "Particles/phase", "Centers/X", "Particles/Vx", "Particles/Vz", "VxNodes/Vx", "VzNodes/Vz"]
            if par(cfg, "melting") == 0 and par(cfg, "shear_heating", 1) == 0 and par(cfg, "adiab_heating") == 0:
                kept += ["Particles/T", "Centers/T"]
            if ds in kept:
                return None
            return "K2"
        if par(cfg, "elastic") == 0 and ds in ("Particles/sxxd", "Particles/szzd", "Particles/sxz"):
            return "K1"
        if ds == "Topo/z_finer_cent" and (par(cfg, "advection", 1) == 0 or re.match(r"Output_Before(Solve|SurfRemesh)", t[0])):
            return "K5"
        return None

    def check(self, ctx, case, o):
        cfg, k = case["cfg"], case["k"]
        nt = cfg["par"]["Nt"]
        r = ctx.run(cfg, case["plan"], cpu=60)
        o.steps += nt
        if not r.ok():
            o.skip = "reference run: " + r.cls()
            return
        a = load(r.dir)
        o.simtime = model_time(a)

        def leg(src, k, ov=None, tag=""):
            f = os.path.join(src, bpname(k))
            if not os.path.exists(f):
                o.bad("no breakpoint", "%s was not written" % bpname(k))
                return None
            d = ctx.newdir()
            shutil.copy(f, d)
            for x in os.listdir(src):
                if x.endswith(".bin"):
                    shutil.copy(os.path.join(src, x), d)
            r2 = ctx.run(cfg, case["rplan"], d=d, cpu=60, overrides=dict({"irestart": 1, "istep": k}, **(ov or {})))
            o.steps += nt - k
            if not r2.ok():
                o.bad("restart fails", "continuing from %s%s ends with %s while the uninterrupted run completes" % (bpname(k), tag, r2.cls()))
                return None
            b = load(d)
            names = [n for n in sorted(a) if step_of(n) is not None and step_of(n) > k]
            n = 0
            for t in compare_dirs(a, b, names, self.rtol, cfg, ints=0.002):
                if t[1].endswith(("eta_n", "eta_s", "sxxd", "szzd", "sxz")) and t[2] == "differs" and t[3] < 10 * self.rtol:
                    continue
                kid = self.classify(cfg, t)
                if kid and self.is_known(kid):
                    o.known.append((kid, show(t)))
                    continue
                n += 1
                if n <= 12:
                    o.bad("differs:" + t[1], "continued from %s%s: %s" % (bpname(k), tag, show(t)))
            if names:
                o.nontrivial = True
            return d
        if case["mode"] == "longer":
            # the breakpoint comes from a run that was asked for fewer steps
            d = ctx.newdir()
            r1 = ctx.run(cfg, case["plan"], d=d, cpu=60, overrides={"Nt": k})
            if not r1.ok():
                o.bad("short run fails", "the run to step %d ends with %s" % (k, r1.cls()))
                return
            leg(d, k, tag=" of a run with Nt = %d" % k)
        else:
            d2 = leg(r.dir, k)
            if d2 and case["mode"] == "chain" and case["k2"] > k:
                leg(d2, case["k2"], tag=" of a continued run")
        o.sample = self.brief(case)

    def cases(self, seed, tier):
        for kid, c in KNOWN_CASES.items():
            yield dict(c, seed=kid)
        yield from super().cases(seed, tier)


def _known_cases():
    """canonical inputs of the known findings, so that each run shows them"""
    r = random.Random("k")
    k1 = gen.box(random.Random("k1"))
    k1["par"].update(elastic=0, Nt=2, anisotropy=0, thermal=0, compressible=0, Newton=0, marker_aniso_angle=0, advection=1, pure_shear_ALE=0, shear_style=0, periodic_x=0, preload=0)
    k1["sc"].update(useaniso=0, usestress=0, usedefgrad=0, useP=0)
    k2 = gen.kinematic(random.Random("k2"))
    k2["par"].update(Nt=2, preload=0)
    k2["sc"].update(usestress=0)
    k5 = gen.fromset(random.Random(1), "StressBC_FreeSurf", cells=400, nt=2)
    pl = {"plan": {"fill": 1}, "rplan": {"fill": 1}, "mode": "same", "k": 1}
    return {"K1": dict(pl, cfg=k1), "K2": dict(pl, cfg=k2), "K5": dict(pl, cfg=k5)}


KNOWN_CASES = _known_cases()


# ================================================================================================ helpers for fault properties
def small(p, r, fams=("box", "litho", "chem"), nt=(2, 3), **ov):
    """A small, cheap configuration that avoids the restart findings K1, K2, K5."""
    c = p.cfg(r, r.choice(fams), nt=r.choice(nt))
    q = c["par"]
    q["Nx"], q["Nz"] = r.randrange(11, 15), r.randrange(11, 15)
    if c["name"] == "litho":
        q["Nx"], q["Nz"] = r.randrange(15, 19), r.randrange(15, 19)
    q.update(elastic=1, mechanical=1, advection=1, nit_max=min(3, q.get("nit_max", 3)), Nx_part=3, Nz_part=3)
    if q.get("free_surface"):
        q["writer_debug"] = 0
    q.update(ov)
    c["keep"] = ["elastic"]
    return c


def iolog_of(r):
    """[(n, op, path, a, b)] of a run made with iolog=True"""
    res = []
    with open(os.path.join(r.dir + ".ctl", "iolog")) as f:
        for ln in f:
            w = ln.rstrip("\n").split(" ")
            res.append((int(w[0]), w[1], " ".join(w[2:-2]), int(w[-2]), int(w[-1])))
    return res


WRITE_KINDS = {"write": ["eio", "eiop", "enospc", "enospc1", "short", "eintr"], "openw": ["deny", "emfile", "full", "eio", "enospc"], "opena": ["deny", "emfile", "eio"], "openr": ["deny", "emfile", "eio"],
               "read": ["eio", "eiop", "short", "eintr"], "close": ["eio", "enospc"], "rename": ["eio", "deny"], "unlink": ["eio", "deny"], "mkdir": ["deny", "eio"], "trunc": ["eio", "enospc"], "fsync": ["eio"], "system": ["eio"]}


def pick(ops, focus, u, fallback=True):
    """the operation a case's fault hits: focus is a regular expression on 'op path', u in [0,1)"""
    c = [o for o in ops if re.search(focus, "%s %s" % (o[1], o[2]))]
    if not c:
        if not fallback:
            return None
        c = ops
    return c[min(len(c) - 1, int(u * len(c)))]


def bp_done_ops(ops):
    """{k: last operation that produces Breakpoint k in the fault-free run}"""
    res = {}
    for n, op, path, a, b in ops:
        for m in re.finditer(r"Breakpoint(\d+)", path):
            if op in ("openw", "opena", "write", "close", "fsync", "trunc") or (op == "rename" and re.search(r"->.*Breakpoint%s" % m.group(1), path)):
                res[int(m.group(1))] = n
    return res


def reported(r):
    """the process told its caller that it failed"""
    return r.cls() not in ("completed", "exit0", "hang", "deadlock")


# ================================================================================================ C02 crash durability of breakpoints
class C02(Prop):
    id = "C02"
    level = "fault_enumeration"
    rule = "a case = one model, delete_breakpoints and writer_step setting, and a chain of process deaths (each before, or in the middle of, one file operation) with restarts from the newest breakpoint on disk; non-trivial when at least one death happened after the first breakpoint operation"

    def make(self, r, fam, name):
        cfg = small(self, r, nt=(3, 4, 5), delete_breakpoints=r.choice([0, 1, 1]), writer_step=r.choice([1, 1, 2]), writer_markers=r.choice([0, 0, 1]))
        crashes = []
        for i in range(r.choice([1, 1, 2, 3])):
            focus = r.choice([r"Breakpoint", r"Breakpoint", r"^(openw|close|rename|unlink|system) .*Breakpoint", r"^(rename|unlink|system|close)", r"Breakpoint\d+\.dat$", r"."])
            crashes.append({"focus": focus, "u": round(r.random(), 6), "kind": r.choice(["crash", "crash", "torn"]), "arg": r.randrange(1 << 20), "skip": r.random() < 0.5})
        return {"cfg": cfg, "crashes": crashes}

    def cases(self, seed, tier):
        i = 0
        while True:
            c = self.make(rng(self.id, seed, i), None, None)
            c["seed"] = "%s-%s-%d" % (self.id, seed, i)
            i += 1
            yield c

    def shrink(self, case):
        cs = case["crashes"]
        for i in range(len(cs)):
            if len(cs) > 1:
                yield dict(case, crashes=cs[:i] + cs[i + 1:])
        for c in shrink_cfg(case["cfg"]):
            yield dict(case, cfg=c)
        for i, x in enumerate(cs):
            if x["kind"] == "torn":
                yield dict(case, crashes=cs[:i] + [dict(x, kind="crash")] + cs[i + 1:])

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        nt = cfg["par"]["Nt"]
        dele = par(cfg, "delete_breakpoints") == 1
        ref = ctx.run(cfg, {}, cpu=60, overrides={"delete_breakpoints": 0})
        if not ref.ok():
            o.skip = "reference run: " + ref.cls()
            return
        a = load(ref.dir)
        refs = breakpoints(ref.dir)
        o.steps += nt
        o.simtime = model_time(a)
        r0 = ctx.run(cfg, {}, cpu=60, iolog=True)
        if not r0.ok():
            o.bad("delete_breakpoints", "the run completes with delete_breakpoints = 0 and ends with %s with %d" % (r0.cls(), par(cfg, "delete_breakpoints")))
            return
        ops = iolog_of(r0)
        done = bp_done_ops(ops)
        left = breakpoints(r0.dir)
        for k in left:
            if k not in refs:
                o.bad("mislabelled", "%s exists but step %d writes no breakpoint" % (bpname(k), k))
            elif left[k] != refs[k]:
                o.bad("mislabelled", "%s does not hold the state of step %d after a fault-free run with delete_breakpoints = %d" % (bpname(k), k, par(cfg, "delete_breakpoints")))
        if not dele:
            for k in refs:
                if k not in left:
                    o.bad("lost", "%s was removed although delete_breakpoints is not 1" % bpname(k))
        elif refs and max(refs) not in left:
            o.bad("lost", "the newest breakpoint %s is not on disk at the end of the run" % bpname(max(refs)))
        if o.viol:
            return
        d = ctx.newdir()
        start = 0
        first = True
        finished = False
        for cr in case["crashes"]:
            if not first:
                q = ctx.run(cfg, {}, d=shutil.copytree(d, ctx.newdir() + ".c"), cpu=60, iolog=True, overrides={"irestart": 1 if start else 0, "istep": start})
                ops2 = iolog_of(q)
                ctx.drop(q.dir)
            else:
                ops2 = ops
            op = pick(ops2, cr["focus"], cr["u"])
            before = breakpoints(d)
            f = [(cr["kind"], op[0], cr["arg"])]
            r = ctx.run(cfg, {"faults": f}, d=d, cpu=60, overrides={"irestart": 1 if start else 0, "istep": start})
            ctx.log[-1]["fault"] = "%s at operation %d (%s %s)" % (cr["kind"], op[0], op[1], op[2])
            o.steps += 1
            if r.cls() != "crash":
                if r.ok():
                    finished = True
                    break
                o.bad("restart fails", "the run from step %d ends with %s" % (start, r.cls()))
                return
            where = "process death at %s %s (operation %d)" % (op[1], op[2], op[0])
            now = breakpoints(d)
            if now:
                o.nontrivial = True
            if first:
                comp = [k for k in done if done[k] < op[0]]
                for k in sorted(now):
                    if k not in refs or now[k] != refs[k]:
                        # not the bytes of the uninterrupted run: usable all the same?
                        self.usable(ctx, cfg, d, k, a, o, where)
                if dele:
                    if comp and not [k for k in now if k >= max(comp)]:
                        o.bad("lost", "%s leaves no breakpoint as new as %s, which had been completed; on disk: %s" % (where, bpname(max(comp)), sorted(now)))
                else:
                    for k in comp:
                        if k not in now:
                            o.bad("lost", "%s: completed %s is gone" % (where, bpname(k)))
            else:
                gone = [k for k in before if k not in now]
                if gone and not (dele and now and max(now) > max(gone)):
                    o.bad("lost", "%s after a restart: %s is gone, on disk: %s" % (where, [bpname(k) for k in gone], sorted(now)))
            if o.viol:
                return
            start = max(now) if now else 0
            if cr["skip"] and len([k for k in now if k < start]):
                start = max(k for k in now if k < start)     # restart from an older one
            first = False
        # faults stop: the run must now reach the end, and its result must be that of the uninterrupted run
        if not finished:
            r = ctx.run(cfg, {}, d=d, cpu=60, overrides={"irestart": 1 if start else 0, "istep": start})
        o.steps += nt - start
        if not r.ok():
            o.bad("no progress", "after %d process deaths the restart from %s ends with %s" % (len(case["crashes"]), bpname(start) if start else "the beginning", r.cls()))
            return
        b = load(d)
        for t in compare_dirs(a, b, [n for n in sorted(a) if step_of(n) > start], 2e-4, cfg)[:8]:
            o.bad("differs", "restarted from %s after process death: %s" % (bpname(start), show(t)))
        o.sample = {"case": self.brief(case), "trace": ctx.log}

    def usable(self, ctx, cfg, d, k, a, o, where):
        dd = ctx.newdir()
        shutil.copy(os.path.join(d, bpname(k)), dd)
        q = ctx.run(cfg, {}, d=dd, cpu=60, overrides={"irestart": 1, "istep": k})
        if not q.ok():
            o.bad("unusable breakpoint", "%s leaves a %s that cannot be restarted from (%s)" % (where, bpname(k), q.cls()))
            return
        b = load(dd)
        names = [n for n in sorted(a) if step_of(n) > k]
        bad = compare_dirs(a, b, names, 2e-4, cfg)
        if bad or not names:
            o.bad("wrong breakpoint", "%s leaves a %s that is not the state of step %d%s" % (where, bpname(k), k, ": " + show(bad[0]) if bad else ""))


# ================================================================================================ C03 write faults on breakpoints
class C03(Prop):
    id = "C03"
    level = "fault_enumeration"
    rule = "a case = one model and several runs of it, each with one fault (error, full disk, short or interrupted write, refused open, failed close/rename/delete) on one file operation, most of them on the breakpoint files; non-trivial when a fault was delivered"
    nf = 5

    def make(self, r, i=0):
        cfg = small(self, r, nt=(2, 3), delete_breakpoints=r.choice([0, 1]), writer_step=r.choice([1, 1, 2]), writer_markers=0)
        if cfg["par"]["writer_step"] == 2:
            cfg["par"]["Nt"] = 4
        fs = []
        for _ in range(self.nf):
            fs.append({"focus": r.choice([r"Breakpoint", r"Breakpoint", r"^(openw|close|rename|unlink|system) .*Breakpoint", r"^(openw|close|rename|unlink|system)", r"^write .*Output"]), "u": round(r.random(), 6), "ku": round(r.random(), 6), "arg": r.randrange(1 << 20)})
        return {"cfg": cfg, "faults": fs}

    def cases(self, seed, tier):
        i = 0
        while True:
            c = self.make(rng(self.id, seed, i), i)
            c["seed"] = "%s-%s-%d" % (self.id, seed, i)
            i += 1
            yield c

    def shrink(self, case):
        fs = case["faults"]
        if len(fs) > 1:
            for f in fs:
                yield dict(case, faults=[f])
        for c in shrink_cfg(case["cfg"]):
            yield dict(case, cfg=c)

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        dele = par(cfg, "delete_breakpoints") == 1
        ref = ctx.run(cfg, {}, cpu=60, overrides={"delete_breakpoints": 0})
        r0 = ctx.run(cfg, {}, cpu=60, iolog=True)
        if not ref.ok() or not r0.ok():
            o.skip = "reference run: " + ref.cls()
            return
        refs, left, ops = breakpoints(ref.dir), breakpoints(r0.dir), iolog_of(r0)
        done = bp_done_ops(ops)
        o.steps += 2 * cfg["par"]["Nt"]
        if not refs:
            o.bad("no breakpoint", "the run writes no breakpoint file")
            return
        for f in case["faults"]:
            op = pick(ops, f["focus"], f["u"])
            kinds = WRITE_KINDS.get(op[1], ["eio"])
            kind = kinds[int(f["ku"] * len(kinds))]
            r = ctx.run(cfg, {"faults": [(kind, op[0], f["arg"])], "io_limit": len(ops) * 20 + 10000}, cpu=60)
            o.steps += 1
            where = "%s on %s %s (operation %d)" % (kind, op[1], op[2], op[0])
            ctx.log[-1]["fault"] = where
            if not any(n for _, n in r.fired):
                ctx.drop(r.dir)
                continue
            o.nontrivial = True
            now = breakpoints(r.dir)
            if r.cls() in ("exit0", "hang", "deadlock"):
                o.bad("silent", "%s: the run ends with %s" % (where, r.cls()))
            if r.ok():
                for k in left:
                    if now.get(k) != left[k]:
                        o.bad("silent", "%s: the run reports success but %s is %s" % (where, bpname(k), "missing" if k not in now else "incomplete or wrong"))
            for k in now:
                if k not in refs:
                    o.bad("mislabelled", "%s: %s exists but is no step that writes breakpoints" % (where, bpname(k)))
                elif now[k] != refs[k]:
                    o.bad("broken breakpoint", "%s: %s on disk is not the state of step %d (%d of %d bytes)" % (where, bpname(k), k, len(now[k]), len(refs[k])))
            comp = [k for k in done if done[k] < op[0]]
            if dele:
                if comp and not [k for k in now if k >= max(comp)]:
                    o.bad("destroyed", "%s: no breakpoint as new as %s is left" % (where, bpname(max(comp))))
            else:
                for k in comp:
                    if k not in now:
                        o.bad("destroyed", "%s: %s, completed earlier, is gone" % (where, bpname(k)))
            ctx.drop(r.dir)
            if o.viol:
                return
        o.sample = {"cfg": self.brief(case)["cfg"], "trace": ctx.log[2:]}


# ================================================================================================ C04 damaged restart input
class C04(Prop):
    id = "C04"
    level = "fault_enumeration"
    rule = "a case = one model and several restarts from a breakpoint (or initial-marker file) that is missing, empty, cut at an arbitrary byte, or whose reading fails (error, early end, short or interrupted read, refused open) at an arbitrary read; non-trivial when the damage took effect"

    def make(self, r, i=0):
        mk = r.random() < 0.3
        cfg = small(self, r, fams=("box", "litho", "chem"), nt=(2, 3), writer_markers=1)
        k = r.randrange(1, cfg["par"]["Nt"])
        fs = []
        for _ in range(5):
            fs.append({"kind": r.choice(["missing", "empty", "cut", "cut", "cut", "read", "read", "open"]), "u": round(r.random(), 6) if r.random() < 0.7 else 1 - 10 ** -r.uniform(1, 6), "ku": round(r.random(), 6), "arg": r.randrange(1 << 20)})
        return {"cfg": cfg, "k": k, "what": "markers" if mk else "breakpoint", "faults": fs}

    cases = C03.cases
    shrink = C03.shrink

    def check(self, ctx, case, o):
        cfg, k = case["cfg"], case["k"]
        mk = case["what"] == "markers"
        nt = cfg["par"]["Nt"]
        ref = ctx.run(cfg, {}, cpu=60, overrides={"save_initial_markers": 1} if mk else None)
        if not ref.ok():
            o.skip = "reference run: " + ref.cls()
            return
        a = load(ref.dir)
        fname = "markers.bin" if mk else bpname(k)
        if not os.path.exists(os.path.join(ref.dir, fname)):
            o.bad("not written", "%s was not written" % fname)
            return
        data = open(os.path.join(ref.dir, fname), "rb").read()
        ov = {"load_initial_markers": 1} if mk else {"irestart": 1, "istep": k}
        d = ctx.newdir()
        shutil.copy(os.path.join(ref.dir, fname), d)
        r0 = ctx.run(cfg, {}, d=d, cpu=60, iolog=True, overrides=ov)
        if not r0.ok():
            o.bad("restart fails", "an intact %s is not accepted (%s)" % (fname, r0.cls()))
            return
        ops = iolog_of(r0)
        reads = [x for x in ops if x[1] == "read" and fname in x[2]]
        opens = [x for x in ops if x[1].startswith("open") and fname in x[2]]
        o.steps += 2 * nt - k
        names = [n for n in sorted(a) if mk or step_of(n) > k]
        for f in case["faults"]:
            d = ctx.newdir()
            pl = {"io_limit": len(ops) * 20 + 10000, "fill": [1, 2, 3, 4][f["arg"] % 4]}
            kind = f["kind"]
            path = os.path.join(d, fname)
            if kind == "missing":
                where = "%s missing" % fname
            elif kind == "empty":
                open(path, "wb").close()
                where = "%s empty" % fname
            elif kind == "cut":
                n = min(len(data) - 1, int(f["u"] * len(data)))
                if not mk and (len(data) - n) % 120 == 0:
                    n += 1          # a whole number of trailing time-series entries: the same file as from a shorter run
                if n >= len(data):
                    n = len(data) - 1
                with open(path, "wb") as h:
                    h.write(data[:n])
                where = "%s cut to %d of %d bytes" % (fname, n, len(data))
            else:
                with open(path, "wb") as h:
                    h.write(data)
                src = reads if kind == "read" else opens
                if not src:
                    continue
                x = src[min(len(src) - 1, int(f["u"] * len(src)))]
                kk = ["eio", "eiop", "eof", "short", "eintr", "eof"] if kind == "read" else ["deny", "emfile", "eio"]
                fk = kk[int(f["ku"] * len(kk))]
                pl["faults"] = [(fk, x[0], f["arg"])]
                where = "%s on %s %s (operation %d)" % (fk, x[1], x[2], x[0])
            r = ctx.run(cfg, pl, d=d, cpu=60, overrides=ov)
            ctx.log[-1]["fault"] = where
            o.steps += 1
            o.nontrivial = True
            if r.cls() in ("exit0", "hang", "deadlock"):
                o.bad("silent", "%s: the run ends with %s" % (where, r.cls()))
            elif r.ok():
                b = load(d)
                bad = compare_dirs(a, b, names, 2e-4, cfg)
                if kind in ("missing", "empty", "cut"):
                    o.bad("accepted", "%s: the run goes on and reports success%s" % (where, ", " + show(bad[0]) if bad else ""))
                elif bad:
                    o.bad("accepted", "%s: the run goes on with a wrong state: %s" % (where, show(bad[0])))
            ctx.drop(d)
            if o.viol:
                return
        o.sample = {"cfg": self.brief(case)["cfg"], "what": fname, "trace": ctx.log[2:]}


# ================================================================================================ relations between two whole runs
PERTURB_PAR = ("xmin", "xmax", "zmin", "zmax", "bkg_strain_rate", "gz", "dt", "user0", "user1", "user2", "user3", "user4", "user5", "user6", "user7")
PERTURB_PHASE = ("rho", "k", "G", "eta0", "C", "Qr", "alp", "bet", "Cp", "tau0", "eps0", "eta_vp", "phi")


def perturbed(cfg, seed, amp=1e-9):
    """the same model with every continuous parameter moved by about 1e-9 of its value"""
    r = random.Random("perturb-%s" % seed)

    def mv(d, keys):
        d = dict(d)
        for k in keys:
            try:
                v = float(d[k])
            except (KeyError, ValueError):
                continue
            if v and abs(v) < 1e80 and not (k == "user0" and v == 1.0):
                d[k] = "%.16e" % (v * (1 + amp * r.uniform(-1, 1)))
        return d
    return dict(cfg, par=mv(cfg["par"], PERTURB_PAR), phases=[mv(p, PERTURB_PHASE) for p in cfg["phases"]])


def stagnates(r):
    with open(r.log, errors="replace") as f:
        return "Stagnating" in f.read()


class Relation(Prop):
    """Reference run and variant runs of one model must agree in every output file."""
    rtol = RTOL
    ints = INTS
    sets_excluded = NULLSETS
    variants = 2
    iters = False               # iteration counts at a tolerance may flip with rounding
    io_limit = 4000000
    chaotic = True
    weights = {"box": 6, "litho": 4, "set": 4, "chem": 2, "kinematic": 1}

    def make(self, r, fam, name):
        cfg = self.cfg(r, fam, name, nt=r.choice([1, 2, 2, 3]))
        self.tune(r, cfg)
        return {"cfg": cfg, "base": self.base(r), "plans": [self.variant(r, cfg) for _ in range(self.variants)]}

    def tune(self, r, cfg):
        pass

    def base(self, r):
        return {}

    def variant(self, r, cfg):
        return {}

    def shrink(self, case):
        ps = case["plans"]
        if len(ps) > 1:
            for p in ps:
                yield dict(case, plans=[p])
        for c in shrink_cfg(case["cfg"]):
            yield dict(case, cfg=c)
        if len(ps) == 1:
            for p in shrink_plan(ps[0]):
                if p.get("threads") == ps[0].get("threads"):
                    yield dict(case, plans=[p])

    def nontrivial(self, case, r0, r):
        return True

    def what(self, pl):
        return ", ".join("%s=%s" % (k, v) for k, v in pl.items() if k != "overrides") or "plain"

    def bps(self, ctx, cfg, a, b, where, o):
        pass

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        nt = cfg["par"]["Nt"]
        r0 = ctx.run(cfg, case["base"], cpu=120)
        o.steps += nt
        if not r0.ok():
            # the way it fails may not depend on the variation either
            o.skip = "reference run: " + r0.cls()
            if r0.cls() in ("hang", "deadlock"):
                o.skip = None
                o.bad("no progress", "the reference run ends with " + r0.cls())
            return
        a = load(r0.dir)
        o.simtime = model_time(a)
        for pl in case["plans"]:
            p = dict(pl)
            ov = p.pop("overrides", None)
            p["io_limit"] = self.io_limit
            r = ctx.run(cfg, p, cpu=300, overrides=ov)
            o.steps += nt
            where = self.what(pl) + (", input %s" % ov if ov else "")
            if not r.ok():
                o.bad("outcome", "%s: the run ends with %s while the reference completes" % (where, r.cls()))
                ctx.drop(r.dir)
                continue
            if self.nontrivial(case, r0, r):
                o.nontrivial = True
            b = load(r.dir)
            self.oracle(cfg, a, b, where, ov, o)
            ctx.drop(r.dir)
            if o.viol:
                if self.chaotic and all(k.startswith("differs") for k, _ in o.viol):
                    self.conditioning(ctx, cfg, case, a, o, p, ov)
                return
        o.sample = {"case": dict(self.brief(case)), "trace": ctx.log}

    def conditioning(self, ctx, cfg, case, a, o, pl, ov):
        """Rounding cannot be told from a defect in a model that amplifies changes of 1e-9 of its parameters to more than
        the tolerance (line searches that choose between equal values): no verdict from it, nor from
        a model whose iterations stagnate, where the next digit of a residual decides whether a step is taken."""
        ties = all("VizGrid/compo" in k or "/index" in k or "/phase" in k for k, _ in o.viol)      # markers on the border of two cells
        runs = [(cfg, case["base"], None), (cfg, pl, ov)] + [(perturbed(cfg, i, (1e-9, 1e-10, 1e-8, 1e-12)[i % 4]), case["base"], None) for i in range(12)]
        for i, (c, p, v) in enumerate(runs):
            r = ctx.run(c, p, cpu=300, overrides=v, keep_log=True)
            stag = stagnates(r)
            b = load(r.dir) if r.ok() and i > 1 else {}
            ctx.drop(r.dir)
            if stag or not r.ok() or (i > 1 and any(ties or not t[1].startswith("VizGrid/compo") for t in compare_dirs(a, b, sorted(a), self.rtol, cfg, ints=self.ints, iters=False))):
                o.viol, o.skip = [], "ill-conditioned model"
                return

    def oracle(self, cfg, a, b, where, ov, o):
        for n in sorted(b):
            if n not in a:
                o.bad("files", "%s: %s exists in the variant only" % (where, n))
        for t in compare_dirs(a, b, sorted(a), self.rtol, cfg, ints=self.ints, iters=self.iters)[:10]:
            o.bad("differs:" + t[1], "%s: %s" % (where, show(t)))


class C05(Relation):
    id = "C05"
    memory = True
    rule = "a case = one model, a thread count and several seeded schedules of its OpenMP regions (random preemption, PCT-like priorities, preemption at conflicting accesses found by the happens-before detector), all compared, plus one run of the unoptimised build whose happens-before detector reports data races that can change a value; non-trivial when the schedule hash differs from the reference's"
    variants = 2
    cells = 350

    def tune(self, r, cfg):
        cfg["par"]["Nt"] = r.choice([1, 1, 2])
        if cfg["name"] == "litho":
            cfg["par"]["Nx"], cfg["par"]["Nz"] = r.randrange(17, 23), r.randrange(17, 23)

    def make(self, r, fam, name):
        c = super().make(r, fam, name)
        t = r.choice([2, 2, 3, 4])
        c["base"] = {"threads": t, "mode": 0, "seed": 1}
        c["plans"] = [sched_plan(r, t) for _ in range(self.variants)]
        c["race"] = {"O0": 1, "threads": r.choice([2, 2, 3]), "mode": 3, "interval": r.choice([300, 3000]), "detect": 1, "hotp": r.choice([0.1, 0.3]), "seed": r.randrange(1, 1 << 30)}
        if r.random() < 0.5:
            c["plans"] = []
        return c

    def nontrivial(self, case, r0, r):
        return r.stats.get("sched_hash") != r0.stats.get("sched_hash")

    def shrink(self, case):
        if case.get("race"):
            if len(case["plans"]):
                yield dict(case, plans=[])
            for c in shrink_cfg(case["cfg"]):
                yield dict(case, cfg=c, plans=[])
            for p in shrink_plan(case["race"]):
                yield dict(case, race=p, plans=[])
            return
        yield from super().shrink(case)

    def check(self, ctx, case, o):
        """A run of the unoptimised build under the happens-before detector, where every access the source makes is seen, then
        the comparison of complete runs under different schedules."""
        p = case.get("race")
        if p:
            r = ctx.run(case["cfg"], dict(p, io_limit=self.io_limit), cpu=300)
            o.steps += case["cfg"]["par"]["Nt"]
            exe = core.MDSIM + "0"
            o.nontrivial = r.stats.get("switches", 0) > 0
            for a, b, k in r.races[:6]:
                wa, wb = core.where(a, exe), core.where(b, exe)
                o.bad("race " + wa.split(" ")[0], "%s: data race, %s" % (self.what(p), ("%s and %s give one variable different values and it is read afterwards" if k == "w" else "%s and %s touch one variable, one of them changing it, with nothing ordering them") % (wa, wb)))
            if not r.ok() and r.cls() in ("hang", "deadlock"):
                o.bad("no progress", "%s: the run ends with %s" % (self.what(p), r.cls()))
            ctx.drop(r.dir)
            if o.viol or not case["plans"]:
                if not case["plans"]:
                    o.sample = {"case": dict(self.brief(case)), "trace": ctx.log}
                return
        super().check(ctx, case, o)


class C06(Relation):
    id = "C06"
    memory = True
    rule = "a case = one model run with one thread and with several other thread counts (2 to 16); non-trivial when parallel regions ran with more than one thread"
    variants = 2

    def variant(self, r, cfg):
        return {"threads": r.choice([2, 3, 4, 5, 7, 8, 11, 16]), "mode": 0, "seed": r.randrange(1, 1 << 30)}

    def nontrivial(self, case, r0, r):
        return r.stats.get("regions", 0) > 0


class C07(Relation):
    id = "C07"
    rule = "a case = one model run with full output at every step and again with other output settings (output frequency, marker files, breakpoint deletion, debug output, verbosity, reduced marker files, initial-marker saving); the steps both runs wrote are compared; non-trivial when at least one later step was compared"
    variants = 3
    rtol = 2e-4

    def tune(self, r, cfg):
        cfg["par"]["Nt"] = r.choice([2, 3])
        cfg["par"]["writer_step"] = 1

    def variant(self, r, cfg):
        nt = cfg["par"]["Nt"]
        ov = {}
        for k, vs in (("writer_step", [1, 2, nt]), ("writer_markers", [0, 1, 1]), ("delete_breakpoints", [0, 1, -1]), ("noisy", [0, 1]), ("save_initial_markers", [0, 0, 1]), ("gnuplot_log_res", [0, 0, 1]), ("writer_debug", [0, 0, 1])):
            if r.random() < 0.5:
                ov[k] = r.choice(vs)
        if par(cfg, "Newton") or par(cfg, "anisotropy") or par(cfg, "line_search"):
            ov.pop("writer_debug", None)         # its scaling to SI and back rounds the density: not for models with a line search
        if not ov:
            ov["writer_step"] = nt
        return {"overrides": ov}

    def oracle(self, cfg, a, b, where, ov, o):
        nt = cfg["par"]["Nt"]
        ws = ov.get("writer_step", 1)
        for n in sorted(a):
            s = step_of(n)
            due = s % ws == 0
            if n.startswith("Particles") and ov.get("writer_markers", 1) == 0:
                due = False
            if due and n not in b:
                o.bad("files", "%s: %s is not written" % (where, n))
            if not due and n in b and re.match(r"(Output|Particles)\d", n):     # those of writer_debug come at each step
                o.bad("files", "%s: %s is written although it is not due" % (where, n))
        names = [n for n in sorted(a) if n in b]
        for t in compare_dirs(a, b, names, self.rtol, cfg, ints=self.ints, iters=self.iters)[:10]:
            o.bad("differs:" + t[1], "%s: %s" % (where, show(t)))


class C09(Relation):
    id = "C09"
    memory = True
    rule = "a case = one model run twice or more with other contents of fresh heap blocks and of the stack, other clock behaviour (slow, jumping, backward), or after other runs in the same process; outputs must agree; non-trivial when the variant run completed"
    variants = 2
    rtol = 1e-9
    ints = 0.0
    iters = True
    chaotic = False             # same operations in the same order: nothing may change

    def base(self, r):
        return {"fill": 1}

    def make(self, r, fam, name):
        c = super().make(r, fam, name)
        c["repeat"] = r.choice([0, 0, 1, 2])
        return c

    def variant(self, r, cfg):
        pl = {"fill": r.choice([2, 3, 4]), "stackfill": r.choice([1, 2, 3, 4]), "clock": r.choice([0, 1, 2, 3]), "seed": r.randrange(1, 1 << 30)}
        return pl

    def shrink(self, case):
        if case.get("repeat"):
            yield dict(case, repeat=0)
            if len(case["plans"]):
                yield dict(case, plans=[])
        yield from super().shrink(case)

    def check(self, ctx, case, o):
        super().check(ctx, case, o)
        if o.skip or o.viol or not case.get("repeat"):
            return
        cfg = case["cfg"]
        dirs = []
        for i in range(case["repeat"] + 1):
            d = ctx.newdir()
            core.write_input(os.path.join(d, "in.txt"), cfg)
            dirs.append(d)
        r0 = ctx.run(cfg, case["base"], cpu=120)
        a = load(r0.dir)
        r = ctx.run_dir(dirs[0], dict(cfg.get("sc", {})), {"fill": case["base"].get("fill", 1), "seed": 9, "io_limit": r0.stats["io_ops"] * 4 * len(dirs) + 200000}, cpu=300, dirs=dirs)
        if not r.ok():
            o.bad("outcome", "%d runs in one process end with %s" % (len(dirs), r.cls()))
            return
        b = load(dirs[-1])
        # other block addresses: rounding differences of the linear algebra are allowed
        for n in sorted(b):
            if n not in a:
                o.bad("files", "run number %d of one process: %s exists in it only" % (len(dirs), n))
        for t in compare_dirs(a, b, sorted(a), RTOL, cfg, ints=INTS)[:10]:
            o.bad("differs:" + t[1], "run number %d of one process: %s" % (len(dirs), show(t)))


class C11(Prop):
    id = "C11"
    level = "fault_enumeration"
    rule = "a case = one model and several runs in each of which one heap allocation fails; the run must report failure (status or signal) or give the very result of the undisturbed run; non-trivial when the allocation failure was delivered"

    def make(self, r, i=0):
        cfg = small(self, r, fams=("box", "litho", "chem"), nt=(1, 2), writer_markers=1)
        if r.random() < 0.3:
            cfg["par"]["save_initial_markers"] = 1
        return {"cfg": cfg, "faults": [{"u": round(r.random(), 7) if r.random() < 0.6 else round(r.random() ** 4, 7)} for _ in range(8)]}

    cases = C03.cases
    shrink = C03.shrink

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        r0 = ctx.run(cfg, {"fill": 1}, cpu=60)
        if not r0.ok():
            o.skip = "reference run: " + r0.cls()
            return
        a = load(r0.dir)
        refs = breakpoints(r0.dir)
        N = r0.stats["allocs"]
        o.steps += cfg["par"]["Nt"]
        for f in case["faults"]:
            n = 1 + int(f["u"] * N)
            r = ctx.run(cfg, {"fill": 1, "faults": [("nomem", n, 0)], "io_limit": r0.stats["io_ops"] * 20 + 10000}, cpu=60)
            where = "allocation %d of %d fails" % (n, N)
            ctx.log[-1]["fault"] = where
            o.steps += 1
            if any(k for _, k in r.fired):
                o.nontrivial = True
            if r.cls() in ("exit0", "hang", "deadlock"):
                o.bad("silent", "%s: the run ends with %s" % (where, r.cls()))
            elif r.ok():
                b = load(r.dir)
                bad = compare_dirs(a, b, sorted(a), 1e-9, cfg, ints=0)
                if bad:
                    o.bad("silent", "%s: the run reports success with a wrong result: %s" % (where, show(bad[0])))
                nb = breakpoints(r.dir)
                for k in refs:
                    if nb.get(k) != refs[k]:
                        o.bad("silent", "%s: the run reports success with a wrong %s" % (where, bpname(k)))
            ctx.drop(r.dir)
            if o.viol:
                return
        o.sample = {"cfg": self.brief(case)["cfg"], "trace": ctx.log[1:]}


TABLES = {"Hawaiian_Pyrolite_rho_bin.dat": (1000, 1000), "Hawaiian_Pyrolite_HR_rho_bin.dat": (1500, 1500), "MORB_H2Osat_rho_bin.dat": (1000, 1000), "Andesite.dat": (1249, 1249), "Hydrated_Pdt.dat": (793, 793),
          "MORB.dat": (1249, 1249), "Pelite.dat": (1249, 1249), "Rhyolite.dat": (1249, 1249), "Serpentinite.dat": (793, 793), "SiO2_nsm010.dat": (675, 2500)}
TABLES_LOCK = __import__("threading").Lock()


class C10(Prop):
    id = "C10"
    level = "fault_enumeration"
    rule = "a case = one model and several runs with one fault on the reading of the setup file or of an imported table (read error, persistent error, short or interrupted read, refused open, missing or truncated file); the run must fail or use the same parameters; non-trivial when the fault was delivered"

    def make(self, r, i=0):
        if i % 3 == 1:
            return self.values(r)
        cfg = small(self, r, fams=("box", "litho", "chem"), nt=(1,), writer_markers=0)
        if i % 12 == 5:
            return {"cfg": cfg, "styles": [r.randrange(1 << 30) for _ in range(3)]}
        what = r.choice(["setup", "setup", "pd1", "pd2"])
        if what == "pd1":
            cfg["phases"][0]["density_model"] = 4
        if what == "pd2":
            cfg["phases"][r.randrange(len(cfg["phases"]))].update({"phase_diagram": r.randrange(10), "density_model": 2})
            cfg["par"]["import_files_dir"] = "IMPORT"
        fs = []
        for _ in range(5):
            fs.append({"kind": r.choice(["read", "read", "read", "open", "missing", "cut", "empty"]), "u": round(r.random(), 6), "ku": round(r.random(), 6), "arg": r.randrange(1 << 20)})
        return {"cfg": cfg, "what": what, "table": r.choice(sorted(TABLES)), "faults": fs}

    # ---------------------------------------------------------------- what a file says is what the model gets
    INTS = {"Nx": (3, 4000), "Nz": (3, 4000), "Nt": (0, 100000), "interp_stencil": (1, 9), "shear_style": (0, 1), "writer_step": (1, 500), "preconditioner": (-1, 2), "pure_shear_ALE": (-1, 1),
            "Newton": (0, 1), "anisotropy": (0, 1), "deformation_maps": (0, 1), "max_its_PH": (0, 999), "max_its_KSP": (1, 999), "nT": (2, 99), "nE": (2, 99), "nd": (2, 99)}
    NOT = ("istep", "irestart")
    PINTS = {"phase_mix": (0, 1), "cstv": (1, 1), "density_model": (0, 1), "phase_diagram": (-1, -1), "transmutation": (-1, 1), "melt": (0, 41), "transmutation_phase": (0, 19)}

    def values(self, r):
        """a setup file with a random choice of parameters, values, units and layout"""
        g = [("eta", 10 ** r.uniform(-2, 23)), ("L", 10 ** r.uniform(-4, 6)), ("V", 10 ** r.uniform(-11, 1)), ("T", 10 ** r.uniform(-1, 3))]
        g = [(k, float("%.5e" % v)) for k, v in g]
        n = r.choice([1, 2, 3, 6, 12, 20])
        q = r.choice([0.1, 0.4, 0.8, 1.0])
        for k in P_.G_INT:
            if k not in self.NOT and r.random() < q:
                lo, hi = self.INTS.get(k, (0, 3))
                g.append((k, r.choice([1, 9]) if k == "interp_stencil" else r.randrange(lo, hi + 1)))
        for k in P_.G_DOU:
            if r.random() < q:
                g.append((k, self.number(r)))
        ph = []
        for i in range(n):
            p = [("cstv", 1)]
            for k in P_.M_INT:
                if k != "cstv" and r.random() < (0.1 * q if k.endswith("_soft") else q):
                    lo, hi = self.PINTS.get(k, (0, 1))
                    p.append((k, r.randrange(n) if k == "reac_phase" else r.randrange(lo, hi + 1)))
            for k in P_.M_DOU:
                if r.random() < q:
                    p.append((k, 1.0 if k == "n_vp" else self.number(r)))
            # combinations the program refuses
            p = dict(p)
            if "C" in p or "Slim" in p:
                p["C"] = abs(p.get("C", 1e7)) % 1e15
                p["Slim"] = float("%.6e" % (p["C"] * 10 ** r.uniform(1, 20) + 1))
            for sw, a, b, dflt in (("coh_soft", "C", "Ce", 1e7), ("phi_soft", "phi", "phie", 30.0), ("psi_soft", "psi", "psie", 0.0)):
                if p.get(sw):
                    p[b] = float("%.6e" % (0.5 * p.get(a, dflt) + 1.0))
                    if not p.get(a):
                        p[a] = dflt + 5.0 if sw != "coh_soft" else 2e7
                    if sw == "coh_soft" and "Slim" not in p:
                        p["Slim"] = 1e20
                    p[b] = float("%.6e" % (0.5 * p[a]))
            ph.append(list(p.items()))
        if any(k in ("psi", "psie", "psi_soft") for p in ph for k, _ in p):
            g = [x for x in g if x[0] != "compressible"] + [("compressible", 1)]
        return {"values": 1, "globals": g, "phases": ph, "style": r.randrange(1 << 30)}

    @staticmethod
    def number(r):
        v = r.choice([r.uniform(-10, 10), 10 ** r.uniform(-20, 20), -10 ** r.uniform(-12, 12), float(r.randrange(-9, 10)), 0.0])
        return float("%.6e" % v)

    @staticmethod
    def render(r, g, phases):
        """the text of a setup file: the order of the parameters and of the phases, blanks, comments and line ends are free"""
        eol = r.choice(["\n", "\n", "\r\n"])
        seps = r.choice([[" = "], ["="], [" = ", "=", "\t=\t", "    =  ", " =", "= "]])
        tails = r.choice([[""], ["", "", " // unit", "\t# " + "x" * r.randrange(60), "   /* was = 12 */"]])

        def text(v):
            if isinstance(v, str):
                return v
            if isinstance(v, int):
                return str(v)
            return r.choice(["%.7e" % v, "%.9g" % v, repr(v), "%.7E" % v])

        def line(k, v):
            return k + r.choice(seps) + text(v) + r.choice(tails)
        g = list(g)
        r.shuffle(g)
        after = [x for x in g if r.random() < 0.1] if r.random() < 0.3 else []
        g = [x for x in g if x not in after]
        out = [line(k, v) for k, v in g]
        out.insert(r.randrange(len(out) + 1), line("Nb_phases", len(phases)))
        ids = list(range(len(phases)))
        if r.random() < 0.5:
            r.shuffle(ids)
        for i in ids:
            out.append(line("ID", i))
            p = list(phases[i])
            r.shuffle(p)
            out += [line(k, v) for k, v in p]
        if after:                          # parameters of the model may also follow the phases
            out += [line(k, v) for k, v in after]
        res = []
        for x in out:
            while r.random() < 0.12:
                res.append(r.choice(["", "/**** COMMENT = 3 ****/", "// dt = 77 not this one", "", "-" * r.randrange(1, 400), "# rho = 1", "/* Nx   = 9 */"]))
            res.append(x)
        return eol.join(res) + r.choice(["", eol, eol + eol])

    def dump(self, ctx, g, phases, style):
        d = ctx.newdir()
        with open(os.path.join(d, "in.txt"), "w", newline="") as f:
            f.write(self.render(rng("layout", style), g, phases))
        r = ctx.run_dir(d, {"fam": 0}, {"dump": os.path.join(d, "values"), "fill": 1 + style % 4}, cpu=60)
        v = None
        if r.ok():
            try:
                v = {(a, b): float(c) for a, b, c in (x.split() for x in open(os.path.join(d, "values")))}
            except OSError:
                pass
        ctx.drop(d)
        return r, v

    def check_values(self, ctx, case, o):
        g, phases = [tuple(x) for x in case["globals"]], [[tuple(x) for x in p] for p in case["phases"]]
        G = dict(g)
        s = P_.scales(G["eta"], G["L"], G["V"], G["T"])
        r, got = self.dump(ctx, g, phases, case["style"])
        r2, base = self.dump(ctx, g[:4], [[("cstv", 1)]] * len(phases), case["style"] + 1)
        o.steps += 2
        if got is None or base is None:
            if r.cls() in ("hang", "deadlock", "exit0") or r.cls().startswith("signal") or r2.cls() != "completed":
                o.bad("refused", "a well-formed setup file: the run ends with %s (with defaults only: %s)" % (r.cls(), r2.cls()))
            o.skip = "file refused"
            return
        o.nontrivial = True

        def same(a, b):
            return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or (abs(a) < 1e-300 and abs(b) < 1e-300)
        for k in P_.SCALE:
            if ("scale", k) in got and not same(got["scale", k], s[k]):
                o.bad("unit", "the unit %s is %.10g, not %.10g" % (k, got["scale", k], s[k]))
        if got.get(("model", "Nb_phases")) != len(phases):
            o.bad("value", "Nb_phases is %s, not %d" % (got.get(("model", "Nb_phases")), len(phases)))

        def cmp(grp, k, member, given, unit, n_vp=1.0):
            if (grp, k) not in got:
                return
            x = got[grp, k]
            if given is None:
                y, how = base.get((grp, k)), "the default"
            else:
                y, how = (P_.expected(given, unit, s, n_vp) if unit is not None else given), "the setup file's %r" % given
            if y is not None and not same(x, y):
                o.bad("value", "%s %s is %.10g where %s gives %.10g" % (grp, k, x, how, y))
        for k in P_.G_INT:
            v = G.get(k)
            if k in P_.DERIVED and G.get(P_.DERIVED[k], 0) == 1:
                v = 1
            cmp("model", k, k, v, None)
        for k, u in P_.G_DOU.items():
            cmp("model", k, k, G.get(k), u)
        for i, p in enumerate(phases):
            p = dict(p)
            for k in P_.M_INT:
                cmp("phase%d" % i, k, k, p.get(k), None)
            for k, u in P_.M_DOU.items():
                v = p.get(k)
                if v is None and k in P_.M_FALLBACK and k != "eta_vp":
                    v = p.get(P_.M_FALLBACK[k])
                cmp("phase%d" % i, k, k, v, u, p.get("n_vp", 1.0))
        o.viol = o.viol[:6]
        if not o.viol:
            o.sample = {"parameters": len(g) + sum(map(len, phases)), "phases": len(phases), "trace": ctx.log}

    def rewrite(self, ctx, case, o):
        """the same parameters written in another layout give the same results"""
        cfg = case["cfg"]
        r0 = ctx.run(cfg, {}, cpu=60)
        o.steps += 1
        if not r0.ok():
            o.skip = "reference run: " + r0.cls()
            return
        a = load(r0.dir)
        for st in case["styles"]:
            d = ctx.newdir()
            with open(os.path.join(d, "in.txt"), "w", newline="") as f:
                f.write(self.render(rng("layout", st), [(k, core.fmt(v)) for k, v in cfg["par"].items()], [[(k, core.fmt(v)) for k, v in p.items()] for p in cfg["phases"]]))
            r = ctx.run_dir(d, dict(cfg.get("sc", {})), {}, cpu=60)
            o.steps += 1
            o.nontrivial = True
            if not r.ok():
                o.bad("layout", "the same parameters in layout %d: the run ends with %s" % (st, r.cls()))
            else:
                b = load(d)
                for t in compare_dirs(a, b, sorted(a), 1e-12, cfg, ints=0)[:3]:
                    o.bad("layout", "the same parameters in layout %d give another result: %s" % (st, show(t)))
            ctx.drop(d)
            if o.viol:
                return

    def shrink(self, case):
        if case.get("values"):
            for k in range(len(case["phases"])):
                if len(case["phases"]) > 1:
                    yield dict(case, phases=case["phases"][:k] + case["phases"][k + 1:])
            n = len(case["globals"])
            if n > 6:
                yield dict(case, globals=case["globals"][:4 + (n - 4) // 2])
                yield dict(case, globals=case["globals"][:4] + case["globals"][4 + (n - 4) // 2:])
            for k, p in enumerate(case["phases"]):
                if len(p) > 2:
                    for q in (p[:1] + p[1 + len(p) // 2:], p[:1 + len(p) // 2]):
                        yield dict(case, phases=case["phases"][:k] + [q] + case["phases"][k + 1:])
            return
        if case.get("styles"):
            if len(case["styles"]) > 1:
                for x in case["styles"]:
                    yield dict(case, styles=[x])
            for c in shrink_cfg(case["cfg"]):
                yield dict(case, cfg=c)
            return
        yield from C03.shrink(self, case)

    cases = C03.cases

    def prepare(self, d, what, table):
        """the imported tables a model of this kind reads"""
        if what == "pd1":
            os.makedirs(os.path.join(d, "PHASE_DIAGRAMS"), exist_ok=True)
            (2600.0 + np.arange(10000) * 0.03).astype("<f8").tofile(os.path.join(d, "PHASE_DIAGRAMS", "QuartzCoesite600C.bin"))
            return os.path.join("PHASE_DIAGRAMS", "QuartzCoesite600C.bin")
        if what == "pd2":
            sh = os.path.join(core.scratch(), "tables")
            with TABLES_LOCK:
                if not os.path.isdir(sh):
                    os.makedirs(sh)
                    for t, (nt, np_) in TABLES.items():
                        (3.0 + (np.arange(nt * np_) % 997) * 1e-4).astype("<f8").tofile(os.path.join(sh, t))
            os.makedirs(os.path.join(d, "IMPORT"), exist_ok=True)
            for t in TABLES:
                if t == table:
                    shutil.copy(os.path.join(sh, t), os.path.join(d, "IMPORT", t))
                else:
                    os.symlink(os.path.join(sh, t), os.path.join(d, "IMPORT", t))
            return os.path.join("IMPORT", table)
        return "in.txt"

    def check(self, ctx, case, o):
        if case.get("values"):
            return self.check_values(ctx, case, o)
        if case.get("styles"):
            return self.rewrite(ctx, case, o)
        cfg, what = case["cfg"], case["what"]
        d0 = ctx.newdir()
        fname = self.prepare(d0, what, case["table"])
        r0 = ctx.run(cfg, {"fill": 1}, d=d0, cpu=60, iolog=True)
        if not r0.ok():
            o.skip = "reference run (%s): %s" % (what, r0.cls())
            return
        ops = iolog_of(r0)
        a = load(d0)
        base = os.path.basename(fname)
        reads = [x for x in ops if x[1] == "read" and base in x[2]]
        opens = [x for x in ops if x[1].startswith("open") and base in x[2]]
        o.steps += 1
        for f in case["faults"]:
            kind = f["kind"]
            if what == "setup" and kind in ("cut", "empty"):
                kind = "read"            # a text file may end anywhere: parameters not given take their documented defaults
            d = ctx.newdir()
            self.prepare(d, what, case["table"])
            pl = {"fill": [1, 2, 3, 4][f["arg"] % 4], "io_limit": len(ops) * 20 + 10000}
            path = os.path.join(d, fname)
            sc = dict(cfg.get("sc", {}))
            core.write_input(os.path.join(d, "in.txt"), cfg)
            if kind == "missing":
                os.unlink(path)
                where = "%s missing" % fname
            elif kind in ("cut", "empty"):
                n = 0 if kind == "empty" else int(f["u"] * os.path.getsize(path))
                os.truncate(path, n)
                where = "%s cut to %d bytes" % (fname, n)
            else:
                src = reads if kind == "read" else opens
                if not src:
                    continue
                x = src[min(len(src) - 1, int(f["u"] * len(src)))]
                kk = ["eio", "eiop", "eintr", "short"] if kind == "read" else ["deny", "emfile", "eio"]
                if what != "setup" and kind == "read":
                    kk = kk + ["eof"]
                fk = kk[int(f["ku"] * len(kk))]
                pl["faults"] = [(fk, x[0], f["arg"])]
                where = "%s on %s %s (operation %d)" % (fk, x[1], x[2], x[0])
            r = ctx.run_dir(d, sc, pl, cpu=60)
            ctx.log[-1]["fault"] = where
            o.steps += 1
            o.nontrivial = True
            if r.cls() in ("exit0", "hang", "deadlock"):
                o.bad("silent", "%s: the run ends with %s" % (where, r.cls()))
            elif r.ok():
                b = load(d)
                bad = compare_dirs(a, b, sorted(a), 1e-9, cfg, ints=0)
                if kind in ("missing", "cut", "empty"):
                    o.bad("accepted", "%s: the run goes on and reports success%s" % (where, ", " + show(bad[0]) if bad else ""))
                elif bad:
                    o.bad("accepted", "%s: the run goes on with other parameters or tables: %s" % (where, show(bad[0])))
            ctx.drop(d)
            if o.viol:
                return
        o.sample = {"cfg": self.brief(case)["cfg"], "what": fname, "trace": ctx.log[1:]}


# ================================================================================================ C08 result files under faults
class C08(Prop):
    id = "C08"
    level = "fault_enumeration"
    rule = "a case = one model and several runs of it, each with one fault or process death on a file operation of a result file (error, full disk, short or interrupted write, refused open, failed close, crash, torn write), and one restart in the same directory; non-trivial when a fault was delivered"
    nf = 5

    def make(self, r, i=0):
        cfg = small(self, r, nt=(2, 3), writer_markers=r.choice([1, 1, 0]), writer_step=r.choice([1, 1, 2]))
        cfg["par"]["Nt"] = max(cfg["par"]["Nt"], 2)
        if r.random() < 0.2 and not cfg["par"].get("free_surface"):
            cfg["par"]["writer_debug"] = 1
        fs = []
        for _ in range(self.nf):
            fs.append({"focus": r.choice([r"Output", r"Particles", r"^(openw|close|trunc|fsync|openr) .*(Output|Particles)", r"(Output|Particles).*h5", r"^write .*(Output|Particles)"]), "u": round(r.random(), 6), "ku": round(r.random(), 6), "arg": r.randrange(1 << 20), "kill": r.choice(["", "", "", "crash", "torn"])})
        return {"cfg": cfg, "faults": fs, "k": 1 + r.randrange(2)}

    cases = C03.cases
    shrink = C03.shrink

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        nt, ws, wm = cfg["par"]["Nt"], cfg["par"]["writer_step"], cfg["par"]["writer_markers"]
        r0 = ctx.run(cfg, {}, cpu=60, iolog=True)
        if not r0.ok():
            o.skip = "reference run: " + r0.cls()
            return
        ops = iolog_of(r0)
        a = load(r0.dir)
        o.steps += nt
        o.simtime = model_time(a)
        due = ["Output%05d.gzip.h5" % k for k in range(0, nt + 1) if k % ws == 0]
        if wm:
            due += ["Particles%05d.gzip.h5" % k for k in range(0, nt + 1) if k % ws == 0]
        for n in due:
            if not a.get(n):
                o.bad("missing", "the undisturbed run with writer_step = %d and %d steps leaves no readable %s" % (ws, nt, n))
        last = {}
        for x in ops:
            m = re.search(r"((?:Output|Particles)[A-Za-z_]*\d{5}\.gzip\.h5)", x[2])
            if m and x[1] in ("openw", "opena", "write", "close", "trunc", "fsync", "rename"):
                last[m.group(1)] = x[0]
        for f in case["faults"]:
            op = pick(ops, f["focus"], f["u"])
            kinds = WRITE_KINDS.get(op[1], ["eio"])
            kind = f["kill"] or kinds[int(f["ku"] * len(kinds))]
            r = ctx.run(cfg, {"faults": [(kind, op[0], f["arg"])], "io_limit": len(ops) * 20 + 10000}, cpu=60)
            o.steps += 1
            where = "%s on %s %s (operation %d)" % (kind, op[1], op[2], op[0])
            ctx.log[-1]["fault"] = where
            if not any(n for _, n in r.fired) and r.cls() != "crash":
                ctx.drop(r.dir)
                continue
            o.nontrivial = True
            b = load(r.dir)
            if r.cls() in ("exit0", "hang", "deadlock"):
                o.bad("silent", "%s: the run ends with %s" % (where, r.cls()))
            names = sorted(a) if r.ok() else [n for n in sorted(a) if last.get(n, 1 << 60) < op[0]]
            for t in compare_dirs(a, b, names, 1e-9, cfg, ints=0)[:5]:
                o.bad("silent" if r.ok() else "damaged", "%s: %s: %s" % (where, "the run reports success" if r.ok() else "an earlier result file is damaged", show(t)))
            ctx.drop(r.dir)
            if o.viol:
                return
        # a restart in the same directory leaves the results of the steps before alone
        k = min(case["k"], nt - 1)
        if os.path.exists(os.path.join(r0.dir, bpname(k))) and par(cfg, "elastic") and par(cfg, "mechanical", 1):
            r = ctx.run(cfg, {}, d=r0.dir, cpu=60, overrides={"irestart": 1, "istep": k})
            o.steps += nt - k
            if not r.ok():
                o.bad("restart fails", "a restart from %s in the directory of the run ends with %s" % (bpname(k), r.cls()))
                return
            b = load(r0.dir)
            for t in compare_dirs(a, b, [n for n in sorted(a) if step_of(n) <= k], 0, cfg, ints=0)[:5]:
                o.bad("overwritten", "after a restart from step %d in the same directory: %s" % (k, show(t)))
        o.sample = {"cfg": self.brief(case)["cfg"], "trace": ctx.log[1:]}


# ================================================================================================ invariants of every written state
class Files(dict):
    """what the output files of one directory hold"""
    def __init__(self, d):
        super().__init__(load(d))
        self.dir = d


class Invariant(Prop):
    """A model under a random number of threads, schedule, heap and stack contents and clock, possibly continued from a
    breakpoint under others; every written state must satisfy the invariants."""
    weights = {"box": 6, "litho": 4, "set": 4, "chem": 2, "kinematic": 1}
    sets_excluded = ("ViscousSinker",)

    def plan(self, r):
        pl = env_plan(r)
        if r.random() < 0.7:
            pl.update(sched_plan(r, r.choice([2, 2, 3, 4, 7])))
            if pl["mode"] == 3:
                pl["mode"] = 1
            pl.pop("detect", None)
            pl.pop("hotp", None)
        return pl

    def make(self, r, fam, name):
        cfg = self.cfg(r, fam, name, nt=r.choice([2, 3, 3, 4, 6]))
        cfg["par"].update(writer_step=1, writer_markers=1, writer_debug=0)
        self.tune(r, cfg)
        c = {"cfg": cfg, "plan": self.plan(r)}
        if r.random() < 0.4 and cfg["par"]["Nt"] > 1:
            c["restart"] = r.randrange(1, cfg["par"]["Nt"])
            c["rplan"] = self.plan(r)
        return c

    def tune(self, r, cfg):
        pass

    def shrink(self, case):
        if "restart" in case:
            c = dict(case)
            c.pop("restart"), c.pop("rplan")
            yield c
        for c in shrink_cfg(case["cfg"]):
            if "restart" not in case or case["restart"] < c["par"]["Nt"]:
                yield dict(case, cfg=c)
        yield from (dict(case, plan=p) for p in shrink_plan(case["plan"]))

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        nt = cfg["par"]["Nt"]
        r = ctx.run(cfg, dict(case["plan"], io_limit=4000000), cpu=200)
        o.steps += nt
        self.ended(r, cfg, o)
        if not r.ok():
            if not o.viol:
                o.skip = "run: " + r.cls()
            return
        m = Files(r.dir)
        o.simtime = model_time(m)
        self.look(m, cfg, o, "")
        if not o.viol and "restart" in case:
            k = case["restart"]
            r = ctx.run(cfg, dict(case["rplan"], io_limit=4000000), d=r.dir, cpu=200, overrides={"irestart": 1, "istep": k})
            o.steps += nt - k
            if r.ok():
                self.look(Files(r.dir), cfg, o, "after a restart from step %d: " % k)
        o.nontrivial = True
        o.sample = {"case": self.brief(case), "trace": ctx.log}

    def ended(self, r, cfg, o):
        pass

    def look(self, m, cfg, o, where):
        n = 0
        for step, kind, text in self.invariants(m, cfg):
            if kind.startswith("_"):
                continue
            kid = self.classify(cfg, kind, text)
            if kid and self.is_known(kid):
                o.known.append((kid, text))
                continue
            n += 1
            if n <= 8:
                o.bad(kind, "%sstep %d: %s" % (where, step, text))

    def classify(self, cfg, kind, text):
        return None

    def nph(self, cfg):
        return len(cfg["phases"])


class C12(Invariant):
    id = "C12"
    rule = "a case = one model run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints under others; all markers of all written steps are checked; non-trivial when the run completed"

    def tune(self, r, cfg):
        if r.random() < 0.5:
            cfg["par"]["pure_shear_ALE"] = 0

    def invariants(self, m, cfg):
        P, O = dict(inv.steps(m, "Particles")), dict(inv.steps(m))
        for k in sorted(P):
            if k not in O:
                continue
            for kind, t in inv.markers(P[k], O[k], cfg, self.nph(cfg)):
                yield k, kind, t
            if k - 1 in P and k - 1 in O:
                for kind, t in inv.motion(P[k - 1], P[k], O[k - 1], O[k], cfg):
                    yield k, kind, t
                for kind, t in inv.rk4(P[k - 1], P[k], O[k - 1], O[k], cfg):
                    yield k, kind, t


class C15(Invariant):
    id = "C15"
    rule = "a case = one model run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints under others; all fields of all written steps are checked; non-trivial when the run completed"

    def classify(self, cfg, kind, text):
        if par(cfg, "anisotropy") and ("/eta_" in text):
            return "K6"
        return None

    def cases(self, seed, tier):
        yield {"cfg": gen.fromset(random.Random(1), "ChristmasTree", cells=400, nt=2), "plan": {}, "seed": "K6"}
        yield from super().cases(seed, tier)

    def invariants(self, m, cfg):
        prev = None
        for k, f in inv.steps(m):
            for g in (inv.geometry(f, cfg), inv.fields(f, cfg, self.nph(cfg), prev)):
                for kind, t in g:
                    yield k, kind, t
            if prev is not None and par(cfg, "mechanical", 1) and "set" not in cfg["sc"]:
                for nm, e in inv.box(f, prev, cfg):
                    if e > 1e-3:
                        yield k, "domain", "the border %s of the domain does not move with the imposed deformation (relative %.2g)" % (nm, e)
            prev = f
        for kind, t in inv.series(m, cfg):
            if kind.startswith("_") and t > 1e-5:
                yield k, "mean", "the time series entry %s differs from the mean of the field by %.2g" % (kind[1:], t)
            yield k, kind, t


class C16(Invariant):
    id = "C16"
    rule = "a case = one generated mechanical model run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints; the balances of each solved step are evaluated from the written fields; non-trivial when the run completed"
    weights = {"box": 6, "litho": 2, "chem": 3}
    tol = {"kin_divu": 2e-5, "kin_exx": 2e-5, "kin_ezz": 2e-5, "kin_exz": 2e-5, "visc_n": 2e-5, "visc_s": 2e-5, "div": 1e-3, "mom_x": 2e-2, "mom_z": 2e-2}
    text = {"kin_divu": "the written divergence is not that of the written velocity", "kin_exx": "the written horizontal strain rate is not that of the written velocity", "kin_ezz": "the written vertical strain rate is not that of the written velocity",
            "kin_exz": "the written shear strain rate is not that of the written velocity", "visc_n": "the normal stress is not twice viscosity times strain rate", "visc_s": "the shear stress is not twice viscosity times strain rate",
            "div": "the velocity of an incompressible model has a divergence", "mom_x": "the horizontal forces do not balance in a converged step", "mom_z": "the vertical forces do not balance in a converged step"}

    def tune(self, r, cfg):
        cfg["sc"]["pin"] = 0
        cfg["par"]["mechanical"] = 1

    def invariants(self, m, cfg):
        prev = None
        for k, f in inv.steps(m):
            if prev is not None:
                conv = inv.solved(f, cfg)
                for nm, e in inv.balance(f, prev, cfg).items():
                    if nm.startswith("mom") and (not conv or cfg["name"] == "litho"):
                        continue
                    if nm == "div" and (cfg["name"] == "litho" or not conv):
                        continue
                    yield k, "_" + nm, e
                    if e > self.tol[nm]:
                        yield k, nm, "%s (relative %.2g)" % (self.text[nm], e)
                for nm, e in inv.boundary(f, prev, cfg):
                    if e > 1e-5:
                        yield k, "boundary", "the velocity at the %s boundary is not the imposed one (relative %.2g)" % (nm, e)
            prev = f


class C17(Invariant):
    id = "C17"
    rule = "a case = one generated model with heat conduction, sources and boundary temperatures or fluxes, run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints; the temperatures of each step are predicted from the markers and fields written before it; non-trivial when the run completed"
    weights = {"box": 5, "litho": 5, "kinematic": 1}

    def tune(self, r, cfg):
        p, sc = cfg["par"], cfg["sc"]
        p.update(thermal=1 if r.random() < 0.9 else 0, melting=0, shear_heating=1 if r.random() < 0.35 else 0)
        big = cfg["name"] == "litho"
        if r.random() < 0.35:
            sc["qbot"] = r.choice([-0.05, -0.3, 0.1]) if big else r.choice([-3.0, 2.0])
        if r.random() < 0.6:
            for ph in cfg["phases"]:
                if r.random() < 0.6:
                    ph["Cp"] = r.choice([700.0, 1050.0, 1500.0]) if big else r.choice([0.5, 1.0, 2.0])
                if r.random() < 0.6:
                    ph["k"] = r.choice([1.0, 2.5, 5.0]) if big else r.choice([1e-2, 1e-1, 5e-1])
                if r.random() < 0.6:
                    ph["Qr"] = r.choice([0.0, 1e-6, 1e-4]) if big else r.choice([0.0, 5.0])
        if big and p["thermal"] and r.random() < 0.4:
            p["subgrid_diffusion"] = 0

    def invariants(self, m, cfg):
        P, O = dict(inv.steps(m, "Particles")), dict(inv.steps(m))
        for k in sorted(P):
            if k in O and k - 1 in P and k - 1 in O:
                for kind, t in heat.check(P[k - 1], P[k], O[k - 1], O[k], cfg, k == 1):
                    yield k, kind, t


class C18(Invariant):
    id = "C18"
    rule = "a case = one generated model with composition that diffuses, reacts or is only carried along, run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints; the composition of each step is predicted from the markers in the breakpoint written before it; non-trivial when the run completed"
    weights = {"chem": 5, "box": 3, "litho": 2, "kinematic": 3}

    def tune(self, r, cfg):
        p, sc = cfg["par"], cfg["sc"]
        big = cfg["name"] == "litho"
        prod = 1 if r.random() < 0.45 else 0
        p.update(chemical_diffusion=1 if r.random() < 0.75 else 0, chemical_production=prod, diffuse_X=0, Nt=max(2, p["Nt"]), delete_breakpoints=0, writer_step=1, density_variations=0)
        sc["usex"] = 1
        if big:
            p["constant_dt"] = 1         # user1, which limits the step of a reaction, is a length in this model
        if r.random() < 0.5:
            sc["xbc"] = r.choice([1, 2])
        if r.random() < 0.3:
            sc["qxbot"] = r.choice([-1e-9, -1e-8]) if big else r.choice([-0.02, -0.1])
        same = p.get("interp_stencil", 1) != 1
        k0 = r.choice([1e-6, 1e-5, 1e-4]) if big else r.choice([2e-3, 1e-2, 5e-2])
        for ph in cfg["phases"]:
            ph["k_chem"] = k0 if same else k0 * r.choice([0.3, 1.0, 2.0])
            ph.pop("transmutation", None)
        if prod:
            p.update(anisotropy=0, marker_aniso_angle=0)
            sc["useaniso"] = 0
            a, b = (1, 2) if big else (0, 1)
            for ph in (cfg["phases"][a], cfg["phases"][b]):
                if not big:
                    ph.update({"cstv": 0, "pwlv": 1, "npwl": 3.0, "Qpwl": 0.0, "eps0": 1.0, "tau0": 1.0})
            cfg["phases"][a].update({"reac_soft": 1, "reac_phase": b, "Pr": r.choice([3e8, 8e8]) if big else r.choice([0.0, 1.0, -1.0]), "dPr": 2e8 if big else 0.7,
                                     "tau_kin": r.choice([1e11, 1e12]) if big else r.choice([0.05, 0.3, 2.0])})

    def invariants(self, m, cfg):
        P, O = dict(inv.steps(m, "Particles")), dict(inv.steps(m))
        B = {}
        for k in sorted(O):
            f = os.path.join(m.dir, bpname(k))
            if os.path.exists(f):
                with open(f, "rb") as h:
                    B[k] = chemo.markers(h.read(), cfg, 0)
        for k in sorted(O):
            if k in B and k - 1 in B and k - 1 in O and k in P:
                for kind, t in chemo.check(B[k - 1], B[k], O[k - 1], O[k], inv.arr(P[k], "Particles/generation"), cfg):
                    yield k, kind, t


class C19(Invariant):
    id = "C19"
    rule = "a case = one model with a free surface (extension, compression or shear, with and without erosion, sedimentation, incision, topography kept at zero mean) run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints; the surface after each step is predicted from the chain of surface markers before it and the flow of the step; non-trivial when the run completed"
    weights = {"litho": 7, "set": 2}
    sets = ("AnneloreSubduction", "ChristmasTree", "CollisionAnisotropy", "CrustalShearBandingAnisotropy", "DoubleSubduction", "ElasticFlexureLineLoad", "FreeSurfaceBenchmarkFEM", "MLPS_Ellipses", "NeckingReview",
            "NeckingRoman", "OceanicCooling", "RiftingAnisotropy", "RiftingBasic", "RiftingChenin", "RiftingMelting", "RiftingRoman", "RiverTom", "RiverTomLowerCrust", "StressBC_FreeSurf", "TopoBenchCase1")

    def cfg(self, r, fam=None, name=None, nt=None):
        fam = fam or r.choices(list(self.weights), list(self.weights.values()))[0]
        return super().cfg(r, fam, name or (r.choice(self.sets) if fam == "set" else None), nt)

    def tune(self, r, cfg):
        p = cfg["par"]
        p["delete_breakpoints"] = 0
        if cfg["name"] != "litho":
            return
        p.update(pure_shear_ALE=r.choice([0, 0, 1, 1, 2, -1]), dt=r.choice([1e11, 1e12, 3e12, 1e13]), user2=r.choice([0.0, 500.0, 2000.0]), surface_processes=r.choice([0, 0, 1, 2, 2, 5]),
                 surf_diff=r.choice([5e-6, 5e-5, 1e-3]), surf_baselev=r.choice([-200.0, 0.0, 300.0]), surf_sedirate=r.choice([1e-11, 1e-10]), Nt=max(2, p["Nt"]))
        if r.random() < 0.15:
            p.update(shear_style=1, periodic_x=1, pure_shear_ALE=0)
        if p["surface_processes"] == 2:
            p["finite_strain"] = r.choice([0, 1])
            if r.random() < 0.2:
                p.update(anisotropy=1, finite_strain=1)

    def invariants(self, m, cfg):
        P, O = dict(inv.steps(m, "Particles")), dict(inv.steps(m))
        for k in sorted(O):
            for kind, t in surface.flags(O[k], cfg):
                yield k, kind, t
            if k - 1 not in O or k not in P or k - 1 not in P:
                continue
            F, f = None, os.path.join(m.dir, bpname(k))
            if inv.num(cfg, "surface_processes") == 2 and os.path.exists(f):
                with open(f, "rb") as h:
                    F = surface.deformation(h.read(), cfg, *inv.dims(O[k]))
            for kind, t in list(surface.step(P[k - 1], P[k], O[k - 1], O[k], cfg)) + list(surface.outflow(O[k - 1], O[k], cfg)) + list(surface.sediments(P[k - 1], P[k], O[k - 1], O[k], cfg, F)):
                yield k, kind, t


class C20(Invariant):
    id = "C20"
    rule = "a case = one model with elastic, plastic and viscous rock, with and without deformation gradient, anisotropy, free surface, rotation of stresses, run under a random thread count, schedule, memory content and clock, in 40 % of the cases continued from one of its breakpoints; what each marker remembers after a step (strains, deformation gradient, director, stress, pressure, grain size, extremes) is predicted from its memory in the breakpoint before the step and the flow of the step; non-trivial when the run completed"
    weights = {"box": 6, "litho": 4, "set": 3, "kinematic": 1}

    def tune(self, r, cfg):
        p = cfg["par"]
        p.update(writer_step=1, delete_breakpoints=0, writer_markers=1)
        if cfg["name"] in ("box", "litho"):
            p["Nt"] = max(2, int(p["Nt"]))
            p["track_T_P_x_z"] = 1
            p["finite_strain"] = r.choice([0, 1, 1])
            p["elastic"] = r.choice([0, 1, 1, 1])
            p["stress_rotation"] = r.choice([0, 1, 2])
            if p.get("subgrid_diffusion", 0) == 2 and r.random() < 0.7:
                p["subgrid_diffusion"] = r.choice([0, 1])

    def invariants(self, m, cfg):
        P, O = dict(inv.steps(m, "Particles")), dict(inv.steps(m))
        B = {}
        for k in sorted(O):
            f = os.path.join(m.dir, bpname(k))
            if os.path.exists(f):
                with open(f, "rb") as h:
                    B[k] = history.load(h.read(), cfg, *inv.dims(O[k]))
        for k in sorted(O):
            if k in B and k - 1 in B and k - 1 in O and k in P:
                for kind, t in history.check(B[k - 1], B[k], O[k - 1], O[k], inv.arr(P[k], "Particles/generation"), cfg):
                    if kind[0] != "_":
                        yield k, kind, t


class C13(Invariant):
    id = "C13"
    level = "fault_enumeration"
    rule = "a case = one model (with and without non-linear failure handling) run under slow, jumping or backward clocks, other thread counts and harmless I/O events (short and interrupted transfers, transient failures); the run must end, completed with all steps and a consistent time or with a reported failure; non-trivial when the run ended either way"
    weights = {"box": 6, "litho": 3, "set": 3, "chem": 2, "kinematic": 1, "safe": 6, "sink": 4}
    cells = 350

    def sink(self, r, nt):
        """an inclusion that sinks, rises or is driven sideways faster than the far field moves: the step must follow the fastest
        of the four directions"""
        c = super().cfg(r, "box", None, nt)
        p = c["par"]
        a = r.choice([0, 1, 2, 3])
        g = r.choice([20.0, 50.0, 200.0])
        p.update(bkg_strain_rate=r.choice([1e-3, 0.02]), gx=[0.0, 0.0, g, -g][a], gz=[-g, g, 0.0, 0.0][a], shear_style=0, periodic_x=0, pure_shear_ALE=r.choice([0, 1]), elastic=r.choice([0, 0, 1]),
                 constant_dt=0, Courant=r.choice([0.1, 0.25, 0.45]), dt=r.choice([0.05, 0.3, 1.0, 5.0]), thermal=0, anisotropy=0, compressible=0, preload=0, Newton=0, nit_max=r.choice([1, 3]), advection=1,
                 marker_aniso_angle=0, Nt=r.choice([3, 4]), subgrid_diffusion=0, user3=r.choice([0.0, -0.1, 0.12]), user4=r.choice([0.0, 0.1, -0.15]))
        for i, ph in enumerate(c["phases"]):
            ph.update(rho=[1.0, r.choice([3.0, 2.0]), 1.0][i], G=1e3, C=1e90, phi=0.0, plast=0, cstv=1, pwlv=0, alp=0.0, bet=1e-11)
            for k in ("aniso_factor", "aniso_angle", "ani_fstrain", "ani_fac_max", "coh_soft", "phi_soft", "eta_vp"):
                ph.pop(k, None)
        c["sc"].update(useaniso=0, useP=0, usestress=0, usevel=0)
        c["name"] = "sink"
        return c

    def cfg(self, r, fam=None, name=None, nt=None):
        if fam == "sink":
            return self.sink(r, nt)
        if fam != "safe":
            return super().cfg(r, fam, name, nt)
        c = super().cfg(r, "box", None, nt)
        p = c["par"]
        p.update(safe_mode=1, elastic=1, line_search=1, max_num_stag=r.choice([1, 2, 3, 5]), nit_max=r.choice([5, 10, 20]), Newton=r.choice([0, 1, 1]), safe_dt_div=r.choice([2.0, 5.0]))
        for ph in c["phases"][:1]:
            ph.update(C=r.choice([0.5, 1.5, 3.0]), phi=30.0, plast=1, Slim=1e100, eta_vp=r.choice([0.0, 0.05]))
        p["nonlin_abs_mom"] = p["nonlin_abs_div"] = p["nonlin_rel_mom"] = p["nonlin_rel_div"] = r.choice([1e-6, 1e-9, 1e-11])
        return c

    def make(self, r, fam, name):
        c = super().make(r, fam, name)
        c["io"] = [{"kind": "short", "u": round(r.random(), 6), "arg": r.randrange(1 << 20)} for _ in range(r.choice([0, 1, 2, 3]))]
        return c

    def ended(self, r, cfg, o):
        if r.cls() in ("exit0", "hang", "deadlock"):
            o.bad("no progress", "the run ends with %s before all its steps are done" % r.cls())

    def check(self, ctx, case, o):
        if case["io"]:
            r = ctx.run(case["cfg"], dict(case["plan"]), cpu=200, iolog=True)
            self.ended(r, case["cfg"], o)
            if not r.ok():
                if not o.viol:
                    o.nontrivial = True
                return
            ops = iolog_of(r)
            ctx.drop(r.dir)
            fs = []
            for f in case["io"]:
                x = pick(ops, "^(read|write) ", f["u"])
                fs.append((f["kind"], x[0], f["arg"]))
            case = dict(case, plan=dict(case["plan"], faults=fs))
            q = ctx.run(case["cfg"], dict(case["plan"], io_limit=len(ops) * 20 + 100000), cpu=200)
            if not q.ok():
                o.bad("no progress", "with interrupted or short transfers %s the run ends with %s, without them it completes" % (fs, q.cls()))
                return
            ctx.drop(q.dir)
        super().check(ctx, case, o)
        if o.skip and not o.skip.endswith(("hang", "deadlock", "exit0")):
            o.skip = None                # a failure that is reported
            o.nontrivial = True

    def invariants(self, m, cfg):
        nt = cfg["par"]["Nt"]
        O = dict(inv.steps(m))
        P = dict(inv.steps(m, "Particles"))
        for k in range(0, nt + 1):
            if k not in O or k not in P:
                yield k, "missing step", "the run reports success without the results of this step"
                return
        for k in range(1, nt + 1):
            for nm, e in inv.timestep(O[k], O[k - 1], cfg, k):
                if e > 1 + 1e-6:
                    yield k, "step length", {"constant": "the step length is not the prescribed constant one (factor %.6g)", "courant": "the step length exceeds the advection limit by a factor of %.6g", "surface": "the step length exceeds the surface-process limit by a factor of %.6g", "dt_max": "the step length exceeds dt_max by a factor of %.6g", "growth": "the step length grows beyond its limit by a factor of %.6g"}[nm] % e
        for kind, t in inv.series(m, cfg):
            if not kind.startswith("_"):
                yield nt, kind, t


# ================================================================================================ C14 initial markers
class C14(Relation):
    id = "C14"
    rule = "a case = one model run twice with saving of its initial markers, then from the saved markers under another thread count, memory content or clock; the results must agree; non-trivial when the run from the saved markers completed"
    rtol = 5e-5
    variants = 1

    def tune(self, r, cfg):
        for k in ("save_initial_markers", "load_initial_markers"):
            cfg["par"].pop(k, None)
        cfg["par"].update(writer_markers=1, writer_step=1)

    def make(self, r, fam, name):
        c = super().make(r, fam, name)
        c["base"] = {"fill": 1}
        t = r.choice([1, 1, 2, 3, 5])
        c["plans"] = [dict(env_plan(r), **({"threads": t, "mode": r.choice([0, 1]), "interval": 500} if t > 1 else {}))]
        c["other"] = {"user1": round(r.uniform(0.03, 0.2), 4), "user3": round(r.uniform(0.02, 0.15), 4)} if c["cfg"]["name"] in ("box", "chem") else None
        return c

    def check(self, ctx, case, o):
        cfg = case["cfg"]
        nt = cfg["par"]["Nt"]
        r0 = ctx.run(cfg, case["base"], cpu=120, overrides={"save_initial_markers": 1})
        o.steps += nt
        if not r0.ok():
            o.skip = "reference run: " + r0.cls()
            return
        a = load(r0.dir)
        o.simtime = model_time(a)
        mk = os.path.join(r0.dir, "markers.bin")
        if not os.path.exists(mk):
            o.bad("not written", "the initial markers are not saved")
            return

        def start(ov, pl):
            d = ctx.newdir()
            shutil.copy(mk, d)
            r = ctx.run(cfg, dict(pl, io_limit=self.io_limit), d=d, cpu=200, overrides=dict(ov, load_initial_markers=1))
            o.steps += nt
            if not r.ok():
                o.bad("outcome", "the run from the saved markers ends with %s while the one that saved them completes" % r.cls())
                return None
            return load(d)
        for pl in case["plans"]:
            b = start({}, pl)
            if b is None:
                return
            o.nontrivial = True
            self.oracle(cfg, a, b, "from the saved markers, " + self.what(pl), None, o)
            if o.viol:
                if all(k.startswith("differs") for k, _ in o.viol):
                    self.conditioning(ctx, cfg, dict(case), a, o, pl, {"save_initial_markers": 1})
                return
        if case.get("other"):
            b = start(dict(case["other"], Nt=1), case["base"])
            if b is None:
                o.viol = []          # another model may well fail
                return
            n = "Particles00000.gzip.h5"
            for k in ("Particles/x", "Particles/z", "Particles/phase"):
                if a.get(n) is None or b.get(n) is None or not np.array_equal(a[n][k][1], b[n][k][1]):
                    o.bad("not used", "a model of another geometry (%s) started from the saved markers does not start with their %s" % (case["other"], k))
        o.sample = {"case": dict(self.brief(case)), "trace": ctx.log}
