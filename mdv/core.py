"""mdsim controller: build, run, read outputs, compare."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, random, signal, atexit
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("MDV_BUILD", os.path.join(VERIF, "build", "sim"))
MDSIM = os.path.join(BUILD, "mdsim")
H5X = os.path.join(BUILD, "h5x")
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """An error of the check itself (never a verdict)."""


def build():
    r = subprocess.run(["bash", os.path.join(VERIF, "sim", "build.sh"), BUILD], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("simulator build failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        base = None
        for d in ("/dev/shm", "/tmp"):
            try:
                v = os.statvfs(d)
                if v.f_bavail * v.f_frsize > (4 << 30) and os.access(d, os.W_OK):
                    base = d
                    break
            except OSError:
                pass
        if base is None:
            base = os.path.join(VERIF, "build")
            os.makedirs(base, exist_ok=True)
        _SCRATCH = tempfile.mkdtemp(prefix="mdv-", dir=base)
        atexit.register(lambda: shutil.rmtree(_SCRATCH, ignore_errors=True))
    return _SCRATCH


_n = [0]
import threading
_lk = threading.Lock()


def newdir(tag="r"):
    with _lk:
        _n[0] += 1
        k = _n[0]
    d = os.path.join(scratch(), "%s%06d" % (tag, k))
    os.makedirs(d)
    return d


# ----------------------------------------------------------------- configuration files
def fmt(v):
    if isinstance(v, float):
        return "%.12e" % v
    return str(v)


def write_input(path, cfg):
    """cfg: {'par': {...}, 'phases': [{...}, ...]} -> MDOODZ .txt input"""
    out = ["/**** generated by mdsim ****/"]
    for k, v in cfg["par"].items():
        out.append("%s = %s" % (k, fmt(v)))
    out.append("Nb_phases = %d" % len(cfg["phases"]))
    for i, ph in enumerate(cfg["phases"]):
        out.append("ID = %d" % i)
        for k, v in ph.items():
            out.append("%s = %s" % (k, fmt(v)))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


class Result:
    __slots__ = ("races", "dir", "why", "rc", "stats", "hot", "fired", "log", "plan", "sig", "wall")

    def ok(self):
        return self.why == "returned" and self.rc == 0

    def cls(self):
        """outcome class"""
        if self.why == "returned" and self.rc == 0:
            return "completed"
        if self.why in ("hang", "cpulimit"):
            return "hang"
        if self.why == "deadlock":
            return "deadlock"
        if self.why == "crash":
            return "crash"
        if self.sig:
            return "signal%d" % self.sig
        if self.rc == 0:
            return "exit0"          # exit(0) before the run was complete
        return "exit%d" % self.rc


def run(cfg, plan=None, d=None, keep_log=False, cpu=120, iolog=False, overrides=None):
    """One simulated process lifetime in directory d (created when None)."""
    if d is None:
        d = newdir()
    c = {"par": dict(cfg["par"]), "phases": cfg["phases"]}
    if overrides:
        c["par"].update(overrides)
    write_input(os.path.join(d, "in.txt"), c)
    return run_dir(d, dict(cfg.get("sc", {})), plan or {}, keep_log, cpu, iolog)


def run_dir(d, sc, plan, keep_log=False, cpu=120, iolog=False, dirs=None):
    ctl = d + ".ctl"
    os.makedirs(ctl, exist_ok=True)
    p = dict(sc)
    p.update(plan)
    exe = MDSIM + "0" if p.pop("O0", 0) else MDSIM
    faults = p.pop("faults", [])
    hot = p.pop("hot", [])
    p.setdefault("input", "in.txt")
    p["stats"] = os.path.join(ctl, "stats")
    if iolog:
        p["iolog"] = os.path.join(ctl, "iolog")
    lines = ["%s %s" % (k, v) for k, v in p.items()]
    for x in (dirs or [d]):
        lines.append("dir %s" % x)
    for f in faults:
        lines.append("fault %s %d %d" % (f[0], f[1], f[2] if len(f) > 2 else 0))
    for h in hot:
        lines.append("hot %s" % h)
    pf = os.path.join(ctl, "plan")
    with open(pf, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        os.unlink(p["stats"])
    except FileNotFoundError:
        pass
    env = {"PATH": "/usr/bin:/bin", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "HDF5_USE_FILE_LOCKING": "FALSE", "OPENBLAS_CORETYPE": "Haswell"}
    logf = os.path.join(ctl, "log")
    t0 = time.time()
    with open(logf if keep_log else os.devnull, "w") as lf:
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        pr = subprocess.run([exe, pf], stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, preexec_fn=lim)
    r = Result()
    r.wall = time.time() - t0
    r.dir, r.plan, r.log = d, p, logf
    r.stats, r.hot, r.fired, r.races = {}, [], [], []
    r.why = "none"
    r.sig = -pr.returncode if pr.returncode < 0 else 0
    r.rc = pr.returncode
    try:
        for ln in open(p["stats"]):
            w = ln.split()
            if w[0] == "why":
                r.why = w[1]
            elif w[0] == "hot":
                r.hot.append(w[1])
            elif w[0] == "race":
                r.races.append((int(w[1], 16), int(w[2], 16), w[3]))
            elif w[0] == "fired":
                r.fired.append((w[2], int(w[3])))
            elif w[0] in ("sched_hash", "iohash"):
                r.stats[w[0]] = w[1]
            elif w[0] != "code":
                r.stats[w[0]] = int(w[1])
    except FileNotFoundError:
        pass
    if r.rc == 96:
        raise CheckError("simulator internal error in %s" % d)
    return r


def where(addr, exe=MDSIM):
    """function and line of a code address of the simulator binary"""
    if not addr:
        return "the end of the run"
    out = subprocess.run(["addr2line", "-fsie", exe, "%x" % (addr - 1)], capture_output=True, text=True).stdout.split("\n")
    return "%s (%s)" % (out[0], out[1]) if len(out) > 1 else "?"


def drop(*rs):
    for r in rs:
        if r is None:
            continue
        d = r if isinstance(r, str) else r.dir
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".ctl", ignore_errors=True)


# ----------------------------------------------------------------- HDF5 outputs
def h5read(paths):
    """{path: {dataset: (kind, array)} or None when the file is unreadable}"""
    res = {}
    if not paths:
        return res
    out = subprocess.run([H5X] + list(paths), capture_output=True).stdout
    pos = 0
    cur = None
    name = None
    while pos < len(out):
        e = out.index(b"\n", pos)
        ln = out[pos:e].decode()
        pos = e + 1
        if ln.startswith("FILE "):
            name = ln[5:]
            res[name] = {}
        elif ln.startswith("ERR"):
            if ln == "ERR file":
                res[name] = None
            else:
                res[name][ln.split()[2]] = ("err", np.zeros(0))
        elif ln.startswith("DS "):
            w = ln.split()
            n = int(w[-1])
            nm = " ".join(w[1:-3])
            res[name][nm] = (w[-3] + w[-2], np.frombuffer(out, dtype=np.float64, count=n, offset=pos).copy())
            pos += 8 * n + 1
    return res


def outputs(d, pat=("Output", "Particles")):
    return sorted(f for f in os.listdir(d) if f.endswith(".h5") and f.startswith(tuple(pat)))


def load(d, names=None):
    names = names if names is not None else outputs(d)
    m = h5read([os.path.join(d, n) for n in names])
    return {n: m.get(os.path.join(d, n)) for n in names}


def diff(a, b, rtol, skip=(), atol=0.0):
    """Compare two dataset dictionaries. Returns list of (dataset, what, magnitude)."""
    bad = []
    if a is None or b is None:
        if (a is None) != (b is None):
            bad.append(("<file>", "unreadable", 1.0))
        return bad
    for k in sorted(set(a) | set(b)):
        if any(k == s or k.endswith(s) for s in skip):
            continue
        if k not in a or k not in b:
            bad.append((k, "missing", 1.0))
            continue
        ka, x = a[k]
        kb, y = b[k]
        if ka == "err" or kb == "err":
            bad.append((k, "unreadable", 1.0))
            continue
        if x.shape != y.shape:
            bad.append((k, "shape %s/%s" % (x.shape, y.shape), 1.0))
            continue
        if x.size == 0 or np.array_equal(x, y, equal_nan=True):
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            bad.append((k, "finiteness", 1.0))
            continue
        sc = max(np.max(np.abs(x[fx]), initial=0), np.max(np.abs(y[fy]), initial=0))
        e = np.max(np.abs(x[fx] - y[fy]), initial=0)
        if e > rtol * sc + atol:
            bad.append((k, "differs", float(e / sc) if sc else float(e)))
    return bad


def pmap(fn, items, workers=NPROC, deadline=None):
    """Ordered parallel map; stops submitting after the deadline (returns results so far)."""
    res = []
    with ThreadPoolExecutor(workers) as ex:
        futs = []
        it = iter(items)
        import collections
        q = collections.deque()
        done = False
        while True:
            while not done and len(q) < workers * 2:
                if deadline and time.time() > deadline:
                    done = True
                    break
                try:
                    x = next(it)
                except StopIteration:
                    done = True
                    break
                q.append((x, ex.submit(fn, x)))
            if not q:
                break
            x, f = q.popleft()
            res.append((x, f.result()))
    return res
