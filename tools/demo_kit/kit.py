"""Builds a small model program from the working tree (cwd), runs it in scratch directories, reads HDF5 results."""
import os, sys, re, json, shutil, subprocess, tempfile, atexit
import warnings
import numpy as np
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
H5I = "-I/usr/include/hdf5/serial"
H5L = "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)


def build(name="prog", flags="-O1", main=None, pre=""):
    """program from all library sources and the model; main: another source (for example SETS/x.c)"""
    d = os.path.join(TMP, "b_" + name)
    os.makedirs(d)
    cm = open(REPO + "/MDLIB/CMakeLists.txt").read()
    srcs = sorted(set(re.findall(r"[\w./-]+\.c\b", re.search(r"add_library\s*\(\s*mdoodz(.*?)\)", cm, re.S).group(1))))
    inc = "-I%s/MDLIB -I%s/MDLIB/include -I/usr/include/suitesparse %s" % (REPO, REPO, H5I)
    mk = ["OBJ=%s" % " ".join(s.replace("/", "_") + ".o" for s in srcs), "all: prog h5x", "prog: $(OBJ) main.o", "\tgcc %s -o $@ $^ %s -lumfpack -lcholmod -lcxsparse -lamd -lcolamd -lsuitesparseconfig -lblas -llapack -lm" % (flags, H5L),
          "main.o: %s" % (main or HERE + "/model.c"), "\tgcc -w -std=gnu11 %s %s -c $< -o $@" % (flags, inc), "h5x: %s/h5x.c" % HERE, "\tgcc -w -O1 %s $< -o $@ %s" % (H5I, H5L)]
    for s in srcs:
        mk += ["%s.o: %s/MDLIB/%s" % (s.replace("/", "_"), REPO, s), "\tgcc -w -std=gnu11 %s %s %s -c $< -o $@" % (flags, pre, inc)]
    open(d + "/Makefile", "w").write("\n".join(mk) + "\n")
    r = sh("make -s -j8 -C " + d)
    if r.returncode:
        print("build failed", r.stderr[-2000:])
        sys.exit(3)
    return d + "/prog"


def write_input(path, cfg, **over):
    par = dict(cfg["par"]); par.update(over)
    out = []
    f = lambda v: "%.12e" % v if isinstance(v, float) else str(v)
    for k, v in par.items():
        out.append("%s = %s" % (k, f(v)))
    out.append("Nb_phases = %d" % len(cfg["phases"]))
    for i, ph in enumerate(cfg["phases"]):
        out.append("ID = %d" % i)
        out += ["%s = %s" % (k, f(v)) for k, v in ph.items()]
    open(path, "w").write("\n".join(out) + "\n")


_n = [0]


def run(prog, cfg, d=None, env=None, timeout=200, **over):
    """-> (directory, status, log)"""
    if d is None:
        _n[0] += 1
        d = os.path.join(TMP, "r%d" % _n[0])
        os.makedirs(d)
    write_input(d + "/in.txt", cfg, **over)
    e = dict(os.environ, SC=" ".join("%s=%s" % x for x in cfg.get("sc", {}).items()), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")
    e.update(env or {})
    try:
        r = subprocess.run([prog, "in.txt"], cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return d, "timeout", ""
    return d, r.returncode, r.stdout + r.stderr


def load(prog, d, pat="Output0"):
    names = sorted(n for n in os.listdir(d) if n.startswith(pat) and n.endswith(".h5"))
    out = subprocess.run([os.path.dirname(prog) + "/h5x"] + [os.path.join(d, n) for n in names], capture_output=True).stdout
    res, pos, cur = {}, 0, None
    while pos < len(out):
        e = out.index(b"\n", pos); ln = out[pos:e].decode(); pos = e + 1
        if ln.startswith("FILE "):
            cur = res.setdefault(os.path.basename(ln[5:]), {})
        elif ln.startswith("DS "):
            w = ln.split(); n = int(w[-1])
            cur[" ".join(w[1:-3])] = np.frombuffer(out, dtype=np.float64, count=n, offset=pos).copy(); pos += 8 * n + 1
    return res


def differ(a, b, tol=1e-5, skip=()):
    """datasets which differ by more than tol of their size"""
    bad = []
    for k in sorted(set(a) & set(b)):
        if k in skip:
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            bad.append((k, "shape")); continue
        if x.size == 0:
            continue
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            bad.append((k, "nan")); continue
        s = max(np.nanmax(np.abs(x)), np.nanmax(np.abs(y)), 1e-300) if not np.isnan(x).all() else 1
        e = np.nanmax(np.abs(x - y)) / s if not np.isnan(x).all() else 0
        if e > tol:
            bad.append((k, float(e)))
    return bad
