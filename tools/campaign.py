"""Mutation campaign: for every mutant (id, property, edits) build the simulator from a changed copy of MDLIB and run the property's
check; prints caught / missed. Mutants come from a python file that defines MUT. Usage: campaign.py mutants.py [budget] [filter]"""
import os, re, shutil, subprocess, sys, time, importlib.util
spec = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
budget = sys.argv[2] if len(sys.argv) > 2 else "60"
pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/dev/shm/camp/%d" % os.getpid()
for id_, props, edits in m.MUT:
    if not pat.search(id_):
        continue
    shutil.rmtree(W + "/r", ignore_errors=True)
    os.makedirs(W + "/r", exist_ok=True)
    shutil.copytree(os.environ.get("REPO_SRC", "/repo") + "/MDLIB", W + "/r/MDLIB")
    if not os.path.exists(W + "/r/SETS"):
        shutil.copytree(os.environ.get("REPO_SRC", "/repo") + "/SETS", W + "/r/SETS")
    ok = True
    for f, a, b in edits:
        p = W + "/r/MDLIB/" + f
        s = open(p).read()
        if isinstance(a, int):
            L = s.split("\n")
            L[a - 1] = b(L[a - 1]) if callable(b) else b
            t = "\n".join(L)
        else:
            n = s.count(a)
            if n != 1:
                print(id_, "EDIT matches", n, "times:", a[:60])
                ok = False
                break
            t = s.replace(a, b)
        if t == s:
            print(id_, "EDIT changes nothing")
            ok = False
        open(p, "w").write(t)
    if not ok:
        continue
    e = dict(os.environ, REPO=W + "/r", MDV_BUILD=W + "/b", MDV_NOBUILD="1", MDV_BUDGET=budget, MDV_MIN="0")
    r = subprocess.run(["bash", V + "/sim/build.sh", W + "/b"], env=e, capture_output=True, text=True)
    if r.returncode:
        print(id_, "does not build", r.stderr[-300:])
        continue
    for p in props.split():
        t0 = time.time()
        r = subprocess.run(["python3-vt", V + "/check.py", p], env=e, capture_output=True, text=True, cwd=V)
        L = r.stdout.strip().split("\n")
        v = [x for x in L if x.startswith("  ")]
        print("%-22s %s %s %3ds  %s" % (id_, p, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR%d" % r.returncode, time.time() - t0, (v[0] if r.returncode == 1 and v else L[-1])[:170]), flush=True)
shutil.rmtree(W, ignore_errors=True)
