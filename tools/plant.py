"""plant.py new ID          scratch copy of /repo at /dev/shm/pl/ID/repo (bind-mounted over /repo by the other commands)
plant.py diff ID          seeded/ID/patch.diff from the scratch copy
plant.py verify ID        build, stable tests, demo with and without the change
plant.py catch ID C.. ..  run the checks against the change (copy of /verif, own simulator build)"""
import os, sys, subprocess, json, shutil
V = "/verif"; B = "/dev/shm/pl"


def ns(idn, cmd, timeout=1500, verif=True):
    pre = "mount --bind %s/%s/repo /repo; " % (B, idn)
    if verif:
        pre += "mount --bind %s/%s/verif /verif; " % (B, idn)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", pre + cmd], capture_output=True, text=True, errors="replace", timeout=timeout)


def ensure(idn):
    d = "%s/%s" % (B, idn)
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        p = "%s/seeded/%s/patch.diff" % (V, idn)
        if os.path.exists(p):
            subprocess.run(["git", "-C", d + "/repo", "apply", p], check=True)
    return d


def copyverif(d):
    shutil.rmtree(d + "/verif", ignore_errors=True)
    shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded"))
    os.makedirs(d + "/verif/build", exist_ok=True)


def verify(idn):
    d = ensure(idn)
    s = "%s/seeded/%s" % (V, idn)
    shutil.rmtree(d + "/demo", ignore_errors=True)
    shutil.copytree(s, d + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = ns(idn, "git -C /repo checkout -q -- . && git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /repo/cmake-build/o.json >/dev/null 2>&1; python3 -c \"import json;print(len(json.load(open('/repo/cmake-build/o.json'))['passed']))\"; cd /repo; timeout 300 bash %s/demo/demo.sh; echo rc=$?" % (s, d), verif=False)
    a = r.stdout.strip().split("\n")
    print(idn, "with: tests passed", a[0], "demo", a[-1], "|", " / ".join(a[1:-1])[-300:], r.stderr[-300:])
    r2 = ns(idn, "git -C /repo checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo; timeout 300 bash %s/demo/demo.sh; echo rc=$?" % d, verif=False)
    b = r2.stdout.strip().split("\n")
    print(idn, "without: demo", b[-1], "|", " / ".join(b[:-1])[-200:], r2.stderr[-200:])
    subprocess.run(["git", "-C", d + "/repo", "apply", s + "/patch.diff"], check=True)
    return a[0] == "8" and a[-1] != "rc=0" and b[-1] == "rc=0"


if __name__ == "__main__":
    c, idn = sys.argv[1:3]
    if c == "new":
        print(ensure(idn))
    elif c == "diff":
        d = ensure(idn)
        os.makedirs("%s/seeded/%s" % (V, idn), exist_ok=True)
        o = subprocess.run(["git", "-C", d + "/repo", "diff", "--", "MDLIB", "SETS"], capture_output=True, text=True).stdout
        open("%s/seeded/%s/patch.diff" % (V, idn), "w").write(o)
        print(o)
    elif c == "verify":
        print("OK" if verify(idn) else "NOT OK")
    elif c == "catch":
        d = ensure(idn)
        copyverif(d)
        for p in sys.argv[3:]:
            r = ns(idn, "cd /verif && VERIF_SEED=%s timeout 900 python3-vt check.py %s" % (os.environ.get("VERIF_SEED", "1"), p))
            print(idn, p, "rc=%d" % r.returncode, r.stdout.strip()[-400:], r.stderr[-200:])
