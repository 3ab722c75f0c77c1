#!/usr/bin/env python3-vt
"""check.py <ID> [--replay file]: run one property's simulation search (tier from VERIF_TIER or --tier) or replay a violation."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mdv import core, driver, props


def main():
    a = sys.argv[1:]
    pid = a[0]
    cls = getattr(props, pid, None)
    if cls is None:
        print("unknown property", pid)
        return 2
    p = cls()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if not os.environ.get("MDV_NOBUILD"):
            core.build()
        p.known = [k for k in driver.load_known()["findings"] if k["property"] == pid]
        if "--replay" in a:
            return driver.replay(p, a[a.index("--replay") + 1])
        return driver.search(p, tier, seed)
    except core.CheckError as e:
        print("CHECK-ERROR", pid, e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
