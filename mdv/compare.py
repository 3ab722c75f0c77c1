"""Field comparison of two HDF5 outputs of the same model step, by dataset name, with physically meaningful scales.

A dataset 'differs' when its largest deviation exceeds rtol times the natural scale of the quantity: the largest value of
the group the quantity belongs to (velocity components, stress components, strain-rate components and divergences, ...).
A mean over the domain is measured against the field it is the mean of, an integrated energy against the energies that
cancel in it, so that values which are zero up to rounding never count as different.
"""
import numpy as np

GROUPS = {
    "V": ("VxNodes/Vx", "VzNodes/Vz", "Particles/Vx", "Particles/Vz", "Topo/Vx_grid", "Topo/Vz_grid", "Topo/Vx_mark", "Topo/Vz_mark",
          "Topo/vx", "Topo/vz", "Topo/vxsurf", "Topo/vzsurf", "Topo_ini/vx", "Topo_ini/vz", "Topo_ini/vxsurf", "Topo_ini/vzsurf"),
    "S": ("Centers/sxxd", "Centers/szzd", "Vertices/sxz", "Particles/sxxd", "Particles/sxz"),
    "E": ("Centers/exxd", "Centers/ezzd", "Vertices/exz", "Centers/divu", "Centers/divu_el", "Centers/divu_pl", "Centers/divu_r", "Centers/divu_th",
          "Centers/eII_el", "Centers/eII_exp", "Centers/eII_gbs", "Centers/eII_lin", "Centers/eII_pl", "Centers/eII_pwl"),
    "strain": ("Centers/strain", "Centers/strain_el", "Centers/strain_pl", "Centers/strain_pwl", "Centers/strain_exp", "Centers/strain_lin", "Centers/strain_gbs"),
    "F": ("Centers/Fxx", "Centers/Fxz", "Centers/Fzx", "Centers/Fzz"),
    "n": ("Centers/nx", "Centers/nz", "Particles/nx", "Particles/nz"),
    "P": ("Centers/P", "Centers/P0", "Particles/P"),
    "X": ("Particles/x", "Particles/z", "Model/xc_coord", "Model/zc_coord", "Model/xg_coord", "Model/zg_coord", "Model/xvz_coord", "Model/zvx_coord",
          "VizGrid/xviz", "VizGrid/zviz", "VizGrid/xviz_hr", "VizGrid/zviz_hr", "Centers/x0", "Centers/z0", "Topo/x", "Topo/z", "Topo/height", "Topo/z_grid",
          "Topo/z_mark", "Topo/x_mark", "Topo/z_finer_cent", "Topo_ini/x", "Topo_ini/z", "Topo_ini/height"),
}
MEMBER = {d: g for g, ds in GROUPS.items() for d in ds}
MEAN = {"TimeSeries/P_mean_time": "P", "TimeSeries/exxd_mean_time": "E", "TimeSeries/ezzd_mean_time": "E", "TimeSeries/exz_mean_time": "E", "TimeSeries/Eii_mean_time": "E",
        "TimeSeries/sxxd_mean_time": "S", "TimeSeries/szzd_mean_time": "S", "TimeSeries/sxz_mean_time": "S", "TimeSeries/Tii_mean_time": "S"}
ENERGY = ("TimeSeries/Uthermal_time", "TimeSeries/Uelastic_time", "TimeSeries/Work_time")
# residual histories: entries beyond the last iteration are stale, the others are solver noise near convergence
NOISE = ("Iterations/rp_abs", "Iterations/rx_abs", "Iterations/rz_abs", "Iterations/rp_rel", "Iterations/rx_rel", "Iterations/rz_rel", "Iterations/LogIsNewtonStep")


def _m(x):
    x = x[np.isfinite(x)]
    return float(np.max(np.abs(x), initial=0.0))


def scales(*files):
    s = {}
    for f in files:
        for k, (t, x) in f.items():
            g = MEMBER.get(k)
            if g and t != "err":
                s[g] = max(s.get(g, 0.0), _m(x))
    if "P" in s:
        s["P"] = max(s["P"], s.get("S", 0.0))      # a pressure that is zero but for rounding is zero on the scale of the stresses
    return s


def compare(a, b, rtol, step=None, skip=(), cfg=None, ints=0.0, iters=True, extra=()):
    """-> list of (dataset, what, magnitude). a, b: {dataset: (type, array)} or None."""
    if a is None or b is None:
        return [] if (a is None and b is None) else [("<file>", "unreadable", 9.0)]
    bad = []
    sc = scales(a, b, *extra)
    for k in sorted(set(a) | set(b)):
        if k in NOISE or k in skip or (not iters and k.startswith("Iterations/")):
            continue
        if k not in a or k not in b:
            bad.append((k, "missing", 9.0))
            continue
        (ta, x), (tb, y) = a[k], b[k]
        if ta == "err" or tb == "err":
            bad.append((k, "unreadable", 9.0))
            continue
        if x.shape != y.shape:
            bad.append((k, "size %d/%d" % (x.size, y.size), 9.0))
            continue
        if k.startswith("TimeSeries/") and step is not None:
            x, y = x[:step + 1], y[:step + 1]
        if x.size == 0 or np.array_equal(x, y, equal_nan=True):
            continue
        if ta[0] == "i":
            fr = float(np.mean(x != y))
            if fr > ints:
                bad.append((k, "differs in %.2g of the entries" % fr, fr))
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            bad.append((k, "finiteness", 9.0))
            continue
        s = max(_m(x), _m(y))
        if k in MEAN:
            s = max(s, sc.get(MEAN[k], 0.0))
        elif k in MEMBER:
            s = max(s, sc.get(MEMBER[k], 0.0))
        elif k in ENERGY:
            if cfg is None:
                continue
            p = cfg["par"]
            area = abs((float(p["xmax"]) - float(p["xmin"])) * (float(p["zmax"]) - float(p["zmin"])))
            T = max(_m(f["Centers/T"][1]) for f in (a, b) if "Centers/T" in f) if "Centers/T" in a else 1.0
            rc = max(float(ph.get("rho", 1)) * float(ph.get("Cp", 1)) for ph in cfg["phases"])
            t = max(_m(a.get("Model/Params", ("f8", np.ones(1)))[1][:1]), 1e-300)
            s = max(s, rc * T * area if "Uth" in k else sc.get("S", 1.0) * sc.get("E", 1.0) * t * area)
        e = float(np.max(np.abs(x[fx] - y[fx]), initial=0.0))
        if e > rtol * s:
            bad.append((k, "differs", e / s))
    return bad


def step_of(name):
    import re
    m = re.search(r"(\d{5})\.gzip\.h5$", name) or re.search(r"(\d{5})\.h5$", name)
    return int(m.group(1)) if m else None
