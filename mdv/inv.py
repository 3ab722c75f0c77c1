"""Invariants of written states: markers, fields, geometry, time, balances. Everything is computed from the output files alone."""
import numpy as np
from .compare import step_of

AIR = (30, 31)


def num(cfg, k, default=0.0):
    if k == "periodic_x":
        k = "shear_style"               # the sides are periodic with simple shear and only then
    if k == "finite_strain" and num(cfg, "anisotropy") == 1:
        return 1.0
    v = cfg["par"].get(k)
    for ph in cfg["phases"]:            # a set-up may give further parameters after its phases
        v = ph.get(k) if v is None else v
    try:
        return float(default if v is None else v)
    except ValueError:
        return default


def arr(f, k, shape=None):
    x = np.asarray(f[k][1], float)
    return x if shape is None else x.reshape(shape)


def dims(f):
    P = f["Model/Params"][1]
    return int(P[3]), int(P[4])


def steps(files, kind="Output"):
    """[(step, file)] in order"""
    return sorted((step_of(n), f) for n, f in files.items() if f and n.startswith(kind + "0") and step_of(n) is not None)


# ------------------------------------------------------------------------------------------------ geometry and time
def geometry(f, cfg):
    P = [float(x) for x in f["Model/Params"][1]]
    nx, nz = dims(f)
    c = {k: arr(f, "Model/" + k) for k in ("xg_coord", "zg_coord", "xc_coord", "zc_coord", "xvz_coord", "zvx_coord")}
    want = {"xg_coord": nx, "zg_coord": nz, "xc_coord": nx - 1, "zc_coord": nz - 1, "xvz_coord": nx + 1, "zvx_coord": nz + 1}
    for k, n in want.items():
        if c[k].size != n:
            yield "geometry", "%s has %d entries on a grid of %d x %d" % (k, c[k].size, nx, nz)
            return
    for a, g, cc, e, L, d in (("x", "xg_coord", "xc_coord", "xvz_coord", P[1], P[5]), ("z", "zg_coord", "zc_coord", "zvx_coord", P[2], P[6])):
        tol = 1e-5 * max(np.abs(c[g]).max(), abs(L))
        if (np.diff(c[g]) <= 0).any():
            yield "geometry", "grid coordinates %s do not increase" % g
            return
        if np.abs(np.diff(c[g]) - d).max() > tol:
            yield "geometry", "spacing of %s is not the recorded d%s" % (g, a)
        if abs(c[g][-1] - c[g][0] - L) > tol:
            yield "geometry", "extent of %s is not the recorded domain size" % g
        if np.abs(c[cc] - 0.5 * (c[g][1:] + c[g][:-1])).max() > tol:
            yield "geometry", "%s are not the cell centres" % cc
        if np.abs(c[e][1:-1] - c[cc]).max() > tol or abs(c[e][0] - (c[g][0] - 0.5 * d)) > tol or abs(c[e][-1] - (c[g][-1] + 0.5 * d)) > tol:
            yield "geometry", "%s are not the staggered coordinates" % e


def markers(f, fo, cfg, nph, prev=None):
    """f: Particles file, fo: Output file of the same step"""
    x, z, ph = arr(f, "Particles/x"), arr(f, "Particles/z"), arr(f, "Particles/phase")
    xg, zg = arr(fo, "Model/xg_coord"), arr(fo, "Model/zg_coord")
    dx, dz = xg[1] - xg[0], zg[1] - zg[0]
    tol = 2e-6 * max(np.abs(xg).max(), np.abs(zg).max())
    n = x.size
    if n == 0:
        yield "markers", "no marker is left"
        return
    for k, (t, v) in f.items():
        if k.startswith("Particles/") and t[0] == "f":
            if v.size != n:
                yield "markers", "%s has %d entries for %d markers" % (k, v.size, n)
            elif not np.isfinite(v).all():
                yield "markers", "%s is not finite for %d markers" % (k, int((~np.isfinite(v)).sum()))
    dead = ph == -1                       # left the domain or the rock: kept in the file until its slot is used again
    bad = (x < xg[0] - tol) | (x > xg[-1] + tol) | (z < zg[0] - tol) | (z > zg[-1] + tol)
    bad &= ~dead
    if bad.any():
        i = int(np.argmax(bad))
        yield "outside", "%d markers lie outside the domain, e.g. x=%.6g z=%.6g in [%.6g,%.6g]x[%.6g,%.6g]" % (bad.sum(), x[i], z[i], xg[0], xg[-1], zg[0], zg[-1])
    bad = (ph < -1) | (ph >= nph)
    if bad.any():
        yield "phase", "%d markers carry a phase that does not exist (%d)" % (bad.sum(), int(ph[bad][0]))
    nx, nz = dims(fo)
    tag = arr(fo, "Flags/tag_n", (nz - 1, nx - 1))
    i = np.clip(((x - xg[0]) / dx).astype(int), 0, nx - 2)
    j = np.clip(((z - zg[0]) / dz).astype(int), 0, nz - 2)
    cnt = np.zeros((nz - 1, nx - 1))
    np.add.at(cnt, (j[~dead], i[~dead]), 1)
    act = (tag != 30) & (tag != 31)
    yield "_cnt", (int(cnt[act].min()) if act.any() else -1, cnt[act].mean() if act.any() else 0)
    if (cnt[act] == 0).any() and num(cfg, "reseed_markers", 1):
        yield "empty cell", "%d cells of rock hold no marker" % int((cnt[act] == 0).sum())
    if "Topo/z_grid" in fo:
        h = arr(fo, "Topo/z_grid")
        top = np.interp(x, xg, h)
        ab = (z > top + 0.02 * dz) & ~dead
        if ab.any():
            yield "above surface", "%d markers lie above the free surface, by up to %.3g cells" % (ab.sum(), ((z - top)[ab] / dz).max())


# ------------------------------------------------------------------------------------------------ fields
def fields(f, cfg, nph, prev=None):
    """prev: the Output file of the step before (cells that were air during the solve have no values yet)"""
    nx, nz = dims(f)
    C, S = (nz - 1, nx - 1), (nz, nx)
    want = {"Centers": (nx - 1) * (nz - 1), "Vertices": nx * nz, "VxNodes": nx * (nz + 1), "VzNodes": (nx + 1) * nz}
    tn = arr(f, "Flags/tag_n", C)
    ts = arr(f, "Flags/tag_s", S)
    act, acts = (tn != 30) & (tn != 31), ts != 30
    if prev is not None:
        pn, ps = arr(prev, "Flags/tag_n", C), arr(prev, "Flags/tag_s", S)
        act, acts = act & (pn != 30) & (pn != 31), acts & (ps != 30)
    for k, (t, v) in f.items():
        g = k.split("/")[0]
        if g in want and v.size != want[g]:
            yield "size", "%s has %d entries on a grid of %d x %d" % (k, v.size, nx, nz)
            return
        if t[0] == "f" and g in ("TimeSeries", "Model", "VizGrid") and not np.isfinite(v).all():
            yield "not finite", k
        if t[0] == "f" and g in ("Centers", "Vertices"):
            a = v.reshape(C if g == "Centers" else S)[act if g == "Centers" else acts]
            if not (np.isfinite(a).all() if k != "Centers/cohesion" else not np.isnan(a).any()):      # 1e90, no yielding, is infinite in single precision
                yield "not finite", "%s in %d places of the rock" % (k, int((~np.isfinite(a)).sum()))

    def get(k):
        return arr(f, k, C if k.startswith("Centers") else S)[act if k.startswith("Centers") else acts]

    def rng_(k, lo, hi, slack=1e-6):
        if k in f:
            v = get(k)
            v = v[np.isfinite(v)]
            if v.size and (v.min() < lo - slack * max(abs(lo), 1e-300) or v.max() > hi + slack * max(abs(hi), 1e-300)):
                yield "range", "%s lies in [%.6g, %.6g], allowed are [%.6g, %.6g]" % (k, v.min(), v.max(), lo, hi)
    co = arr(f, "VizGrid/compo")
    if co.min() < -1 or co.max() >= (nph if "set" not in cfg["sc"] else 127):
        yield "range", "VizGrid/compo holds %d..%d with %d phases" % (co.min(), co.max(), nph)
    lo, hi = num(cfg, "min_eta", 1e18), num(cfg, "max_eta", 1e24)
    yield from rng_("Centers/eta_n", lo, hi)
    yield from rng_("Vertices/eta_s", lo, hi)
    yield from rng_("Centers/X", 0, 1, 1e-6)
    yield from rng_("Centers/phi", 0, 1, 1e-6)
    for k in ("Centers/rho_n", "Vertices/rho_s", "Centers/d", "Centers/T"):
        if k in f:
            v = get(k)
            if (v[np.isfinite(v)] < 0).any():
                yield "sign", "%s is negative" % k
    for k in f:
        if k.startswith("Centers/eII_") or k.startswith("Centers/strain"):
            v = get(k)
            # strain of markers in the outer half cell is extrapolated linearly: slightly negative values there are legitimate
            lim = np.full(v.shape, -1e-2)
            if "strain" in k and v.size == (nx - 1) * (nz - 1):
                lim = np.full((nz - 1, nx - 1), -0.3)
                lim[2:-2, 2:-2] = -1e-2
                lim = lim.ravel()
            if (v < lim * max(np.abs(v).max(), 1e-300)).any():
                yield "sign", "%s is negative (%.3g)" % (k, v.min())
    if "Centers/Fxx" in f:
        J = get("Centers/Fxx") * get("Centers/Fzz") - get("Centers/Fxz") * get("Centers/Fzx")
        if (J <= 0).any():
            yield "sign", "the determinant of the deformation gradient is not positive (%.3g)" % J.min()
    if all(float(ph.get("cstv", 0)) == 0 for ph in cfg["phases"]):
        st = get("Centers/strain")
        e = float(np.abs(st - sum(get("Centers/strain_" + k) for k in ("el", "pl", "pwl", "exp", "lin", "gbs"))).max() / max(np.abs(st).max(), 1e-300))
        yield "_strsum", e
        if e > 1e-5:
            yield "sum", "the accumulated strains of the mechanisms do not add up to the total strain (relative %.2g)" % e


# ------------------------------------------------------------------------------------------------ balances of one solved step
def balance(f, prev, cfg):
    """Relations between the written velocity, pressure, stress and strain-rate fields of one step -> (name, size relative to its scale).
    The spacing of the grid the step was solved on is that of the output before (the box may be deformed after the solve)."""
    nx, nz = dims(f)
    P = prev["Model/Params"][1]
    dx, dz = float(P[5]), float(P[6])
    C, S = (nz - 1, nx - 1), (nz, nx)
    g = {k: arr(f, k, C) for k in ("Centers/sxxd", "Centers/szzd", "Centers/P", "Centers/divu", "Centers/exxd", "Centers/ezzd", "Centers/rho_n", "Centers/eta_n", "Centers/T")}
    sxx, szz, p, du, exx, ezz = (g["Centers/" + k] for k in ("sxxd", "szzd", "P", "divu", "exxd", "ezzd"))
    sxz, exz, eta_s = (arr(f, "Vertices/" + k, S) for k in ("sxz", "exz", "eta_s"))
    Vx, Vz = arr(f, "VxNodes/Vx", (nz + 1, nx)), arr(f, "VzNodes/Vz", (nz, nx + 1))
    rock = np.ones(C, bool)
    for q in (f, prev):
        t = arr(q, "Flags/tag_n", C)
        rock &= (t != 30) & (t != 31)
    # one more cell of distance to air
    far = rock.copy()
    far[1:] &= rock[:-1]; far[:-1] &= rock[1:]; far[:, 1:] &= rock[:, :-1]; far[:, :-1] &= rock[:, 1:]
    if not far.any():
        return {}
    # the pressure of a corner cell of the box is only weakly tied to its neighbours (its value can change in the update after the last iteration)
    inner = far.copy()
    inner[0, 0] = inner[0, -1] = inner[-1, 0] = inner[-1, -1] = False
    if num(cfg, "anisotropy"):          # nor are the stresses on the boundary vertices those of the last iteration
        inner[0] = inner[-1] = inner[:, 0] = inner[:, -1] = False
    free = not rock.all()
    tu, tv = arr(f, "Flags/tag_u", Vx.shape), arr(f, "Flags/tag_v", Vz.shape)

    def mx(x, ok=None):
        x = x if ok is None else x[ok]
        x = x[np.isfinite(x)]
        return float(np.abs(x).max()) if x.size else 0.0
    E = max(mx(exx, far), mx(exz[1:-1, 1:-1], far[1:, 1:] & far[:-1, :-1]), 1e-300)
    T = max(mx(sxx, far), mx(szz, far), mx(sxz[1:-1, 1:-1], far[1:, 1:] & far[:-1, :-1]), 1e-300)
    r = {}
    div = (Vx[1:-1, 1:] - Vx[1:-1, :-1]) / dx + (Vz[1:, 1:-1] - Vz[:-1, 1:-1]) / dz
    div = div * (1.5 if num(cfg, "out_of_plane") == 1 else 1.0)
    third = num(cfg, "compressible") / 3            # the strain rates are deviatoric for compressible flow only (equal for converged incompressible flow)
    EX = (Vx[1:-1, 1:] - Vx[1:-1, :-1]) / dx - div * third
    EZ = (Vz[1:, 1:-1] - Vz[:-1, 1:-1]) / dz - div * third
    ES = 0.5 * ((Vx[1:, :] - Vx[:-1, :]) / dz + (Vz[:, 1:] - Vz[:, :-1]) / dx)
    # single precision of the written velocities
    eps = 2e-7 * max(mx(Vx), mx(Vz)) / min(dx, dz) / E
    r["kin_divu"] = max(0.0, mx(div - du, far) / E - 4 * eps)
    r["kin_exx"] = max(0.0, mx(EX - exx, far) / E - 4 * eps)
    r["kin_ezz"] = max(0.0, mx(EZ - ezz, far) / E - 4 * eps)
    i = far[1:, 1:] & far[:-1, :-1] & far[1:, :-1] & far[:-1, 1:]
    r["kin_exz"] = max(0.0, mx((ES - exz)[1:-1, 1:-1], i) / E - 4 * eps)
    if num(cfg, "compressible") == 0:
        r["div"] = max(0.0, mx(div, far) / E - 4 * eps)
    ok = inner[:, 1:] & inner[:, :-1] & (tu[1:-1, 1:-1] == -1)
    gx, gz = num(cfg, "gx"), num(cfg, "gz")
    rx = (sxx - p)[:, 1:] - (sxx - p)[:, :-1] + (sxz[1:, 1:-1] - sxz[:-1, 1:-1]) * dx / dz
    pe = 2e-7 * mx(p, far) / T
    r["mom_x"] = max(0.0, mx(rx, ok) / T - 4 * pe)
    rho = g["Centers/rho_n"]
    rz = (szz - p)[1:, :] - (szz - p)[:-1, :] + (sxz[1:-1, 1:] - sxz[1:-1, :-1]) * dz / dx + gz * dz * 0.5 * (rho[1:] + rho[:-1])
    ok = inner[1:, :] & inner[:-1, :] & (tv[1:-1, 1:-1] == -1)
    r["mom_z"] = max(0.0, mx(rz, ok) / max(T, abs(gz) * mx(rho, far) * dz) - 4 * pe)
    if num(cfg, "elastic") == 0 and num(cfg, "anisotropy") == 0:
        r["visc_n"] = mx(sxx - 2 * g["Centers/eta_n"] * exx, far) / T
        r["visc_s"] = mx((sxz - 2 * eta_s * exz)[1:-1, 1:-1], i) / T
    return r


def converged(f, cfg):
    n = int(f["Iterations/NumberSteps"][1][0])
    a = {k: arr(f, "Iterations/" + k) for k in ("rx_abs", "rz_abs", "rp_abs")}
    if n >= a["rx_abs"].size or n < 0:
        return False
    am, ad = num(cfg, "nonlin_abs_mom", 1e-6), num(cfg, "nonlin_abs_div", 1e-6)
    return bool(a["rx_abs"][n] < am and a["rz_abs"][n] < am and a["rp_abs"][n] < ad)


def solved(f, cfg):
    """converged by iterations that took the residual down, not because a low stress is below the absolute tolerance from the start"""
    n = int(f["Iterations/NumberSteps"][1][0])
    a, b = arr(f, "Iterations/rx_abs"), arr(f, "Iterations/rz_abs")
    return converged(f, cfg) and n >= 1 and max(a[n], b[n]) < 1e-4 * max(a[0], b[0])


def series(files, cfg):
    """time steps and time series against the outputs, for runs that wrote every step"""
    st = steps(files)
    for (k0, f0), (k, f) in zip(st, st[1:]):
        t0, t, dt = float(f0["Model/Params"][1][0]), float(f["Model/Params"][1][0]), float(f["Model/Params"][1][7])
        if not np.isfinite([t0, t, dt]).all() or dt <= 0:
            yield "time", "step %d: time %g, step length %g" % (k, t, dt)
        elif k == k0 + 1 and abs(t - t0 - dt) > 1e-9 * abs(t) + 1e-6 * dt:
            yield "time", "step %d: time advances by %.9g, the step length is %.9g" % (k, t - t0, dt)
        ts = arr(f, "TimeSeries/Time_time")
        for kk, ff in st:
            if 0 < kk <= k and abs(ts[kk] - float(ff["Model/Params"][1][0])) > 1e-9 * abs(ts[kk]):
                yield "series", "output %d: the time series holds time %.9g for step %d, its output %.9g" % (k, ts[kk], kk, float(ff["Model/Params"][1][0]))
        nx, nz = dims(f)
        if num(cfg, "advection", 1) == 0 or "Topo/z_grid" not in f:
            tn = arr(f, "Flags/tag_n")
            act = (tn != 30) & (tn != 31)
            for nm, ds in (("P_mean_time", "Centers/P"), ("T_mean_time", "Centers/T"), ("exxd_mean_time", "Centers/exxd"), ("sxxd_mean_time", "Centers/sxxd"), ("szzd_mean_time", "Centers/szzd"), ("ezzd_mean_time", "Centers/ezzd")):
                v = arr(f, ds)[act]
                e = abs(float(arr(f, "TimeSeries/" + nm)[k]) - v.mean()) / max(np.abs(v).max(), 1e-300)
                yield "_" + nm, e


# ------------------------------------------------------------------------------------------------ histories: marker motion, boundaries, time step
def substeps(d, cfg):
    """whether a step with a largest displacement of d cells may have been advected in several smaller steps, of which the last is recorded"""
    return num(cfg, "constant_dt") != 1 and (d > 1.03 * num(cfg, "Courant", 0.5) or num(cfg, "surface_processes") > 0)


def motion(pa, pb, fa, fb, cfg):
    """Particles and Output files of two consecutive steps: every marker that was there before moves with the velocity recorded for it and keeps its material"""
    A = {k: arr(pa, "Particles/" + k) for k in ("x", "z", "phase")}
    B = {k: arr(pb, "Particles/" + k) for k in ("x", "z", "phase", "generation", "Vx", "Vz")}
    n = min(A["x"].size, B["x"].size)
    for D in (A, B):
        for k in D:
            D[k] = D[k][:n]
    ok = (A["phase"] >= 0) & (B["phase"] >= 0) & (B["generation"] == 0)
    if not ok.any():
        return
    inflow = num(cfg, "pure_shear_ALE") == -1 and num(cfg, "periodic_x") == 0      # slots of markers that left are filled at the other side
    if inflow:
        return
    dt = float(fb["Model/Params"][1][7])
    L, dx, dz = (float(fa["Model/Params"][1][i]) for i in (1, 5, 6))
    Lb = float(fb["Model/Params"][1][1])
    ux, uz = (B["x"] - A["x"])[ok], (B["z"] - A["z"])[ok]
    if np.abs(ux).max() > L / 2:           # periodic sides
        ux = np.where(ux > L / 2, ux - L, np.where(ux < -L / 2, ux + L, ux))
    X = max(np.abs(A["x"][ok]).max(), np.abs(A["z"][ok]).max(), np.abs(B["x"][ok]).max(), np.abs(B["z"][ok]).max())
    if num(cfg, "advection", 1) == 0:
        if np.abs(ux).max() > 0 or np.abs(uz).max() > 0:
            yield "moved", "markers move by up to %.3g although advection is off" % max(np.abs(ux).max(), np.abs(uz).max())
    else:
        V = max(np.hypot(B["Vx"][ok], B["Vz"][ok]).max(), np.abs(arr(fb, "VxNodes/Vx")).max(), np.abs(arr(fb, "VzNodes/Vz")).max())
        D = V * dt
        e = np.hypot(ux - dt * B["Vx"][ok], uz - dt * B["Vz"][ok])
        if D > 0:
            many = substeps(D / min(dx, dz), cfg)
            rel = float((e.max() - 6e-7 * X) / D)       # positions are written in single precision
            yield "_motion", rel
            if rel > 1e-4 and not many:
                i = int(np.argmax(e))
                yield "motion", "a marker is displaced by (%.6g, %.6g), its velocity times the step is (%.6g, %.6g)" % (ux[i], uz[i], dt * B["Vx"][ok][i], dt * B["Vz"][ok][i])
    want = A["phase"].astype(int).copy()
    sure = np.ones(n, bool)
    if any(float(p.get("transmutation", 0)) for p in cfg["phases"]):          # at the start of the step, by the temperature the last step left
        T = arr(pa, "Particles/T")[:n]
        for i, p in enumerate(cfg["phases"]):
            t = int(float(p.get("transmutation", 0)))
            if t:
                Tt = float(p.get("transmutation_temperature", 1300.0))
                h = (A["phase"] == i) & ((T >= Tt) if t == 1 else (T <= Tt))
                want[h] = int(float(p.get("transmutation_phase", 1)))
                sure[(A["phase"] == i) & (np.abs(T - Tt) <= 2e-6 * Tt)] = False
    ph = ok & sure & (want != B["phase"])
    if ph.any():
        i = int(np.argmax(ph))
        yield "material", "%d markers have an unexpected phase after the step, e.g. %d for a marker of phase %d that should have phase %d" % (ph.sum(), B["phase"][i], A["phase"][i], want[i])


def rk4(pa, pb, fa, fb, cfg):
    """velocity of each marker: the four-stage Runge-Kutta mean of the written grid velocity, interpolated linearly. Markers away from air."""
    if num(cfg, "advection", 1) == 0:
        return
    A = {k: arr(pa, "Particles/" + k) for k in ("x", "z", "phase")}
    B = {k: arr(pb, "Particles/" + k) for k in ("phase", "generation", "Vx", "Vz")}
    n = min(A["x"].size, B["phase"].size)
    ok = (A["phase"][:n] >= 0) & (B["phase"][:n] >= 0) & (B["generation"][:n] == 0)
    if not ok.any():
        return
    ale = num(cfg, "pure_shear_ALE") != 0
    g = {k: arr(fb if ale else fa, "Model/" + k) for k in ("xg_coord", "zg_coord", "xvz_coord", "zvx_coord")}
    nx, nz = dims(fa)
    dx, dz = (float((fb if ale else fa)["Model/Params"][1][i]) for i in (5, 6))
    dt = float(fb["Model/Params"][1][7])
    F = []
    for k, t, X, Z, sh in (("VxNodes/Vx", "tag_u", "xg_coord", "zvx_coord", (nz + 1, nx)), ("VzNodes/Vz", "tag_v", "xvz_coord", "zg_coord", (nz, nx + 1))):
        air = (arr(fa, "Flags/" + t, sh) == 30) | (arr(fb, "Flags/" + t, sh) == 30)
        F.append((arr(fb, k, sh), air, g[X], g[Z]))
    V = max(np.abs(f[0][~f[1]]).max() for f in F)
    if not (V > 0 and np.isfinite(V)):
        return
    if substeps(V * dt / min(dx, dz), cfg):
        return
    xmin, xmax = g["xg_coord"][0], g["xg_coord"][-1]
    zmin, zmax = g["zg_coord"][0], g["zg_coord"][-1]
    x0, z0 = A["x"][:n][ok], A["z"][:n][ok]
    bad = np.zeros(x0.size, bool)
    taras = num(cfg, "conserv_interp") == 1

    def vel(x, z):
        out = []
        for c, (f, air, X, Z) in enumerate(F):
            j = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, X.size - 2)
            i = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, Z.size - 2)
            u, v = np.abs(x - X[j]) / dx, np.abs(z - Z[i]) / dz
            for a in (0, 1):
                for b in (0, 1):
                    bad[air[i + a, j + b]] = True
            w = (1 - v) * ((1 - u) * f[i, j] + u * f[i, j + 1]) + v * ((1 - u) * f[i + 1, j] + u * f[i + 1, j + 1])
            if taras:
                q, o, m = (u, v, X.size) if c == 0 else (v, u, Z.size)
                p = j if c == 0 else i
                s = np.where(q >= 0.5, p, p - 1)
                use = (s >= 0) & (s + 2 < m)
                s = np.where(use, s, 0)
                if c == 0:
                    d = [f[i + a, s] - 2 * f[i + a, s + 1] + f[i + a, s + 2] for a in (0, 1)]
                    for a in (0, 1):
                        for b in range(3):
                            bad[use & air[i + a, s + b]] = True
                else:
                    d = [f[s, j + a] - 2 * f[s + 1, j + a] + f[s + 2, j + a] for a in (0, 1)]
                    for a in (0, 1):
                        for b in range(3):
                            bad[use & air[s + b, j + a]] = True
                w = w + np.where(use, 0.5 * (q - 0.5) ** 2 * ((1 - o) * d[0] + o * d[1]), 0.0)
            out.append(w)
        return out

    def place(vx, vz, h):
        x, z = x0 + h * vx, z0 + h * vz
        if num(cfg, "periodic_x") == 1:
            x = np.where(x < xmin, xmax - np.abs(xmin - x), x)
            x = np.where(x > xmax, xmin + np.abs(xmax - x), x)
        else:
            bad[(x < xmin) | (x > xmax)] = True
        bad[(z < zmin) | (z > zmax)] = True
        return x, z

    a = vel(x0, z0)
    b = vel(*place(*a, 0.5 * dt))
    c = vel(*place(*b, 0.5 * dt))
    d = vel(*place(*c, dt))
    vx, vz = ((p + 2 * q + 2 * r + s) / 6 for p, q, r, s in zip(a, b, c, d))
    e = np.where(bad, 0.0, np.hypot(vx - B["Vx"][:n][ok], vz - B["Vz"][:n][ok])) / V
    yield "_rk4", float(e.max())
    if e.max() > 5e-6 + 2e-7 * max(abs(v) for v in (xmin, xmax, zmin, zmax)) / min(dx, dz):        # positions are written in single precision
        i = int(np.argmax(e))
        yield "flow", "a marker at (%.6g, %.6g) moves with (%.6g, %.6g), the flow there is (%.6g, %.6g)" % (x0[i], z0[i], B["Vx"][:n][ok][i], B["Vz"][:n][ok][i], vx[i], vz[i])


def boundary(f, prev, cfg):
    """written velocities against the pure or simple shear that was asked for (generated models only) -> (name, relative size)"""
    nx, nz = dims(f)
    Vx, Vz = arr(f, "VxNodes/Vx", (nz + 1, nx)), arr(f, "VzNodes/Vz", (nz, nx + 1))
    xg, zg = arr(prev, "Model/xg_coord"), arr(prev, "Model/zg_coord")
    E = num(cfg, "bkg_strain_rate")
    s = max(np.abs(Vx).max(), np.abs(Vz).max(), 1e-300)
    rock = np.ones((nz - 1, nx - 1), bool)
    for q in (f, prev):
        tn = arr(q, "Flags/tag_n", (nz - 1, nx - 1))
        rock &= (tn != 30) & (tn != 31)
    if num(cfg, "shear_style") == 0:
        for nm, c in (("west", 0), ("east", nx - 1)):
            v = Vx[1:-1, c][rock[:, 0 if c == 0 else -1]]
            yield nm, float(np.abs(v + xg[c] * E).max() / s) if v.size else 0.0
        yield "south", float(np.abs(Vz[0, 1:-1] - zg[0] * E).max() / s)
        if rock[-1].all():
            yield "north", float(np.abs(Vz[-1, 1:-1] - zg[-1] * E).max() / s)
    else:
        Lz = zg[-1] - zg[0]
        yield "south", float(np.abs(0.5 * (Vx[0] + Vx[1]) + E * Lz).max() / s)
        yield "north", float(np.abs(0.5 * (Vx[-1] + Vx[-2]) - E * Lz).max() / s)
        yield "periodic", float(np.abs(Vx[1:-1, 0] - Vx[1:-1, -1]).max() / s)
        yield "normal", float(max(np.abs(Vz[0, 1:-1]).max(), np.abs(Vz[-1, 1:-1]).max()) / s)


def box(f, prev, cfg):
    """the domain deforms with the boundary velocities or stays -> (name, relative size)"""
    a = [arr(prev, "Model/" + k) for k in ("xg_coord", "zg_coord")]
    b = [arr(f, "Model/" + k) for k in ("xg_coord", "zg_coord")]
    dt, E = float(f["Model/Params"][1][7]), num(cfg, "bkg_strain_rate")
    ale = num(cfg, "pure_shear_ALE")
    L = a[0][-1] - a[0][0]
    if ale <= 0 or num(cfg, "advection", 1) == 0:
        yield "fixed", float(max(np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max()) / L)
    elif ale == 1 and num(cfg, "shear_style") == 0:
        D = abs(E) * dt * max(abs(a[0][0]), abs(a[0][-1]))
        for i, (g, sg) in enumerate((("x", -1), ("z", 1))):
            for nm, j in (("min", 0), ("max", -1)):
                if g == "z" and nm == "max" and num(cfg, "free_surface"):
                    continue
                yield "%s%s" % (g, nm), float((abs(b[i][j] - a[i][j] * (1 + sg * E * dt)) - 4e-7 * max(np.abs(a[0]).max(), np.abs(a[1]).max())) / max(D, 1e-300))


def timestep(f, prev, cfg, k):
    """the step length against its limits; prev: output of the step before -> (name, ratio that must not exceed 1)"""
    dt, dt0 = float(f["Model/Params"][1][7]), float(prev["Model/Params"][1][7])
    safe = num(cfg, "safe_mode") != 0
    if num(cfg, "constant_dt") == 1:
        r = dt / num(cfg, "dt")
        yield "constant", r if safe else max(r, 1 / r)
        return
    d = min(float(prev["Model/Params"][1][5]), float(prev["Model/Params"][1][6]))
    V = max(np.abs(arr(prev, "VxNodes/Vx")).max(), np.abs(arr(prev, "VzNodes/Vz")).max())
    if V > 0:
        yield "courant", dt * V / (num(cfg, "Courant", 0.5) * d)
    if num(cfg, "surface_processes") > 0 and num(cfg, "surf_Vinc") > 0 and abs(dt - num(cfg, "dt")) > 1e-9 * dt:
        yield "surface", dt * num(cfg, "surf_Vinc") / (num(cfg, "Courant", 0.5) * d)
    if num(cfg, "dt_max"):
        yield "dt_max", dt / num(cfg, "dt_max")
    if abs(dt - num(cfg, "dt")) > 1e-9 * dt:       # without motion the step is the initial one
        yield "growth", dt / ((1.25 if num(cfg, "elastic") else 2.0) * dt0)
