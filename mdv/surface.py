"""Reference model of one step of the free surface: the chain of surface markers is carried by the flow, the topography of the columns follows from it,
is diffused, filled or incised, and the chain is put back on it. Predicts the topography of step n+1 from the files of step n and the flow of step n+1."""
import struct
import types
import numpy as np
from .inv import num, arr, dims, substeps


def flow(fa, fb):
    """the two velocity fields with the nodes that were in air in this step"""
    nx, nz = dims(fa)
    F = []
    for k, t, X, Z, sh in (("VxNodes/Vx", "tag_u", "xg_coord", "zvx_coord", (nz + 1, nx)), ("VzNodes/Vz", "tag_v", "xvz_coord", "zg_coord", (nz, nx + 1))):
        F.append((arr(fb, k, sh), arr(fa, "Flags/" + t, sh) == 30, arr(fb, "Model/" + X), arr(fb, "Model/" + Z)))
    return F


def velocity(F, x, z, taras, off=0.0):
    """flow at points at the surface: a corner in air takes the value of the rock below or above it, or of the next column where all of its own is air;
    second result: points whose surroundings are not of the plain kind (rock below, air above). off decides
    which side of a line of nodes a point lies on that is too close to it for the precision of the files"""
    out, odd = [], np.zeros(x.size, bool)
    for c, (f, air, X, Z) in enumerate(F):
        dx, dz = X[1] - X[0], Z[1] - Z[0]
        j = np.clip(np.ceil((x - X[0]) / dx + off).astype(int) - 1, 0, X.size - 2)
        i = np.clip(np.ceil((z - Z[0]) / dz + off).astype(int) - 1, 0, Z.size - 2)
        u, v = np.where(x < X[0], X[0] - x, x - X[j]) / dx, np.where(z < Z[0], Z[0] - z, z - Z[i]) / dz
        sw, se, nw, ne = f[i, j], f[i, j + 1], f[i + 1, j], f[i + 1, j + 1]
        asw, ase, anw, ane = air[i, j], air[i, j + 1], air[i + 1, j], air[i + 1, j + 1]
        odd |= (asw & ~anw) | (ase & ~ane) | (asw & ase)
        NW, NE = np.where(anw, sw, nw), np.where(ane, se, ne)
        SW, SE = sw, se
        e = ase & ane
        w = asw & anw
        NE, SE = np.where(e, sw, NE), np.where(e, sw, SE)
        NW, SW = np.where(w, se, NW), np.where(w, se, SW)
        odd |= (e | w) & ((asw | ase) & (e & w))
        lo, hi = (1 - u) * SW + u * SE, (1 - u) * NW + u * NE
        if taras:
            q, m, p = (u, X.size, j) if c == 0 else (v, Z.size, i)
            use = np.where(q >= 0.5, p < m - 2, p > 0)
            near = np.zeros(x.size, bool)
            for a in (-1, 0, 1, 2):
                for b in (0, 1):
                    ii, jj = (i + b, j + a) if c == 0 else (i + a, j + b)
                    near |= air[np.clip(ii, 0, Z.size - 1), np.clip(jj, 0, X.size - 1)]
            odd |= near & use                             # the correction takes other nodes there
            o = np.where(use, np.where(q >= 0.5, p, p - 1), 0)
            g = [(f[i + a, o], f[i + a, o + 1], f[i + a, o + 2]) if c == 0 else (f[o, j + a], f[o + 1, j + a], f[o + 2, j + a]) for a in (0, 1)]
            d = [np.where(use, 0.5 * (q - 0.5) ** 2 * (k[0] - 2 * k[1] + k[2]), 0.0) for k in g]
            if c == 0:
                lo, hi = lo + d[0], hi + d[1]
            else:
                lo, hi = lo + (1 - u) * d[0] + u * d[1], hi + (1 - u) * d[0] + u * d[1]
        out.append((1 - v) * lo + v * hi)
    return out[0], out[1], odd


def project(x, z, z0, live, h0, xg, total):
    """topography of the columns' sides from the live markers"""
    nx = xg.size
    dx = (xg[-1] - xg[0]) / (xg.size - 1)
    xc = 0.5 * (xg[1:] + xg[:-1])
    j = np.clip(np.floor((x[live] - xg[0]) / dx).astype(int), 0, nx - 2)
    w = 1 - 2 * np.abs(xc[j] - x[live]) / dx
    val = z[live] if total else z[live] - z0[live]
    W, S = np.zeros(nx - 1), np.zeros(nx - 1)
    np.add.at(W, j, w)
    np.add.at(S, j, w * val)
    d = np.where(W < 1e-30, 0.0, S / np.where(W < 1e-30, 1.0, W))
    h = np.zeros(nx)
    h[1:-1] = 0.5 * (d[1:] + d[:-1])
    if not total:
        h[1:-1] += h0[1:-1]
    h[0], h[-1] = h[1], h[-2]
    return h


def refill(x, z, z0, live, h, h0, xg):
    """half columns with fewer than four markers get two more"""
    dx = (xg[-1] - xg[0]) / (xg.size - 1)
    n = 2 * (xg.size - 1)
    live = (x >= xg[0]) & (x <= xg[-1])
    c = np.clip(np.floor((x - xg[0]) / dx * 2).astype(int), 0, n - 1)
    cnt = np.bincount(c[live], minlength=n)
    k = np.nonzero(cnt < 4)[0]
    tight = np.abs((x - xg[0]) / dx * 2 - np.round((x - xg[0]) / dx * 2)) < 1e-4
    sure = not (tight & live).any() or not ((cnt >= 3) & (cnt <= 5)).any()
    xn = np.concatenate([xg[0] + k * dx / 2 + dx / 8, xg[0] + k * dx / 2 + 3 * dx / 8])
    return np.concatenate([x, xn]), np.concatenate([z, np.interp(xn, xg, h)]), np.concatenate([z0, np.interp(xn, xg, h0)]), np.concatenate([live, np.ones(xn.size, bool)]), sure


def process(h, xg, dt, cfg):
    """erosion and sedimentation of one step"""
    sp = int(num(cfg, "surface_processes"))
    dx = (xg[-1] - xg[0]) / (xg.size - 1)
    base, rate = num(cfg, "surf_baselev"), num(cfg, "surf_sedirate")
    h = h.copy()
    if sp in (1, 5):
        D = num(cfg, "surf_diff")
        if D <= 0:
            return None
        lim = 0.4 * dx * dx / D
        n = int(dt / lim + 1)
        t = dt if lim > dt else dt / n
        cut = np.zeros(xg.size)
        if sp == 5:
            W = num(cfg, "surf_Winc")
            if (np.abs(np.abs(xg) - 0.5 * W) < 1e-5 * dx).any():
                return None                               # rounding decides whether this column is in the valley
            m = np.abs(xg) < 0.5 * W
            if m[1:-1].any():
                cut[m] = -num(cfg, "surf_Vinc") * W / (m[1:-1].sum() * dx)
        for _ in range(n):
            g = h.copy()
            g[1:-1] += t * D * (h[:-2] + h[2:] - 2 * h[1:-1]) / dx ** 2 + np.where(h[1:-1] < base, rate * t, 0.0) + t * cut[1:-1]
            h = g
    elif sp == 2:
        h = np.where(h < base, h + rate * dt, h)
    return h


TIE = 3e-4




def predict(fa, fb, x, z, h0, dt, xg, cfg, ph, off=0.0):
    F = flow(fa, fb)
    live = ph != -1
    periodic = num(cfg, "periodic_x") == 1
    taras = num(cfg, "conserv_interp") == 1
    zg = arr(fb, "Model/zg_coord")
    odd = np.zeros(x.size, bool)

    here = [x, z]
    moving = live.copy()
    R = types.SimpleNamespace(left=False, edge=False)

    def place(vx, vz, s):
        X, Z = np.where(moving, x + s * vx, here[0]), np.where(moving, z + s * vz, here[1])
        if periodic:
            X = np.where(X < xg[0], xg[-1] - np.abs(xg[0] - X), X)
            X = np.where(X > xg[-1], xg[0] + np.abs(xg[-1] - X), X)
        R.left |= bool((moving & ((Z > zg[-1]) | (Z < zg[0]))).any())
        R.edge |= bool((moving & (np.minimum(np.abs(X - xg[0]), np.abs(X - xg[-1])) < 1e-5 * (xg[1] - xg[0]))).any())
        moving[(X < xg[0]) | (X > xg[-1])] = False           # one that leaves the box in the middle of a step stays where it is
        here[:] = X, Z
        return X, Z

    def vel(X, Z):
        a, b, o = velocity(F, X, Z, taras, off)
        inside = moving & (X >= xg[0]) & (X <= xg[-1])
        odd[:] |= o & inside
        return a, b

    a = vel(x, z)
    b = vel(*place(*a, 0.5 * dt))
    c = vel(*place(*b, 0.5 * dt))
    d = vel(*place(*c, dt))
    vx, vz = ((p + 2 * q + 2 * r + s) / 6 for p, q, r, s in zip(a, b, c, d))
    X, Z = place(vx, vz, dt)
    out = (X < xg[0]) | (X > xg[-1])
    R.odd = odd
    z0 = z.copy()
    total = num(cfg, "topo_update", 1) == 0
    alive = live & ~out
    R.x, R.z, R.live = X, Z, alive
    h = project(X, Z, z0, alive, h0, xg, total)
    X, Z, z0, alive, R.sure = refill(X, Z, z0, alive, h, h0, xg)
    R.added = X.size - x.size
    R.h1 = project(X, Z, z0, alive, h0, xg, total)
    return R


def usable(fa, fb, cfg):
    if "Topo/z_grid" not in fa or "Topo/z_grid" not in fb or num(cfg, "advection", 1) != 1 or num(cfg, "polar") == 1:
        return False
    return True


def speed(F):
    return max(np.abs(f[0][~f[1]]).max() for f in F)


def step(pa, pb, fa, fb, cfg):
    """Output and Particles files of two consecutive steps"""
    if not usable(fa, fb, cfg):
        return
    xg = arr(fb, "Model/xg_coord")
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    dt = float(fb["Model/Params"][1][7])
    F = flow(fa, fb)
    V = speed(F)
    if not (np.isfinite(V) and V > 0):
        return
    if substeps(V * dt / min(dx, dz), dict(cfg, par=dict(cfg["par"], surface_processes=0))):
        return
    S = max(np.abs(arr(fa, "Topo/z_mark")).max(), np.abs(xg).max())
    for name, xk, zk, pk, hk, A, B in (("surface", "Topo/x_mark", "Topo/z_mark", "Topo/phase_mark", "Topo/z_grid", fa, fb), ("initial surface", "Topo_ini/x", "Topo_ini/z", "Topo_ini/phase", "Topo_ini/height", pa, pb)):
        x, z, ph, h0 = arr(A, xk), arr(A, zk), arr(A, pk), arr(A, hk)
        if name == "initial surface":
            h0 = h0 * 1.0
        Rs = []
        rng = np.random.default_rng(1)
        eps = 1.2e-7 * S
        for n in range(5):
            sx, sz = (rng.uniform(-eps, eps, x.size), rng.uniform(-eps, eps, x.size)) if n > 2 else (0, 0)
            Rs.append(predict(fa, fb, x + sx, z + sz, h0, dt, xg, cfg, ph, [0, TIE, -TIE, TIE, -TIE][n]))
        R = Rs[0]
        if any(r.left or r.edge or not r.sure for r in Rs) or any(r.added != R.added for r in Rs):
            yield "_skip", name
            continue
        h = [process(r.h1, xg, dt, cfg) if name == "surface" else r.h1 for r in Rs]
        if h[0] is None:
            continue
        if num(cfg, "zero_mean_topo") == 1 and name == "surface":
            h = [k - k.mean() for k in h]
        tol = 1.2e-7 * S + 3 * np.max([np.abs(k - h[0]) for k in h[1:]], axis=0)
        got = arr(B, hk)
        # columns with a marker in unusual surroundings are left out
        col = np.zeros(xg.size, bool)
        o = np.any([r.odd for r in Rs], axis=0)
        if o.any():
            j = np.clip(((R.x[:o.size][o] - xg[0]) / dx).astype(int), 0, xg.size - 2)
            for s in (-2, -1, 0, 1, 2):
                col[np.clip(j + s, 0, xg.size - 1)] = True
            if num(cfg, "zero_mean_topo") == 1 or num(cfg, "surface_processes"):
                col[:] = True
        e = np.where(col, 0, np.abs(got - h[0]) - tol)
        move = max(np.abs(h[0] - h0).max(), 1e-30)
        yield "_" + name.replace(" ", ""), (float(np.abs(np.where(col, 0, got - h[0])).max() / S), float(move / S), int(col.sum()))
        if e.max() > 0:
            i = int(np.argmax(e))
            yield "topography", "%s at x = %.6g is %.8g after the step, %.8g expected (before: %.8g)" % (name, xg[i], got[i], h[0][i], h0[i])
        # the chain after the step
        xb, zb, pb_ = arr(B, xk), arr(B, zk), arr(B, pk)
        if R.added == 0 and xb.size == x.size:
            ok = R.live & (pb_ != -1) & ~o
            e = (np.abs(xb - R.x) - 3 * np.max([np.abs(r.x - R.x) for r in Rs[1:]], axis=0))[ok]
            if e.size and e.max() > 4e-7 * S + 2e-5 * V * dt:
                i = int(np.argmax(e))
                yield "chain", "a marker of the %s at x = %.8g is carried to %.8g, %.8g expected" % (name, x[ok][i], xb[ok][i], R.x[ok][i])
        ok = (pb_ != -1) & (xb >= xg[0]) & (xb <= xg[-1])
        line = np.interp(xb, xg, got)
        if name != "surface":
            line = np.minimum(line, np.interp(xb, xg, arr(fb, "Topo/z_grid")))
        e = np.abs(zb - line)[ok]
        if e.size and e.max() > 1e-6 * S:
            i = int(np.argmax(e))
            yield "chain", "a marker of the %s at x = %.6g lies at z = %.8g, the %s there is at %.8g" % (name, xb[ok][i], zb[ok][i], name, line[ok][i])


def deformation(raw, cfg, nx, nz):
    """deformation gradient of the markers in a breakpoint, 4 x n"""
    if num(cfg, "finite_strain") != 1:
        return None
    o = 4 + 7 * 8
    if num(cfg, "free_surface") == 1:
        for _ in range(2):
            o += 4 + 4 * 8 * struct.unpack_from("<i", raw, o)[0]
    n = struct.unpack_from("<i", raw, o)[0]
    o += 4 + 9 * 8 * n + 2 * 4 * n
    if num(cfg, "elastic") == 1:
        o += 3 * 8 * n + 8 * 2 * ((nx - 1) * (nz - 1) + nx * nz)
    o += 8 * 8 * n
    return np.frombuffer(raw, "<f8", 4 * n, o).reshape(4, n)


def flags(f, cfg):
    """cells above the topography are air, cells below it rock"""
    if "Topo/z_grid" not in f or num(cfg, "polar") == 1:
        return
    nx, nz = dims(f)
    h = arr(f, "Topo/z_grid")
    xg, zc = arr(f, "Model/xg_coord"), arr(f, "Model/zc_coord")
    dz = zc[1] - zc[0]
    S = max(np.abs(xg).max(), np.abs(zc).max())
    d = zc[:, None] - 0.5 * (h[1:] + h[:-1])[None, :]
    t = arr(f, "Flags/tag_n", (nz - 1, nx - 1))
    air = (t == 30) | (t == 31)
    bad = (d > 1e-6 * S) & ~air
    if bad.any():
        j, i = np.argwhere(bad)[0]
        yield "flags", "%d cells above the surface are taken for rock, e.g. (%d, %d), %.3g cells above it" % (bad.sum(), i, j, d[j, i] / dz)
    side = np.pad(air, ((0, 0), (1, 1)), constant_values=True)
    bad = (d < -1e-6 * S) & air & ~(side[:, :-2] & side[:, 2:])
    if bad.any():
        j, i = np.argwhere(bad)[0]
        yield "flags", "%d cells below the surface are taken for air, e.g. (%d, %d), %.3g cells below it" % (bad.sum(), i, j, -d[j, i] / dz)
    # nodes: those of velocities beside rock belong to rock, vertices between four rock cells do, vertices above the surface with another cell beside do not
    rock = t == -1
    for k, shape, r in (("tag_u", (nz + 1, nx), rock[:, :-1] | rock[:, 1:]), ("tag_v", (nz, nx + 1), rock[:-1] | rock[1:])):
        if "Flags/" + k in f:
            T = arr(f, "Flags/" + k, shape)
            T = T[1:-1, 1:-1]
            bad = (T == 30) == r
            if bad.any():
                j, i = np.argwhere(bad)[0]
                yield "flags", "%d velocity nodes (%s) do not follow the cells beside them, e.g. (%d, %d) is %d" % (bad.sum(), k, i + 1, j + 1, T[j, i])
    s = arr(f, "Flags/tag_s", (nz, nx))
    four = np.zeros((nz, nx), bool)
    four[1:-1, 1:-1] = rock[1:, 1:] & rock[:-1, 1:] & rock[1:, :-1] & rock[:-1, :-1]
    four[1:-1, 0], four[1:-1, -1] = rock[1:, 0] & rock[:-1, 0], rock[1:, -1] & rock[:-1, -1]
    up = arr(f, "Model/zg_coord")[:, None] - h[None, :] > 1e-6 * S
    bad = np.where(four, s == 30, up & (s != 30))
    if bad.any():
        j, i = np.argwhere(bad)[0]
        yield "flags", "%d vertices are taken for the wrong side of the surface, e.g. (%d, %d) is %d" % (bad.sum(), i, j, s[j, i])
    if "Topo/z_finer_cent" in f and num(cfg, "surface_processes") == 0 and num(cfg, "zero_mean_topo") == 0 and num(cfg, "advection", 1) == 1:
        w = np.ravel(np.column_stack((0.75 * h[:-1] + 0.25 * h[1:], 0.25 * h[:-1] + 0.75 * h[1:])))
        e = np.abs(arr(f, "Topo/z_finer_cent") - w).max()
        if e > 1e-6 * S:
            yield "fine topography", "the topography at the cells of the fine grid is off by %.4g" % e


def outflow(fa, fb, cfg):
    """velocity given for the surface: that of the uppermost nodes in rock"""
    if "Topo/Vx_grid" not in fa or num(cfg, "mechanical", 1) == 0:
        return
    (f, air, X, Z), (g, ag, XX, ZZ) = flow(fa, fb)
    vx, vz = arr(fb, "Topo/Vx_grid"), arr(fb, "Topo/Vz_grid")
    for name, w, F, A, n in (("Vx", vx, f, air, (1,)), ("Vz", vz, g, ag, (1, 2))):
        V = np.abs(F[~A]).max()
        for i in range(w.size):
            a = np.nonzero(A[1:, i] & ~A[:-1, i])[0]
            if a.size != 1 or a[0] < 2:
                continue
            if min(abs(w[i] - F[a[0] + 1 - k, i]) for k in n) > 1e-5 * V:
                yield "surface velocity", "%s of the surface at column %d is %.6g, the rock below moves with %.6g" % (name, i, w[i], F[a[0], i])
                break


def sediments(pa, pb, fa, fb, cfg, F=None):
    """where the surface was raised by filling, two markers per half column enter between the old and the new surface, undeformed and cold"""
    if not usable(fa, fb, cfg) or num(cfg, "surface_processes") != 2:
        return
    V, dt = speed(flow(fa, fb)), float(fb["Model/Params"][1][7])
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    if substeps(V * dt / min(dx, dz), dict(cfg, par=dict(cfg["par"], surface_processes=0))):
        return
    xg = arr(fb, "Model/xg_coord")
    dx = (xg[-1] - xg[0]) / (xg.size - 1)
    h0, h = arr(fa, "Topo/z_grid"), arr(fb, "Topo/z_grid")
    S = max(np.abs(xg).max(), np.abs(h).max())
    n = 4 * (xg.size - 1)
    x = xg[0] + dx / 8 + np.arange(n) * dx / 4
    a, b = np.interp(x, xg, h0), np.interp(x, xg, h)
    up = b - a > 4e-6 * S
    yield "_sed", int(up.sum())
    if not up.any():
        return
    my = float(fb["Model/Params"][1][0]) / (3600.0 * 365.25 * 24.0 * 1.0e6)
    want = {int(num(cfg, "surf_ised1" if int(np.floor(t)) % 2 else "surf_ised2")) for t in (my * (1 - 1e-6), my * (1 + 1e-6))}
    P = {k.split("/")[1]: arr(pb, k) for k in pb if k.startswith("Particles/") and pb[k][0][0] in "fi"}
    first = arr(pa, "Particles/x").size
    for xx, zz in zip(x[up], 0.5 * (a + b)[up]):
        d = np.hypot(P["x"] - xx, P["z"] - zz)
        d[:first] = np.inf
        i = int(np.argmin(d)) if d.size > first else -1
        if i < 0 or d[i] > 2e-6 * S:
            yield "sediment", "no new marker at (%.6g, %.6g) between the old and the raised surface" % (xx, zz)
            return
        if int(P["phase"][i]) not in want:
            yield "sediment", "the sediment of time %.6g My has phase %d" % (my, int(P["phase"][i]))
            return
        for k in P:
            if k.startswith("strain") or k in ("X", "sxxd", "szzd", "sxz", "P", "phi"):
                if P[k][i] != 0:
                    yield "sediment", "a new marker of sediment has %s = %g" % (k, P[k][i])
                    return
        if F is not None and F.shape[1] == P["x"].size and tuple(F[:, i]) != (1, 0, 0, 1):
            yield "sediment", "a new marker of sediment has the deformation gradient (%g, %g, %g, %g)" % tuple(F[:, i])
            return
        if "nx" in P and num(cfg, "anisotropy") == 1 and not abs(np.hypot(P["nx"][i], P["nz"][i]) - 1) < 1e-3:
            yield "sediment", "a new marker of sediment has the director (%g, %g)" % (P["nx"][i], P["nz"][i])
            return
        if "T" in P and abs(P["T"][i] - 273.15) > 1e-3:
            yield "sediment", "a new marker of sediment has T = %g" % P["T"][i]
            return
