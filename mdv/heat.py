"""Reference for the temperatures of one step, computed from the markers and fields written before it: the heat that is
conducted, produced and let in through the sides, with the temperatures imposed there. Generated models only."""
import numpy as np
from scipy.linalg import solve_banded
from .inv import arr, dims, num

ZC = 273.15


def to_nodes(X, Z, dx, dz, x, z, val):
    """what the model documents as its interpolation: the mean of the markers of the cell around a node, weighted by their distance"""
    nx, nz = X.size, Z.size
    i = np.clip(np.ceil((x - X[0]) / dx + 0.5).astype(int) - 1, 0, nx - 1)
    j = np.clip(np.ceil((z - Z[0]) / dz + 0.5).astype(int) - 1, 0, nz - 1)
    w = (1 - np.abs(X[i] - x) / (dx / 2)) * (1 - np.abs(Z[j] - z) / (dz / 2))
    n = i + j * nx
    W = np.bincount(n, w, nx * nz)
    B = np.bincount(n, w * val, nx * nz)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(np.abs(W) > 1e-30, B / W, np.nan).reshape(nz, nx)


def coef(cfg, name, default, crazy=False):
    v = [float(p.get(name, default)) for p in cfg["phases"]]
    if crazy and cfg["sc"].get("crazy"):
        v[3 if len(v) > 3 else 1] *= 1000.0
    return np.array(v)


def sides(cfg):
    """(kind, value) of S, N and the free surface, and whether the sides W and E are joined"""
    sc = cfg["sc"]
    q = float(sc.get("qbot", 0))
    if sc.get("fam", 0) == 0:
        if num(cfg, "shear_style") == 1 and num(cfg, "periodic_x") == 1:
            return ("flux", q), ("flux", 0.0), None, True
        t = num(cfg, "user0") + ZC
        if sc.get("tbc"):
            return ("flux", q) if q else ("T", t), ("T", t), ("flux", 0.0), False
        return ("flux", q), ("flux", 0.0), ("flux", 0.0), False
    return ("flux", q) if q else ("T", num(cfg, "user7") + ZC), ("T", ZC), ("T", ZC), False


def nine(X, Z, dx, dz, x, z, val, peri):
    """the same over the nine cells around a marker, at cell centres"""
    nx, nz = X.size, Z.size
    i = np.clip(np.ceil((x - X[0]) / dx + 0.5).astype(int) - 1, 0, nx - 1)
    j = np.clip(np.ceil((z - Z[0]) / dz + 0.5).astype(int) - 1, 0, nz - 1)
    W, B = np.zeros(nx * nz), np.zeros(nx * nz)
    for di in (-1, 0, 1):
        for dj in (-1, 0, 1):
            ii, jj = i + di, j + dj
            w = (1 - np.abs(X[i] + di * dx - x) / (1.5 * dx)) * (1 - np.abs(Z[j] + dj * dz - z) / (1.5 * dz))
            ok = (jj >= 0) & (jj < nz) & (peri | ((ii >= 0) & (ii < nx)))
            n = (ii % nx + jj * nx)[ok]
            W += np.bincount(n, w[ok], nx * nz)
            B += np.bincount(n, (w * val)[ok], nx * nz)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(np.abs(W) > 1e-30, B / W, np.nan).reshape(nz, nx)


def step(pa, fa, fb, cfg, first, var=0):
    """Files before and after a step -> what the energy balance of the step says; None where the files do not determine it"""
    nx, nz = dims(fa)
    ncx, ncz = nx - 1, nz - 1
    g = {k: arr(fa, "Model/" + k) for k in ("xg_coord", "zg_coord", "xc_coord", "zc_coord", "xvz_coord", "zvx_coord")}
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    dt = float(fb["Model/Params"][1][0]) - float(fa["Model/Params"][1][0])
    ph = arr(pa, "Particles/phase").astype(int)
    ok = ph >= 0
    x, z, T, ph = arr(pa, "Particles/x")[ok], arr(pa, "Particles/z")[ok], arr(pa, "Particles/T")[ok], ph[ok]
    for i, p in enumerate(cfg["phases"]):
        t = int(float(p.get("transmutation", 0)))
        if t:
            Tt = float(p.get("transmutation_temperature", 1300.0))
            h = (ph == i) & ((T >= Tt) if t == 1 else (T <= Tt))
            if (np.abs(T[ph == i] - Tt) < 2e-6 * Tt).any():
                return None
            ph[h] = int(float(p.get("transmutation_phase", 1)))
    eps = 1e-6 * max(np.abs(g["xg_coord"]).max(), np.abs(g["zg_coord"]).max())          # positions are written in single precision
    x, z = x + var * eps, z + var * eps
    C = (g["xc_coord"], g["zc_coord"], dx, dz, x, z)
    T0 = to_nodes(*C, T)
    Cp = to_nodes(*C, coef(cfg, "Cp", 1e3)[ph])
    Qr = to_nodes(*C, coef(cfg, "Qr", 1e-30)[ph])
    k = coef(cfg, "k", 1e-6, first)[ph]
    kx = to_nodes(g["xg_coord"], g["zvx_coord"], dx, dz, x, z, k)
    kz = to_nodes(g["xvz_coord"], g["zg_coord"], dx, dz, x, z, k)
    kx[np.isin(arr(fa, "Flags/tag_u", kx.shape), (30, 31))] = 0.0
    kz[np.isin(arr(fa, "Flags/tag_v", kz.shape), (30, 31))] = 0.0
    S, N, F, peri = sides(cfg)
    if peri:                         # the two sides are the same place
        kx[:, 0] = kx[:, -1] = 0.5 * (kx[:, 0] + kx[:, -1])
    tag = arr(fa, "Flags/tag_n", (ncz, ncx))
    rock = (tag != 30) & (tag != 31)
    if np.isnan(T0[rock]).any():
        return None
    if var:                          # density changes with pressure and temperature within the step
        D = {k: np.abs(arr(fb, "Centers/" + k) - arr(fa, "Centers/" + k)).reshape(ncz, ncx) for k in ("T", "P")}
        drho = 1 + var * np.where(rock, coef(cfg, "alp", 0.0).max() * D["T"] + coef(cfg, "bet", 0.0).max() * D["P"], 0.0)
    rho = arr(fb, "Centers/rho_n", (ncz, ncx)).copy()
    if not rock.all():               # a cell that the surface cuts holds the mass below the surface
        zt = arr(fa, "Topo/z_grid")
        h = 0.5 * (zt[1:] + zt[:-1])
        for l in range(ncz - 1):
            cut = rock[l] & ~rock[l + 1]
            w = np.abs(h[cut] - g["zc_coord"][l]) / dz
            if w.size and w.min() < 0.05:
                return None
            rho[l, cut] *= w + var * 0.01
    if var:
        rho *= drho
    H = np.where(rock, Qr, 0.0)
    mode = int(num(cfg, "adiab_heating"))
    al = coef(cfg, "alp", 0.0)
    if mode and np.ptp(al) > 0:
        return None
    if mode == 1:
        vz = arr(fb, "VzNodes/Vz", (nz, nx + 1))[:, 1:-1]
        H = H + np.where(rock, T0 * al[0] * 0.5 * (vz[1:] + vz[:-1]) * num(cfg, "gz") * rho, 0.0)
    if mode == 2:
        P = arr(fb, "Centers/P", (ncz, ncx))
        st = int(num(cfg, "interp_stencil", 1))
        P0 = to_nodes(*C, arr(pa, "Particles/P")[ok]) if st == 1 else nine(*C, arr(pa, "Particles/P")[ok], num(cfg, "periodic_x") == 1)
        H = H + np.where(rock, T0 * al[0] * (P - P0) / dt, 0.0)
    want = arr(fb, "Centers/T", (ncz, ncx))
    n = ncx * ncz
    A = np.zeros((2 * ncx + 1, n))          # banded: A[ncx + row - column, column]

    def put(row, col, v):
        A[ncx + row - col, col] += v
    b = np.zeros(n)
    nz_ = lambda v: 0.0 if np.isnan(v) else v
    kmin = min(np.nan_to_num(kx).min(), 0) if np.isnan(kx).any() else kx.min()
    for l in range(ncz):
        for c in range(ncx):
            e = c + l * ncx
            if not rock[l, c]:
                put(e, e, 1.0)
                continue
            m = rho[l, c] * Cp[l, c] / dt
            put(e, e, m)
            b[e] += m * T0[l, c] + H[l, c]
            ks4 = dict(W=nz_(kx[l + 1, c]), E=nz_(kx[l + 1, c + 1]), S=nz_(kz[l, c + 1]), N=nz_(kz[l + 1, c + 1]))
            ks = max(0.25 * sum(ks4.values()), kmin)
            surf = l < ncz - 1 and not rock[l + 1, c] and F is not None and F[0] == "T"
            for s, (dl, dc, h) in dict(W=(0, -1, dx), E=(0, 1, dx), S=(-1, 0, dz), N=(1, 0, dz)).items():
                a, cc, ll = ks4[s] / h / h, c + dc, l + dl
                if s in "WE" and not 0 <= cc < ncx:
                    if not peri:
                        continue
                    cc %= ncx
                if s in "SN" and not 0 <= ll < ncz:
                    kind, v = S if s == "S" else N
                    if kind == "T":
                        put(e, e, 2 * a)
                        b[e] += 2 * a * v
                    elif s == "S":
                        b[e] -= v / h
                    continue
                if rock[ll, cc]:
                    put(e, e, a)
                    put(e, cc + ll * ncx, -a)
                elif surf:
                    put(e, e, 2 * ks / h / h)
                    b[e] += 2 * ks / h / h * F[1]
    return {"T0": T0, "T": want, "A": A, "b": b, "rock": rock, "m": np.where(rock, rho * Cp / dt, 1.0)}


def compare(r):
    A, n, w = r["A"], r["b"].size, r["T"].shape[1]
    Tp = solve_banded((w, w), A, r["b"]).reshape(r["T"].shape)
    x, y = r["T"].ravel(), -r["b"]
    for d in range(-w, w + 1):              # row - column
        c = np.arange(max(0, -d), min(n, n - d))
        y[c + d] += A[w + d, c] * x[c]
    return Tp, y.reshape(r["T"].shape)      # the latter: what the written temperature needs in addition, in W/m3


def near(a, rock, w=2):
    """largest value within w cells"""
    a = np.pad(np.where(rock, a, 0.0), w)
    n, m = rock.shape
    return np.max([a[i:i + n, j:j + m] for i in range(2 * w + 1) for j in range(2 * w + 1)], axis=0)


def carried(q, pa, pb, fa, cfg):
    """increments of markers without subgrid diffusion: the grid's, interpolated linearly to where the marker was -> (expected, found, T)"""
    A = {k: arr(pa, "Particles/" + k) for k in ("x", "z", "T", "phase")}
    B = {k: arr(pb, "Particles/" + k) for k in ("T", "phase", "generation")}
    n = min(A["x"].size, B["T"].size)
    ok = (A["phase"][:n] >= 0) & (B["phase"][:n] >= 0) & (B["generation"][:n] == 0)
    x, z = A["x"][:n][ok], A["z"][:n][ok]
    X, Z = arr(fa, "Model/xvz_coord"), arr(fa, "Model/zvx_coord")
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    mode = "wrap" if num(cfg, "periodic_x") == 1 else "edge"
    D = np.pad(np.pad(np.where(q["rock"], q["T"] - q["T0"], 0.0), ((0, 0), (1, 1)), mode=mode), ((1, 1), (0, 0)), mode="edge")
    R = np.pad(np.pad(q["rock"], ((0, 0), (1, 1)), mode=mode), ((1, 1), (0, 0)), mode="edge")
    j = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, X.size - 2)
    i = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, Z.size - 2)
    u, v = (x - X[j]) / dx, (z - Z[i]) / dz
    pick = lambda a, b, c: np.where(R[a, c], D[a, c], D[b, c])
    want = (1 - v) * ((1 - u) * pick(i, i + 1, j) + u * pick(i, i + 1, j + 1)) + v * ((1 - u) * pick(i + 1, i, j) + u * pick(i + 1, i, j + 1))
    return want, (B["T"][:n] - A["T"][:n])[ok], A["T"][:n][ok]


def check(pa, pb, fa, fb, cfg, first):
    q = step(pa, fa, fb, cfg, first)
    if q is None:
        return
    Tp, src = compare(q)
    var = [step(pa, fa, fb, cfg, first, v) for v in (1, -1)]
    if None in var:
        return
    both = (lambda t: (t != 30) & (t != 31))(arr(fb, "Flags/tag_n", q["rock"].shape))
    R, T0, T = q["rock"] & both, q["T0"], q["T"]
    slack = 2 * np.max([np.abs(compare(v)[0] - Tp) for v in var], axis=0) + np.max([np.abs(v["T0"] - T0) for v in var], axis=0)
    if not np.isfinite(T[R]).all():
        yield "finite", "a written temperature is not a number"
        return
    dT = near(np.abs(np.where(R, T - T0, 0.0)), R)
    round_ = 1e-6 * T[R].max()
    comp = num(cfg, "compressible") == 1
    tol = 0.01 * dT + round_ + near(slack, R, 1)
    if num(cfg, "thermal") == 0:
        e = np.abs(T - T0)[R]
        yield "_idle", float((e / round_).max())
        if e.max() > round_:
            yield "heat", "the temperature changes by %.3g K although no energy equation is solved" % e.max()
    elif num(cfg, "shear_heating") == 0:
        e = np.where(R, np.abs(Tp - T), 0.0)
        yield "_T", float((e / tol).max())
        if (e > tol).any():
            i = np.unravel_index(np.argmax(e / tol), e.shape)
            yield "heat", "cell %s goes from %.7g to %.7g K; heat conducted, produced and let in give %.7g K" % (tuple(int(c) for c in i), T0[i], T[i], Tp[i])
    else:
        w, n = T.shape[1], T.size
        row = np.zeros(n)                   # rounding of the written temperatures times the coefficients
        for d in range(-w, w + 1):
            c = np.arange(max(0, -d), min(n, n - d))
            row[c + d] += np.abs(q["A"][w + d, c])
        low = -q["m"] * tol - 1.2e-7 * T[R].max() * row.reshape(T.shape)
        bad = R & (src < low)
        if comp:
            bad = bad & False
        yield "_src", float((src / np.where(R, -low, 1))[R].min() * -1)
        if bad.any():
            i = np.unravel_index(np.argmin(np.where(bad, src / -low, 0)), src.shape)
            yield "heat", "cell %s goes from %.7g to %.7g K and loses %.3g W/m3 by itself: dissipation cannot be negative" % (tuple(int(c) for c in i), T0[i], T[i], -src[i])
        if num(cfg, "elastic") == 0 and not comp and num(cfg, "eta_average") == 0 and num(cfg, "anisotropy") == 0:
            n, m = T.shape
            E = {k: arr(fb, "Centers/" + k, (n, m)) for k in ("exxd", "ezzd", "eta_n")}
            xz = arr(fb, "Vertices/exz", (n + 1, m + 1))
            xz = 0.25 * (xz[1:, 1:] + xz[:-1, 1:] + xz[1:, :-1] + xz[:-1, :-1])
            W = 4 * E["eta_n"] * (0.5 * (E["exxd"] ** 2 + E["ezzd"] ** 2 + (E["exxd"] + E["ezzd"]) ** 2) + xz ** 2)
            e = np.where(R, np.abs(src - W) / (0.05 * near(W, R, 1) + q["m"] * tol), 0.0)
            yield "_W", float(e.max())
            if e.max() > 1:
                i = np.unravel_index(np.argmax(e), e.shape)
                yield "heat", "cell %s is heated by %.4g W/m3, the written stress and strain rate dissipate %.4g W/m3" % (tuple(int(c) for c in i), src[i], W[i])
    if num(cfg, "subgrid_diffusion") == 0 and not (num(cfg, "pure_shear_ALE") == -1 and num(cfg, "periodic_x") == 0):
        want, got, Tm = carried(q, pa, pb, fa, cfg)
        t = 2e-6 * T[R].max() + 1e-3 * np.abs(want).max()
        e = np.abs(want - got)
        yield "_carry", float(e.max() / t)
        if e.max() > t:
            i = int(np.argmax(e))
            yield "carry", "a marker of %.7g K changes by %.5g K, the temperature around it by %.5g K" % (Tm[i], got[i], want[i])
