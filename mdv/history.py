"""Reference model of what markers remember: strain, deformation gradient, director, stress, pressure, grain size and extreme conditions of each marker after a
step follow from those before it (breakpoint of step n) and the flow and stress of the step (breakpoint and files of step n+1)."""
import struct
import numpy as np
from .inv import num, arr, dims, substeps

STRAINS = ("el", "pl", "pwl", "exp", "lin", "gbs")


def load(raw, cfg, nx, nz):
    """fields of a breakpoint by name"""
    B = dict(zip(("dt", "dt0", "time", "xmin", "xmax", "zmin", "zmax"), struct.unpack_from("<7d", raw, 4)))
    o = [4 + 7 * 8]
    if num(cfg, "free_surface") == 1:
        for _ in range(2):
            o[0] += 4 + 4 * 8 * struct.unpack_from("<i", raw, o[0])[0]
    n = struct.unpack_from("<i", raw, o[0])[0]
    o[0] += 4

    def take(k, m=n, t="<f8", shape=None):
        B[k] = np.frombuffer(raw, t, m, o[0])
        if shape:
            B[k] = B[k].reshape(shape)
        o[0] += m * (4 if t == "<i4" else 8)
    C, V = dict(m=(nx - 1) * (nz - 1), shape=(nz - 1, nx - 1)), dict(m=nx * nz, shape=(nz, nx))
    for k in "x z P rho Vx Vz phi X noise".split():
        take(k)
    take("phase", t="<i4")
    take("dual", t="<i4")
    if num(cfg, "elastic") == 1:
        for k in "sxxd szzd sxz".split():
            take(k)
        for k, s in (("eta_n", C), ("VE_n", C), ("eta_s", V), ("VE_s", V)):
            take("g" + k, **s)
    for k in ("strain",) + tuple("strain_" + s for s in STRAINS) + ("d",):
        take(k)
    if num(cfg, "finite_strain") == 1:
        for k in "Fxx Fxz Fzx Fzz".split():
            take(k)
    if num(cfg, "anisotropy") == 1:
        take("nx")
        take("nz")
    if num(cfg, "track_T_P_x_z") == 1:
        for k in "T0 P0 x0 z0 Tmax Pmax".split():
            take(k)
    take("divth")
    take("T")
    for k in "p0 T0n divth0 X0 d0 phi0 rho0 sxxd0 szzd0".split():
        take("g" + k, **C)
    for k in "X0s sxz0".split():
        take("g" + k, **V)
    take("geta_phys_n", **C)
    take("geta_phys_s", **V)
    take("u", nx * (nz + 1), shape=(nz + 1, nx))
    take("v", nz * (nx + 1), shape=(nz, nx + 1))
    take("p", **C)
    return B


class Grid:
    def __init__(s, B, nx, nz):
        s.nx, s.nz = nx, nz
        s.dx, s.dz = (B["xmax"] - B["xmin"]) / (nx - 1), (B["zmax"] - B["zmin"]) / (nz - 1)
        s.xg, s.zg = B["xmin"] + np.arange(nx) * s.dx, B["zmin"] + np.arange(nz) * s.dz
        s.xc, s.zc = s.xg[:-1] + s.dx / 2, s.zg[:-1] + s.dz / 2
        s.xv, s.zv = B["xmin"] - s.dx / 2 + np.arange(nx + 1) * s.dx, B["zmin"] - s.dz / 2 + np.arange(nz + 1) * s.dz


def bilinear(f, R, X, Z, dx, dz, x, z):
    """value at points; a corner in air takes that of the node above or below it"""
    j = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, X.size - 2)
    i = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, Z.size - 2)
    u, v = (x - X[j]) / dx, (z - Z[i]) / dz
    pick = lambda a, b, c: np.where(R[a, c], f[a, c], f[b, c])
    return (1 - v) * ((1 - u) * pick(i, i + 1, j) + u * pick(i, i + 1, j + 1)) + v * ((1 - u) * pick(i + 1, i, j) + u * pick(i + 1, i, j + 1))


def centres(f, R, G, x, z, wrap, way=bilinear):
    pad = lambda a: np.pad(np.pad(a, ((0, 0), (1, 1)), mode="wrap" if wrap else "edge"), ((1, 1), (0, 0)), mode="edge")
    return way(pad(np.where(R, f, 0.0)), pad(R), G.xv, G.zv, G.dx, G.dz, x, z)


def vertices(f, R, G, x, z):
    return bilinear(np.where(R, f, 0.0), R, G.xg, G.zg, G.dx, G.dz, x, z)


def mean(f, R, X, Z, dx, dz, x, z):
    """weighted mean of the corners in rock"""
    j = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, X.size - 2)
    i = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, Z.size - 2)
    u, v = (x - X[j]) / dx, (z - Z[i]) / dz
    W = [(p, q, w * R[p, q]) for p, q, w in ((i, j, (1 - u) * (1 - v)), (i, j + 1, u * (1 - v)), (i + 1, j, (1 - u) * v), (i + 1, j + 1, u * v))]
    S = sum(w for _, _, w in W)
    return np.where(np.abs(S) > 1e-13, sum(w * f[p, q] for p, q, w in W) / np.where(np.abs(S) > 1e-13, S, 1.0), 0.0)


def gradients(B, G, rc, rv):
    u, v = B["u"], B["v"]
    return (np.where(rc, np.diff(u[1:-1], axis=1) / G.dx, 0.0), np.where(rc, np.diff(v[:, 1:-1], axis=0) / G.dz, 0.0), np.diff(u, axis=0) / G.dz, np.diff(v, axis=1) / G.dx)


def whole(f, R, G, x, z):
    """points whose four corners are all in rock"""
    j = np.clip(np.ceil((x - G[0][0]) / G[2]).astype(int) - 1, 0, G[0].size - 2)
    i = np.clip(np.ceil((z - G[1][0]) / G[3]).astype(int) - 1, 0, G[1].size - 2)
    return R[i, j] & R[i + 1, j] & R[i, j + 1] & R[i + 1, j + 1]


def check(A, B, fa, fb, gen, cfg):
    """breakpoints and output files of two consecutive steps, generation of the markers in the later one"""
    nx, nz = dims(fa)
    n = min(A["x"].size, B["x"].size, gen.size)
    dt = float(fb["Model/Params"][1][7])
    G, H = Grid(A, nx, nz), Grid(B, nx, nz)
    tn, ts = arr(fa, "Flags/tag_n", (nz - 1, nx - 1)), arr(fa, "Flags/tag_s", (nz, nx))
    rc, rv = (tn != 30) & (tn != 31), (ts != 30) & (ts != 31)
    ok = (A["phase"][:n] >= 0) & (B["phase"][:n] >= 0) & (gen[:n] == 0)
    adv = num(cfg, "advection", 1) == 1
    wrap = num(cfg, "periodic_x") == 1
    if num(cfg, "pure_shear_ALE") == -1 and not wrap and adv:      # places of markers that left are taken by others
        ok &= np.hypot(B["x"][:n] - A["x"][:n] - dt * B["Vx"][:n], B["z"][:n] - A["z"][:n] - dt * B["Vz"][:n]) < 1e-6 * min(G.dx, G.dz)
    if not ok.any():
        return
    V = max(np.abs(B["u"]).max(), np.abs(B["v"]).max())
    sub = adv and substeps(V * dt / min(G.dx, G.dz), cfg)
    x, z, X, Z = A["x"][:n][ok], A["z"][:n][ok], B["x"][:n][ok], B["z"][:n][ok]
    a = lambda k: A[k][:n][ok]
    b = lambda k: B[k][:n][ok]
    scale = max(abs(B[k]) for k in ("xmin", "xmax", "zmin", "zmax"))

    def bad(kind, want, got, tol, skip=None):
        e = np.abs(want - got) - tol
        if skip is not None:
            e = np.where(skip, -np.inf, e)
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        s = np.broadcast_to(tol, e.shape)[i]
        yield "_" + kind, float(np.abs(want - got)[i] / s) if s > 0 else 0.0
        if not e[i] <= 0:
            yield kind, "%s of the marker at (%.7g, %.7g), now at (%.7g, %.7g), is %.10g after the step, %.10g expected (before: %.10g)" % (kind, x[i], z[i], X[i], Z[i], got[i], want[i], before[i])

    odd = np.zeros(x.size, bool)
    if wrap:                                                     # corners of a periodic box
        for p, q, K in ((x, z, G), (X, Z, H)):
            odd |= ((p < K.xc[0]) | (p > K.xc[-1])) & ((q < K.zc[0]) | (q > K.zc[-1]))
    # strain: linear from the centres around, rock only, extrapolated at the sides
    if adv and not sub and num(cfg, "mechanical", 1) == 1:
        j = np.clip(np.ceil((X - H.xc[0]) / H.dx).astype(int) - 1, 0, nx - 3)
        i = np.clip(np.ceil((Z - H.zc[0]) / H.dz).astype(int) - 1, 0, nz - 3)
        u, v = (X - H.xc[j]) / H.dx, (Z - H.zc[i]) / H.dz
        W = [(p, q, w * rc[p, q]) for p, q, w in ((i, j, (1 - u) * (1 - v)), (i, j + 1, u * (1 - v)), (i + 1, j, (1 - u) * v), (i + 1, j + 1, u * v))]
        S = sum(w for _, _, w in W)
        none = ~(rc[i, j] | rc[i + 1, j] | rc[i, j + 1] | rc[i + 1, j + 1]) | (np.abs(S) < 1e-3)
        tot = 0.0
        for s in STRAINS:
            f = arr(fb, "Centers/eII_" + s, (nz - 1, nx - 1))
            inc = dt * sum(w * f[p, q] for p, q, w in W) / np.where(none, 1.0, S)
            amp = 3e-7 * dt * np.abs(f[rc]).max() / np.clip(np.abs(S), 1e-3, 1) + 1e-14 * np.abs(a("strain_" + s)).max() + 1e-300
            before = a("strain_" + s)
            tot = tot + inc
            yield from bad("strain_" + s, before + inc, b("strain_" + s), amp, none)
        before = a("strain")
        low = before + tot - 1e-5 * dt * np.abs(tot / dt).max() - 1e-13 * np.abs(before).max()
        yield from bad("strain", np.maximum(low, b("strain")), b("strain"), 0.0, none | (np.minimum(u, v) < 0) | (np.maximum(u, v) > 1))
    # deformation gradient and director
    ux, vz, uz, vx = gradients(B, H, rc, rv)
    if num(cfg, "finite_strain") == 1 and adv and not sub:
        L = centres(ux, rc, H, X, Z, wrap), vertices(uz, rv, H, X, Z), vertices(vx, rv, H, X, Z), centres(vz, rc, H, X, Z, wrap)
        f = 1 + dt * L[0], dt * L[1], dt * L[2], 1 + dt * L[3]
        F = [a(k) for k in ("Fxx", "Fxz", "Fzx", "Fzz")]
        want = f[0] * F[0] + f[1] * F[2], f[0] * F[1] + f[1] * F[3], f[2] * F[0] + f[3] * F[2], f[2] * F[1] + f[3] * F[3]
        m = max(np.abs(w).max() for w in want)
        for k, w, before in zip(("Fxx", "Fxz", "Fzx", "Fzz"), want, F):
            yield from bad(k, w, b(k), 1e-9 * m, odd)
    ux, vz, uz, vx = gradients(B, G, rc, rv)
    if num(cfg, "anisotropy") == 1 and adv:
        Uz, Vx = (mean(f, rv, G.xg, G.zg, G.dx, G.dz, x, z) for f in (uz, vx))
        L = centres(ux, rc, G, x, z, wrap, mean), Uz, Vx, centres(vz, rc, G, x, z, wrap, mean)
        p, q = a("nx"), a("nz")
        r = dt * (-(L[0] - L[3]) * p * q - L[2] * q * q + L[1] * p * p)
        N = np.hypot(p + r * q, q - r * p)
        for k, w, before in (("nx", (p + r * q) / N, p), ("nz", (q - r * p) / N, q)):
            yield from bad("director " + k, w, b(k), 1e-8, odd)
    # extremes
    if num(cfg, "track_T_P_x_z") == 1:
        for k in "TP":
            before = a(k + "max")
            yield from bad(k + "max", np.maximum(before, b(k)), b(k + "max"), 1e-9 * np.abs(b(k)).max() + 1e-300)
        for k in ("T0", "P0", "x0", "z0"):
            before = a(k)
            yield from bad(k, before, b(k), 1e-12 * np.abs(before).max())
    # pressure
    if num(cfg, "mechanical", 1) == 1:
        before = a("P")
        D = np.where(rc, B["p"] - B["gp0"], 0.0)
        if num(cfg, "subgrid_diffusion") < 2:
            yield from bad("pressure", before + centres(D, rc, G, x, z, wrap), b("P"), 1e-9 * max(np.abs(B["p"]).max(), np.abs(before).max()), odd)
    # grain size
    before = a("d")
    f = arr(fb, "Centers/d", (nz - 1, nx - 1))
    yield from bad("grain size", centres(f, rc, G, x, z, wrap), b("d"), 1e-6 * np.abs(f[rc]).max(), odd)
    # stress
    if num(cfg, "elastic") == 1 and num(cfg, "mechanical", 1) == 1 and num(cfg, "subgrid_diffusion") != 2:
        yield from stress(B, fb, cfg, G, rc, rv, x, z, a, b, dt, 0.5 * (vx - uz), wrap, odd)


def stress(B, fb, cfg, G, rc, rv, x, z, a, b, dt, spin, wrap, odd):
    t = {"sxxd": (arr(fb, "Centers/sxxd", rc.shape), B["gsxxd0"]), "szzd": (arr(fb, "Centers/szzd", rc.shape), B["gszzd0"]), "sxz": (arr(fb, "Vertices/sxz", rv.shape), B["gsxz0"])}
    m = max(np.abs(p[r]).max() for (p, q), r in zip(t.values(), (rc, rc, rv))) + max(np.abs(q[r]).max() for (p, q), r in zip(t.values(), (rc, rc, rv)))
    S = {}
    for k, (p, q) in t.items():
        R = rv if k == "sxz" else rc
        D = np.where(R, p - q, 0.0)
        to = (lambda f, xx=x, zz=z: vertices(f, rv, G, xx, zz)) if k == "sxz" else (lambda f, xx=x, zz=z: centres(f, rc, G, xx, zz, wrap))
        S[k] = a(k) + to(D)
    w = vertices(spin, rv, G, x, z)
    xx, zz, xz = S["sxxd"], S["szzd"], S["sxz"]
    r = int(num(cfg, "stress_rotation", 1))
    if r == 1:
        S = {"sxxd": xx - 2 * dt * xz * w, "szzd": zz + 2 * dt * xz * w, "sxz": xz - dt * (zz - xx) * w}
    elif r == 2:
        c, s = np.cos(dt * w), np.sin(dt * w)
        S = {"sxxd": xx * c * c - 2 * xz * s * c + zz * s * s, "szzd": xx * s * s + 2 * xz * s * c + zz * c * c, "sxz": (xx - zz) * s * c + xz * (c * c - s * s)}
    for k in S:
        e = np.abs(S[k] - b(k))
        e[odd] = 0
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        yield "_" + k, float(e[i] / m)
        if not e[i] <= 3e-7 * m:
            yield "stress", "%s of the marker at (%.7g, %.7g) is %.8g Pa after the step, %.8g expected (before: %.8g)" % (k, x[i], z[i], b(k)[i], S[k][i], a(k)[i])
            return
