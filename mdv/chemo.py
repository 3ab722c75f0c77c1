"""Reference for the composition of one step: what diffuses, reacts and comes in through the sides, from the markers written before
the step. Generated models only."""
import struct
import numpy as np
from scipy.linalg import solve_banded
from scipy.special import erfc
from .heat import nine, to_nodes
from .inv import arr, dims, num


def markers(raw, cfg, nx):
    """x, z, X, phase of the markers in a breakpoint"""
    o = 4 + 7 * 8
    if num(cfg, "free_surface") == 1:
        for _ in range(2):
            n = struct.unpack_from("<i", raw, o)[0]
            o += 4 + 4 * 8 * n
    n = struct.unpack_from("<i", raw, o)[0]
    o += 4
    a = np.frombuffer(raw, "<f8", 9 * n, o).reshape(9, n)
    ph = np.frombuffer(raw, "<i4", n, o + 9 * 8 * n)
    return {"x": a[0], "z": a[1], "X": a[7], "phase": ph}


def props(cfg, name, default=0.0):
    return np.array([float(p.get(name, default)) for p in cfg["phases"]])


def step(A, fa, fb, cfg, var=0):
    nx, nz = dims(fa)
    ncx, ncz = nx - 1, nz - 1
    g = {k: arr(fa, "Model/" + k) for k in ("xg_coord", "zg_coord", "xc_coord", "zc_coord", "xvz_coord", "zvx_coord")}
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    dt = float(fb["Model/Params"][1][0]) - float(fa["Model/Params"][1][0])
    ok = A["phase"] >= 0
    x, z, X, ph = A["x"][ok], A["z"][ok], A["X"][ok], A["phase"][ok]
    eps = 1e-6 * max(np.abs(g["xg_coord"]).max(), np.abs(g["zg_coord"]).max())          # the grid is written in single precision
    x, z = x + var * eps, z + var * eps
    peri = num(cfg, "periodic_x") == 1
    st9 = int(num(cfg, "interp_stencil", 1)) != 1
    C = (g["xc_coord"], g["zc_coord"], dx, dz, x, z)
    cell = (lambda v: nine(*C, v, peri)) if st9 else (lambda v: to_nodes(*C, v))
    X0 = cell(X)
    tag = arr(fa, "Flags/tag_n", (ncz, ncx))
    rock = (tag != 30) & (tag != 31)
    if np.isnan(X0[rock]).any():
        return None
    Xs = np.where(rock, X0, 0.0)
    if num(cfg, "chemical_production") == 1:
        P = arr(fb, "Centers/P", (ncz, ncx)) * (1 + var * 1e-6)
        new = np.zeros_like(Xs)
        for p, m in enumerate(cfg["phases"]):
            f = cell((ph == p).astype(float))
            r = X0
            if float(m.get("reac_soft", 0)):
                tau = float(m["tau_kin"])
                r = (X0 * tau + dt * (1 - 0.5 * erfc((P - float(m["Pr"])) / float(m["dPr"])))) / (dt + tau)
            new += f * r
        Xs = np.where(rock, new, 0.0)
    Xr = Xs
    if num(cfg, "chemical_diffusion") == 1:
        kc = props(cfg, "k_chem")[ph]
        if st9 and np.ptp(kc) > 0:
            return None
        kx = to_nodes(g["xg_coord"], g["zvx_coord"], dx, dz, x, z, kc)
        kz = to_nodes(g["xvz_coord"], g["zg_coord"], dx, dz, x, z, kc)
        if st9:
            kx[:], kz[:] = kc[0], kc[0]
        if peri:                         # the two sides are the same place
            kx[:, 0] = kx[:, -1] = 0.5 * (kx[:, 0] + kx[:, -1])
        kx, kz = (np.nan_to_num(v) for v in (kx, kz))
        n = ncx * ncz
        M = np.zeros((2 * ncx + 1, n))
        b = np.zeros(n)
        mode, q = int(cfg["sc"].get("xbc", 0)), float(cfg["sc"].get("qxbot", 0))
        for l in range(ncz):
            for c in range(ncx):
                e = c + l * ncx
                M[ncx, e] += 1.0 / dt
                b[e] += Xs[l, c] / dt
                if not rock[l, c]:
                    continue
                for s, dl, dc, k in (("W", 0, -1, kx[l + 1, c] / dx ** 2), ("E", 0, 1, kx[l + 1, c + 1] / dx ** 2), ("S", -1, 0, kz[l, c + 1] / dz ** 2), ("N", 1, 0, kz[l + 1, c + 1] / dz ** 2)):
                    ll, cc = l + dl, c + dc
                    if s in "WE" and peri:
                        cc %= ncx
                    if 0 <= ll < ncz and 0 <= cc < ncx:
                        if rock[ll, cc]:
                            M[ncx, e] += k
                            f = cc + ll * ncx
                            M[ncx + e - f, f] -= k
                        elif mode == 1 and l < ncz - 1 and not rock[l + 1, c]:     # the surface is held at a composition
                            ks = 0.25 * (kx[l + 1, c] + kx[l + 1, c + 1] + kz[l, c + 1] + kz[l + 1, c + 1])
                            h = dx if s in "WE" else dz
                            M[ncx, e] += 2 * ks / h ** 2
                            b[e] += 2 * ks / h ** 2 * 0.2
                        continue
                    v = None
                    if s == "S" and q:
                        b[e] -= q / dz
                    elif mode == 1 and s in "SN":
                        v = 0.8 if s == "S" else 0.2
                    elif mode == 2 and s in "WE":
                        v = 0.1 if s == "W" else 0.9
                    if v is not None:
                        M[ncx, e] += 2 * k
                        b[e] += 2 * k * v
        Xr = np.where(rock, solve_banded((ncx, ncx), M, b).reshape(Xs.shape), 0.0)
    return {"X0": np.where(rock, X0, 0.0), "X": Xr, "rock": rock}


def carried(q, A, B, fa, gen, cfg):
    """change of the markers: the grid's, interpolated linearly to where the marker was, kept between 0 and 1"""
    n = min(A["x"].size, B["x"].size, gen.size)
    ok = (A["phase"][:n] >= 0) & (B["phase"][:n] >= 0) & (gen[:n] == 0)
    x, z = A["x"][:n][ok], A["z"][:n][ok]
    X, Z = arr(fa, "Model/xvz_coord"), arr(fa, "Model/zvx_coord")
    dx, dz = (float(fa["Model/Params"][1][i]) for i in (5, 6))
    mode = "wrap" if num(cfg, "periodic_x") == 1 else "edge"
    D = np.pad(np.pad(q["D"], ((0, 0), (1, 1)), mode=mode), ((1, 1), (0, 0)), mode="edge")
    R = np.pad(np.pad(q["rock"], ((0, 0), (1, 1)), mode=mode), ((1, 1), (0, 0)), mode="edge")
    j = np.clip(np.ceil((x - X[0]) / dx).astype(int) - 1, 0, X.size - 2)
    i = np.clip(np.ceil((z - Z[0]) / dz).astype(int) - 1, 0, Z.size - 2)
    u, v = (x - X[j]) / dx, (z - Z[i]) / dz
    pick = lambda a, b, c: np.where(R[a, c], D[a, c], D[b, c])
    inc = (1 - v) * ((1 - u) * pick(i, i + 1, j) + u * pick(i, i + 1, j + 1)) + v * ((1 - u) * pick(i + 1, i, j) + u * pick(i + 1, i, j + 1))
    return np.clip(A["X"][:n][ok] + inc, 0, 1), B["X"][:n][ok], A["X"][:n][ok]


def check(A, B, fa, fb, gen, cfg):
    q = step(A, fa, fb, cfg)
    if q is None:
        return
    var = [step(A, fa, fb, cfg, v) for v in (1, -1)]
    if None in var:
        return
    both = (lambda t: (t != 30) & (t != 31))(arr(fb, "Flags/tag_n", q["rock"].shape))
    got = arr(fb, "Centers/X", q["rock"].shape)
    on = B["phase"] >= 0
    if not (np.isfinite(B["X"][on]).all() and np.isfinite(got[q["rock"] & both]).all()):
        yield "finite", "a written composition is not a number"
        return
    old = on[:min(on.size, gen.size)] & (gen[:on.size] == 0)           # a new marker takes what the grid holds, which a flux can bring out of the bounds
    v = B["X"][:old.size][old]
    if v.size and (v.min() < 0 or v.max() > 1):
        yield "bounds", "a marker holds a composition of %.9g" % max(v, key=lambda v: abs(v - 0.5))
    slack = np.max([np.abs(v["X"] - q["X"]) for v in var], axis=0) * 2
    tol = 3e-6 + 0.005 * np.abs(q["X"] - q["X0"]).max() + slack
    R = q["rock"] & both
    tol[:-1][~R[1:]] *= 3                # the phases at the surface are counted before markers are removed and added there
    e = np.where(R, np.abs(got - q["X"]) / tol, 0.0)
    yield "_X", float(e.max())
    if e.max() > 1:
        i = np.unravel_index(np.argmax(e), e.shape)
        yield "composition", "cell %s goes from %.7g to %.7g; diffusion and reaction give %.7g" % (tuple(int(c) for c in i), q["X0"][i], got[i], q["X"][i])
    if not (num(cfg, "pure_shear_ALE") == -1 and num(cfg, "periodic_x") == 0):
        q["D"] = np.where(q["rock"], got - q["X0"], 0.0)
        want, have, old = carried(q, A, B, fa, gen, cfg)
        if want.size:
            t = 2e-6 + 1e-3 * np.abs(q["D"]).max() + 2 * max(np.abs(v["X0"] - q["X0"]).max() for v in var)
            e = np.abs(want - have)
            yield "_carry", float(e.max() / t)
            if e.max() > t:
                i = int(np.argmax(e))
                yield "carry", "a marker goes from %.8g to %.8g, the composition around it changes so that it should hold %.8g" % (old[i], have[i], want[i])
