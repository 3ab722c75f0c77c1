"""Swarm configuration generator: every run draws its own small model."""
import json, os, random, copy


def _base(r, nx=(13, 23), nt=(3, 5)):
    return {
        "istep": 0, "irestart": 0,
        "writer": 1, "writer_step": 1, "writer_markers": 1, "writer_debug": 0, "gnuplot_log_res": 0, "delete_breakpoints": 0,
        "noisy": 1,
        "Nx": r.randrange(nx[0], nx[1] + 1), "Nz": r.randrange(nx[0], nx[1] + 1), "Nt": r.randrange(nt[0], nt[1] + 1),
        "Nx_part": r.choice([3, 4, 4, 5]), "Nz_part": r.choice([3, 4, 4, 5]), "min_part_cell": r.choice([8, 12, 16]),
        "RK": r.choice([1, 2, 4]),
        "eta_average": r.choice([0, 0, 1, 2]),
        "interp_stencil": r.choice([1, 9]),
        "reseed_markers": 1, "reseed_mode": r.choice([0, 0, 1]),
        "track_T_P_x_z": r.choice([0, 1]),
        "conserv_interp": 0,
        "stress_rotation": r.choice([0, 1, 2]),
    }


def box(r, **kw):
    """Unit-scale box: inclusion (and layer) in pure or simple shear; any combination of rheological switches."""
    p = _base(r)
    style = r.choice([0, 0, 1])
    elastic = r.choice([0, 1])
    aniso = 1 if r.random() < 0.3 else 0
    thermal = 1 if r.random() < 0.4 else 0
    comp = 1 if r.random() < 0.25 else 0
    plast = 1 if r.random() < 0.4 else 0
    newton = r.choice([0, 1])
    unit = r.random() < 0.4
    s = dict(eta=1.0, L=1.0, V=1.0, T=1.0) if unit else dict(eta=r.choice([1.0, 10.0, 3.0]), L=r.choice([1.0, 0.1, 3.0]), V=r.choice([1.0, 0.7]), T=r.choice([1.0, 100.0]))
    p.update(s)
    p.update({
        "xmin": -0.5, "xmax": 0.4637, "zmin": -0.4781, "zmax": 0.5,   # no symmetry: a marker exactly on a symmetry line is a tie that rounding decides
        "dt": r.choice([0.02, 0.05, 0.1]), "constant_dt": r.choice([0, 1]), "Courant": r.choice([0.2, 0.3, 0.5]),
        "penalty": 1e5 if aniso == 0 else 1e3, "lin_solver": r.choice([-1, 2, 2]) if newton or aniso else r.choice([2, -1]), "diag_scaling": r.choice([0, 1]),
        "lin_abs_div": 1e-9, "lin_rel_div": 1e-9, "lin_abs_mom": 1e-11, "lin_rel_mom": 1e-11,
        "Newton": newton, "line_search": r.choice([0, 1]), "nit_max": r.choice([2, 5, 10]), "rel_tol_KSP": 1e-4,
        "nonlin_abs_mom": 1e-9, "nonlin_rel_mom": 1e-9, "nonlin_abs_div": 1e-9, "nonlin_rel_div": 1e-9,
        "Picard2Newton": r.choice([0, 1]) if newton else 0, "Picard2Newton_tol": 1e-1, "max_its_Pic": 3,
        "min_eta": 1e-3, "max_eta": 1e6,
        "mechanical": 1, "advection": 1 if r.random() < 0.9 else 0,
        "elastic": elastic, "thermal": thermal, "anisotropy": aniso, "finite_strain": 1 if aniso else r.choice([0, 1]),
        "compressible": comp,
        "shear_style": style, "periodic_x": style, "pure_shear_ALE": 0 if style else r.choice([0, 1, 1, -1]),
        "bkg_strain_rate": r.choice([1.0, -1.0, 0.5]) if not style else 1.0,
        "shear_heating": r.choice([0, 1]), "adiab_heating": 0,
        "subgrid_diffusion": r.choice([0, 1, 2]),
        "marker_noise": r.choice([0, 1]),
        "gx": 0.0, "gz": r.choice([0.0, -1.0]),
        "user0": 10.0, "user1": 0.12, "user2": 0.0, "user3": 0.05, "user4": -0.03, "user7": 20.0,
    })
    if comp:
        p["bkg_pressure"] = 1.0
    if plast:
        p["nit_max"] = 10
    if r.random() < 0.2:
        p["preload"] = 1
        p["preload_sxxd"], p["preload_szzd"], p["preload_sxz"] = 0.1, -0.1, 0.05
    phases = []
    for i in range(r.choice([2, 3])):
        ph = {"rho": 1.0 + 0.1 * i, "G": r.choice([1.0, 10.0, 100.0]), "Cp": 1.0, "k": r.choice([1e-2, 1e-1]), "Qr": 0.0,
              "C": (r.choice([3.0, 4.0]) if plast and i == 0 else 1e90), "phi": 30.0 if plast else 0.0, "Slim": 1e100,
              "alp": 1e-3 if comp else 0.0, "bet": 1e-1 if comp else 1e-11, "drho": 0.0,
              "plast": 1 if plast else r.choice([0, 1]),
              "cstv": 1, "pwlv": 0, "linv": 0, "gbsv": 0, "expv": 0, "gsel": 0,
              "eta0": [1.0, 20.0, 0.2][i], "npwl": 0.0, "Qpwl": 0.0}
        if plast and i == 0:
            ph["eta_vp"] = 0.05
            if r.random() < 0.5:
                ph.update({"coh_soft": 1, "Ce": 1.0, "plss": 0.0, "plse": 0.2})
            if r.random() < 0.5:
                ph.update({"phi_soft": 1, "phie": 15.0, "plss": 0.0, "plse": 0.2})
        if i != 1 and r.random() < 0.5:
            ph.update({"cstv": 0, "pwlv": 1, "npwl": 3.0, "Qpwl": 0.0, "eps0": 1.0, "tau0": 1.0})
        if aniso:
            ph.update({"aniso_factor": r.choice([1.0, 2.0, 4.0]), "aniso_angle": r.choice([30.0, 70.0]), "ani_fstrain": r.choice([0, 0, 1]), "ani_fac_max": 5.0})
        phases.append(ph)
    sc = {"fam": 0, "tbc": r.choice([0, 1]), "usedens": r.choice([0, 1]), "usenoise": p["marker_noise"], "useaniso": 0, "usedefgrad": r.choice([0, 0, 1]) if p["finite_strain"] else 0,
          "pin": 1 if r.random() < 0.2 else 0, "usestress": p.get("preload", 0), "usevel": r.choice([0, 1]), "useP": comp}
    if aniso and r.random() < 0.4:
        p["marker_aniso_angle"] = 1
        sc["useaniso"] = 1
    if r.random() < 0.12:
        p["out_of_plane"] = 1
    return {"par": p, "phases": phases, "sc": sc, "name": "box"}


def litho(r, **kw):
    """Lithospheric extension/compression with free surface, temperature, flow laws, surface processes."""
    p = _base(r, nx=(21, 31), nt=(3, 4))
    ext = r.choice([1, 1, -1])
    melting = 1 if r.random() < 0.3 else 0
    aniso = 0
    sp = r.choice([0, 1, 2, 3])
    p.update({
        "eta": 1e22, "L": r.choice([1e4, 3e5]), "V": 1.5e-9, "T": 1e2,
        "xmin": -60e3, "xmax": 60e3, "zmin": -70e3, "zmax": 8e3,
        "dt": 1.0e11, "constant_dt": r.choice([0, 1]), "Courant": 0.45, "penalty": 1e2,
        "mechanical": 1, "elastic": 1, "thermal": r.choice([0, 1, 1]), "free_surface": 1, "free_surface_stab": r.choice([0.0, 1.0]),
        "topo_update": r.choice([0, 1]),
        "pure_shear_ALE": r.choice([1, 1, -1]), "initial_cooling": r.choice([0, 1]), "cooling_duration": 3e13,
        "subgrid_diffusion": r.choice([0, 1, 2]), "shear_heating": r.choice([0, 1]), "adiab_heating": r.choice([0, 1, 2]),
        "surface_processes": sp, "surf_diff": 5e-6, "surf_ised1": 4, "surf_ised2": 5, "surf_sedirate": 1e-11, "surf_baselev": 0.0, "surf_Winc": 1e4, "surf_Vinc": 1e-10,
        "zero_mean_topo": r.choice([0, 0, 1]),
        "bkg_strain_rate": -ext * 1e-15,
        "gx": 0.0, "gz": -9.81,
        "user0": 0.0, "user1": 6e3, "user2": r.choice([0.0, 500.0]), "user3": 3e3, "user4": -20e3, "user5": 25e3, "user6": 55e3, "user7": 1330.0, "user8": 0.0,
        "Newton": 0, "nit_max": r.choice([1, 3]), "line_search": r.choice([0, 1]), "nonlin_abs_mom": 5e-8, "nonlin_abs_div": 5e-8,
        "min_eta": 1e19, "max_eta": 1e24,
        "melting": melting, "anisotropy": aniso, "finite_strain": 1 if aniso else r.choice([0, 1]),
        "compressible": r.choice([0, 0, 1]),
        "balance_boundaries": 0, "marker_noise": r.choice([0, 1]),
    })
    base = {"G": 1e10, "Cp": 1050.0, "Slim": 500e9, "cstv": 0, "linv": 0, "gbsv": 0, "expv": 0, "alp": 3.2e-5, "bet": 1.5e-11}
    phases = [
        dict(base, rho=2700.0, k=2.0, Qr=1e-6, C=1e7, phi=0.0, pwlv=19),
        dict(base, rho=2800.0, k=2.5, Qr=1e-6, C=1e7, phi=30.0, pwlv=11, melt=r.choice([0, 10, 1]) if melting else 0),
        dict(base, rho=3330.0, k=3.0, Qr=0.0, C=1e7, phi=30.0, pwlv=40, linv=40, expv=r.choice([0, 40])),
        dict(base, rho=3330.0, k=3.0, Qr=0.0, C=1e7, phi=30.0, pwlv=40, linv=40, expv=0, melt=41 if melting else 0),
        dict(base, rho=2300.0, k=2.0, Qr=5e-7, C=1e7, phi=30.0, pwlv=13),
        dict(base, rho=2300.0, k=2.0, Qr=5e-7, C=1e7, phi=30.0, pwlv=13),
    ]
    if r.random() < 0.4:
        phases[1].update({"coh_soft": 1, "Ce": 1e6, "plss": 0.0, "plse": 0.3})
    if r.random() < 0.3:
        phases[2].update({"transmutation": 1, "transmutation_phase": 3, "transmutation_temperature": 1250.0 + 273.15})
    if aniso:
        for ph in phases:
            ph.update({"aniso_factor": 2.0, "aniso_angle": 80.0})
    sc = {"fam": 1, "usedens": 0, "usevel": 1, "usenoise": p["marker_noise"], "crazy": r.choice([0, 1]), "adjust": r.choice([0, 1])}
    return {"par": p, "phases": phases, "sc": sc, "name": "litho"}


def chem(r, **kw):
    """Chemical diffusion / production, reaction softening."""
    c = box(r)
    p = c["par"]
    style = p["shear_style"]
    p.update({"chemical_diffusion": 1, "thermal": 0, "anisotropy": 0, "compressible": r.choice([0, 1]), "density_variations": 0,
              "marker_aniso_angle": 0, "penalty": 1e3, "bkg_pressure": 1.0, "pure_shear_ALE": 0 if style else r.choice([0, 1])})
    for i, ph in enumerate(c["phases"]):
        ph["k_chem"] = [1e-2, 5e-3, 2e-2][i]
        ph["bet"] = 1e-1 if p["compressible"] else 1e-11
        for k in ("aniso_factor", "aniso_angle", "ani_fstrain", "ani_fac_max"):
            ph.pop(k, None)
    c["sc"].update({"usex": 1, "useaniso": 0, "useP": p["compressible"]})
    c["name"] = "chem"
    return c


def spice(r, c):
    """Rarer options, each with a small probability."""
    p, phases, fam = c["par"], c["phases"], c["name"]
    q = lambda x: r.random() < x
    if q(0.10):
        p["conserv_interp"] = 1
    if q(0.15):
        p["direct_neighbour"] = 1
    if q(0.15):
        p["initial_noise"] = 1
    if q(0.10):
        p["let_res_grow"] = 1
    if q(0.10):
        p["smooth_softening"] = 0
    if q(0.10):
        p["residual_form"] = 0
    if q(0.12) and float(p.get("elastic", 0)):
        p.update({"safe_mode": 1, "safe_dt_div": r.choice([2.0, 5.0]), "max_num_stag": r.choice([2, 3]), "nit_max": max(5, int(p.get("nit_max", 5)))})
    if q(0.08):
        p["auto_penalty"] = 1
    if q(0.08):
        p["writer_debug"] = 1
    if q(0.06):
        p["reseed_markers"] = 0
    if float(p.get("thermal", 0)) and q(0.2):
        p.update({"therm_perturb": 1, "therm_perturb_x0": 0.1 * p["xmax"], "therm_perturb_z0": 0.1 * p["zmin"], "therm_perturb_rad_x": 0.2 * p["xmax"], "therm_perturb_rad_z": -0.2 * p["zmin"],
                  "therm_perturb_dT": 20.0})
    for ph in phases:
        if float(ph.get("C", 1e90)) < 1e80 and q(0.2):
            ph["Slim"] = 1.2 * float(ph["C"])
        if float(ph.get("phi", 0)) and float(p.get("compressible", 0)) and q(0.4):
            ph.update({"psi": 5.0})
            if q(0.5):
                ph.update({"psi_soft": 1, "psie": 0.0, "plss": ph.get("plss", 0.0), "plse": ph.get("plse", 0.3)})
    if fam == "box" and len(phases) > 1 and q(0.5 if float(p.get("thermal", 0)) else 0.2):
        a, b = r.sample(range(len(phases)), 2) if q(0.5) else (0, 1)
        phases[a].update({"transmutation": r.choice([-1, 1]), "transmutation_phase": b, "transmutation_temperature": r.choice([283.2, 284.0, 287.0, 291.0])})
    if fam == "box" and float(p.get("compressible", 0)) and not float(p.get("shear_style", 0)) and q(0.3):
        p["bkg_div_rate"] = r.choice([0.1, -0.1])
    return c


def kinematic(r, **kw):
    """mechanical = 0: prescribed velocities, advection and diffusion only."""
    c = box(r)
    c["par"].update({"mechanical": 0, "elastic": 0, "anisotropy": 0, "thermal": r.choice([0, 1]), "compressible": 0, "advection": 1, "marker_aniso_angle": 0, "chemical_diffusion": r.choice([0, 1]),
                     "shear_style": 0, "periodic_x": 0, "constant_dt": 1, "dt": 0.02})
    for ph in c["phases"]:
        ph["k_chem"] = 1e-2
        ph["bet"] = 1e-11
    c["sc"].update({"usevel": 1, "usex": 1, "useaniso": 0, "useP": 0})
    c["name"] = "kinematic"
    return c


SETS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sets.json")))

# set-ups that do not run as shipped at reduced resolution (missing phase-diagram files, non-converging)
NOSETS = 'CollisionIra CollisionZone FaultSmearing PinchSwellGSE PlasticityLayers QuartzCoesite QuartzCoesite_Simple QuartzCoesite_paper RiftingCheninAniso StrainLocalization_SH_GSE SubductionBenchmarkCase2 SubductionMelting TestAnisotropy ThanushikaSubduction ThermalStructureSubduction WedgeAnisotropy'.split()
SETNAMES = sorted(set(SETS) - set(NOSETS))


def fromset(r, name=None, cells=700, nt=None, **kw):
    """One of the repository's own set-ups (SETS/<name>.c callbacks, its parameters) at reduced resolution."""
    name = name or r.choice(SETNAMES)
    src = SETS[name]
    p = dict(src["par"])
    nx, nz = float(p.get("Nx", 10)), float(p.get("Nz", 10))
    f = min(1.0, (cells / (nx * nz)) ** 0.5)
    p.update({"Nx": max(13, int(nx * f) + 1), "Nz": max(13, int(nz * f) + 1), "Nt": nt or r.choice([2, 3]), "istep": 0, "irestart": 0, "writer": 1, "writer_step": 1, "writer_markers": 1,
              "writer_debug": 0, "gnuplot_log_res": 0, "noisy": 1, "writer_subfolder": "./", "delete_breakpoints": 0, "deformation_maps": 0})
    for k in ("save_initial_markers", "load_initial_markers"):
        p.pop(k, None)
    phases = [dict(ph) for ph in src["phases"]]
    for ph in phases:
        if float(ph.get("Slim", 1e100)) <= float(ph.get("C", 1e7)):
            ph["Slim"] = 1e100
    return {"par": p, "phases": phases, "sc": {"set": name}, "name": "set:" + name}


FAMS = {"set": fromset, "box": box, "litho": litho, "chem": chem, "kinematic": kinematic}


def make(seed, fam=None, weights=None):
    r = random.Random("cfg-%s-%s" % (seed, fam))
    if fam is None:
        w = weights or {"box": 5, "litho": 3, "set": 4, "chem": 1, "kinematic": 1}
        fam = r.choices(list(w), list(w.values()))[0]
    c = FAMS[fam](r)
    return c if fam == "set" else spice(random.Random("spice-%s-%s" % (seed, fam)), c)
