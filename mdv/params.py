"""Every parameter of the setup file that a user callback can see, and its unit: the value handed to the model must be the
number of the file divided by the unit. (name in the file, member, unit or special rule)"""

G_INT = """writer writer_step writer_markers writer_debug noisy track_T_P_x_z delete_breakpoints gnuplot_log_res
save_initial_markers load_initial_markers Nx Nz balance_boundaries zero_mean_topo Nt RK constant_dt stress_rotation
mechanical advection elastic thermal anisotropy polar compressible density_variations out_of_plane melting diag_scaling
preconditioner max_its_PH max_its_KSP safe_mode max_num_stag residual_form ani_average eta_average interp_stencil
subgrid_diffusion conserv_interp direct_neighbour initial_noise marker_noise reseed_markers reseed_mode shear_style
pure_shear_ALE free_surface topo_update initial_cooling shear_heating adiab_heating surface_processes marker_aniso_angle layering
chemical_diffusion chemical_production smooth_softening fix_temperature surf_ised1 surf_ised2 preload therm_perturb
force_act_vol_ast force_melt_weak diffuse_X diffuse_avg deformation_maps nT nE nd finite_strain line_search Newton istep irestart""".split()
G_DOU = {"xmin": "L", "xmax": "L", "zmin": "L", "zmax": "L", "dt": "t", "Courant": "", "dt_max": "t", "dt_min": "t", "dt_reduction_factor": "", "penalty": "", "auto_penalty": "",
         "lin_abs_div": "", "lin_rel_div": "", "lin_abs_mom": "", "lin_rel_mom": "", "rel_tol_KSP": "", "min_eta": "eta", "max_eta": "eta", "eta_tol": "", "safe_dt_div": "",
         "line_search_min": "", "free_surface_stab": "", "cooling_duration": "t", "bkg_strain_rate": "E", "bkg_div_rate": "E", "bkg_pressure": "S", "bkg_temperature": "T",
         "surf_diff": "L2/t", "surf_sedirate": "V", "surf_baselev": "L", "surf_Winc": "L", "surf_Vinc": "V", "preload_sxxd": "S", "preload_szzd": "S", "preload_sxz": "S",
         "therm_perturb_x0": "L", "therm_perturb_z0": "L", "therm_perturb_rad_x": "L", "therm_perturb_rad_z": "L", "therm_perturb_dT": "T", "act_vol_dis_ast": "", "act_vol_dif_ast": "",
         "melt_weak": "", "diffusion_length": "L", "gx": "a", "gz": "a", "Tmin": "T+0", "Tmax": "T+0", "Emin": "", "Emax": "", "dmin": "", "dmax": "", "Pn": "S"}
G_DOU.update({"user%d" % i: "" for i in range(10)})
# read, but fixed afterwards by other switches
DERIVED = {"finite_strain": "anisotropy", "line_search": "Newton"}
M_INT = "melt plast yield coh_soft phi_soft psi_soft cstv reac_soft reac_phase density_model phase_diagram phase_mix ani_fstrain transmutation transmutation_phase".split()
M_DOU = {"rho": "rho", "G": "S", "Cp": "Cp", "k": "k", "Qr": "W/L3", "alp": "1/T", "bet": "1/S", "drho": "rho", "sig_tens": "S", "sig1": "S", "dsig1": "S", "C": "S", "phi": "deg", "psi": "deg",
         "Slim": "S", "n_vp": "", "eta_vp": "vp", "Ce": "S", "phie": "deg", "psie": "deg", "plss": "", "plse": "", "eps0": "E", "tau0": "S", "eta0": "eta", "npwl": "", "Qpwl": "",
         "pref_pwl": "", "gs_ref": "L", "Pr": "S", "dPr": "S", "tau_kin": "t", "k_chem": "L2/t", "aniso_angle": "deg", "aniso_factor": "", "ani_fac_max": "",
         "axx": "", "azz": "", "ayy": "", "transmutation_temperature": "T"}
M_MEMBER = {"Ce": "C_end", "phie": "phi_end", "psie": "psi_end", "plss": "pls_start", "plse": "pls_end"}
# phase parameters whose default is another parameter of the same phase
M_FALLBACK = {"Ce": "C", "phie": "phi", "psie": "psi", "eta_vp": "n_vp"}
SCALE = ["eta", "L", "V", "T", "t", "a", "E", "S", "m", "rho", "F", "J", "W", "Cp", "k"]


def scales(eta, L, V, T):
    """the units that follow from the four of the setup file"""
    t = L / V
    s = {"eta": eta, "L": L, "V": V, "T": T, "t": t, "a": V / t, "E": 1 / t, "S": eta / t}
    s["m"] = s["S"] * L * t * t
    s["rho"] = s["m"] / L ** 3
    s["F"] = s["m"] * L / t ** 2
    s["J"] = s["m"] * L * L / t ** 2
    s["W"] = s["J"] / t
    s["Cp"] = s["J"] / s["m"] / T
    s["k"] = s["W"] / L / T
    return s


def expected(v, unit, s, n_vp=1.0):
    if unit == "":
        return v
    if unit == "deg":
        return v * 3.14159265358979323846 / 180.0
    if unit == "L2/t":
        return v / (s["L"] ** 2 / s["t"])
    if unit == "W/L3":
        return v / (s["W"] / s["L"] ** 3)
    if unit == "1/T":
        return v * s["T"]
    if unit == "1/S":
        return v * s["S"]
    if unit == "T+0":
        return (v + 273.15) / s["T"]
    if unit == "vp":
        return v / s["S"] / s["t"] ** (1.0 / n_vp)
    return v / s[unit]
