"""The problem setups shipped with the code, reduced in size."""
import os, re
import numpy as np
from . import core, problem

# setup, configuration, input file, (n0, n1, n2)
TABLE = [
    ("advection_gap", "1d-pg-cart-Uniform", "advection_gap.ini", (24, 1, 1)),
    ("advection_sinus", "1d-pg-cart-Uniform", "advection_sinus.ini", (25, 1, 1)),
    ("eq_hydro_sphe", "1d-pg-sphe-Point_mass", "eq_hydro_sphe.ini", (200, 1, 1)),
    ("gresho_vortex", "2d-pg-cart-Uniform", "gresho_vortex.ini", (12, 13, 1)),
    ("heat_nickel", "1d-rad-cart-Uniform", "heat_nickel.ini", (10, 1, 1)),
    ("implosion_test", "2d-pg-cart-Uniform", "implosion_test.ini", (12, 11, 1)),
    ("kelvin_helmholtz", "2d-pg-cart-Uniform", "kelvin_helmholtz.ini", (14, 12, 1)),
    ("rayleigh_taylor", "2d-pg-cart-Uniform", "rayleigh_taylor.ini", (10, 14, 1)),
    ("rayleigh_taylor3d", "3d-pg-cart-Uniform", "rayleigh_taylor3d.ini", (6, 7, 8)),
    ("sedov1d", "1d-pg-cart-Uniform", "sedov1d.ini", (30, 1, 1)),
    ("sedov1d", "1d-pg-sphe-Uniform", "sedov1d.ini", (30, 1, 1)),
    ("sedov2d", "2d-pg-cart-Uniform", "sedov2d.ini", (12, 12, 1)),
    ("sedov3d", "3d-pg-sphe-Uniform", "sedov3d_sph.ini", (6, 6, 8)),
    ("shock_tube", "1d-pg-cart-Uniform", "shock_tube.ini", (30, 1, 1)),
    ("shock_tube", "1d-pg-sphe-Uniform", "shock_tube1d_sph.ini", (30, 1, 1)),
    ("shock_tube", "3d-pg-sphe-Uniform", "shock_tube3d_sph.ini", (8, 5, 6)),
    ("shock_wall", "1d-pg-cart-Uniform", "shock_wall_pg.ini", (30, 1, 1)),
    ("shock_wall", "1d-rad-cart-Uniform", "shock_wall_rad.ini", (30, 1, 1)),
    ("stratified_atm", "1d-pg-cart-Uniform", "stratified_atm.ini", (40, 1, 1)),
    ("v1d", "1d-pg-sphe-Point_mass", "v1d_1d.ini", (36, 1, 1)),
    ("v1d", "3d-pg-sphe-Internal_mass", "v1d_3d.ini", (8, 5, 6)),
]


def read_ini(path):
    ini, sec = {}, None
    for l in open(path):
        l = re.sub(r"\s[;#].*$", "", l.strip())
        if not l or l[0] in ";#":
            continue
        m = re.match(r"\[(.*)\]$", l)
        if m:
            sec = ini.setdefault(m.group(1), {})
        elif "=" in l and sec is not None:
            k, v = l.split("=", 1)
            sec[k.strip()] = v.strip()
    return ini


def gen(rng, entry=None, steps=None, maxranks=6, exact=False):
    """parameters of a shipped problem; None when its input is not there"""
    name, cfg, f, n = entry or rng.choice(TABLE)
    path = os.path.join(core.REPO, "inputs", f)
    if not os.path.exists(path) or not os.path.isdir(os.path.join(core.REPO, "src/setups", name)):
        return None
    ini = read_ini(path)
    nd = int(cfg[0])
    nx = [n[d] + (rng.choice([0, 0, 1, 3]) if d < nd and not exact else 0) for d in range(3)]
    for d in range(3):
        ini["Grid"]["Nx%d_glob" % d] = nx[d]
    ini["Output"].update({"max_iter": steps or rng.randint(1, 4), "iter_frequency": 1, "directory": "/sim/out", "prefix": "r"})
    ini["Output"].pop("time_frequency", None)
    if rng.random() < 0.4:
        ini["Hydro"]["riemann_solver"] = rng.choice(problem.SOLVERS)
        ini["Hydro"]["reconstruction"] = rng.choice(problem.LIMITERS)
    v1d = name == "v1d"
    dims = problem.layouts(rng, nx, nd, 2, maxranks, [1 if v1d and "Internal_mass" in cfg else 0, 0, 0])
    if v1d:
        v0 = rng.choice([0.0, 1e6, 3e6])
        # the profile of the star is read from a file made below
        ini.setdefault("Problem", {}).update({"init_file": "/sim/star.h5", "vmax_shift": v0 * rng.choice([0.5, 0.9, 1.5]) if v0 else 1e300, "cell_shift": rng.choice([1, 2, nx[0] // dims[0]])})
        ini["Grid"]["shift_grid"] = rng.choice(["UserDefined", "UserDefined", "Off"])
        ini["Passive Scalar"] = {"nfx": rng.choice([1, 2, 5])}
        ini.setdefault("Boundary Condition", {}).update({"BC_X0_left": "Reflexive", "BC_X0_right": "NullGradient"})
        v1d = {"seed": rng.randrange(1 << 30), "v0": v0, "n": nx[0], "nfx": ini["Passive Scalar"]["nfx"]}
    ini["Parallelization"] = {"mpi_dims_cart_x%d" % d: dims[d] for d in range(3)}
    return {"cfg": cfg + "-" + name, "ini": ini, "u": {}, "star": v1d or None, "ranks": dims[0] * dims[1] * dims[2], "dims": dims, "knobs": problem.knobs(rng)}


def profile(v):
    """the radial profile of an expanding star"""
    g = np.random.default_rng(v["seed"])
    n = v["n"]
    ng = v.get("ng", 2)
    x0 = 3e8 * np.exp(np.linspace(0, 3.0, n + 1))
    w = np.concatenate([x0[0] - (x0[1] - x0[0]) * np.arange(ng, 0, -1) * 0.9, x0, x0[-1] + (x0[-1] - x0[-2]) * np.arange(1, ng + 1)])
    c = 0.5 * (x0[1:] + x0[:-1])
    rho = 1e3 * (c / c[0]) ** -2 * (1 + 0.2 * g.random(n))
    P = rho * 8254.0 * 1e7 / (c / c[0]) * (1 + 0.2 * g.random(n))
    u = v["v0"] * c / c[-1] * (1 + 0.05 * g.random(n))
    return {"x0": w, "rho_1d": rho, "u_1d": u, "P_1d": P, "fx_1d": g.random((v["nfx"], n))}


def star(v):
    """the file with the profile, as the setup v1d reads it"""
    out = ""
    for name, a in profile(v).items():
        out += "%s double %s %s\n" % (name, ",".join(str(e) for e in a.shape), np.ascontiguousarray(a, dtype="<f8").tobytes().hex())
    return out
