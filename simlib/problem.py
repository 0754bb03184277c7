"""Random problems (configuration, process layout, schedule) for the simulated runs."""
import copy
from .core import Cfg

LIMITERS = ["VanLeer", "Minmod", "VanAlbada", "Constant"]
SOLVERS = ["HLL", "HLLC", "Low Mach"]
KEPT_KNOBS = ("p_switch_kernel", "p_switch_seam", "p_korder", "p_defer", "max_latency", "reorder", "rendezvous", "starve", "race", "unified")


def ini_text(ini):
    out = []
    for sec, kv in ini.items():
        out.append("[%s]" % sec)
        for k, v in kv.items():
            if isinstance(v, bool):
                v = "true" if v else "false"
            elif isinstance(v, float):
                v = repr(v)
            out.append("%s = %s" % (k, v))
        out.append("")
    return "\n".join(out)


def knobs(rng, race=None):
    """Schedule knobs of one run (swarm style: some runs leave a knob at zero)."""
    k = {
        "seed": rng.randrange(1 << 48),
        "p_switch_kernel": rng.choice([0, 0.05, 0.3, 0.8]),
        "p_switch_seam": rng.choice([0, 0.1, 0.5]),
        "p_korder": rng.choice([0, 0.5, 1]),
        "p_defer": rng.choice([0, 0.5, 1]),
        "max_latency": rng.choice([0, 2, 8, 40]),
        "reorder": rng.choice([0, 1]),
        "rendezvous": rng.choice([0, 1]),
        "starve": rng.choice([-1, -1, 0, 1]),
    }
    if race is None:
        race = rng.random() < 0.15
    k["race"] = int(race)
    return k


NATURAL = {"seed": 1, "p_switch_kernel": 0, "p_switch_seam": 0, "p_korder": 0, "p_defer": 0, "max_latency": 0, "reorder": 0, "rendezvous": 0, "starve": -1, "race": 0}


def splits(n, p):
    """sizes of the p pieces of n cells, as MPI codes usually cut them: at least floor(n/p)"""
    return n // p


def layouts(rng, nx, ndim, ng, maxranks, fixed=(0, 0, 0)):
    """a process grid with at least ng cells per process in every direction; returns dims"""
    for _ in range(60):
        d = []
        for i in range(3):
            if i >= ndim:
                d.append(1)
            elif fixed[i]:
                d.append(fixed[i])
            else:
                d.append(rng.choice([1, 1, 2, 2, 3, 4]))
        if d[0] * d[1] * d[2] <= maxranks and all(nx[i] // d[i] >= ng for i in range(ndim)):
            return d
    return [1, 1, 1]


def gen(rng, cfg, maxranks=6, steps=None, grid="any", bc="any", nfx=None, shift=False, hydro=True, small=False, source=True, scale=0.0):
    """Returns the parameters of a random problem for the compile-time configuration cfg."""
    c = Cfg.parse(cfg)
    nd = c.ndim
    sph = c.geom == "Spherical"
    rad = c.eos != "PerfectGas"
    lo, hi = {1: (8, 40), 2: (6, 14), 3: (4, 8)}[nd]
    if small:
        hi = (lo + hi) // 2
    ng = rng.choice([2, 2, 2, 3]) if nd < 3 else 2
    nx = [rng.randint(max(lo, ng), hi) if d < nd else 1 for d in range(3)]
    fixed = [1 if c.grav == "Internal_mass" else 0, 0, 0]
    dims = layouts(rng, nx, nd, ng, maxranks, fixed)
    ranks = dims[0] * dims[1] * dims[2]
    rho0 = rng.choice([1.0, 0.1, 30.0])
    if rad:
        # temperatures well above the absolute tolerance of the temperature solver
        rho0 = 10.0 ** rng.uniform(-8, 1)
        T0 = 10.0 ** rng.uniform(2.5, 6.5)
        P0 = rho0 * 1.380649e-23 * T0 / 1.672649e-27 + 7.565733e-16 * T0 ** 4 / 3
        rho0, P0 = float("%.6g" % rho0), float("%.6g" % P0)
    else:
        P0 = rng.choice([1.0, 0.2, 50.0])
    gamma = rng.choice([5. / 3, 1.4, 1.2]) if not rad else 5. / 3
    cs = (gamma * P0 / rho0) ** 0.5
    mach = rng.choice([0.0, 0.05, 0.3, 0.8])
    u = {
        "fseed": rng.randrange(1 << 30),
        "init": rng.choice([0, 1, 1, 2, 3]),
        "rho0": rho0,
        "P0": P0,
        "u0": float("%.6g" % (cs * mach * rng.choice([-1, 1]))),
        "amp": rng.choice([0.05, 0.2, 0.3]),
        "uamp": float("%.6g" % (cs * rng.choice([0.02, 0.1, 0.3]))),
        "bcmode": rng.choice([0, 1]),
    }
    L = rng.choice([1.0, 1.0, 100.0])
    ini = {"Problem": {"type": "sim"}, "Grid": {}, "Parallelization": {}, "Run": {}, "Output": {}, "Hydro": {}, "Gravity": {}, "Perfect Gas": {}, "Boundary Condition": {}, "Passive Scalar": {}, "User step": {}, "Pressure fix": {}}
    G = ini["Grid"]
    for d in range(3):
        G["Nx%d_glob" % d] = nx[d]
    G["Nghost"] = ng
    if sph:
        ext = [(1.0 * L, 2.0 * L), (1.0, 2.2), (0.0, 1.5)]  # the ghost cells stay clear of the axis
    else:
        x0 = rng.choice([0.0, 0.0, -0.5, 3.0])
        if c.grav != "Uniform":
            x0 = 1.0
        ext = [(x0 * L, (x0 + 1) * L), (0.0, L), (-L, 0.5 * L)]
    for d in range(3):
        G["x%dmin" % d], G["x%dmax" % d] = ext[d]
    if grid == "any":
        grid = rng.choice(["Regular", "UserDefined"])
    G["type"] = grid
    u["stretch"] = rng.choice([0.2, 0.5]) if grid == "UserDefined" else 0.0
    auto = c.grav != "Internal_mass" and all(nx[d] // ranks >= ng for d in range(nd)) and rng.random() < 0.5
    for d in range(3):
        if not auto:
            ini["Parallelization"]["mpi_dims_cart_x%d" % d] = dims[d]
    if rng.random() < 0.4:
        ini["Parallelization"]["mpi_device_aware"] = True
    ini["Run"]["cfl"] = rng.choice([0.4, 0.3, 0.2])
    ini["Run"]["t_ini"] = 0.0
    ini["Run"]["t_end"] = 1e30
    steps = steps or rng.randint(1, 4)
    ini["Output"].update({"max_iter": steps, "iter_frequency": 1, "directory": "/sim/out", "prefix": "r"})
    H = ini["Hydro"]
    H["reconstruction"] = rng.choice(LIMITERS)
    H["riemann_solver"] = rng.choice(SOLVERS)
    dxmin = (ext[0][1] - ext[0][0]) / nx[0]
    if c.grav == "Uniform":
        if rng.random() < 0.5 and source:
            for d in range(nd):
                ini["Gravity"]["gx%d" % d] = float("%.5g" % (rng.uniform(-1, 1) * 0.1 * cs * cs / (ext[0][1] - ext[0][0])))
    else:
        # central mass such that the free-fall speed over the domain is a fraction of the sound speed
        ini["Gravity"]["M"] = float("%.5g" % (0.2 * cs * cs * ext[0][0] / 6.6743015e-11 if ext[0][0] > 0 else 1.0))
    ini["Perfect Gas"]["gamma"] = gamma
    if rng.random() < 0.3:
        ini["Perfect Gas"]["mu"] = 0.6
    ini["Passive Scalar"]["nfx"] = rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, rng.choice([5, 7, 10])]) if nfx is None else nfx
    if source and rng.random() < 0.5:
        ini["User step"]["user_step"] = "UserDefined"
        if rng.random() < 0.6:
            dt = dxmin / cs
            u["heat"] = float("%.5g" % (0.05 * P0 / rho0 / dt))
            u["decay"] = float("%.5g" % (0.05 / dt))
    if rng.random() < 0.3 and source:
        ini["Pressure fix"]["pressure_fix"] = "On"
        if rng.random() < 0.7:
            ini["Pressure fix"]["eps_pf"] = rng.choice([1e-2, 10.0, 1e3])
    B = ini["Boundary Condition"]
    faces = ["X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"][:2 * nd]
    names = []
    for d in range(nd):
        if bc == "periodic" or (bc == "any" and rng.random() < 0.35 and not (sph and d < 2)):
            names += ["Periodic", "Periodic"]
        elif bc == "reflexive":
            names += ["Reflexive", "Reflexive"]
        else:
            names += [rng.choice(["NullGradient", "Reflexive", "UserDefined"]) for _ in range(2)]
    if len(set(names)) == 1 and rng.random() < 0.5:
        B["BC"] = names[0]
    else:
        for d in range(nd):
            if names[2 * d] == names[2 * d + 1] and rng.random() < 0.5:
                B["BC_X%d" % d] = names[2 * d]
            else:
                for s in range(2):
                    B["BC_X%d_%s" % (d, ("left", "right")[s])] = names[2 * d + s]
    if nd > 1 and rng.random() < 0.4:
        pr = list(faces)
        rng.shuffle(pr)
        B["priority"] = " ".join(pr)
    if shift:
        G["shift_grid"] = "UserDefined"
        u["shift_every"] = rng.choice([1, 2, 3])
    if scale and not rad and rng.random() < scale:
        # the same problem in other units of velocity: shows constants that are not relative to the solution
        units(ini, u, 2.0 ** rng.choice([-24, -12, 10, 16]))
    return {"cfg": cfg, "ini": ini, "u": u, "ranks": ranks, "dims": dims, "knobs": knobs(rng)}


def units(ini, u, v):
    """multiplies every velocity by v"""
    for k, n in (("P0", 2), ("u0", 1), ("uamp", 1), ("heat", 3), ("decay", 1)):
        if k in u:
            u[k] *= v ** n
    G = ini["Gravity"]
    for k in ("gx0", "gx1", "gx2", "M"):
        if k in G:
            G[k] *= v * v


def scn(p, **over):
    """The scenario of a problem; keyword arguments override or add scenario keys."""
    s = {"seed": 1, "nranks": p["ranks"], "args": "heracles\x1f/sim/x.ini", "file:/sim/x.ini": ini_text(p["ini"])}
    s.update(p["knobs"])
    s["device_aware"] = int(bool(p["ini"].get("Parallelization", {}).get("mpi_device_aware", False)))
    for k, v in p["u"].items():
        s["u." + k] = v
    if p.get("star"):
        from . import shipped
        s["p0.h5:/sim/star.h5"] = shipped.star(p["star"])
    s.update(over)
    return s


def variant(p, **kw):
    """A deep copy with ranks/dims/knobs/ini changes."""
    q = copy.deepcopy(p)
    for k, v in kw.items():
        if k == "ini":
            for sec, kv in v.items():
                q["ini"].setdefault(sec, {}).update(kv)
                for kk in [x for x, y in kv.items() if y is None]:
                    q["ini"][sec].pop(kk, None)
        elif k == "dims":
            q["dims"] = list(v)
            q["ranks"] = v[0] * v[1] * v[2]
            for d in range(3):
                q["ini"].setdefault("Parallelization", {})["mpi_dims_cart_x%d" % d] = v[d]
        else:
            q[k] = v
    return q


def serial(p):
    """The same problem on one process under the natural schedule."""
    return variant(p, dims=[1, 1, 1], knobs=dict(NATURAL))


def shrink(p):
    """Simpler variants of a problem, most drastic first."""
    q = variant(p, knobs=dict(NATURAL))
    if q["knobs"] != p["knobs"]:
        yield q
    for k in p["knobs"]:
        if k != "seed" and p["knobs"][k] != NATURAL[k]:
            yield variant(p, knobs=dict(p["knobs"], **{k: NATURAL[k]}))
    if p["ranks"] > 1:
        yield variant(p, dims=[1, 1, 1])
        for d in range(3):
            if p["dims"][d] > 1:
                for m in {1, p["dims"][d] - 1}:
                    nd = list(p["dims"])
                    nd[d] = m
                    yield variant(p, dims=nd)
    it = p["ini"]["Output"].get("max_iter")
    if isinstance(it, int) and it > 1:
        for m in (1, it // 2, it - 1):
            if 1 <= m < it:
                yield variant(p, ini={"Output": {"max_iter": m}})
    for sec, key, val in (("Pressure fix", "pressure_fix", None), ("User step", "user_step", None), ("Hydro", "reconstruction", "Constant"), ("Hydro", "riemann_solver", "HLL"), ("Boundary Condition", "priority", None), ("Grid", "type", "Regular"), ("Parallelization", "mpi_device_aware", None), ("Gravity", "gx0", None), ("Gravity", "gx1", None), ("Gravity", "gx2", None), ("Grid", "shift_grid", None)):
        if key in p["ini"].get(sec, {}) and p["ini"][sec][key] != val:
            yield variant(p, ini={sec: {key: val}})
    n = p["ini"].get("Passive Scalar", {}).get("nfx", 0)
    if isinstance(n, int) and n > 0:
        for m in {0, n - 1}:
            yield variant(p, ini={"Passive Scalar": {"nfx": m}})
    for d in range(3):
        k = "Nx%d_glob" % d
        n = p["ini"]["Grid"].get(k)
        ng = int(p["ini"]["Grid"].get("Nghost", 2))
        if isinstance(n, int) and n > 1:
            for m in (max(ng * p["dims"][d], n // 2), n - 1):
                if ng * p["dims"][d] <= m < n:
                    yield variant(p, ini={"Grid": {k: m}})
    for k, z in (("init", 3), ("heat", 0), ("decay", 0), ("stretch", 0.0), ("bcmode", 0)):
        if k in p["u"] and p["u"][k] != z:
            yield variant(p, u=dict(p["u"], **{k: z}))
