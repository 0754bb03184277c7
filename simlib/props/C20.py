"""C20: the same physical problem posed in another, equivalent way gives the same results."""
import copy
import math
from types import SimpleNamespace
import numpy as np
from .. import problem
from ..core import Cfg
from ..driver import Violation, Trivial
from ..outputs import outputs, compare1, completed, scalar

ID = "C20"
LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 90000}
QUICK = ["1d-pg-cart-Uniform-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim", "3d-pg-sphe-Internal_mass-sim", "2d-rad-sphe-Point_mass-sim", "2d-pg-cart-Point_mass-sim"]
MORE = ["2d-rad-cart-Uniform-sim", "3d-rad-cart-Uniform-sim", "2d-pg-sphe-Point_mass-sim", "1d-pg-sphe-Point_mass-sim", "3d-pg-sphe-Point_mass-sim", "2d-rad-sphe-Internal_mass-sim"]
MUST = ["mirrored", "axes exchanged", "displaced", "direction added", "other units", "other ghost width", "more scalars", "scalars renumbered", "complements of scalars", "pressure fix active", "shear flow", "stretched grid", "solver HLL", "solver HLLC", "solver Low Mach", "limiter VanLeer", "limiter Minmod", "limiter VanAlbada", "user boundary", "walls", "open boundary", "several processes", "gravity", "3 dimensions", "spherical"]
ASSUMPTIONS = ["the axis of the spherical coordinates and the centre are not part of the domain"]
PI = math.pi


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return sorted({p["cfg"], p["other"]["cfg"]})


def faces(ini, nd):
    B = ini["Boundary Condition"]
    out = []
    for d in range(nd):
        for s in ("left", "right"):
            out.append(B.get("BC_X%d_%s" % (d, s), B.get("BC_X%d" % d, B.get("BC"))))
    return out


NAMES = ["X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    c = Cfg.parse(cfg)
    nd = c.ndim
    sph, rad = c.geom == "Spherical", c.eos != "PerfectGas"
    p = problem.gen(rng, cfg, maxranks=6, steps=rng.randint(1, 3), small=rng.random() < 0.5)
    if rng.random() < 0.4 and not p["ini"]["Pressure fix"]:
        p["ini"]["Pressure fix"].update({"pressure_fix": "On", "eps_pf": rng.choice([10.0, 1e3])})
    if rng.random() < 0.4:
        p["u"]["fxamp"] = 0.7  # pure cells
    G, H, u = p["ini"]["Grid"], p["ini"]["Hydro"], p["u"]
    ng = G["Nghost"]
    fc = faces(p["ini"], nd)
    prio = p["ini"]["Boundary Condition"].get("priority", "").split() or [NAMES[f] for f in range(2 * nd)][::-1]
    # what may be done
    can = []
    can += ["flip"] * 3 if not sph or nd > 1 else []
    if not sph and nd > 1 and c.grav == "Uniform":
        can += ["perm"] * 3
    if not sph and c.grav != "Uniform":
        can = ["flip"] * 3 if nd > 1 else []
    per = [d for d in range(nd) if fc[2 * d] == "Periodic" and G["type"] == "Regular" and not (sph and d < 2) and not (c.grav != "Uniform" and d == 0)]
    if per:
        can += ["off"] * 2
    more = [x for x in cfgs if Cfg.parse(x).ndim > nd and x[2:] == cfg[2:]]
    if more:
        can += ["flat"] * 3
    if not rad:
        can += ["units"] * 2
    nfx = p["ini"]["Passive Scalar"]["nfx"]
    can += ["ghost", "scalars"] + (["names"] * 2 if nfx else [])
    ops = set(rng.choice(can) for _ in range(rng.choice([1, 1, 2, 3])))
    o = {"cfg": cfg, "perm": [0, 1, 2], "flip": [0, 0, 0], "flat": [0, 0, 0], "off": [0, 0, 0], "wrap": [0, 0, 0], "v": 1.0, "l": 1.0, "r": 1.0, "ng": ng, "nfx": nfx, "fxrot": 0, "fxinv": 0}
    if "names" in ops:
        o["fxrot"] = rng.randrange(nfx)
        o["fxinv"] = rng.randrange(1 << nfx)
    na = nd
    if "flat" in ops:
        o["cfg"] = rng.choice(more)
        na = Cfg.parse(o["cfg"]).ndim
    if ("perm" in ops or "flat" in ops) and not sph and c.grav == "Uniform":
        q = list(range(na))
        rng.shuffle(q)
        o["perm"] = q + list(range(na, 3))
    for a in range(na):
        o["flat"][a] = int(o["perm"][a] >= nd)
    if "flip" in ops:
        for a in range(na):
            ok = not o["flat"][a] and not (a == 0 and (sph or c.grav != "Uniform"))
            o["flip"][a] = int(ok and rng.random() < 0.6)
    if "off" in ops:
        for d in per:
            o["wrap"][d] = 1
            o["off"][d] = rng.randrange(G["Nx%d_glob" % d])
    if "units" in ops:
        o["v"] = 2.0 ** rng.choice([-10, -3, 0, 1, 7])
        o["l"] = 2.0 ** rng.choice([-8, 0, 3, 12, 40])
        o["r"] = 2.0 ** rng.choice([-70, -20, -5, 0, 4, 30]) if c.grav != "Internal_mass" else (o["v"] / o["l"]) ** 2
    if "ghost" in ops:
        o["ng"] = rng.choice([x for x in (2, 3, 4) if x != ng])
    if "scalars" in ops:
        o["nfx"] = min(10, o["nfx"] + rng.choice([1, 2, 4]))
    # sizes along the added directions and the process grid
    o["nx"] = [1, 1, 1]
    for a in range(na):
        o["nx"][a] = rng.randint(o["ng"], o["ng"] + 3) if o["flat"][a] else G["Nx%d_glob" % o["perm"][a]]
        o["nx"][a] = max(o["nx"][a], 1)
    if any(o["nx"][a] < o["ng"] for a in range(na)):
        o["ng"] = ng
    fixed = [1 if c.grav == "Internal_mass" else 0, 0, 0]
    o["dims"] = problem.layouts(rng, o["nx"], na, o["ng"], 8, fixed)
    o["knobs"] = problem.knobs(rng)
    o["bcflat"] = "Periodic" if not sph or rng.random() < 0.3 else rng.choice(["Reflexive", "NullGradient"])
    if not sph and rng.random() < 0.5:
        o["bcflat"] = rng.choice(["Reflexive", "NullGradient"])
    o["same_dt"] = int(na != nd or o["ng"] != ng)
    p["ini"]["Boundary Condition"] = dict({"BC_X%d_%s" % (f // 2, ("left", "right")[f % 2]): fc[f] for f in range(2 * nd)}, priority=" ".join(prio))
    p["other"] = o
    return p


def transformed(p):
    """the problem of the other frame"""
    o = p["other"]
    ca = Cfg.parse(o["cfg"])
    cc = Cfg.parse(p["cfg"])
    na, nd = ca.ndim, cc.ndim
    sph = ca.geom == "Spherical"
    q = copy.deepcopy(p)
    q["cfg"], q["dims"], q["ranks"], q["knobs"] = o["cfg"], o["dims"], o["dims"][0] * o["dims"][1] * o["dims"][2], o["knobs"]
    I, u = q["ini"], q["u"]
    G, K = I["Grid"], p["ini"]["Grid"]
    G["Nghost"] = o["ng"]
    v, l, r = o["v"], o["l"], o["r"]
    I["Passive Scalar"]["nfx"] = o["nfx"]
    for k, f in (("rho0", r), ("P0", r * v * v), ("u0", v), ("uamp", v), ("heat", v ** 3 / l), ("decay", v / l)):
        if k in u:
            u[k] *= f
    for k in ("gx0", "gx1", "gx2"):
        I["Gravity"].pop(k, None)
    for a in range(3):
        d = o["perm"][a]
        G["Nx%d_glob" % a] = o["nx"][a]
        lo, hi = K["x%dmin" % d], K["x%dmax" % d]
        if a < na and o["flat"][a]:
            lo, hi = (0.3 * (a - 1), 0.3 * (a - 1) + 0.7) if not sph else ((1.1, 1.6) if a == 1 else (0.2, 1.0))
        elif o["flip"][a]:
            lo, hi = (PI - hi, PI - lo) if sph and a == 1 else (-hi, -lo)
        if not sph or a == 0:
            lo, hi = lo * l, hi * l
        G["x%dmin" % a], G["x%dmax" % a] = lo, hi
        if ("gx%d" % d) in p["ini"]["Gravity"] and a < na and not o["flat"][a]:
            I["Gravity"]["gx%d" % a] = p["ini"]["Gravity"]["gx%d" % d] * (-1 if o["flip"][a] else 1) * v * v / l
        I["Parallelization"]["mpi_dims_cart_x%d" % a] = o["dims"][a]
        for k in ("perm", "flip", "flat", "off", "wrap"):
            u[k + str(a)] = o[k][a]
    if "M" in I["Gravity"]:
        I["Gravity"]["M"] *= v * v * l
    u["fxbase"], u["fxrot"], u["fxinv"] = p["ini"]["Passive Scalar"]["nfx"], o["fxrot"], o["fxinv"]
    fc = faces(p["ini"], nd)
    prio = [NAMES.index(x) for x in p["ini"]["Boundary Condition"]["priority"].split()]
    B = {}
    where = {}
    for a in range(na):
        for s in range(2):
            d = o["perm"][a]
            if o["flat"][a]:
                B["BC_X%d_%s" % (a, ("left", "right")[s])] = o["bcflat"]
            else:
                f = 2 * d + (s ^ o["flip"][a])
                where[f] = 2 * a + s
                B["BC_X%d_%s" % (a, ("left", "right")[s])] = fc[f]
    order = [where[f] for f in prio] + [2 * a + s for a in range(na) if o["flat"][a] for s in range(2)]
    B["priority"] = " ".join(NAMES[f] for f in order)
    I["Boundary Condition"] = B
    if "time_frequency" in I["Output"]:
        I["Output"]["time_frequency"] *= l / v
    return q


def canonical(p):
    q = copy.deepcopy(p)
    for d in range(3):
        q["u"]["wrap%d" % d] = p["other"]["wrap"][d]
    return q


def mapped(h, p, own):
    """what the output of the first frame is in the other one"""
    o = p["other"]
    na, nd = Cfg.parse(o["cfg"]).ndim, Cfg.parse(p["cfg"]).ndim
    sph = p["cfg"][0] and Cfg.parse(p["cfg"]).geom == "Spherical"
    v, l, r = o["v"], o["l"], o["r"]

    def field(x):
        x = np.asarray(x, float).transpose(2, 1, 0)
        for d in range(3):  # displacement
            if o["off"][d]:
                x = np.roll(x, -o["off"][d], axis=d)
        x = x.transpose(o["perm"])
        for a in range(3):
            if o["flip"][a]:
                x = np.flip(x, a)
        x = np.broadcast_to(x, o["nx"])
        return x.transpose(2, 1, 0)

    f = {"rho": r, "P": r * v * v, "E": r * v * v, "T": v * v}
    e = {}
    for n in h.d:
        if n in f:
            e[n] = field(h.d[n]) * f[n]
        elif n.startswith("fx"):
            k = int(n[2:])
            m = "fx%d" % ((k - o["fxrot"]) % p["ini"]["Passive Scalar"]["nfx"])
            e[m] = 1 - field(h.d[n]) if o["fxinv"] >> k & 1 else field(h.d[n])
        elif n in ("iter", "output_id", "iter_output_id", "gamma", "time_output_id"):
            e[n] = h.d[n]
        elif n == "current_time":
            e[n] = np.asarray(h.d[n]) * l / v
    for a in range(3):
        d = o["perm"][a]
        if a < na:
            n = "ux%d" % a
            e[n] = np.zeros(tuple(o["nx"][::-1])) if o["flat"][a] else field(h.d["ux%d" % d]) * (v * (-1 if o["flip"][a] else 1))
        x = np.asarray(h.d["x%d_ng" % d], float)
        if a < na and o["flat"][a]:
            continue
        if o["flip"][a]:
            x = (PI if sph and a == 1 else 0.0) - x[::-1]
        e["x%d_ng" % a] = x * (l if not sph or a == 0 else 1)
    return SimpleNamespace(d=e)


def check(p, ctx):
    o = p["other"]
    q0 = canonical(p)
    if o["same_dt"]:
        # a direction more or wider ghost layers change the step: both follow a common schedule
        dts = []
        for q, name in ((q0, "probe"), (transformed(q0), "probe2")):
            ph = ctx.run1(name, problem.scn(problem.variant(q, ini={"Output": {"max_iter": 1, "iter_frequency": 1}})), q["cfg"])
            completed(ph, "failed", "first step")
            out = outputs(ph)
            dts.append(float(scalar(out[max(out)], "current_time")))
        q0["ini"]["Output"].pop("iter_frequency", None)
        q0["ini"]["Output"]["time_frequency"] = float("%.6g" % (0.3 * min(dts[0], dts[1] * o["v"] / o["l"])))
    q = transformed(q0)
    if sorted(q["cfg"]) == sorted(p["cfg"]) and q["u"] == p["u"] and q["ini"] == p["ini"]:
        raise Trivial()
    a = ctx.run1("first", problem.scn(q0), q0["cfg"])
    completed(a, "failed", "the problem")
    b = ctx.run1("other", problem.scn(q), q["cfg"])
    what = describe(p)
    try:
        completed(b, "failed-other", "the problem %s" % what)
    except Trivial:
        raise Violation("invalid", "the problem %s has an invalid state, but not as first posed" % what)
    oa, ob = outputs(a), outputs(b)
    if sorted(oa) != sorted(ob):
        raise Violation("outputs", "the problem %s made the outputs %s instead of %s" % (what, sorted(ob), sorted(oa)))
    if not oa:
        raise Violation("no-output", "no output")
    if o["same_dt"]:
        it = [int(scalar(oa[i], "iter")) for i in sorted(oa)]
        if it != list(range(len(it))):
            raise Trivial()
    marks(p, q, ctx, oa)
    for i in sorted(oa):
        e = mapped(oa[i], p, ob[i])
        got = SimpleNamespace(d={n: ob[i].d[n] for n in ob[i].d if n in e.d})
        miss = [n for n in e.d if n not in got.d]
        if miss:
            raise Violation("dataset", "the problem %s has no dataset %s" % (what, miss))
        compare1("other-result", got, e, 1e-9, "the problem %s: output %d" % (what, i), coords_tol=1e-12)


def describe(p):
    o = p["other"]
    w = []
    if any(o["flip"]):
        w.append("mirrored along %s" % [a for a in range(3) if o["flip"][a]])
    if o["perm"] != [0, 1, 2]:
        w.append("with the axes %s" % o["perm"])
    if any(o["off"]):
        w.append("displaced by %s" % o["off"])
    if any(o["flat"]):
        w.append("in %s dimensions instead of %s" % (o["cfg"][0], p["cfg"][0]))
    if (o["v"], o["l"], o["r"]) != (1, 1, 1):
        w.append("in units %g, %g, %g of velocity, length and density" % (o["v"], o["l"], o["r"]))
    if o["ng"] != p["ini"]["Grid"]["Nghost"]:
        w.append("with %d ghost layers" % o["ng"])
    if o["nfx"] != p["ini"]["Passive Scalar"]["nfx"]:
        w.append("with %d scalars" % o["nfx"])
    if o["fxrot"]:
        w.append("with scalar %d in front" % o["fxrot"])
    if o["fxinv"]:
        w.append("with the complements of the scalars %s" % [n for n in range(10) if o["fxinv"] >> n & 1])
    return ", ".join(w) or "posed again"


def marks(p, q, ctx, oa):
    o, I = p["other"], p["ini"]
    for k, on in (("mirrored", any(o["flip"])), ("axes exchanged", o["perm"] != [0, 1, 2]), ("displaced", any(o["off"])), ("direction added", any(o["flat"])), ("other units", (o["v"], o["l"], o["r"]) != (1, 1, 1)), ("other ghost width", o["ng"] != I["Grid"]["Nghost"]), ("more scalars", o["nfx"] != I["Passive Scalar"]["nfx"]), ("scalars renumbered", o["fxrot"] != 0), ("complements of scalars", o["fxinv"] != 0),
                  ("stretched grid", I["Grid"]["type"] == "UserDefined"), ("several processes", q["ranks"] > 1), ("spherical", "sphe" in p["cfg"]), ("%d dimensions" % Cfg.parse(o["cfg"]).ndim, True),
                  ("solver " + I["Hydro"]["riemann_solver"], True), ("limiter " + I["Hydro"]["reconstruction"], True),
                  ("gravity", "Uniform" not in p["cfg"] or any(k in I["Gravity"] for k in ("gx0", "gx1", "gx2")))):
        if on:
            ctx.mark(k)
    fc = faces(I, Cfg.parse(p["cfg"]).ndim)
    for n, k in (("UserDefined", "user boundary"), ("Reflexive", "walls"), ("NullGradient", "open boundary")):
        if n in fc:
            ctx.mark(k)
    if I["Pressure fix"].get("pressure_fix") == "On":
        eps = float(I["Pressure fix"].get("eps_pf", 1e-6))
        h = oa[min(oa)]
        ek = 0.5 * h.d["rho"] * sum(h.d[n] ** 2 for n in h.d if n.startswith("ux"))
        if np.any(h.d["E"] - ek < eps * ek):
            ctx.mark("pressure fix active")
            if Cfg.parse(p["cfg"]).ndim > 1:
                ctx.mark("shear flow")


def shrink(p):
    o = p["other"]
    for k, z in (("fxrot", 0), ("fxinv", 0), ("perm", [0, 1, 2]), ("flip", [0, 0, 0]), ("off", [0, 0, 0]), ("v", 1.0), ("l", 1.0), ("r", 1.0), ("ng", p["ini"]["Grid"]["Nghost"]), ("nfx", p["ini"]["Passive Scalar"]["nfx"])):
        if o[k] != z and not (k == "perm" and any(o["flat"])):
            t = dict(o, **{k: z})
            if k == "perm":
                t["nx"] = [p["ini"]["Grid"]["Nx%d_glob" % a] for a in range(3)]
                t["dims"] = [1, 1, 1]
            yield dict(p, other=t)
    if o["dims"] != [1, 1, 1]:
        yield dict(p, other=dict(o, dims=[1, 1, 1]))
    if o["knobs"] != problem.NATURAL:
        yield dict(p, other=dict(o, knobs=dict(problem.NATURAL)))
    for a in range(3):
        if o["flip"][a]:
            yield dict(p, other=dict(o, flip=[0 if b == a else o["flip"][b] for b in range(3)]))
    for t in problem.shrink(p):
        if t["ini"]["Passive Scalar"]["nfx"] != p["ini"]["Passive Scalar"]["nfx"]:
            if o["fxrot"] or o["fxinv"]:
                continue
            t["other"] = dict(o, nfx=max(0, o["nfx"] - p["ini"]["Passive Scalar"]["nfx"] + t["ini"]["Passive Scalar"]["nfx"]))
        if not t["ini"]["Boundary Condition"].get("priority"):
            continue
        bad = False
        for a in range(3):
            if not o["flat"][a]:
                n = t["ini"]["Grid"]["Nx%d_glob" % o["perm"][a]]
                if n != o["nx"][a]:
                    if n < o["ng"] * o["dims"][a] or o["off"][o["perm"][a]] >= n:
                        bad = True
                    t = dict(t, other=dict(t["other"], nx=[n if b == a else t["other"]["nx"][b] for b in range(3)]))
        if not bad:
            yield t
