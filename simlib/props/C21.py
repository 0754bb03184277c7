"""C21: the scheme is a consistent discretisation of the Euler equations in the coordinates of the grid."""
import math
import numpy as np
from .. import problem, ref
from ..core import Cfg
from ..driver import Violation, Trivial
from ..outputs import outputs, completed, scalar

ID = "C21"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 60000}
QUICK = ["1d-pg-cart-Uniform-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim", "3d-pg-sphe-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-sphe-Internal_mass-sim"]
MORE = ["2d-rad-cart-Uniform-sim", "3d-rad-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-rad-sphe-Point_mass-sim", "2d-pg-cart-Point_mass-sim"]
MUST = ["1 dimensions", "2 dimensions", "3 dimensions", "cartesian", "spherical", "radiation", "solver HLL", "solver HLLC", "solver Low Mach", "limiter VanLeer", "limiter Minmod", "limiter VanAlbada", "limiter Constant", "pressure fix active", "scalars", "gravity", "usual time step, second order", "several processes", "stretched grid", "supersonic", "subsonic", "up to the boundary"]
ASSUMPTIONS = ["smooth solutions, monotone in every direction; the axis of the spherical coordinates and the centre are not part of the domain"]
CFL = 1e-6
FLOOR = 3e-7
CELLS = 600


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    c = Cfg.parse(cfg)
    nd = c.ndim
    sph = c.geom == "Spherical"
    p = problem.gen(rng, cfg, maxranks=6, steps=1, grid="Regular", source=False, nfx=rng.choice([0, 1, 2, 4]))
    I, u, G = p["ini"], p["u"], p["ini"]["Grid"]
    lo, hi = {1: (20, 40), 2: (12, 20), 3: (8, 12)}[nd]
    for d in range(nd):
        G["Nx%d_glob" % d] = rng.randint(max(lo, 2 * G["Nghost"]), hi)
    nx = [G["Nx%d_glob" % d] for d in range(3)]
    p["dims"] = problem.layouts(rng, nx, nd, G["Nghost"], 6, [1 if c.grav == "Internal_mass" else 0, 0, 0])
    p["ranks"] = p["dims"][0] * p["dims"][1] * p["dims"][2]
    for d in range(3):
        I["Parallelization"]["mpi_dims_cart_x%d" % d] = p["dims"][d]
    rho0, P0 = u["rho0"], u["P0"]
    eos = ref.EOS(c.eos, I["Perfect Gas"]["gamma"], I["Perfect Gas"].get("mu", 1.0))
    cs = float(eos.sound(np.float64(rho0), np.float64(P0)))
    L = float(G["x0max"]) - float(G["x0min"])
    if sph:
        # an angular sector away from the axis, where the geometry matters
        a = rng.choice([0.4, 0.7, 1.0, 1.6])
        w = rng.choice([0.5, 0.8, 1.1])
        G["x1min"], G["x1max"] = a, a + w
    for d in range(nd):
        if rng.random() < 0.4:
            G["type"] = "UserDefined"
            u["bend%d" % d] = round(rng.uniform(-0.4, 0.4), 3)
    if G["type"] == "UserDefined":
        u["stretch"] = 0.0
    u["init"], u["bcmode"] = 4, 2
    B = I["Boundary Condition"]
    B.clear()
    kinds = ["UserDefined"] if rng.random() < 0.75 or nd == 3 else ["UserDefined", "NullGradient", "Reflexive"]
    for d in range(nd):
        for s in ("left", "right"):
            B["BC_X%d_%s" % (d, s)] = rng.choice(kinds)
    if "rad" in cfg:
        I["Hydro"]["reconstruction"] = rng.choice(problem.LIMITERS)
    # the fields
    def slopes(a):
        return [round(rng.choice([-1, 1]) * rng.uniform(0.3, 1) * a, 3) for _ in range(3)]
    a = rng.choice([0.5, 1.0, 1.5])
    mach = [rng.choice([0.1, 0.4, 0.8, 2.5, 6.0]) * rng.choice([-1, 1]) for _ in range(3)]
    f = [(0.0, rho0, slopes(a)), (0.0, P0, slopes(a))]
    for d in range(3):
        f.append((float("%.6g" % (mach[d] * cs)), float("%.6g" % (rng.choice([-1, 1]) * rng.choice([0.05, 0.2]) * cs * max(abs(mach[d]), 0.3))), slopes(a)))
    for n in range(4):
        f.append((0.05, 0.05, slopes(0.6)))
    for n, (s, m, l) in enumerate(f):
        u["sa%d" % n], u["sm%d" % n] = s, m
        for d in range(3):
            u["sl%d%d" % (n, d)] = l[d]
    if c.grav == "Uniform":
        for d in range(nd):
            if rng.random() < 0.6:
                I["Gravity"]["gx%d" % d] = float("%.5g" % (rng.uniform(-1, 1) * cs * cs / L))
    elif rng.random() < 0.7:
        I["Gravity"]["M"] = float("%.5g" % (rng.uniform(0.3, 1) * cs * cs * float(G["x0min"]) / ref.G))
    if c.grav == "Internal_mass":
        # the mass of the gas does not count here
        k = 1e-20
        u["sm0"] *= k
        u["sm1"] *= k
        u["rho0"] *= k
        u["P0"] *= k
    I["Pressure fix"].clear()
    if rng.random() < 0.3:
        I["Pressure fix"].update({"pressure_fix": "On", "eps_pf": rng.choice([0.3, 3.0, 1e3, 1e6])})
    I["Run"]["cfl"] = CFL
    if rng.random() < 0.4:
        # steps of the usual size: the second derivative in time counts as well
        I["Run"]["cfl"] = rng.choice([0.1, 0.3, 0.5])
        if rng.random() < 0.85:
            for k in list(I["Gravity"]):
                I["Gravity"][k] = 0.0
    I["Output"].update({"max_iter": 1, "iter_frequency": 1})
    return p


class Exact:
    def __init__(self, p):
        self.p, self.c = p, Cfg.parse(p["cfg"])
        self.nd = self.c.ndim
        self.sph = self.c.geom == "Spherical"
        self.u, G = p["u"], p["ini"]["Grid"]
        self.lo = [float(G["x%dmin" % d]) for d in range(3)]
        self.len = [float(G["x%dmax" % d]) - self.lo[d] for d in range(3)]
        pg = p["ini"].get("Perfect Gas", {})
        self.eos = ref.EOS(self.c.eos, float(pg.get("gamma", 5 / 3)), float(pg.get("mu", 1.0)))
        self.nfx = int(p["ini"]["Passive Scalar"].get("nfx", 0))

    def nodes(self, d, n):
        t = np.arange(n + 1) / n
        b = self.u.get("bend%d" % d, 0.0) if self.p["ini"]["Grid"]["type"] == "UserDefined" else 0.0
        return self.lo[d] + self.len[d] * (t + b * t * (1 - t))

    def centres(self, nx):
        c = []
        for d in range(3):
            x = self.nodes(d, nx[d])
            c.append((x[:-1] + x[1:]) / 2)
        return np.meshgrid(*c, indexing="ij")

    def field(self, n, x):
        u = self.u
        return u["sa%d" % n] + u["sm%d" % n] * np.exp(sum(u["sl%d%d" % (n, d)] * (x[d] - self.lo[d]) / self.len[d] for d in range(3)))

    def prim(self, x):
        rho, P = self.field(0, x), self.field(1, x)
        v = [self.field(2 + d, x) for d in range(self.nd)]
        return rho, P, v, [self.field(5 + n, x) for n in range(self.nfx)]

    def cons(self, x):
        return self.to_cons(self.prim(x))

    def scale_factor(self, d, x):
        """(weight of the flux in the divergence, length of a unit of the coordinate)"""
        if not self.sph:
            return 1.0, 1.0
        if d == 0:
            return x[0] ** 2, 1.0
        if d == 1:
            return np.sin(x[1]), x[0]
        return 1.0, x[0] * np.sin(x[1])

    def to_cons(self, q):
        rho, P, v, f = q
        return [rho] + [rho * w for w in v] + [self.eos.e_from_P(rho, P) + rho * sum(w * w for w in v) / 2] + [rho * w for w in f]

    def to_prim(self, U):
        nd = self.nd
        rho = U[0]
        v = [q / rho for q in U[1 : 1 + nd]]
        return rho, self.eos.P_from_e(rho, U[1 + nd] - rho * sum(w * w for w in v) / 2), v, [q / rho for q in U[2 + nd:]]

    def flux(self, d, q):
        """fluxes without the pressure of the momentum, and the pressure"""
        rho, P, v, f = q
        U = self.to_cons(q)
        E = U[1 + self.nd]
        return [w * v[d] for w in U[: 1 + self.nd]] + [(E + P) * v[d]] + [w * v[d] for w in U[2 + self.nd:]], P

    def diff(self, g, d, x):
        e = 2e-3 * self.len[d]

        def at(k):
            y = list(x)
            y[d] = x[d] + k * e
            return g(y)
        a, b, c, f = at(-2), at(-1), at(1), at(2)
        return [(p - 8 * q + 8 * r - s) / (12 * e) for p, q, r, s in zip(a, b, c, f)]

    def rhs(self, x, prim=None):
        """right-hand side of the equations and the size of their terms, for the primitive variables prim(x)"""
        nd = self.nd
        prim = prim or self.prim
        rho, P, v, f = here = prim(x)
        out = [0.0] * (2 + nd + self.nfx)
        size = [0.0] * len(out)
        for d in range(nd):
            w, h = self.scale_factor(d, x)

            def weighted(y):
                F, p = self.flux(d, prim(y))
                k = self.scale_factor(d, y)[0]
                return [k * q for q in F] + [p]
            D = self.diff(weighted, d, x)
            dP = D.pop() / h
            D = [q / (w * h) for q in D]
            for n in range(len(out)):
                out[n] = out[n] - D[n]
            out[1 + d] = out[1 + d] - dP
            Fl = self.flux(d, here)[0]
            for n in range(len(out)):
                size[n] = size[n] + np.abs(D[n]) + np.abs(Fl[n]) / (h * self.len[d])
            size[1 + d] = size[1 + d] + np.abs(dP) + P / (h * self.len[d])
        if self.sph:
            r = x[0]
            vt = v[1] if nd > 1 else 0.0
            vp = v[2] if nd > 2 else 0.0
            out[1] = out[1] + rho * (vt * vt + vp * vp) / r
            size[1] = size[1] + rho * (vt * vt + vp * vp) / r
            if nd > 1:
                cot = np.cos(x[1]) / np.sin(x[1])
                out[2] = out[2] - rho * v[0] * vt / r + rho * vp * vp * cot / r
            if nd > 2:
                out[3] = out[3] - rho * v[0] * vp / r - rho * vt * vp * cot / r
        G = self.p["ini"]["Gravity"]
        for d in range(nd):
            if self.c.grav == "Uniform":
                g = float(G.get("gx%d" % d, 0.0))
            elif d == 0:
                g = -ref.G * float(G["M"]) / x[0] ** 2
            else:
                g = 0.0
            out[1 + d] = out[1 + d] + rho * g
            out[1 + nd] = out[1 + nd] + rho * g * v[d]
        # momentum components share one scale
        m = sum(size[1 : 1 + nd])
        for d in range(nd):
            size[1 + d] = m
        return out, size

    def rhs2(self, x):
        """second derivative of the conserved variables in time: the derivative of rhs along the solution"""
        R = self.rhs(x)[0]
        U = self.cons(x)
        s = 1e-4 * min(float(np.min(np.abs(U[n]) / (np.abs(R[n]) + 1e-300))) for n in (0, 1 + self.nd))

        def moved(k):
            def prim(y):
                return self.to_prim([u + k * s * r for u, r in zip(self.cons(y), self.rhs(y)[0])])
            return self.rhs(x, prim)[0]
        return [(b - a) / (2 * s) for a, b in zip(moved(-1), moved(1))]


def measured(p, ctx, name, k):
    """change of the conserved state per unit of time on a grid k times finer"""
    nd = Cfg.parse(p["cfg"]).ndim
    G = p["ini"]["Grid"]
    nx = [int(G["Nx%d_glob" % d]) * (k if d < nd else 1) for d in range(3)]
    q = problem.variant(p, ini={"Grid": {"Nx%d_glob" % d: nx[d] for d in range(nd)}})
    ph = ctx.run1(name, problem.scn(q), q["cfg"])
    completed(ph, "failed", "the first step")
    out = outputs(ph)
    if len(out) != 2:
        raise Violation("outputs", "outputs %s" % sorted(out))
    a, b = (out[i] for i in sorted(out))
    dt = float(scalar(b, "current_time")) - float(scalar(a, "current_time"))
    if not dt > 0:
        raise Violation("time", "the time step is %r" % dt)
    nfx = int(p["ini"]["Passive Scalar"].get("nfx", 0))

    def U(h):
        g = lambda n: np.asarray(h.d[n], float).transpose(2, 1, 0)
        rho = g("rho")
        return [rho] + [rho * g("ux%d" % d) for d in range(nd)] + [g("E")] + [rho * g("fx%d" % n) for n in range(nfx)]

    return nx, dt, U(a), [(y - x) / dt for x, y in zip(U(a), U(b))]


def names(nd, nfx):
    return ["density"] + ["momentum %d" % d for d in range(nd)] + ["energy"] + ["scalar %d" % n for n in range(nfx)]


def errors(p, ex, nx, dt, U0, rate, margin):
    """{quantity: (mean, largest) error relative to the terms of the equation}"""
    x = ex.centres(nx)
    want0 = ex.cons(x)
    for n, name in enumerate(names(ex.nd, ex.nfx)):
        ini = np.max(np.abs(U0[n] - want0[n])) / max(np.max(np.abs(want0[n])), 1e-300)
        if not ini <= 1e-9:
            raise Violation("initial", "%s: the initial state differs by %.3g (relative) from the functions of the position" % (name, ini))
    cut = tuple(slice(margin, n - margin) if d < ex.nd else slice(None) for d, n in enumerate(nx))
    x = [q[cut].ravel() for q in x]
    rate = [q[cut].ravel() for q in rate]
    pick = np.arange(len(x[0]))
    if float(p["ini"]["Run"]["cfl"]) != CFL and len(pick) > CELLS:
        pick = np.random.default_rng(1).choice(pick, CELLS, replace=False)
        x, rate = [q[pick] for q in x], [q[pick] for q in rate]
    rhs, size = ex.rhs(x)
    size = [float(np.max(q)) for q in size]
    if float(p["ini"]["Run"]["cfl"]) != CFL:
        rhs = [a + dt / 2 * b for a, b in zip(rhs, ex.rhs2(x))]
    out = {}
    for n, name in enumerate(names(ex.nd, ex.nfx)):
        e = np.abs(rate[n] - rhs[n]) / size[n]
        out[name] = (float(np.mean(e)), float(np.max(e)))
    return out


def check(p, ctx):
    ex = Exact(p)
    nd = ex.nd
    B = p["ini"]["Boundary Condition"]
    exact_bc = all(B.get("BC_X%d_%s" % (d, s)) == "UserDefined" for d in range(nd) for s in ("left", "right"))
    margin = 0 if exact_bc else 3
    H = p["ini"]["Hydro"]
    pf = p["ini"]["Pressure fix"].get("pressure_fix") == "On"
    nx = [int(p["ini"]["Grid"]["Nx%d_glob" % d]) for d in range(nd)]
    if min(nx) < 2 * margin + 2:
        raise Trivial()
    x = ex.centres(nx + [1] * (3 - nd))
    rho, P, v, f = ex.prim(x)
    ek = rho * sum(w * w for w in v) / 2
    fixed = pf and bool(np.any(ex.eos.e_from_P(rho, P) < float(p["ini"]["Pressure fix"]["eps_pf"]) * ek))
    cs = ex.eos.sound(rho, P)
    if not (np.all(rho > 0) and np.all(P > 0)):
        raise Trivial()
    steps = float(p["ini"]["Run"]["cfl"]) != CFL
    grav = any(float(q) for q in p["ini"]["Gravity"].values())
    first = H["reconstruction"] == "Constant" or fixed or steps and grav
    easy, hard = (0.65, 0.8) if first else (0.36, 0.45)
    lv, e = [1, 2], {}
    for k in lv:
        e[k] = errors(p, ex, *measured(p, ctx, "grid%d" % k, k), margin)
    for k, on in (("%d dimensions" % nd, 1), ("spherical" if ex.sph else "cartesian", 1), ("radiation", ex.eos.rad), ("solver " + H["riemann_solver"], 1), ("limiter " + H["reconstruction"], 1), ("pressure fix active", fixed), ("scalars", ex.nfx > 0),
                  ("gravity", grav), ("usual time step", steps), ("usual time step, second order", steps and not first), ("several processes", p["ranks"] > 1), ("stretched grid", any(p["u"].get("bend%d" % d) for d in range(nd))), ("supersonic", np.any(np.abs(v[0]) > cs)), ("subsonic", np.any(np.abs(v[0]) < cs)), ("up to the boundary", exact_bc)):
        if on:
            ctx.mark(k)
    # where a wave speed changes sign the flux has a kink: at first order an error of order one stays in a few cells
    peak = 1.5 if first else 0.9
    bad = suspects(e[1], e[2], easy, peak)
    if not bad:
        return
    ctx.mark("finer grid")
    for k, m in ((4, 2), (6 if nd == 3 else 8, 4)):
        # the error on one grid can be small by accident: what does not converge does so on the next grids as well
        e[k] = errors(p, ex, *measured(p, ctx, "grid%d" % k, k), margin)
        bad = [q for q in suspects(e[m], e[k], hard ** math.log2(k / m), peak) if k == 4 or q in bad]
        if not bad:
            return
    q = max(bad, key=lambda n: e[k][n][0])
    raise Violation("inconsistent:" + q.split()[0], "the change of the %s does not converge to that of the Euler equations at %s order: mean error %s relative to the terms on grids %s times as fine (largest %s)"
                    % (q, "first" if first else "second", ", ".join("%.3g" % e[k][q][0] for k in e), ", ".join("%d" % k for k in e), ", ".join("%.3g" % e[k][q][1] for k in e)))


def suspects(a, b, limit, peak):
    return [q for q in a if b[q][0] > FLOOR and not b[q][0] <= limit * a[q][0] or not b[q][1] <= max(100 * FLOOR, peak * a[q][1])]


def shrink(p):
    for q in problem.shrink(p):
        if q["u"]["init"] == 4 and q["u"]["bcmode"] == 2:
            yield q
    for n in range(9):
        for d in range(3):
            k = "sl%d%d" % (n, d)
            if p["u"].get(k):
                yield problem.variant(p, u=dict(p["u"], **{k: 0.0}))
