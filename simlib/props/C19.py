"""C19: the shipped problems start from, and advance with, the states their parameters describe."""
import numpy as np
from .. import core, problem, ref, shipped, state
from ..driver import Violation, Trivial
from ..model import Model, compare_state
from ..outputs import completed, outputs, scalar, reldiff
from ..ref import KB, MP, G

ID = "C19"
LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 60000}
MUST = ["several processes", "other parameters", "other ghost width", "first step compared", "explosion", "interface crosses a process", "hydrostatic condition compared", "radiation", "grid moves", "grid stays"] + ["setup " + n for n in sorted({e[0] for e in shipped.TABLE})]
SIZES = {"sedov3d": [(4, 5, 6), (8, 6, 5)], "sedov2d": [(12, 13, 1), (16, 10, 1)], "rayleigh_taylor3d": [(8, 7, 20), (7, 10, 16), (12, 8, 12)]}


def configs(tier):
    return sorted({e[1] + "-" + e[0] for e in shipped.TABLE})


def needs(p):
    return [p["cfg"]]


def g6(v):
    return float("%.6g" % v)


def gen(rng, tier, idx):
    e = shipped.TABLE[idx % len(shipped.TABLE)]
    if e[0] in SIZES:
        e = (e[0], e[1], e[2], rng.choice(SIZES[e[0]]))
    p = shipped.gen(rng, e, steps=rng.choice([1, 1, 2]), maxranks=rng.choice([1, 4, 8]), exact=e[0] in SIZES)
    if p is None:
        return {"cfg": e[1] + "-" + e[0], "skip": True}
    name, ini, nd = e[0], p["ini"], int(e[1][0])
    I, Gr = ini.setdefault("Initialisation", {}), ini["Grid"]
    if nd < 3 and not p["star"] and rng.random() < 0.35:
        nx = [int(Gr["Nx%d_glob" % d]) for d in range(3)]
        if all(nx[d] // p["dims"][d] >= 3 for d in range(nd)):
            Gr["Nghost"] = 3
    p["other"] = rng.random() < 0.7
    f = lambda a=0.5: 10.0 ** rng.uniform(-a, a)
    if p["other"]:
        for k in list(I):
            v = float(I[k])
            if k in ("fx0", "fx1"):
                I[k] = g6(rng.random())
            elif k in ("inter",):
                a, b = float(Gr["x0min"]), float(Gr["x0max"])
                I[k] = g6(a + (b - a) * rng.uniform(0.1, 0.9))
            elif k in ("u0", "u1", "u"):
                s = {"eq_hydro_sphe": 0, "stratified_atm": 0, "shock_tube": 0.3, "heat_nickel": 1e3, "shock_wall": abs(v)}.get(name, 0.2)
                I[k] = g6(s * rng.uniform(-1, 1))
            elif k == "E0":
                I[k] = g6(10.0 ** rng.uniform(-12, 0))
            elif k == "Ma":
                I[k] = g6(10.0 ** rng.uniform(-3, -0.3))
            elif v != 0:
                I[k] = g6(v * f())
        P = ini.setdefault("Perfect Gas", {})
        P["gamma"] = rng.choice([1.4, 5. / 3, 1.25, 2.0])
        if rng.random() < 0.5:
            P["mu"] = rng.choice([0.6, 1.3])
        if name in ("advection_gap", "advection_sinus", "shock_tube", "shock_wall", "stratified_atm", "implosion_test", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor") and "-cart" in e[1]:
            for d in range(nd):
                a, b = float(Gr.get("x%dmin" % d, 0)), float(Gr.get("x%dmax" % d, 1))
                L = b - a
                Gr["x%dmin" % d], Gr["x%dmax" % d] = g6(a + L * rng.uniform(-0.1, 0.1)), g6(b + L * rng.uniform(-0.1, 0.1))
        g = ini.get("Gravity", {})
        for k in ("gx0", "gx1", "gx2", "M"):
            if k in g:
                g[k] = g6(float(g[k]) * f(0.2))
    if name == "rayleigh_taylor3d" and rng.random() < 0.5:
        Gr["x2min"], Gr["x2max"] = g6(-rng.uniform(2, 8)), g6(rng.uniform(2, 8))
    if name == "sedov2d":
        w = rng.choice([0.05, 0.1])
        for d in range(2):
            Gr["x%dmin" % d], Gr["x%dmax" % d] = g6(-w * rng.uniform(0.5, 1)), g6(w)
    return p


def grid_values(m):
    """cell centres, left nodes and volumes of the interior cells, broadcastable"""
    it = m.mesh.interior()
    xc = [m.mesh.xc[d][it[d]].reshape([-1 if e == d else 1 for e in range(3)]) for d in range(3)]
    xl = [m.x[d][:-1][it[d]].reshape([-1 if e == d else 1 for e in range(3)]) for d in range(3)]
    return xc, xl, m.mesh.V[it]


def initial(name, p, m):
    """rho, [u], P, [fx] in the interior and a mask of the cells on a discontinuity"""
    I = {k: float(v) for k, v in p["ini"].get("Initialisation", {}).items()}
    nd, eos = m.nd, m.eos
    (x, y, z), (xl, yl, zl), V = grid_values(m)
    one = np.ones(m.n)
    g = [float(v) for v in m.gpar["g"]]
    M = m.gpar["M"]
    edge = np.zeros(m.n, bool)
    near = lambda a, b: np.abs(a - b) <= 1e-12 * (np.abs(a) + abs(b)) * one
    uu = lambda v: [v * one for _ in range(nd)]
    fx = []
    if name == "advection_gap":
        out = (x <= 0.3) | (x >= 0.7)
        edge = near(x, 0.3) | near(x, 0.7)
        r = np.where(out, I["rho0"], I["rho1"]) * one, uu(I["u0"]), I["P0"] * one
    elif name == "advection_sinus":
        r = (1 + 0.1 * np.sin(2 * np.pi * x)) * one, uu(I["u0"]), I["P0"] * one
    elif name == "eq_hydro_sphe":
        h = KB * I["T0"] / (m.eos.mu * MP * G * M)
        rho = I["rho0"] * np.exp(1 / (x * h)) * one
        r = rho, uu(I["u0"]), eos.P_from_T(rho, I["T0"])
    elif name == "gresho_vortex":
        R = np.sqrt(x * x + y * y)
        P0 = 1 / (eos.g * I["Ma"] ** 2)
        with np.errstate(all="ignore"):
            ut = np.where(R < 0.2, 5 * R, 2 - 5 * R)
            P = np.where(R < 0.2, P0 + 12.5 * R * R, np.where(R < 0.4, P0 + 12.5 * R * R + 4 - 20 * R + 4 * np.log(5 * R), P0 - 2 + 4 * np.log(2)))
            s, c = np.where(R > 0, y / R, 0.0), np.where(R > 0, x / R, 1.0)
        far = R >= 0.4
        edge = near(R, 0.2) | near(R, 0.4)
        r = I["rho0"] * one, [np.where(far, I["u0"], -ut * s) * one, np.where(far, I["u0"], ut * c) * one], P * one
    elif name == "heat_nickel":
        rho = I["rho0"] * one
        r = rho, uu(I["u0"]), eos.P_from_T(rho, I["T0"])
        fx = [I["fx0"] * one]
    elif name == "implosion_test":
        out = x + y > 0.15
        edge = near(x + y, 0.15)
        r = np.where(out, I["rho0"], I["rho1"]) * one, uu(I["u0"]), np.where(out, I["P0"], I["P1"]) * one
    elif name == "kelvin_helmholtz":
        s = np.tanh((y - 0.5) / 0.05) - np.tanh((y - 1.5) / 0.05)
        r = (1 + s) * one, [s * one, 0.01 * np.sin(np.pi * x) * (np.exp(-(y - 0.5) ** 2 / 0.04) + np.exp(-(y - 1.5) ** 2 / 0.04)) * one], I["P0"] * one
    elif name == "rayleigh_taylor":
        w = (1 + np.tanh((y - I["A"] * np.cos(4 * np.pi * x)) / 0.005)) / 2
        r = (I["rho1"] + (I["rho0"] - I["rho1"]) * w) * one, uu(I["u"]), (10. / 7 + 0.25 - I["rho0"] * abs(g[1]) * y) * one
        fx = [(I["fx1"] + (I["fx0"] - I["fx1"]) * w) * one]
    elif name == "sedov1d":
        V0 = V[0, 0, 0]
        a = 1.0 if m.mesh.sph else 0.5
        e = I["E0"] / V0 * one
        e[0, 0, 0] = a * I["E1"] / V0
        r = I["rho0"] * one, uu(I["u0"]), eos.P_from_e(I["rho0"] * one, e)
    elif name == "sedov2d":
        R = np.sqrt(xl * xl + yl * yl)
        edge = near(R, 0.025)
        r = I["rho0"] * one, uu(I["u0"]), eos.P_from_e(I["rho0"] * one, np.where(R < 0.025, I["E1"], I["E0"]) / V)
    elif name == "sedov3d":
        P = I["P0"] * one
        i = [q for q in range(m.n[0]) if abs(xl[q, 0, 0] - 1) < 1e-12]
        for q in i:
            w = (q, m.n[1] // 2, m.n[2] // 2)
            P[w] = eos.P_from_e(np.float64(I["rho0"]), I["E1"] / V[w])
        r = I["rho0"] * one, uu(0.0), P
    elif name == "shock_tube":
        left = x <= I["inter"]
        edge = near(x, I["inter"])
        r = np.where(left, I["rho0"], I["rho1"]) * one, [np.where(left, I["u0"], I["u1"]) * one for _ in range(nd)], np.where(left, I["P0"], I["P1"]) * one
    elif name == "shock_wall":
        r = I["rho0"] * one, uu(I["u0"]), I["P0"] * one
    elif name == "stratified_atm":
        h = KB * I["T0"] / (m.eos.mu * MP * abs(g[0]))
        rho = I["rho0"] * np.exp(-x / h) * one
        r = rho, uu(I["u0"]), eos.P_from_T(rho, I["T0"])
    elif name == "v1d":
        s = shipped.profile(p["star"])
        c = lambda a: a[:, None, None] * one
        r = c(s["rho_1d"]), [c(s["u_1d"])] + [0.0 * one for _ in range(nd - 1)], c(s["P_1d"])
        fx = [c(v) for v in s["fx_1d"]]
    else:
        raise Trivial()
    return r[0], r[1], r[2], fx, edge


class Shipped(Model):
    def __init__(self, name, p):
        self.name = name
        super().__init__(p)
        if p.get("star"):
            regular = dict(self.ini, Grid=dict(self.ini["Grid"], type="Regular"))
            self.set_nodes([shipped.profile(p["star"])["x0"]] + ref.nodes(regular, self.u, self.nd)[1:])

    def full(self, rho, u, P, fx):
        n = [self.n[d] + 2 * self.ng[d] for d in range(3)]
        it = self.mesh.interior()

        def put(a):
            v = np.zeros(n)
            v[it] = a
            return v

        c = ref.cons(ref.Prim(rho, u, P), self.eos)
        return ref.Cons(put(c.rho), [put(v) for v in c.m], put(c.E)), [put(v) for v in fx]

    def ghosts(self, c, f):
        self.rest = None
        ref.fill_ghosts(c, f, self.bc_ini(), self.nd, self.ng[0], self)

    def bc_ini(self):
        b = dict(self.ini.get("Boundary Condition", {}))
        for k in list(b):
            if k.lower() == "priority":
                b["priority"] = b.pop(k)
        return {"Boundary Condition": b}

    def user_bc(self, c, fx, d, f, ng, nd, off):
        """the hydrostatic atmospheres of eq_hydro_sphe and stratified_atm, outside of the domain"""
        I = {k: float(v) for k, v in self.ini["Initialisation"].items()}
        n = c.rho.shape
        sl = [slice(None)] * 3
        sl[d] = slice(0, ng) if f == 0 else slice(n[d] - ng, n[d])
        sl = tuple(sl)
        x = self.mesh.xc[0][sl[0]][:, None, None]
        if self.name == "eq_hydro_sphe":
            rho = I["rho0"] * np.exp(1 / (x * (KB * I["T0"] / (self.eos.mu * MP * G * self.gpar["M"]))))
        elif self.name == "stratified_atm":
            rho = I["rho0"] * np.exp(-x / (KB * I["T0"] / (self.eos.mu * MP * abs(self.gpar["g"][0]))))
        else:
            raise Trivial()
        c.rho[sl] = rho
        for v in c.m:
            v[sl] = I["rho0"] * I["u0"]
        c.E[sl] = self.eos.e_from_T(rho, I["T0"])


def perturbed(p, m, got):
    """Rayleigh-Taylor with a random interface: either state, in hydrostatic balance, and an interface made of four
    modes with amplitudes in [-1, 1] between the cells above and those below"""
    from scipy.optimize import linprog
    I = {k: float(v) for k, v in p["ini"]["Initialisation"].items()}
    _, (x, y, z), _ = grid_values(m)
    gz = abs(m.gpar["g"][2])
    g, L = 5. / 3, 10.0
    P0 = 2 * np.pi * (I["rho0"] + I["rho1"]) * gz * L
    up = got["fx0"] == 1
    if not np.array_equal(up | (got["fx0"] == 0), np.ones(m.n, bool)):
        raise Violation("initial-state", "rayleigh_taylor3d: the scalar is neither 0 nor 1 in some cells")
    r0 = np.where(up, I["rho0"], I["rho1"])
    with np.errstate(all="ignore"):
        rho = r0 * (1 - (g - 1) / g * r0 * gz * z / P0) ** (1 / (g - 1))
        P = P0 * (rho / r0) ** g
    X, Y = 2 * np.pi * x / L, 2 * np.pi * y / L
    b = [0.0] * 4
    for kx in range(5):
        for ky in range(5):
            if 8 <= kx * kx + ky * ky <= 16:
                b[0] = b[0] + np.cos(kx * X) * np.cos(ky * Y)
                b[1] = b[1] + np.cos(kx * X) * np.sin(ky * Y)
                b[2] = b[2] + np.sin(kx * X) * np.cos(ky * Y)
                b[3] = b[3] + np.sin(kx * X) * np.sin(ky * Y)
    one = np.ones(m.n)
    A = np.stack([(v * one).ravel() for v in b], axis=1)
    zz = (z * one).ravel()
    s = np.where(up.ravel(), 1.0, -1.0)  # above: h <= z, below: h > z
    q = linprog(np.zeros(4), A_ub=A * s[:, None], b_ub=s * zz + 1e-7, bounds=[(-1, 1)] * 4, method="highs")
    if q.status == 2:
        raise Violation("initial-state", "rayleigh_taylor3d: no interface of the four modes with amplitudes up to 1 separates the cells of the two fluids")
    return rho, [I["u0"] * one] * 3, P, [got["fx0"]], np.zeros(m.n, bool)


def bad(p, what, name, got, want, tol, floor, skip):
    with np.errstate(all="ignore"):
        s = np.abs(want) + floor
        d = np.where(skip, 0.0, np.abs(got - want) / s)
    d = np.where((got == want) | skip, 0.0, d)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        raise Violation("initial-state", "%s: %s at %s is %r instead of %r (%d cells differ)" % (what, name, tuple(int(q) for q in i), float(got[i]), float(want[i]), int((~(d <= tol)).sum())))


def read(h, m):
    q = {n: np.asarray(h.d[n]).transpose(2, 1, 0) for n in ["rho", "P", "E", "T"] + ["ux%d" % d for d in range(m.nd)] + ["fx%d" % f for f in range(m.nfx)] if n in h.d}
    return q


def check(p, ctx):
    if p.get("skip"):
        raise Trivial()
    name = p["cfg"].split("-", 4)[4]
    ph = ctx.run1("run", problem.scn(p), p["cfg"])
    completed(ph, "failed", "the shipped problem %s" % name)
    m = Shipped(name, p)
    out = outputs(ph)
    if 0 not in out:
        raise Violation("no-output", "%s made no output at its start" % name)
    got = read(out[0], m)
    missing = [n for n in ["rho", "P", "E", "T"] + ["ux%d" % d for d in range(m.nd)] + ["fx%d" % f for f in range(m.nfx)] if n not in got]
    if missing:
        raise Violation("no-output", "%s: the output at the start has no %s" % (name, missing))
    for d in range(3):
        x = np.asarray(out[0].d["x%d" % d])
        if x.shape != m.x[d].shape or np.max(np.abs(x - m.x[d])) > 1e-12 * (np.max(np.abs(m.x[d])) + 1e-300):
            raise Violation("initial-state", "%s: the nodes x%d are %s instead of %s" % (name, d, x[:4], m.x[d][:4]))
    if name == "rayleigh_taylor3d":
        rho, u, P, fx, edge = perturbed(p, m, got)
    else:
        rho, u, P, fx, edge = initial(name, p, m)
    while len(fx) < m.nfx:
        fx.append(np.zeros(m.n))
    what = "%s on %s processes" % (name, p["dims"])
    tol = 1e-9 if not m.eos.rad else 1e-7
    with np.errstate(all="ignore"):
        cs = m.eos.sound(rho, P)
    bad(p, what, "rho", got["rho"], rho, tol, 0.0, edge)
    for d in range(m.nd):
        bad(p, what, "ux%d" % d, got["ux%d" % d], u[d], tol, cs, edge)
    # the pressure of the output is that of the stored total energy
    bad(p, what, "P", got["P"], P, tol, P + 1e-6 * rho * sum(v * v for v in u), edge)
    for f in range(m.nfx):
        bad(p, what, "fx%d" % f, got["fx%d" % f], fx[f], 1e-12, 1.0, edge)
    ctx.mark("setup " + name)
    if p["ranks"] > 1:
        ctx.mark("several processes")
    if p["other"]:
        ctx.mark("other parameters")
    if m.ng[0] != 2:
        ctx.mark("other ghost width")
    if m.eos.rad:
        ctx.mark("radiation")
    if name.startswith("sedov") and np.max(P) > 2 * np.min(P):
        ctx.mark("explosion")
    if p["ranks"] > 1 and name in ("shock_tube", "advection_gap", "implosion_test", "rayleigh_taylor"):
        ctx.mark("interface crosses a process")
    # the first step, as the configured scheme, sources and conditions give it
    if 1 not in out or edge.any() or int(scalar(out[1], "iter")) != 1:
        return
    dt = float(scalar(out[1], "current_time")) - float(scalar(out[0], "current_time"))
    if not abs(float(scalar(out[0], "current_time"))) < 1e3 * dt:
        pass
    c, f = m.full(got["rho"], [got["ux%d" % d] for d in range(m.nd)], P, [got["fx%d" % q] for q in range(m.nfx)])
    m.ghosts(c, f)
    if not m.valid(c):
        return
    with np.errstate(all="ignore"):
        want, fw, unsure = m.step(c, f, dt, t=float(scalar(out[0], "current_time")))
    it = m.mesh.interior()
    new = read(out[1], m)
    moved = "Shifting" in ph.out()
    if p.get("star") and criterion(p, m, want, unsure, moved, what, ctx):
        with np.errstate(all="ignore"):
            if moved:
                m.ghosts(want, fw)
                sh = lambda a: np.concatenate([a[1:], a[-1:]])
                unsure[:] = unsure.any()
                want, fw = ref.Cons(sh(want.rho), [sh(v) for v in want.m], sh(want.E)), [sh(v) for v in fw]
                m.shift_nodes()
        x = np.asarray(out[1].d["x0"])
        if np.max(np.abs(x - m.x[0])) > 1e-12 * np.max(np.abs(m.x[0])):
            raise Violation("moving-grid", "%s: the nodes after the first step are %s instead of %s (%s)" % (what, x[:4], m.x[0][:4], "moved" if moved else "not moved"))
    E1 = new["E"]
    mom = [new["rho"] * new["ux%d" % d] for d in range(m.nd)]
    put = lambda a: padded(a, m)
    gc = ref.Cons(put(new["rho"]), [put(v) for v in mom], put(E1))
    gf = [put(new["fx%d" % q]) for q in range(m.nfx)]
    sane = np.isfinite(want.E[it]).all() and np.all(want.rho[it] > 0)
    if not sane:
        return
    # the time of the outputs is rounded: so is the step taken from it
    t1 = abs(float(scalar(out[1], "current_time")))
    tol = (1e-8 if not m.eos.rad else 1e-6) + 1e-15 * t1 / dt
    if tol > 1e-5:
        return
    sc = m.scales(c)
    sc2 = m.scales(ref.Cons(gc.rho[it], [v[it] for v in gc.m], gc.E[it]))
    sc = {q: max(sc[q], sc2[q]) for q in sc}
    compare_state("first-step", "the first step of %s" % what, gc, gf, want, fw, tol, sc, it, unsure)
    ctx.mark("first step compared")
    if name in ("eq_hydro_sphe", "stratified_atm"):
        ctx.mark("hydrostatic condition compared")


def criterion(p, m, want, unsure, moved, what, ctx):
    """the grid of v1d moves when the outermost cells have reached the given speed"""
    I = p["ini"]["Problem"]
    if p["ini"]["Grid"].get("shift_grid") != "UserDefined" or unsure.any() or not want.rho[m.mesh.interior()].all():
        return False
    it = m.mesh.interior()
    with np.errstate(all="ignore"):
        u = (want.m[0] / want.rho)[it]
    k, v = int(I["cell_shift"]), float(I["vmax_shift"])
    least, most = max(u[-k:].max(), 0.0), max(u[-k - m.ng[0]:].max(), 0.0)
    if k + m.ng[0] > u.shape[0]:
        most = max(most, abs(u).max())
    if not moved and least > v * (1 + 1e-6):
        raise Violation("moving-grid", "%s: the grid stays although the %d outermost cells reach %g, more than %g" % (what, k, least, v))
    if moved and most < v * (1 - 1e-6):
        raise Violation("moving-grid", "%s: the grid moves although the %d outermost cells reach only %g of %g" % (what, k, most, v))
    ctx.mark("grid moves" if moved else "grid stays")
    return True


def padded(a, m):
    v = np.zeros([m.n[d] + 2 * m.ng[d] for d in range(3)])
    v[m.mesh.interior()] = a
    return v


def shrink(p):
    if p.get("skip"):
        return
    for q in problem.shrink(p):
        # the profile of v1d and the explosions depend on the size
        if q["ini"]["Grid"] == p["ini"]["Grid"]:
            yield q
