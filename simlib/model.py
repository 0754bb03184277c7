"""What the properties on the numerical state share: a probed problem, its mesh, EOS, comparison of global states."""
import numpy as np
from . import core, problem, ref, state
from .driver import Violation
from .outputs import outputs, reldiff, scale


def probed(p):
    """the problem with every end-of-step state (with ghosts) and (t, dt) observable"""
    return problem.variant(p, ini={"Grid": {"shift_grid": "UserDefined"}, "User step": {"user_step": "UserDefined"}}, u=dict(p["u"], probe_ghosts=1))


class Model:
    def __init__(self, p):
        c = core.Cfg.parse(p["cfg"])
        self.cfg, self.nd, self.p, self.ini, self.u = c, c.ndim, p, p["ini"], p["u"]
        pg = p["ini"].get("Perfect Gas", {})
        self.eos = ref.EOS(c.eos, float(pg.get("gamma", 5. / 3)), float(pg.get("mu", 1.0)))
        g = p["ini"]["Grid"]
        self.n = [int(g["Nx%d_glob" % d]) for d in range(3)]
        ng = int(g.get("Nghost", 2))
        self.ng = [ng if d < self.nd else 0 for d in range(3)]
        self.fields = ref.Fields(p["u"], self.n)
        self.nfx = int(p["ini"].get("Passive Scalar", {}).get("nfx", 0))
        self.x = ref.nodes(self.ini, self.u, self.nd)
        self.set_nodes(self.x)
        gr = p["ini"].get("Gravity", {})
        self.gpar = {"g": [float(gr.get("gx%d" % d, 0.0)) for d in range(3)], "M": float(gr.get("M", 1.0))}

    def set_nodes(self, x):
        self.x = x
        self.mesh = ref.Mesh(x, self.ng, self.nd, self.cfg.geom == "Spherical")

    def shift_nodes(self):
        x = self.x[0].copy()
        x[:-1] = self.x[0][1:]
        r = (x[-2] - x[-3]) / (x[-3] - x[-4])
        x[-1] = x[-2] + (x[-2] - x[-3]) * r
        self.set_nodes([x, self.x[1], self.x[2]])

    def initial(self):
        """conserved initial state with ghosts filled"""
        rho, u, P, fx = self.fields.initial(self.nd, self.nfx)
        full = [self.n[d] + 2 * self.ng[d] for d in range(3)]
        it = self.mesh.interior()

        def put(a):
            g = np.zeros(full)
            g[it] = a
            return g

        c0 = ref.cons(ref.Prim(rho, u, P), self.eos)
        c = ref.Cons(put(c0.rho), [put(v) for v in c0.m], put(c0.E))
        f = [put(v) for v in fx]
        self.ghosts(c, f)
        return c, f

    def ghosts(self, c, f):
        ref.fill_ghosts(c, f, self.ini, self.nd, self.ng[0], self.fields)

    def gravity(self, rho):
        return ref.gravity(self.cfg.grav, self.mesh, rho, self.gpar)

    def step(self, c, f, dt, grav=None, t=0.0):
        new, fn, unsure = self._step(c, f, dt, grav)
        if self.ini.get("User step", {}).get("user_step") == "Heat_nickel":
            new.E = new.E + dt * ref.nickel(t) * new.rho * fn[0]
        return new, fn, unsure

    def _step(self, c, f, dt, grav=None):
        pf = self.ini.get("Pressure fix", {})
        eps = float(pf.get("eps_pf", 1e-6)) if pf.get("pressure_fix", "Off") == "On" else None
        us = self.ini.get("User step", {}).get("user_step", "Off") == "UserDefined"
        h = self.ini["Hydro"]
        return ref.step(self.mesh, self.eos, c, f, dt, self.gravity(c.rho) if grav is None else grav, h.get("reconstruction", "VanLeer"), h.get("riemann_solver", "HLL"), eps, float(self.u.get("heat", 0)) if us else 0.0, float(self.u.get("decay", 0)) if us else 0.0)

    def scales(self, c):
        with np.errstate(all="ignore"):
            pr = ref.prim(c, self.eos)
            mom = float(np.nanmax(c.rho * self.eos.sound(c.rho, pr.P)))
        return {"rho": scale(c.rho), "m": max(mom, max(scale(v) for v in c.m)), "E": scale(c.E), "fx": 1.0}

    def valid(self, c):
        """density and internal energy positive everywhere"""
        with np.errstate(all="ignore"):
            e = c.E - ref.ek(c)
        return bool(np.all(c.rho > 0) and np.all(e > 0))


def compare_state(kind, what, got, fgot, want, fwant, tol, scales, where=None, skip=None):
    """compares conserved states on the slices `where`, ignoring the cells of the mask `skip`"""
    w = where or (slice(None),) * 3
    items = [("rho", got.rho, want.rho, scales["rho"]), ("E", got.E, want.E, scales["E"])]
    items += [("rhou%d" % d, got.m[d], want.m[d], scales["m"]) for d in range(len(want.m))]
    items += [("fx%d" % n, fgot[n], fwant[n], scales["fx"]) for n in range(len(fwant))]
    for n, a, b, s in items:
        a, b = a[w], b[w]
        if skip is not None:
            m = skip[w]
            a, b = np.where(m, 0.0, a), np.where(m, 0.0, b)
        with np.errstate(all="ignore"):
            d = np.abs(a - b) / s
        bad = ~(d <= tol)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            raise Violation(kind, "%s: %s at %s is %r instead of %r (difference %.3g of the scale; %d cells differ)" % (what, n, tuple(int(q) for q in i), float(a[i]), float(b[i]), float(d[i]), int(bad.sum())))
