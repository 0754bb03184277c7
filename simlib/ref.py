"""Executable reference model of one step (numpy, whole domain in one array): mesh, EOS, boundary conditions, time step,
gravity, MUSCL-Hancock Godunov update. Written from the documented scheme, independent of processes, kernels and arrays of the code."""
import numpy as np

KB, MP, G = 1.380649e-23, 1.672649e-27, 6.6743015e-11
H, C = 6.62607015e-34, 2.99792458e8
AR = 8 * np.pi ** 5 * KB ** 4 / (15 * H ** 3 * C ** 3)


class EOS:
    def __init__(self, name, gamma, mu):
        self.rad = name != "PerfectGas"
        self.g, self.mu = gamma, mu

    def c1(self, rho):
        return rho * KB / (self.mu * MP)

    def _newton(self, a, b, q):
        """a T^4 + b T = q"""
        with np.errstate(all="ignore"):
            T = np.minimum(q / b, (q / a) ** 0.25)
            for _ in range(100):
                T = T - (a * T ** 4 + b * T - q) / (4 * a * T ** 3 + b)
        return T

    def T_from_P(self, rho, P):
        if not self.rad:
            return P / self.c1(rho)
        return self._newton(AR / 3, self.c1(rho), P)

    def T_from_e(self, rho, e):
        if not self.rad:
            return e * (self.g - 1) / self.c1(rho)
        return self._newton(AR, self.c1(rho) / (self.g - 1), e)

    def P_from_T(self, rho, T):
        return self.c1(rho) * T + (AR * T ** 4 / 3 if self.rad else 0)

    def e_from_T(self, rho, T):
        return self.c1(rho) * T / (self.g - 1) + (AR * T ** 4 if self.rad else 0)

    def e_from_P(self, rho, P):
        if not self.rad:
            return P / (self.g - 1)
        return self.e_from_T(rho, self.T_from_P(rho, P))

    def P_from_e(self, rho, e):
        if not self.rad:
            return e * (self.g - 1)
        return self.P_from_T(rho, self.T_from_e(rho, e))

    def sound(self, rho, P):
        with np.errstate(all="ignore"):
            if not self.rad:
                return np.sqrt(self.g * P / rho)
            T = self.T_from_P(rho, P)
            pg, pr = self.c1(rho) * T, AR * T ** 4 / 3
            a = pr / pg
            return np.sqrt((self.g / (self.g - 1) + 20 * a + 16 * a * a) / (1 / (self.g - 1) + 12 * a) * pg / rho)


class Mesh:
    """nodes x[d] (with ghost nodes), ng[d] ghosts per side"""

    def __init__(self, x, ng, ndim, spherical):
        self.x = [np.array(v, float) for v in x]
        self.ng, self.nd, self.sph = ng, ndim, spherical
        self.dx = [np.diff(v) for v in self.x]
        self.xc = [(v[:-1] + v[1:]) / 2 for v in self.x]
        d0, d1, d2 = (self.dx[0][:, None, None], self.dx[1][None, :, None], self.dx[2][None, None, :])
        n = [len(v) for v in self.dx]
        one = np.ones(n)
        self.one = one
        a, b = self.x[0][:-1][:, None, None], self.x[0][1:][:, None, None]
        th, tp = self.x[1][:-1][None, :, None], self.x[1][1:][None, :, None]
        pi = np.pi
        # area of the left face of every cell and of the right face of every cell, volume
        if not spherical:
            self.S = [d1 * d2 * one, d0 * d2 * one, d0 * d1 * one]
            self.Sp = [s.copy() for s in self.S]
            self.V = d0 * d1 * d2 * one
        else:
            dc = np.cos(th) - np.cos(tp)
            sh = (b ** 3 - a ** 3) / 3
            half = (b ** 2 - a ** 2) / 2
            if ndim == 1:
                w, ph = 4 * pi * one, None
                self.S, self.Sp, self.V = [w * a * a], [w * b * b], w * sh
            else:
                ph = 2 * pi if ndim == 2 else d2
                self.S = [a * a * dc * ph * one, half * np.sin(th) * ph * one]
                self.Sp = [b * b * dc * ph * one, half * np.sin(tp) * ph * one]
                self.V = sh * dc * ph * one
                if ndim == 3:
                    s = half * d1 * one
                    self.S.append(s)
                    self.Sp.append(s.copy())

    def interior(self, margin=0):
        """slices of the interior cells, enlarged by margin ghost cells"""
        return tuple(slice(self.ng[d] - (margin if d < self.nd else 0), len(self.dx[d]) - self.ng[d] + (margin if d < self.nd else 0)) for d in range(3))


def limiter(name):
    def f(R, L):
        if name == "Constant":
            return np.zeros_like(R)
        ok = L * R > 0
        with np.errstate(all="ignore"):
            r = R / L
            if name == "VanLeer":
                s = 0.5 * (R + L) * 4 * r / (r + 1) ** 2
            elif name == "Minmod":
                s = 2 * np.minimum(1.0, r) / (1 + r) * (L + R) / 2
            else:
                s = 0.5 * (R + L) * 2 * r / (r * r + 1)
        return np.where(ok, s, 0.0)

    return f


def sh(a, d, s):
    """value of the neighbour at +s in direction d (wraps; callers only use valid cells)"""
    return np.roll(a, -s, axis=d)


class Prim:
    __slots__ = ("rho", "u", "P")

    def __init__(self, rho, u, P):
        self.rho, self.u, self.P = rho, u, P


class Cons:
    __slots__ = ("rho", "m", "E")

    def __init__(self, rho, m, E):
        self.rho, self.m, self.E = rho, m, E

    def copy(self):
        return Cons(self.rho.copy(), [v.copy() for v in self.m], self.E.copy())


def ek(c):
    return sum(v * v for v in c.m) / c.rho / 2


def prim(c, eos):
    return Prim(c.rho, [v / c.rho for v in c.m], eos.P_from_e(c.rho, c.E - ek(c)))


def cons(p, eos):
    return Cons(p.rho, [p.rho * v for v in p.u], eos.e_from_P(p.rho, p.P) + p.rho * sum(v * v for v in p.u) / 2)


def flux(p, d, eos):
    E = p.rho * sum(v * v for v in p.u) / 2 + eos.e_from_P(p.rho, p.P)
    m = [p.rho * p.u[d] * v for v in p.u]
    m[d] = m[d] + p.P
    return Cons(p.rho * p.u[d], m, p.u[d] * (E + p.P))


def riemann(name, l, r, d, eos):
    with np.errstate(all="ignore"):
        pl, pr = prim(l, eos), prim(r, eos)
        cl, cr = eos.sound(pl.rho, pl.P), eos.sound(pr.rho, pr.P)
        nd = len(l.m)
        if name in ("HLL", "HLLC"):
            wl = np.minimum(pl.u[d] - cl, pr.u[d] - cr)
            wr = np.maximum(pl.u[d] + cl, pr.u[d] + cr)
            fl, fr = flux(pl, d, eos), flux(pr, d, eos)
        if name == "HLL":
            a, b = np.minimum(wl, 0.0), np.maximum(wr, 0.0)

            def h(ul, ur, gl, gr):
                return (b * gl - a * gr + a * b * (ur - ul)) / (b - a)

            return Cons(h(l.rho, r.rho, fl.rho, fr.rho), [h(l.m[i], r.m[i], fl.m[i], fr.m[i]) for i in range(nd)], h(l.E, r.E, fl.E, fr.E))
        if name == "HLLC":
            kl, kr = pl.rho * (wl - pl.u[d]), pr.rho * (wr - pr.u[d])
            us = (pr.P - pl.P + kl * pl.u[d] - kr * pr.u[d]) / (kl - kr)
            ps = 0.5 * (pl.P + pr.P + kl * (us - pl.u[d]) + kr * (us - pr.u[d]))
            left = us > 0
            S = np.where(left, wl, wr)
            s = lambda a, b: np.where(left, a, b)
            rho, E, P, F = s(l.rho, r.rho), s(l.E, r.E), s(pl.P, pr.P), None
            u = [s(pl.u[i], pr.u[i]) for i in range(nd)]
            un = u[d]
            f_rho, f_E, f_m = s(fl.rho, fr.rho), s(fl.E, fr.E), [s(fl.m[i], fr.m[i]) for i in range(nd)]
            sup = wl * wr > 0
            rs = rho * (S - un) / (S - us)
            Es = (S - un) / (S - us) * E + (us - un) / (S - us) * (us * rho * (S - un) + P)
            m = [rs * us * u[i] for i in range(nd)]
            m[d] = rs * us * us + ps
            return Cons(np.where(sup, f_rho, f_rho + S * (rs - rho)), [np.where(sup, f_m[i], m[i]) for i in range(nd)], np.where(sup, f_E, f_E + S * (Es - E)))
        a = 1.1 * np.maximum(pl.rho * cl, pr.rho * cr)
        us = (pl.u[d] + pr.u[d]) / 2 - (pr.P - pl.P) / (2 * a)
        theta = np.minimum(1.0, np.abs(us) / np.minimum(cl, cr))
        ps = (pl.P + pr.P) / 2 - theta * a / 2 * (pr.u[d] - pl.u[d])
        left = us > 0
        m = [us * np.where(left, l.m[i], r.m[i]) for i in range(nd)]
        m[d] = m[d] + ps
        return Cons(us * np.where(left, l.rho, r.rho), m, us * np.where(left, l.E, r.E) + ps * us)


def geometric(mesh, dtodv, pL, pR, d):
    """momentum added by the curvature of the coordinates, for the direction d; list per component"""
    nd = mesh.nd
    out = [0.0] * nd
    if not mesh.sph:
        return out
    S, Sp = mesh.S[d], mesh.Sp[d]
    if d == 0:
        a, b = mesh.x[0][:-1][:, None, None], mesh.x[0][1:][:, None, None]
        out[0] = dtodv * (pL.P + pR.P) / 2 * (Sp - S)
        for o in range(1, nd):
            out[0] = out[0] + dtodv * (pL.rho * pL.u[o] ** 2 + pR.rho * pR.u[o] ** 2) / 2 * (Sp - S) / 2
            out[o] = -dtodv * (b - a) / (b + a) * (pR.rho * pR.u[o] * pR.u[0] * Sp + pL.rho * pL.u[o] * pL.u[0] * S)
    elif d == 1:
        t, tp = mesh.x[1][:-1][None, :, None], mesh.x[1][1:][None, :, None]
        out[1] = dtodv * (pL.P + pR.P) / 2 * (Sp - S)
        if nd == 3:
            out[1] = out[1] + dtodv * (pL.rho * pL.u[2] ** 2 + pR.rho * pR.u[2] ** 2) / 2 * (Sp - S)
            sm, sp = np.sin(t), np.sin(tp)
            out[2] = -dtodv * (sp - sm) / (sp + sm) * (pR.rho * pR.u[2] * pR.u[1] * Sp + pL.rho * pL.u[2] * pL.u[1] * S)
    return out


def step(mesh, eos, c, fx, dt, grav, recon, solver, pf_eps=None, heat=0.0, decay=0.0):
    """State after one step. c: conserved state with ghosts, fx: list of scalars with ghosts, grav: list of nd arrays
    (broadcastable). Returns (Cons, [fx], mask of cells where a discontinuous branch is too close to call); valid in the interior."""
    nd = mesh.nd
    p = prim(c, eos)
    lim = limiter(recon)

    def faces(v):
        out = []
        for d in range(nd):
            dl = mesh.dx[d].reshape([-1 if i == d else 1 for i in range(3)]) * mesh.one
            dp, dm = sh(dl, d, 1), sh(dl, d, -1)
            s = lim((sh(v, d, 1) - v) / ((dl + dp) / 2), (v - sh(v, d, -1)) / ((dm + dl) / 2))
            out.append((v - dl / 2 * s, v + dl / 2 * s))
        return out

    fr, fu, fP, ff = faces(p.rho), [faces(v) for v in p.u], faces(p.P), [faces(v) for v in fx]
    # half step
    pf = [[Prim(fr[d][s], [fu[e][d][s] for e in range(nd)], fP[d][s]) for s in range(2)] for d in range(nd)]
    c0 = [[cons(pf[d][s], eos) for s in range(2)] for d in range(nd)]
    h = dt / 2
    hv = h / mesh.V
    dr, dm, dE, df = 0.0, [0.0] * nd, 0.0, [0.0] * len(fx)
    for d in range(nd):
        S, Sp = mesh.S[d], mesh.Sp[d]
        L, R = flux(pf[d][0], d, eos), flux(pf[d][1], d, eos)
        dr = dr + hv * (L.rho * S - R.rho * Sp)
        g = geometric(mesh, hv, pf[d][0], pf[d][1], d)
        dm = [dm[e] + hv * (L.m[e] * S - R.m[e] * Sp) + g[e] for e in range(nd)]
        dE = dE + hv * (L.E * S - R.E * Sp)
        df = [df[n] + hv * (ff[n][d][0] * L.rho * S - ff[n][d][1] * R.rho * Sp) for n in range(len(fx))]
    c1, f1 = [], []
    for d in range(nd):
        cc, fc = [], []
        for s in range(2):
            o = c0[d][s]
            rho = o.rho + dr
            cc.append(Cons(rho, [o.m[e] + dm[e] + h * grav[e] * o.rho for e in range(nd)], o.E + dE + h * sum(grav[e] * o.m[e] for e in range(nd))))
            with np.errstate(all="ignore"):
                fc.append([(ff[n][d][s] * o.rho + df[n]) / rho for n in range(len(fx))])
        c1.append(cc)
        f1.append(fc)
    # full step
    v = dt / mesh.V
    rho, m, E = c.rho.copy(), [x.copy() for x in c.m], c.E.copy()
    rf = [x * c.rho for x in fx]
    for d in range(nd):
        S, Sp = mesh.S[d], mesh.Sp[d]
        l0 = c1[d][1]
        mR = Cons(sh(l0.rho, d, -1), [sh(x, d, -1) for x in l0.m], sh(l0.E, d, -1))
        L = riemann(solver, mR, c1[d][0], d, eos)
        R = Cons(sh(L.rho, d, 1), [sh(x, d, 1) for x in L.m], sh(L.E, d, 1))
        rho = rho + v * (L.rho * S - R.rho * Sp)
        E = E + v * (L.E * S - R.E * Sp) + dt * grav[d] * c.m[d]
        m = [m[e] + v * (L.m[e] * S - R.m[e] * Sp) for e in range(nd)]
        if mesh.sph:
            with np.errstate(all="ignore"):
                g = geometric(mesh, v, prim(c1[d][0], eos), prim(c1[d][1], eos), d)
            m = [m[e] + g[e] for e in range(nd)]
        m[d] = m[d] + dt * grav[d] * c.rho
        for n in range(len(fx)):
            FL = np.where(L.rho < 0, f1[d][0][n], sh(f1[d][1][n], d, -1)) * L.rho
            rf[n] = rf[n] + v * (FL * S - sh(FL, d, 1) * Sp)
    with np.errstate(all="ignore"):
        fn = [np.clip(x / rho, 0.0, 1.0) for x in rf]
    new = Cons(rho, m, E)
    unsure = np.zeros(rho.shape, bool)
    if pf_eps is not None:
        with np.errstate(all="ignore"):
            kin = ek(c)
            e0 = c.E - kin
            god = (new.E - ek(new)) - e0
            on = e0 < pf_eps * kin
            low = e0 < pf_eps / 10 * kin
            for f in (1.0, 0.1):
                unsure |= np.abs(e0 - f * pf_eps * kin) <= 1e-10 * (np.abs(e0) + np.abs(f * pf_eps * kin))
            alpha = np.where(low, 0.0, e0 * e0 / (kin * kin * pf_eps * pf_eps))
            div, dive = 0.0, 0.0
            pp = [[prim(c1[d][s], eos) for s in range(2)] for d in range(nd)]
            for d in range(nd):
                us = (sh(pp[d][1].u[d], d, -1) + pp[d][0].u[d]) / 2
                up = (pp[d][1].u[d] + sh(pp[d][0].u[d], d, 1)) / 2
                S, Sp = mesh.S[d], mesh.Sp[d]
                div = div + (up * Sp - us * S) / mesh.V
                dive = dive + (up * np.where(up > 0, e0, sh(e0, d, 1)) * Sp - us * np.where(us < 0, e0, sh(e0, d, -1)) * S) / mesh.V
            tot = alpha * god + (1 - alpha) * dt * (-p.P * div - dive)
            new.E = np.where(on, e0 + tot + ek(new), new.E)
    new.E = new.E + dt * heat * new.rho
    fn = [x * (1 - dt * decay) for x in fn]
    return new, fn, unsure


def nickel(t):
    """heating in W/kg of pure nickel 56 of the age t: two decays, nickel to cobalt to iron"""
    day, mev, u = 86400.0, 1.602176634e-13, 1.66053906660e-27
    tn, tc, m = 8.8 * day, 111.3 * day, 55.9421278 * u
    ni = np.exp(-t / tn)
    co = tn and (np.exp(-t / tc) - np.exp(-t / tn)) * tc / (tc - tn)  # number of cobalt nuclei per initial nickel nucleus
    return (1.75 * mev * ni / tn + 3.73 * mev * co / tc) / m


def inverse_dt(mesh, eos, c):
    p = prim(c, eos)
    cs = eos.sound(p.rho, p.P)
    s = 0.0
    for d in range(mesh.nd):
        dx = mesh.dx[d].reshape([-1 if i == d else 1 for i in range(3)]) * mesh.one
        if mesh.sph and d >= 1:
            dx = dx * mesh.xc[0][:, None, None]
            if d == 2:
                dx = dx * np.sin(mesh.xc[1])[None, :, None]
        s = s + (np.abs(p.u[d]) + cs) / dx
    return s


def gravity(kind, mesh, rho, par):
    """list of nd arrays: acceleration in every cell (with ghosts)"""
    nd = mesh.nd
    if kind == "Uniform":
        return [np.full((1, 1, 1), par["g"][d]) for d in range(nd)]
    r = mesh.xc[0]
    if kind == "Point_mass":
        M = np.full(r.shape, par["M"])
    else:
        ng = mesh.ng[0]
        it = mesh.interior()
        V = mesh.V[:, it[1], it[2]]
        with np.errstate(all="ignore"):
            mean = (rho[:, it[1], it[2]] * V).sum(axis=(1, 2)) / V.sum(axis=(1, 2))
        x = mesh.x[0]
        M = np.full(r.shape, float(par["M"]))
        full = 4 * np.pi / 3 * (x[1:] ** 3 - x[:-1] ** 3) * mean
        part = 4 * np.pi / 3 * (r ** 3 - x[:-1] ** 3) * mean
        inside = par["M"]
        for i in range(ng, len(r)):
            M[i] = inside + part[i]
            inside = inside + full[i]
    g = -G * M / r ** 2
    return [g[:, None, None]] + [np.zeros((1, 1, 1)) for _ in range(nd - 1)]


def null_gradient(v, d, f, ng):
    n = v.shape[d]
    src = ng if f == 0 else n - ng - 1
    dst = range(0, ng) if f == 0 else range(n - ng, n)
    for i in dst:
        ix = [slice(None)] * v.ndim
        ix[d] = i
        jx = [slice(None)] * v.ndim
        jx[d] = src
        v[tuple(ix)] = v[tuple(jx)]


def mirror(v, d, f, ng, sign=1.0):
    n = v.shape[d]
    m = 2 * ng - 1 if f == 0 else 2 * (n - ng) - 1
    for i in range(0, ng) if f == 0 else range(n - ng, n):
        ix = [slice(None)] * v.ndim
        ix[d] = i
        jx = [slice(None)] * v.ndim
        jx[d] = m - i
        v[tuple(ix)] = sign * v[tuple(jx)]


def _h(seed, i, j, k, f):
    with np.errstate(over="ignore"):
        u = np.uint64
        M = 0xFFFFFFFFFFFFFFFF
        x = (
            u(seed & M)
            + u(0x9E3779B97F4A7C15) * (np.asarray(i) + 1000).astype(np.uint64)
            + u(0xBF58476D1CE4E5B9) * (np.asarray(j) + 2000).astype(np.uint64)
            + u(0x94D049BB133111EB) * (np.asarray(k) + 3000).astype(np.uint64)
            + u((0xD6E8FEB86659FD93 * (f + 1)) & M)
        )
        x = x ^ (x >> u(30))
        x = x * u(0xBF58476D1CE4E5B9)
        x = x ^ (x >> u(27))
        x = x * u(0x94D049BB133111EB)
        x = x ^ (x >> u(31))
        return (x >> u(11)).astype(float) * 2.0 ** -53


class Fields:
    """the functions of sim/setup/setup.hpp"""

    def __init__(self, u, n):
        self.seed = int(u.get("fseed", 1))
        self.mode = int(u.get("init", 0))
        self.rho0, self.P0, self.u0 = u.get("rho0", 1), u.get("P0", 1), u.get("u0", 0)
        self.amp, self.uamp, self.bcmode = u.get("amp", 0.3), u.get("uamp", 0.3), int(u.get("bcmode", 0))
        self.fxamp = u.get("fxamp", 0.45)
        self.spike = u.get("spike", 0)
        self.rdec, self.pdec = u.get("rdec", 0), u.get("pdec", 0)
        self.at = tuple(int(u.get("bad_" + q, 0)) for q in "ijk")
        self.n = n

    def wave(self, i, j, k, f):
        tp = 6.283185307179586
        a = tp * float(_h(self.seed, np.int64(1), np.int64(2), np.int64(3), 100 + f))
        n0, n1, n2 = self.n
        return np.sin(tp * (i + 0.5) / n0 + a) * (np.cos(tp * (j + 0.5) / n1 + a) if n1 > 1 else 1.0) * (np.cos(tp * (k + 0.5) / n2 - a) if n2 > 1 else 1.0)

    def shape(self, i, j, k, f):
        if self.mode == 1:
            return 0.8 * self.wave(i, j, k, f) + 0.2 * (2 * _h(self.seed, i, j, k, f) - 1)
        if self.mode == 2:
            q = lambda a, n: np.trunc(a * 3 / n).astype(np.int64)
            return 2 * _h(self.seed, q(i, self.n[0]), q(j, self.n[1]), q(k, self.n[2]), f) - 1
        if self.mode == 3:
            return self.wave(i, j, k, f)
        return 2 * _h(self.seed, i, j, k, f) - 1

    def initial(self, nd, nfx):
        i, j, k = np.meshgrid(*[np.arange(m, dtype=np.int64) for m in self.n], indexing="ij")
        rho = self.rho0 * (1 + self.amp * self.shape(i, j, k, 0))
        P = self.P0 * (1 + self.amp * self.shape(i, j, k, 1))
        if self.rdec:
            rho = rho * 10.0 ** (self.rdec * (_h(self.seed, i, j, k, 400) - 0.5))
        if self.pdec:
            P = P * 10.0 ** (self.pdec * (_h(self.seed, i, j, k, 401) - 0.5))
        u = [self.u0 + self.uamp * self.shape(i, j, k, 2 + d) for d in range(nd)]
        if self.spike and all(a < b for a, b in zip(self.at, self.n)):
            for v in u:
                v[self.at] += self.spike
        fx = [np.clip(0.5 + self.fxamp * self.shape(i, j, k, 10 + f), 0.0, 1.0) for f in range(nfx)]
        return rho, u, P, fx

    def user_bc(self, c, fx, d, f, ng, nd, off):
        """applies the user-defined condition on the face (d, f) in place; off: global index of the array's first cell"""
        face = 2 * d + f
        if self.bcmode == 1:
            k = 1 + 0.01 * (face + 1)
            mirror(c.rho, d, f, ng, k)
            for e in range(nd):
                mirror(c.m[e], d, f, ng, k * (-1 if e == d else 1))
            n = c.E.shape[d]
            m = 2 * ng - 1 if f == 0 else 2 * (n - ng) - 1
            for i in range(0, ng) if f == 0 else range(n - ng, n):
                ix, jx = [slice(None)] * 3, [slice(None)] * 3
                ix[d], jx[d] = i, m - i
                ix, jx = tuple(ix), tuple(jx)
                c.E[ix] = k * c.E[jx] + 0.001 * self.P0 * (face + 1)
                for v in fx:
                    v[ix] = (v[jx] + 0.05 * face) / 1.5
            return
        n = c.rho.shape
        sl = [slice(0, m) for m in n]
        sl[d] = slice(0, ng) if f == 0 else slice(n[d] - ng, n[d])
        i, j, k = np.meshgrid(*[np.arange(sl[e].start, sl[e].stop, dtype=np.int64) + off[e] for e in range(3)], indexing="ij")
        sl = tuple(sl)
        r = self.rho0 * (1 + 0.1 * (face + 1) + 0.05 * _h(self.seed, i, j, k, 50 + face))
        c.rho[sl] = r
        e = 0.0
        for q in range(nd):
            v = self.u0 + self.uamp * (0.1 * face - 0.25 + 0.1 * _h(self.seed, i, j, k, 60 + 3 * face + q))
            c.m[q][sl] = r * v
            e = e + r * v * v / 2
        c.E[sl] = e + self.P0 * (1.5 + 0.1 * face + 0.1 * _h(self.seed, i, j, k, 90 + face))
        for q, v in enumerate(fx):
            v[sl] = 0.1 + 0.1 * face + 0.05 * _h(self.seed, i, j, k, 200 + 10 * face + q)


def bc_names(ini, nd):
    b = ini.get("Boundary Condition", {})
    out = []
    for d in range(nd):
        dirv = b.get("BC_X%d" % d, b.get("BC", ""))
        for s in ("left", "right"):
            out.append(b.get("BC_X%d_%s" % (d, s), dirv))
    return out


FACES = ["X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"]


def bc_order(ini, nd):
    """the order in which the faces are applied: the last one decides"""
    pr = ini.get("Boundary Condition", {}).get("priority", "")
    if not pr:
        return list(range(2 * nd))
    l = [FACES.index(x.replace("X0", "X").replace("X1", "Y").replace("X2", "Z")) for x in pr.split()]
    return l[::-1]


def fill_ghosts(c, fx, ini, nd, ng, fields):
    """fills the ghost cells of the whole domain in place"""
    names = bc_names(ini, nd)
    arrs = [c.rho, c.E] + list(c.m) + list(fx)
    # the domain is periodic for the exchange between processes
    for d in range(nd):
        n = c.rho.shape[d]
        for v in arrs:
            for i in range(ng):
                ix, jx = [slice(None)] * 3, [slice(None)] * 3
                ix[d], jx[d] = i, n - 2 * ng + i
                v[tuple(ix)] = v[tuple(jx)]
                ix[d], jx[d] = n - ng + i, ng + i
                v[tuple(ix)] = v[tuple(jx)]
    off = [-ng if d < nd else 0 for d in range(3)]
    for f in bc_order(ini, nd):
        d, s = f // 2, f % 2
        nm = names[f]
        if nm == "NullGradient":
            for v in arrs:
                null_gradient(v, d, s, ng)
        elif nm == "Reflexive":
            mirror(c.rho, d, s, ng)
            mirror(c.E, d, s, ng)
            for e in range(nd):
                mirror(c.m[e], d, s, ng, -1.0 if e == d else 1.0)
            for v in fx:
                mirror(v, d, s, ng)
        elif nm == "UserDefined":
            fields.user_bc(c, fx, d, s, ng, nd, off)


def nodes(ini, u, nd, regular_ghosts=True):
    """global node coordinates with ghost nodes"""
    g = ini["Grid"]
    out = []
    for d in range(3):
        n = int(g.get("Nx%d_glob" % d, 0))
        ng = int(g.get("Nghost", 2)) if d < nd else 0
        lo, hi = float(g.get("x%dmin" % d, 0)), float(g.get("x%dmax" % d, 1))
        dx = (hi - lo) / n
        i = np.arange(n + 2 * ng + 1) - ng
        if g.get("type", "Regular") == "UserDefined" and d < nd:
            jit = u.get("stretch", 0.3) * (_h(int(u.get("fseed", 1)), np.mod(i, n).astype(np.int64), np.int64(d), np.int64(7), 300) - 0.5)
            out.append(lo + (i + jit) * dx)
        else:
            out.append(lo + i * dx)
    return out
