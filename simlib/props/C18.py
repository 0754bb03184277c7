"""C18: the thermodynamic fields of every output agree with the equation of state."""
import numpy as np
from .. import core, problem, ref
from ..driver import Violation, Trivial
from ..outputs import completed, outputs, scalar

ID = "C18"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 90000}
QUICK = ["1d-rad-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-rad-cart-Uniform-sim"]
MORE = ["3d-pg-sphe-Uniform-sim", "1d-rad-sphe-Internal_mass-sim", "2d-rad-cart-Uniform-sim"]
MUST = ["gas pressure dominates", "radiation dominates", "mixed regime", "cold", "hot", "many decades in one output", "supersonic", "shifted grid", "restart", "restart after restart", "start output", "diagnostic output", "negative internal energy in the output", "outputs of a running problem", "mu", "gamma", "over processes"]
ASSUMPTIONS = ["gas plus radiation is solved for the temperature to 1e-6 K: temperatures are drawn well above that"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 1, 2, 4, 6]), steps=rng.choice([1, 2, 4, 6]), small=rng.random() < 0.5)
    nd = int(cfg[0])
    u, g, ini = p["u"], p["ini"]["Grid"], p["ini"]
    rad = "rad" in cfg
    if rng.random() < 0.5:
        ini["Perfect Gas"]["mu"] = rng.choice([0.5, 0.6, 2.0, 12.0])
    if rng.random() < 0.5:
        ini["Perfect Gas"]["gamma"] = rng.choice([1.05, 1.2, 1.4, 5. / 3, 2.0, 3.0])
    mu = float(ini["Perfect Gas"].get("mu", 1.0))
    if rad:
        rho0 = 10.0 ** rng.uniform(-12, 3)
        T0 = 10.0 ** rng.uniform(1.0, 8)
        if rng.random() < 0.5:  # near the change of regime
            T0 = (rng.choice([0.03, 0.3, 1, 3, 30]) * 3 * rho0 * 1.380649e-23 / (mu * 1.672649e-27 * 7.565733e-16)) ** (1. / 3)
        P0 = rho0 * 1.380649e-23 * T0 / (mu * 1.672649e-27) + 7.565733e-16 * T0 ** 4 / 3
    else:
        rho0, P0 = 10.0 ** rng.uniform(-12, 4), 10.0 ** rng.uniform(-10, 12)
    cs = (P0 / rho0) ** 0.5
    u["rho0"], u["P0"] = float("%.6g" % rho0), float("%.6g" % P0)
    u["u0"] = float("%.6g" % (cs * rng.choice([0, 0.1, 1, 10]) * rng.choice([-1, 1])))
    u["uamp"] = float("%.6g" % (cs * rng.choice([0.02, 0.3, 1.0])))
    for k in ("heat", "decay"):
        u.pop(k, None)
    if rng.random() < 0.4:
        u["rdec"] = rng.choice([1.0, 3.0, 6.0])
        u["pdec"] = rng.choice([0, 1.0, 4.0])
    if rng.random() < 0.3:
        ini["User step"]["user_step"] = "UserDefined"
        L = float(g["x0max"]) - float(g["x0min"])
        u["heat"] = float("%.5g" % (rng.choice([0.2, -0.3]) * P0 / rho0 * cs / L))
    L = float(g["x0max"]) - float(g["x0min"])
    if "Uniform" in cfg:
        for d in range(3):
            if "gx%d" % d in ini["Gravity"]:
                ini["Gravity"]["gx%d" % d] = float("%.5g" % (rng.uniform(-1, 1) * 0.1 * cs * cs / L))
    else:
        ini["Gravity"]["M"] = float("%.5g" % (0.2 * cs * cs * float(g["x0min"]) / ref.G))
    if rng.random() < 0.35:
        g["shift_grid"] = "UserDefined"
        u["shift_every"] = rng.choice([1, 2])
    p["bad"] = rng.random() < 0.12
    if p["bad"]:
        u["bad_init"] = rng.choice([1, 1, 2, 3])
        for d, q in enumerate("ijk"):
            u["bad_" + q] = rng.randrange(int(g["Nx%d_glob" % d]))
    p["ini"]["Output"]["iter_frequency"] = rng.choice([1, 1, 2])
    p["restarts"] = [] if p["bad"] else [rng.random() for _ in range(rng.choice([0, 0, 1, 2]))]
    return p


def verify(h, eos, gamma, what, ctx):
    nd = len([n for n in h.d if n.startswith("ux")])
    f = {n: np.asarray(h.d[n], float) for n in ("rho", "P", "T", "E")}
    if scalar(h, "gamma") != gamma:
        raise Violation("gamma", "%s: gamma is %r instead of %r" % (what, float(scalar(h, "gamma")), gamma))
    rho, P, T, E = f["rho"], f["P"], f["T"], f["E"]
    u = [np.asarray(h.d["ux%d" % d], float) for d in range(nd)]
    with np.errstate(all="ignore"):
        ek = rho * sum(v * v for v in u) / 2
        e = E - ek
        big = np.abs(E) + ek
        # cells whose state has no meaning are left out of the relations
        ok = np.isfinite(rho) & np.isfinite(E) & np.isfinite(ek) & (rho > 0)
        pos = ok & (e > 1e-9 * big)
        if (ok & (e < -1e-9 * big)).any():
            ctx.mark("negative internal energy in the output")
        bad = pos & ~((P > 0) & (T > 0) & np.isfinite(P) & np.isfinite(T))
        report(bad, "sign", what, f, e)
        # total energy and pressure: e(rho, P); cancellation of the kinetic part limits what is known of e
        tol = 1e-10 * (1 if not eos.rad else 1000)
        known = 2e-13 * big
        tolT = tol + (2e-6 / np.where(pos, np.abs(T), 1.0) if eos.rad else 0.0)
        eP = eos.e_from_P(rho, np.where(pos, P, 1.0))
        report(pos & ~(np.abs(eP - e) <= tolT * e * (4 if eos.rad else 1) + 4 * known), "energy", what, f, e, eP)
        TP = eos.T_from_P(rho, np.where(pos, P, 1.0))
        report(pos & ~(np.abs(TP - T) <= tolT * T), "temperature", what, f, e, TP)
        PT = eos.P_from_T(rho, np.where(pos, T, 1.0))
        report(pos & ~(np.abs(PT - P) <= 4 * tolT * P), "pressure", what, f, e, PT)
        if pos.any():
            if eos.rad:
                a = (ref.AR * T ** 4 / 3 / (eos.c1(rho) * T))[pos]
                ctx.mark("radiation dominates", int((a > 10).any()))
                ctx.mark("gas pressure dominates", int((a < 0.1).any()))
                ctx.mark("mixed regime", int(((a > 0.1) & (a < 10)).any()))
                ctx.mark("cold", int((T[pos] < 100).any()))
                ctx.mark("hot", int((T[pos] > 1e7).any()))
            r = rho[pos]
            ctx.mark("many decades in one output", int(r.max() / r.min() > 1e3))
            ctx.mark("supersonic", int((ek[pos] > 3 * P[pos]).any()))


def report(bad, kind, what, f, e, want=None):
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation(kind, "%s: cell (k,j,i)=%s: rho=%r P=%r T=%r E=%r, internal energy %r%s (%d cells)" % (what, i, float(f["rho"][i]), float(f["P"][i]), float(f["T"][i]), float(f["E"][i]), float(e[i]), "" if want is None else ", expected %r" % float(want[i]), int(bad.sum())))


def check(p, ctx):
    c = core.Cfg.parse(p["cfg"])
    pg = p["ini"]["Perfect Gas"]
    gamma = float(pg.get("gamma", 5. / 3))
    eos = ref.EOS(c.eos, gamma, float(pg.get("mu", 1.0)))
    s = problem.scn(p)
    ph = ctx.run1("run", s, p["cfg"])
    inv = "detected invalid" in ph.err() + ph.msg
    if not inv:
        completed(ph, "failed", "run", trivial_ok=("time step is negative",))
    out = outputs(ph)
    for i in sorted(out):
        verify(out[i], eos, gamma, "output %d" % i, ctx)
    if 0 in out:
        ctx.mark("start output")
    if len(out) > 2 or (len(out) > 1 and not inv):
        ctx.mark("outputs of a running problem")
    if inv:
        ctx.mark("diagnostic output")
    if "mu" in pg:
        ctx.mark("mu")
    if gamma not in (5. / 3,):
        ctx.mark("gamma")
    if p["ranks"] > 1:
        ctx.mark("over processes")
    if "Shifting grid" in ph.out():
        ctx.mark("shifted grid")
    last = [i for i in sorted(out)]
    if inv:
        last = last[:-1]
    n = 0
    for k, at in enumerate(p["restarts"]):
        if not last:
            return
        ident = last[int(at * len(last))]
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % ident}})
        it = int(scalar(out[ident], "iter"))
        q["ini"]["Output"]["max_iter"] = it + 2
        s = dict(s)
        k = int(s.get("nphase", 1))
        s["nphase"] = k + 1
        s["p%d.file:/sim/x.ini" % k] = problem.ini_text(q["ini"])
        ph = ctx.run("restart%d" % k, s, p["cfg"])[-1]
        inv = "detected invalid" in ph.err() + ph.msg
        if not inv:
            completed(ph, "failed", "restart", trivial_ok=("time step is negative",))
        new = outputs(ph)
        for i in sorted(new):
            verify(new[i], eos, gamma, "restart %d: output %d" % (k, i), ctx)
        ctx.mark("restart")
        if n:
            ctx.mark("restart after restart")
        n += 1
        out = new
        last = [i for i in sorted(out)]
        if inv:
            return


def shrink(p):
    for q in problem.shrink(p):
        yield q
    if p["restarts"]:
        yield dict(p, restarts=p["restarts"][:-1])
    for k in ("rdec", "pdec", "shift_every"):
        if p["u"].get(k):
            yield problem.variant(p, u=dict(p["u"], **{k: 0}))
