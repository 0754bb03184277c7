"""C13: all processes advance by the same stable time step."""
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed
from ..outputs import completed, outputs, scalar
from .C16 import shifted

ID = "C13"
LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 120000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-rad-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-rad-sphe-Point_mass-sim"]
MUST = ["full steps", "shortened to an output time", "shortened to the end", "limited by a ghost cell", "limited by another process", "several ranks", "spherical", "stretched grid", "shifted grid", "restart", "supersonic", "1 dimensions", "2 dimensions", "3 dimensions"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 4, 6, 8]), steps=rng.choice([1, 2, 4, 6]))
    p = probed(p)
    nd = int(cfg[0])
    u, r = p["u"], p["ini"]["Run"]
    r["cfl"] = rng.choice([0.5, 0.4, 0.3, 0.2, 0.05, 0.123])
    if rng.random() < 0.6:
        # one fast cell anywhere
        u["spike"] = float("%.5g" % (rng.choice([-1, 1]) * rng.choice([0.3, 1.5, 6.0]) * (u["P0"] / u["rho0"]) ** 0.5))
        edge = rng.random() < 0.5
        for d, q in enumerate("ijk"):
            n = int(p["ini"]["Grid"]["Nx%d_glob" % d])
            u["bad_" + q] = 0 if d >= nd else rng.choice([0, n - 1]) if edge else rng.randrange(n)
        r["cfl"] = min(r["cfl"], 0.3)
    if rng.random() < 0.15:
        u["shift_every"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        r["t_ini"] = rng.choice([-2.5, 0.125, 7.0])
    p["tfreq"] = rng.choice([None, None, 0.3, 0.61, 1.7])
    p["tend"] = rng.choice([None, None, 0.4, 0.97])
    p["restart"] = rng.random() < 0.2 and not u.get("shift_every")
    # t_ini in units of the length of the run
    p["tini"] = r.pop("t_ini", 0.0)
    r["t_ini"] = 0.0
    return p


def check(p, ctx):
    if p["tfreq"] or p["tend"] or p["tini"]:
        ph = ctx.run1("length", problem.scn(problem.serial(p)), p["cfg"])
        completed(ph, "failed", "run")
        T = sum(v[0][1] for v in state.steps(ph))
        one = state.steps(ph)[0][0][1]
        t0 = p["tini"] * T
        p = problem.variant(p, ini={"Run": {"t_ini": t0}})
        if p["tfreq"]:
            p = problem.variant(p, ini={"Output": {"time_frequency": p["tfreq"] * one * 1.3}})
        if p["tend"]:
            p = problem.variant(p, ini={"Run": {"t_end": t0 + p["tend"] * T}})
    s = problem.scn(p)
    n1 = int(p["ini"]["Output"]["max_iter"])
    ph = ctx.run1("run", s, p["cfg"])
    if not "detected invalid" in ph.err() + ph.msg:
        completed(ph, "failed", "run")
    m = Model(p)
    last = follow(p, m, ph, ctx, m.initial(), float(p["ini"]["Run"]["t_ini"]), "run")
    if p["restart"] and ph.end == "completed":
        o = outputs(ph)
        k = max(o)
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % k}, "Output": {"max_iter": n1 + 2}, "Run": {"t_end": 1e30}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ph = ctx.run("restarted", s, p["cfg"])[-1]
        if not "detected invalid" in ph.err() + ph.msg:
            completed(ph, "failed", "restart")
        ctx.mark("restart")
        follow(q, Model(q), ph, ctx, last, float(scalar(o[k], "current_time")), "restart")
    if p["ranks"] > 1:
        ctx.mark("several ranks")
    if m.cfg.geom == "Spherical":
        ctx.mark("spherical")
    if p["ini"]["Grid"]["type"] == "UserDefined":
        ctx.mark("stretched grid")
    ctx.mark("%d dimensions" % m.nd)


def follow(p, m, ph, ctx, prev, t, what):
    """checks the steps of a run that starts from the state prev; returns its last state"""
    tol = 1e-11 if not m.eos.rad else 1e-7
    cfl, t_end = float(p["ini"]["Run"]["cfl"]), float(p["ini"]["Run"]["t_end"])
    f = float(p["ini"]["Output"].get("time_frequency", 0) or 0)
    first = float(p["ini"]["Run"]["t_ini"]) + f
    sts = state.states(ph)
    every = int(p["u"].get("shift_every", 0))
    for k, d in enumerate(state.steps(ph)):
        if len(d) != p["ranks"]:
            raise Violation("steps-differ", "%s: step %d is made by the processes %s only" % (what, k, sorted(d)))
        if len(set(d.values())) != 1:
            raise Violation("dt-differs", "%s: step %d: the processes use %s" % (what, k, sorted(set(d.values()))))
        a, dt = d[0]
        if a != t:
            raise Violation("time", "%s: step %d starts at %r instead of %r" % (what, k, a, t))
        if not (dt > 0 and t + dt > t):
            raise Violation("not-increasing", "%s: step %d goes from %r by %r" % (what, k, t, dt))
        c, fx = prev
        if not m.valid(c):
            break
        with np.errstate(all="ignore"):
            inv = ref.inverse_dt(m.mesh, m.eos, c)
        i = np.unravel_index(np.argmax(inv), inv.shape)
        full = cfl / float(inv[i])
        if dt > full * (1 + tol):
            raise Violation("too-long", "%s: step %d (time %r) has length %r, the limit is %r, set by cell %s" % (what, k, t, dt, full, cell(m, i)))
        if dt < full * (1 - tol):
            near = lambda x: abs(t + dt - x) <= 1e-13 * (abs(t) + abs(x) + dt)
            n = round((t + dt - first) / f) if f > 0 else 0
            if near(t_end):
                ctx.mark("shortened to the end")
            elif f > 0 and near(first + n * f):
                ctx.mark("shortened to an output time")
            else:
                raise Violation("too-short", "%s: step %d (time %r) has length %r instead of %r, set by cell %s, and ends neither at an output time nor at the end" % (what, k, t, dt, full, cell(m, i)))
        else:
            ctx.mark("full steps")
        g = cell(m, i)
        if any(x < 0 or x >= m.n[e] for e, x in enumerate(g)):
            ctx.mark("limited by a ghost cell")
        elif p["ranks"] > 1 and k < len(sts) and not in_rank0(sts[k], g):
            ctx.mark("limited by another process")
        with np.errstate(all="ignore"):
            pr = ref.prim(c, m.eos)
            if max(np.max(np.abs(v)) for v in pr.u) > np.min(m.eos.sound(pr.rho, pr.P)):
                ctx.mark("supersonic")
        t = t + dt
        if k >= len(sts):
            break
        got, fgot, ng, n = state.assemble(sts[k], m.nd)
        prev = (got, fgot)
        if every and (k + 1) % every == 0:
            m.shift_nodes()
            prev = shifted(m, got, fgot)
            ctx.mark("shifted grid")
    return prev


def cell(m, i):
    return tuple(int(i[d]) - m.ng[d] for d in range(3))


def in_rank0(st, g):
    l = st.get(0)
    return l is not None and all(l.corner[d] <= g[d] < l.corner[d] + l.n[d] for d in range(3))


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    for k in ("tfreq", "tend"):
        if p[k]:
            yield dict(p, **{k: None})
    if p["tini"]:
        yield dict(p, tini=0.0)
    if p["restart"]:
        yield dict(p, restart=False)
    for k in ("spike", "shift_every"):
        if p["u"].get(k):
            yield problem.variant(p, u=dict(p["u"], **{k: 0}))
