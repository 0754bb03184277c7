"""C17: the gravity applied is the field configured, up to date and the same everywhere."""
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed, compare_state
from ..outputs import completed, outputs, refused, scalar
from .C16 import shifted

ID = "C17"
LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 90000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-sphe-Internal_mass-sim", "3d-pg-sphe-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-rad-sphe-Point_mass-sim", "2d-pg-cart-Point_mass-sim"]
MUST = ["enclosed mass", "enclosed mass over processes", "uniform", "point mass", "split direction rejected", "shifted grid", "restart", "no central mass", "heavy gas", "steps compared", "1 dimensions", "2 dimensions", "3 dimensions"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 4, 6, 9]), steps=rng.choice([1, 2, 3, 4]), small=rng.random() < 0.6)
    nd = int(cfg[0])
    u, G, g = p["u"], p["ini"]["Gravity"], p["ini"]["Grid"]
    cs2 = u["P0"] / u["rho0"]
    B = p["ini"]["Boundary Condition"]
    # a user-defined face on every process sees the acceleration
    names = ref.bc_names(p["ini"], nd)
    for q in [x for x in B if x != "priority"]:
        B.pop(q)
    for d in range(nd):
        if names[2 * d] != "Periodic" or d == 0:
            names[2 * d] = names[2 * d + 1] = "UserDefined"
        for s in range(2):
            B["BC_X%d_%s" % (d, ("left", "right")[s])] = names[2 * d + s]
    L = float(g["x0max"]) - float(g["x0min"])
    p["bad"] = None
    if "Uniform" in cfg:
        for d in range(3):
            if rng.random() < 0.7:
                G["gx%d" % d] = float("%.5g" % (rng.uniform(-1, 1) * rng.choice([0.1, 1, 3]) * cs2 / L))
    else:
        r = float(g["x0min"])
        G["M"] = float("%.5g" % (rng.choice([0.2, 1.0, 3.0]) * cs2 * r / ref.G)) if rng.random() < 0.8 else 0.0
    if "Internal_mass" in cfg:
        # a domain large enough for the mass of the gas to count
        if rng.random() < 0.8:
            f = (rng.choice([0.1, 1.0, 4.0]) * cs2 / (ref.G * u["rho0"])) ** 0.5
            old = float(g["x0max"]) - float(g["x0min"])
            for q in ("x0min", "x0max"):
                g[q] = float("%.7g" % (float(g[q]) / old * f))
            r = float(g["x0min"])
            if G.get("M"):
                G["M"] = float("%.5g" % (rng.choice([0.2, 1.0]) * cs2 * r / ref.G))
            u["heat"] = float("%.5g" % (u.get("heat", 0) * old / f))
            u["decay"] = float("%.5g" % (u.get("decay", 0) * old / f))
        if rng.random() < 0.15:
            p["bad"] = "split"
            n = rng.choice([2, 2, 3, 4])
            nr = 1
            if rng.random() < 0.6:
                p["dims"] = [n, 1, 1]
                p["ranks"] = n
                for d in range(3):
                    p["ini"]["Parallelization"]["mpi_dims_cart_x%d" % d] = p["dims"][d]
            else:
                p["ranks"] = n
                for d in range(3):
                    p["ini"]["Parallelization"].pop("mpi_dims_cart_x%d" % d, None)
            g["Nx0_glob"] = max(int(g["Nx0_glob"]), n * int(g["Nghost"]))
            if nd > 1:
                g["Nx1_glob"] = max(int(g["Nx1_glob"]), n * int(g["Nghost"]))
            if nd > 2:
                g["Nx2_glob"] = max(int(g["Nx2_glob"]), n * int(g["Nghost"]))
    u["probe_gravity"] = 1
    p = probed(p)
    if rng.random() < 0.3 and not p["bad"]:
        p["u"]["shift_every"] = rng.choice([1, 2])
    p["restart"] = rng.random() < 0.2 and not p["bad"] and not p["u"].get("shift_every")
    return p


def check(p, ctx):
    s = problem.scn(p)
    if p["bad"]:
        ph = ctx.run1("refused", s, p["cfg"])
        refused(ph, "accepted", "the radial direction split over the processes")
        if state.steps(ph) or outputs(ph):
            raise Violation("accepted", "the radial direction is split over the processes: outputs or steps were made")
        ctx.mark("split direction rejected")
        return
    m = Model(p)
    ph = ctx.run1("run", s, p["cfg"])
    if "detected invalid" not in ph.err() + ph.msg:
        completed(ph, "failed", "run")
    last = follow(p, m, ph, ctx, m.initial(), "run")
    if p["restart"] and ph.end == "completed":
        o = outputs(ph)
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % max(o)}, "Output": {"max_iter": int(p["ini"]["Output"]["max_iter"]) + 2}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ph = ctx.run("restarted", s, p["cfg"])[-1]
        if "detected invalid" not in ph.err() + ph.msg:
            completed(ph, "failed", "restart")
        ctx.mark("restart")
        follow(q, m, ph, ctx, last, "restart")
    ctx.mark("%d dimensions" % m.nd)


def follow(p, m, ph, ctx, prev, what):
    every = int(p["u"].get("shift_every", 0))
    tol = 1e-9 if not m.eos.rad else 1e-7
    dts, sts = state.steps(ph), state.states(ph)
    acc = per_step(ph)
    kind = m.cfg.grav
    for k, d in enumerate(dts):
        c, f = prev
        if not np.isfinite(c.rho).all() or not m.valid(c):
            break
        g = m.gravity(c.rho)
        seen = acc.get(k, {})
        if not seen and ph.end == "completed":
            raise Violation("unseen", "%s: no process applied a boundary condition in step %d" % (what, k))
        for r, (corner, a) in sorted(seen.items()):
            n = a.shape
            inner = tuple(slice(m.ng[e] - (e < m.nd), n[e] - m.ng[e] + (e < m.nd)) for e in range(3))
            for e in range(m.nd):
                w = np.broadcast_to(g[e], [len(x) for x in m.mesh.dx])
                w = w[tuple(slice(corner[q], corner[q] + n[q]) for q in range(3))][inner]
                x = a[..., e][inner]
                s = max(np.max(np.abs(w)), 1e-300)
                if not np.all(np.abs(x - w) <= 1e-11 * np.abs(w) + 1e-14 * s):
                    i = tuple(int(q) for q in np.argwhere(~(np.abs(x - w) <= 1e-11 * np.abs(w) + 1e-14 * s))[0])
                    raise Violation("acceleration", "%s: step %d, process %d: the acceleration %d of its cell %s is %r instead of %r" % (what, k, r, e, i, float(x[i]), float(w[i])))
            if kind == "Internal_mass":
                ctx.mark("enclosed mass")
                if p["ranks"] > 1:
                    ctx.mark("enclosed mass over processes")
                if m.gpar["M"] == 0:
                    ctx.mark("no central mass")
                G0 = np.abs(g[0]).ravel() * m.mesh.xc[0] ** 2 / ref.G
                if G0[-m.ng[0]] > 1.5 * max(m.gpar["M"], 1e-300):
                    ctx.mark("heavy gas")
            else:
                ctx.mark("uniform" if kind == "Uniform" else "point mass")
        if k >= len(sts):
            break
        with np.errstate(all="ignore"):
            want, fwant, unsure = m.step(c, f, d[0][1])
        got, fgot, ng, n = state.assemble(sts[k], m.nd)
        it = m.mesh.interior()
        if not (np.isfinite(want.E[it]).all() and np.all(want.rho[it] > 0)):
            break
        a, b = m.scales(c), m.scales(got)
        sc = {q: max(a[q], b[q]) for q in a}
        compare_state("update", "%s: step %d" % (what, k), got, fgot, want, fwant, tol, sc, it, unsure)
        ctx.mark("steps compared")
        prev = (got, fgot)
        if every and (k + 1) % every == 0:
            ctx.mark("shifted grid")
            m.shift_nodes()
            prev = shifted(m, got, fgot)
    return prev


def per_step(ph):
    """{step: {rank: (corner, acceleration with ghosts)}} given to the boundary conditions first in each step"""
    now, where, out = {}, {}, {}
    for name, rank, ev, v in ph.probes:
        if name == "step":
            now[rank] = now.get(rank, -1) + 1
        elif name == "gv.where":
            where[rank] = [int(x) for x in v]
        elif name == "gv.g":
            k = now.get(rank, -1)
            if k >= 0:
                out.setdefault(k, {}).setdefault(rank, (where[rank], state.arr(v)))
    return out


def shrink(p):
    if p["bad"]:
        return
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["restart"]:
        yield dict(p, restart=False)
    if p["u"].get("shift_every"):
        yield problem.variant(p, u=dict(p["u"], shift_every=0))
