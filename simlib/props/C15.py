"""C15: shifting the grid moves data and coordinates together."""
import re
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed, compare_state
from ..outputs import completed, outputs, scalar

ID = "C15"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 90000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-rad-sphe-Point_mass-sim"]
MUST = ["shifts", "exact shifts", "shift over a process border", "stopped by the limit", "several shifts", "periodic direction", "restart after a shift", "stretched grid", "steps after the stop", "scalars", "1 dimensions", "2 dimensions", "3 dimensions"]
ASSUMPTIONS = ["a restart after the grid stopped shifting starts with the configured outer condition again"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 4, 6, 8]), steps=rng.choice([2, 3, 4, 6]), small=rng.random() < 0.5)
    p["u"]["shift_every"] = rng.choice([1, 1, 2, 3])
    p["pick"] = rng.random()
    p["restart"] = rng.random() < 0.3
    p["ini"]["Output"]["iter_frequency"] = 1
    p = probed(p)
    m = Model(p)
    if rng.random() < 0.45:
        # a limit reached after 0, 1, 2... shifts, not within rounding of a node
        n = rng.randrange(4)
        x = m.x[0]
        L = x[-1] - x[0]
        for _ in range(n):
            m.shift_nodes()
            x = m.x[0]
        e = x[m.n[0] + m.ng[0] + 1]
        w = e - x[m.n[0] + m.ng[0]]
        p["ini"]["Problem"]["rmax_shift"] = float(e + w * rng.choice([-0.5, -0.01, 0.0]) * rng.random() - 1e-9 * w)
    return p


def names_of(m, stopped):
    b = m.p["ini"]["Boundary Condition"]
    nm = ref.bc_names(m.p["ini"], m.nd)
    if stopped:
        nm[1] = "NullGradient"
    out = {"BC_X%d_%s" % (q // 2, ("left", "right")[q % 2]): nm[q] for q in range(2 * m.nd)}
    if "priority" in b:
        out["priority"] = b["priority"]
    return out


def full_state(m, h, stopped):
    """conserved state with ghosts from an output"""
    it = m.mesh.interior()
    shape = [len(d) for d in m.mesh.dx]

    def put(a):
        g = np.zeros(shape)
        g[it] = np.asarray(a, float).transpose()
        return g

    rho = put(h.d["rho"])
    c = ref.Cons(rho, [rho * put(h.d["ux%d" % d]) for d in range(m.nd)], put(h.d["E"]))
    f = [put(h.d["fx%d" % q]) for q in range(m.nfx)]
    fill(m, c, f, stopped)
    return c, f


def fill(m, c, f, stopped):
    ini = dict(m.ini)
    ini["Boundary Condition"] = names_of(m, stopped)
    with np.errstate(all="ignore"):
        c.rho[c.rho == 0] = np.nan
        ref.fill_ghosts(c, f, ini, m.nd, m.ng[0], m.fields)


def moved(a):
    b = a.copy()
    b[:-1] = a[1:]
    return b


def check(p, ctx):
    s = problem.scn(p)
    ph = ctx.run1("run", s, p["cfg"])
    if "detected invalid" not in ph.err() + ph.msg:
        completed(ph, "failed", "run")
    m = Model(p)
    follow(p, m, ph, ctx, None, "run")
    if p["restart"] and ph.end == "completed":
        o = outputs(ph)
        ids = sorted(o)
        k = ids[int(p["pick"] * len(ids))]
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % k}, "Output": {"max_iter": int(scalar(o[k], "iter")) + 3}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ph = ctx.run("restarted", s, p["cfg"])[-1]
        if "detected invalid" not in ph.err() + ph.msg:
            completed(ph, "failed", "restart")
        m = Model(p)
        x0 = m.x[0]
        for _ in range(len(ids) * 2):
            if np.allclose(m.x[0], o[k].d["x0"], rtol=1e-12, atol=0):
                break
            m.shift_nodes()
        else:
            raise Violation("coordinates", "output %d has coordinates %s" % (k, o[k].d["x0"]))
        if m.x[0][0] != x0[0]:
            ctx.mark("restart after a shift")
        follow(q, m, ph, ctx, (k, o[k]), "restart from output %d" % k)
    if m.nfx:
        ctx.mark("scalars")
    if p["ini"]["Grid"]["type"] == "UserDefined":
        ctx.mark("stretched grid")
    if ref.bc_names(p["ini"], m.nd)[1] == "Periodic":
        ctx.mark("periodic direction")
    ctx.mark("%d dimensions" % m.nd)


def follow(p, m, ph, ctx, start, what):
    outs = outputs(ph)
    dts = [d[0][1] for d in state.steps(ph) if 0 in d]
    sts = state.states(ph)
    every = int(p["u"]["shift_every"])
    rmax = float(p["ini"]["Problem"].get("rmax_shift", 1e100))
    k0 = 0 if start is None else start[0]
    if k0 not in outs:
        raise Violation("no-output", "%s: outputs %s" % (what, sorted(outs)))
    h = outs[k0]
    coordinates(m, h, outs[k0], "%s: output %d" % (what, k0))
    stopped = False
    nshift = 0
    tol = 1e-9 if not m.eos.rad else 1e-7
    for k, dt in enumerate(dts):
        if k0 + k + 1 not in outs:
            break
        nxt = outs[k0 + k + 1]
        c, f = full_state(m, h, stopped)
        if not m.valid(ref.Cons(*[v[m.mesh.interior()] if not isinstance(v, list) else [x[m.mesh.interior()] for x in v] for v in (c.rho, c.m, c.E)])):
            break
        with np.errstate(all="ignore"):
            want, fwant, unsure = m.step(c, f, dt)
        ghosts_model = want, fwant
        # does the grid move after this step?
        try_ = not stopped and (k + 1) % every == 0
        move = False
        if try_:
            edge = m.x[0][m.n[0] + m.ng[0] + 1]
            if edge >= rmax:
                stopped = True
                ctx.mark("stopped by the limit")
            else:
                move = True
        exact = None
        if move:
            fill(m, want, fwant, stopped)
            if k < len(sts) and len(sts[k]) == p["ranks"]:
                got, fgot, ng, n = state.assemble(sts[k], m.nd)
                exact = ref.Cons(moved(got.rho), [moved(v) for v in got.m], moved(got.E)), [moved(v) for v in fgot]
            want = ref.Cons(moved(want.rho), [moved(v) for v in want.m], moved(want.E))
            fwant = [moved(v) for v in fwant]
            un = unsure.copy()
            fill_mask = np.zeros_like(unsure)
            unsure = moved(un) | fill_mask
            m.shift_nodes()
            nshift += 1
            ctx.mark("shifts")
            if any(l.corner[0] > 0 for l in (sts[k].values() if k < len(sts) else [])):
                ctx.mark("shift over a process border")
            # the last cell takes its value from a ghost cell: unsure if any cell is
            if unsure.any():
                unsure[:] = True
        w2 = "%s: output %d, after step %d%s" % (what, k0 + k + 1, k, ", shift %d" % nshift if move else "")
        coordinates(m, nxt, h, w2)
        c2, f2 = full_state(m, nxt, stopped)
        it = m.mesh.interior()
        if exact is not None:
            e, ef = exact
            for name, a, b in [("rho", c2.rho, e.rho), ("E", c2.E, e.E)] + [("fx%d" % q, f2[q], ef[q]) for q in range(m.nfx)]:
                if not np.array_equal(a[it], b[it], equal_nan=True):
                    i = tuple(int(x) for x in np.argwhere(~((a[it] == b[it]) | (np.isnan(a[it]) & np.isnan(b[it]))))[0])
                    raise Violation("moved", "%s: %s at %s is %r instead of %r, the value of its outer neighbour before" % (w2, name, i, float(a[it][i]), float(b[it][i])))
            for d in range(m.nd):
                a, b = c2.m[d][it], e.m[d][it]
                if not np.allclose(a, b, rtol=1e-14, atol=0, equal_nan=True):
                    raise Violation("moved", "%s: the momentum %d is not that of the outer neighbours" % (w2, d))
            ctx.mark("exact shifts")
        if np.isfinite(want.E[it]).all() and np.all(want.rho[it] > 0):
            sc, sc2 = m.scales(c), m.scales(c2)
            sc = {q: np.nanmax([sc[q], sc2[q]]) for q in sc}
            first_rad = m.eos.rad and start is not None and k == 0
            compare_state("update", w2, c2, f2, want, fwant, tol if not first_rad else 5e-5, sc, it, unsure)
            if stopped and not try_:
                ctx.mark("steps after the stop")
        h = nxt
    if nshift > 1:
        ctx.mark("several shifts")
    said = len(re.findall(r"Shifting grid", ph.out()))
    if said != nshift and ph.end == "completed":
        raise Violation("shift-count", "%s: %d shifts announced instead of %d" % (what, said, nshift))


def coordinates(m, h, before, what):
    for d in range(3):
        x, want = np.asarray(h.d["x%d" % d], float), m.x[d]
        if x.shape != want.shape:
            raise Violation("coordinates", "%s: x%d has %s nodes instead of %s" % (what, d, x.shape, want.shape))
        s = np.max(np.abs(want))
        tol = 1e-12 * s
        if d == 0:
            w = np.diff(want)
            tol = 1e-11 * np.abs(want) + 1e-12 * s + 1e-9 * np.max(w)
        if not np.all(np.abs(x - want) <= tol):
            raise Violation("coordinates", "%s: x%d is %s instead of %s" % (what, d, x, want))
        if not np.array_equal(np.asarray(h.d["x%d_ng" % d]), x[m.ng[d]:len(x) - m.ng[d]]):
            raise Violation("coordinates", "%s: x%d_ng is not the part of x%d without ghosts" % (what, d, d))


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["restart"]:
        yield dict(p, restart=False)
    if "rmax_shift" in p["ini"]["Problem"]:
        yield problem.variant(p, ini={"Problem": {"rmax_shift": None}})
