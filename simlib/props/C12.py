"""C12: ghost cells hold neighbour data and the configured boundary values."""
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed
from ..outputs import completed, outputs, refused

ID = "C12"
LEVEL = "exploration"
CASES = {"quick": 2500, "thorough": 90000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "2d-pg-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-rad-cart-Uniform-sim", "3d-rad-sphe-Point_mass-sim"]
MUST = ["ghosts compared", "corners", "priority", "other spelling", "rejected list", "rejected condition", "restart", "several ranks", "periodic", "mixed conditions", "one cell of ghosts per process", "ghost width 3", "scalars", "1 dimensions", "2 dimensions", "3 dimensions"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


ALT = {"X_left": "X0_left", "X_right": "X0_right", "Y_left": "X1_left", "Y_right": "X1_right", "Z_left": "X2_left", "Z_right": "X2_right"}


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 4, 8, 12]), steps=rng.choice([1, 1, 2, 3]), small=rng.random() < 0.7)
    nd = int(cfg[0])
    g = p["ini"]["Grid"]
    B = p["ini"]["Boundary Condition"]
    # small domains and wide ghost zones
    ng = rng.choice([2, 2, 2, 3, 4]) if nd < 3 else rng.choice([2, 2, 3])
    g["Nghost"] = ng
    for d in range(nd):
        per = rng.choice([ng, ng, ng + 1, ng + 3])
        g["Nx%d_glob" % d] = max(p["dims"][d] * ng, p["dims"][d] * per - rng.choice([0, 0, 1])) if rng.random() < 0.6 else max(int(g["Nx%d_glob" % d]), p["dims"][d] * ng)
    for d in range(3):
        p["ini"]["Parallelization"]["mpi_dims_cart_x%d" % d] = p["dims"][d]
    # no source steps: they leave the ghosts alone
    faces = problem_faces(nd)
    B.pop("priority", None)
    p["bad"] = None
    if rng.random() < 0.65:
        order = list(faces)
        rng.shuffle(order)
        p["alt"] = rng.random() < 0.4
        B["priority"] = rng.choice([" ", "  ", " "]).join(ALT[f] if p["alt"] and rng.random() < 0.8 else f for f in order)
    r = rng.random()
    if r < 0.12:
        order = list(faces)
        rng.shuffle(order)
        k = rng.randrange(len(order))
        how = rng.choice(["missing", "twice", "unknown", "foreign", "case"])
        if how == "missing":
            order.pop(k)
        elif how == "twice":
            order[k] = order[k - 1]
        elif how == "unknown":
            order[k] = rng.choice(["X_top", "left", "X3_left", "X", "x0left"])
        elif how == "foreign":
            order[k] = ["Y_left", "Z_right", "W_left"][nd - 1]
        else:
            order[k] = order[k].lower()
        if order:
            B["priority"] = " ".join(order)
            p["bad"] = "priority"
    elif r < 0.17:
        k = rng.randrange(2 * nd)
        d, s = k // 2, ("left", "right")[k % 2]
        names = ref.bc_names(p["ini"], nd)
        for q in list(B):
            if q != "priority":
                B.pop(q)
        for q in range(2 * nd):
            B["BC_X%d_%s" % (q // 2, ("left", "right")[q % 2])] = names[q]
        how = rng.choice(["Reflective", "null", "periodic", ""])
        if how:
            B["BC_X%d_%s" % (d, s)] = how
        else:
            B.pop("BC_X%d_%s" % (d, s))
        p["bad"] = "condition"
    p["restart"] = p["bad"] is None and rng.random() < 0.2
    if not p["bad"] and rng.random() < 0.15:
        p["ini"]["Grid"]["shift_grid"] = "UserDefined"
        p["u"]["shift_every"] = 1
    return probed(p)


def problem_faces(nd):
    return ref.FACES[: 2 * nd]


def check(p, ctx):
    s = problem.scn(p)
    if p["bad"]:
        ph = ctx.run1("refused", s, p["cfg"])
        refused(ph, "accepted", "a wrong boundary %s %s" % (p["bad"], p["ini"]["Boundary Condition"]))
        if outputs(ph):
            raise Violation("accepted", "a wrong boundary %s: outputs were made" % p["bad"])
        ctx.mark("rejected list" if p["bad"] == "priority" else "rejected condition")
        return
    m = Model(p)
    names = ref.bc_names(p["ini"], m.nd)
    if p["restart"]:
        o = p["ini"]["Output"]
        s["nphase"] = 2
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % int(o["max_iter"])}, "Output": {"max_iter": int(o["max_iter"]) + 2}})
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ctx.mark("restart")
    phs = ctx.run("run", s, p["cfg"])
    pr = p["ini"]["Boundary Condition"].get("priority")
    for ph in phs:
        if ph.end != "completed":
            completed(ph, "failed", "run")
        for k, st in enumerate(state.states(ph)):
            one(p, m, st, k, names, ctx)
        sts = state.states(ph)
        if not sts or len(sts) != len(state.steps(ph)) or any(len(x) != p["ranks"] for x in sts):
            raise Violation("states", "%d states for %d steps" % (len(sts), len(state.steps(ph))))
    if pr:
        ctx.mark("priority")
        if "X0" in pr or "X1" in pr or "X2" in pr:
            ctx.mark("other spelling")
    if p["ranks"] > 1:
        ctx.mark("several ranks")
    if "Periodic" in names:
        ctx.mark("periodic")
    if len(set(names)) > 1:
        ctx.mark("mixed conditions")
    if int(p["ini"]["Grid"]["Nghost"]) == 3:
        ctx.mark("ghost width 3")
    if m.nfx:
        ctx.mark("scalars")
    ctx.mark("%d dimensions" % m.nd)


def one(p, m, st, k, names, ctx):
    c, f, ng, n = state.assemble(st, m.nd)
    # only the interior is taken from the run
    it = m.mesh.interior()

    def clean(a):
        b = np.full(a.shape, np.nan)
        b[it] = a[it]
        return b

    if any(np.isnan(a[it]).any() for a in [c.rho, c.E]):
        raise Trivial()
    w = ref.Cons(clean(c.rho), [clean(v) for v in c.m], clean(c.E))
    wf = [clean(v) for v in f]
    m.ghosts(w, wf)
    for r, l in sorted(st.items()):
        sl = state.local_slices(l)
        pairs = [("rho", l.v["rho"], w.rho), ("E", l.v["E"], w.E)] + [("rhou%d" % d, l.v["rhou"][..., d], w.m[d]) for d in range(m.nd)] + [("fx%d" % q, l.v["fx"][..., q], wf[q]) for q in range(m.nfx)]
        for name, got, full in pairs:
            want = full[sl]
            if got.shape != want.shape:
                raise Violation("shape", "process %d has %s cells of %s instead of %s" % (r, got.shape, name, want.shape))
            s = np.nanmax(np.abs(want))
            bad = ~(np.abs(got - want) <= 1e-14 * (np.abs(want) + 1e-3 * s))
            bad &= ~((got == want))
            if bad.any():
                i = tuple(int(q) for q in np.argwhere(bad)[0])
                gi = [i[d] + l.corner[d] - l.ng[d] for d in range(3)]
                out = [("X%d_left" % d if gi[d] < 0 else "X%d_right" % d) for d in range(m.nd) if gi[d] < 0 or gi[d] >= n[d]]
                raise Violation("ghosts", "step %d: %s of process %d at cell %s is %r instead of %r (%d cells differ); outside of %s; conditions %s, priority %r" % (k, name, r, gi, float(got[i]), float(want[i]), int(bad.sum()), out, names, p["ini"]["Boundary Condition"].get("priority", "")))
        if min(l.n[d] for d in range(m.nd)) == l.ng[0]:
            ctx.mark("one cell of ghosts per process")
    ctx.mark("ghosts compared")
    if m.nd > 1:
        ctx.mark("corners")


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["restart"]:
        yield dict(p, restart=False)
    if p["u"].get("shift_every"):
        yield problem.variant(p, u=dict(p["u"], shift_every=0))
