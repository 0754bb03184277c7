"""C16: each step is the configured second-order Godunov update of the previous state."""
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed, compare_state
from ..outputs import completed, outputs, scalar

ID = "C16"
LEVEL = "exploration"
CASES = {"quick": 1800, "thorough": 60000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-cart-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-rad-cart-Uniform-sim", "1d-rad-cart-Uniform-sim", "3d-rad-sphe-Point_mass-sim", "2d-pg-cart-Point_mass-sim", "3d-pg-sphe-Internal_mass-sim"]
MUST = ["steps compared", "uniform state", "pressure fix active", "spherical", "scalars", "gravity", "shifted grid", "nickel heating"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=4, steps=rng.choice([2, 3, 4]))
    p = probed(p)
    p["uniform"] = False
    if rng.random() < 0.15 and "Uniform" in cfg:
        p["uniform"] = True
        p["u"].update(amp=0.0, uamp=0.0, u0=0.0, init=0, heat=0, decay=0)
        p["ini"]["Gravity"] = {}
        B = {}
        nd = int(cfg[0])
        for d in range(nd):
            if rng.random() < 0.3 and not ("sphe" in cfg and d < 2):
                B["BC_X%d" % d] = "Periodic"
            else:
                for s in ("left", "right"):
                    B["BC_X%d_%s" % (d, s)] = rng.choice(["NullGradient", "Reflexive"])
        p["ini"]["Boundary Condition"] = B
        p["ini"]["Pressure fix"] = {}
    elif rng.random() < 0.1 and "-pg-" in cfg and "Uniform" in cfg and p["u"].get("init") is not None:
        # a gas in which the heating by radioactive nickel matters
        u, G = p["u"], p["ini"]["Grid"]
        f = (1e13 / u["P0"] * u["rho0"]) ** 0.5
        u.update(rho0=1.0, P0=1e13, u0=u["u0"] * f, uamp=u["uamp"] * f, heat=0, decay=0)
        L = 4e14 * 10.0 ** rng.uniform(-1.5, 0.5)
        for d in range(1 if "sphe" in cfg else 3):
            for s in ("min", "max"):
                G["x%d%s" % (d, s)] = float(G["x%d%s" % (d, s)]) * L
        p["ini"]["Gravity"] = {}
        p["ini"]["Passive Scalar"]["nfx"] = rng.choice([1, 2, 3])
        p["ini"]["User step"] = {"user_step": "Heat_nickel"}
    elif rng.random() < 0.2:
        p["u"]["shift_every"] = rng.choice([1, 2])
    return p


def check(p, ctx):
    ph = ctx.run1("run", problem.scn(p), p["cfg"])
    m = Model(p)
    sts = state.states(ph)
    dts = state.steps(ph)
    nickel = p["ini"]["User step"].get("user_step") == "Heat_nickel"
    if nickel:
        # the steps are those between the outputs
        out = outputs(ph)
        ts = [float(scalar(out[i], "current_time")) for i in sorted(out)]
        dts = [{0: (a, b - a)} for a, b in zip(ts, ts[1:])]
        ctx.mark("nickel heating")
    if ph.end == "completed":
        completed(ph, "failed", "run")
    elif not ("detected invalid" in ph.err() + ph.msg):
        completed(ph, "failed", "run")
    if p.get("uniform"):
        # a uniform state at rest stays as it is
        ctx.mark("uniform state")
        out = outputs(ph)
        if len(out) < 2:
            raise Violation("no-output", "no outputs")
        cs = float(m.eos.sound(np.float64(m.fields.rho0), np.float64(m.fields.P0)))
        for i, h in sorted(out.items()):
            for n, want, s in [("rho", m.fields.rho0, m.fields.rho0), ("P", m.fields.P0, m.fields.P0)] + [("u%s" % q, 0.0, cs) for q in "xyz"[: m.nd]]:
                key = n if n in h.d else next((k for k in h.d if k == "ux%d" % "xyz".index(n[1])), None) if n[0] == "u" else n
                v = h.d[key]
                dev = float(np.max(np.abs(v - want))) / s
                if not dev <= (1e-9 if not m.eos.rad else 1e-7):
                    raise Violation("uniform-state", "a uniform state at rest changed: %s deviates by %.3g (relative) in output %d" % (key, dev, i))
    # every step against the reference; the first one starts from the initial state
    if not sts:
        raise Trivial()
    try:
        prev = m.initial()
    except FloatingPointError:
        raise Trivial()
    tol = 1e-9 if not m.eos.rad else 1e-7
    every = int(p["u"].get("shift_every", 0))
    for k, st in enumerate(sts):
        if k >= len(dts):
            break
        got, fgot, ng, n = state.assemble(st, m.nd)
        ds = sorted({v[1] for v in dts[k].values()})
        if len(ds) != 1:
            raise Violation("dt-differs", "step %d: processes use different time steps %s" % (k, ds))
        c, f = prev
        if not m.valid(c):
            break
        with np.errstate(all="ignore"):
            want, fwant, unsure = m.step(c, f, ds[0], t=next(iter(dts[k].values()))[0])
        sc = m.scales(c)
        it = m.mesh.interior()
        ctx.mark("steps compared")
        if m.cfg.geom == "Spherical":
            ctx.mark("spherical")
        if m.nfx:
            ctx.mark("scalars")
        if any(np.any(g != 0) for g in m.gravity(c.rho)):
            ctx.mark("gravity")
        pf = m.ini.get("Pressure fix", {})
        if pf.get("pressure_fix") == "On" and np.any((c.E - ref.ek(c))[it] < float(pf.get("eps_pf", 1e-6)) * ref.ek(c)[it]):
            ctx.mark("pressure fix active")
        for q in list(sc):
            pass
        wi = ref.Cons(want.rho[it], [v[it] for v in want.m], want.E[it])
        sane = np.isfinite(wi.E).all() and np.all(wi.rho > 0)
        if not sane:
            break
        sc2 = m.scales(got)
        sc = {q: max(sc[q], sc2[q]) for q in sc}
        compare_state("update", "step %d (%s, %s)" % (k, m.ini["Hydro"].get("reconstruction"), m.ini["Hydro"].get("riemann_solver")), got, fgot, want, fwant, tol, sc, it, unsure)
        prev = (got, fgot)
        if every and (k + 1) % every == 0:
            # the grid is shifted after this step: the state the next step starts from
            ctx.mark("shifted grid")
            m.shift_nodes()
            s, fs = shifted(m, got, fgot)
            prev = (s, fs)


def shifted(m, c, fx):
    def sh(a):
        b = a.copy()
        b[:-1] = a[1:]
        return b

    s, fs = ref.Cons(sh(c.rho), [sh(v) for v in c.m], sh(c.E)), [sh(v) for v in fx]
    m.ghosts(s, fs)
    return s, fs


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["u"].get("shift_every"):
        yield problem.variant(p, u=dict(p["u"], shift_every=0))
