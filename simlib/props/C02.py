"""C02: compute kernels are order independent, race free and stay inside their arrays."""
from .. import core, problem, shipped, state
from ..driver import Violation, Trivial
from ..model import probed
from ..outputs import outputs, compare, completed

ID = "C02"
LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 40000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-sphe-Internal_mass-sim", "2d-rad-cart-Uniform-sim", "3d-pg-cart-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-pg-cart-Uniform-sim", "3d-pg-sphe-Internal_mass-sim", "3d-rad-sphe-Point_mass-sim", "2d-pg-sphe-Point_mass-sim", "3d-rad-cart-Uniform-sim"]
QUICK_SHIPPED = ("rayleigh_taylor3d", "sedov1d")
MUST = ["asynchronous", "conflict search", "orders", "shift", "pressure fix", "restart", "shipped setup", "several ranks", "HLL", "HLLC", "Low Mach", "UserDefined boundary", "Reflexive boundary", "NullGradient boundary"]


def configs(tier):
    c = list(QUICK) + (MORE if tier != "quick" else [])
    if tier != "quick":
        c.append("2d-pg-cart-Uniform-sim-uni")
    for e in shipped.TABLE:
        if tier != "quick" and e[0] or (e[0] in QUICK_SHIPPED and any(core.Cfg.parse(q).shared() == core.Cfg.parse(e[1] + "-" + e[0]).shared() for q in QUICK)):
            c.append(e[1] + "-" + e[0])
    return c


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    have = configs(tier)
    if rng.random() < 0.1:
        es = [e for e in shipped.TABLE if e[1] + "-" + e[0] in have]
        p = shipped.gen(rng, rng.choice(es), maxranks=3)
        if p is not None:
            return adversary(p, rng)
    sims = [c for c in have if "-sim" in c]
    cfg = sims[idx % len(sims)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4]), steps=rng.choice([1, 2, 3]), shift=rng.random() < 0.2, small=True)
    p = adversary(p, rng)
    p["restart"] = rng.random() < 0.15
    return p


def adversary(p, rng):
    k = p["knobs"]
    k["p_korder"] = rng.choice([1, 1, 0.5])
    k["p_defer"] = rng.choice([1, 1, 0.5, 0])
    k["race"] = int(rng.random() < 0.5)
    p["restart"] = False
    return p


def go(ctx, name, p):
    s = problem.scn(p, unified=int(p["cfg"].endswith("-uni")))
    if p["restart"]:
        last = int(p["ini"]["Output"]["max_iter"])
        b = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % last}, "Output": {"max_iter": last + 1}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(b["ini"])
    phs = ctx.run(name, s, p["cfg"])
    for ph in phs:
        completed(ph, "failed", name)
    return phs[-1]


def check(p, ctx):
    nat = dict(p["knobs"], p_korder=0, p_defer=0, race=0)
    a = go(ctx, "adversary", p)
    b = go(ctx, "natural", problem.variant(p, knobs=nat))
    k = p["knobs"]
    for m, on in (("asynchronous", k["p_defer"]), ("conflict search", k["race"]), ("orders", k["p_korder"]), ("restart", p["restart"]), ("shift", "Shifting" in b.out()), ("shipped setup", "-sim" not in p["cfg"]), ("several ranks", p["ranks"] > 1), ("pressure fix", p["ini"].get("Pressure fix", {}).get("pressure_fix") == "On"), (p["ini"]["Hydro"].get("riemann_solver"), True)):
        if on:
            ctx.mark(m)
    for v in p["ini"]["Boundary Condition"].values():
        if v in ("UserDefined", "Reflexive", "NullGradient", "Periodic"):
            ctx.mark(v + " boundary")
    compare("order-dependent", outputs(a), outputs(b), 1e-9, "kernels in another order, grouping and time")


def shrink(p):
    for q in problem.shrink(p):
        yield q
    if p["restart"]:
        yield dict(p, restart=False)
