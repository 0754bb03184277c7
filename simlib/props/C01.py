"""C01: results independent of the decomposition, the rank placement and the message timing."""
from .. import core, problem, shipped
from ..driver import Violation, Trivial
from ..outputs import outputs, compare, completed

ID = "C01"
LEVEL = "exploration"
CASES = {"quick": 800, "thorough": 60000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-sphe-Internal_mass-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-cart-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-pg-sphe-Point_mass-sim", "2d-rad-cart-Uniform-sim", "1d-rad-sphe-Point_mass-sim", "2d-rad-sphe-Internal_mass-sim", "3d-rad-cart-Uniform-sim", "3d-pg-sphe-Point_mass-sim", "1d-pg-sphe-Point_mass-sim", "2d-pg-cart-Point_mass-sim", "3d-rad-sphe-Internal_mass-sim"]
QUICK_SHIPPED = tuple(e[0] for e in shipped.TABLE)
MUST = ["profile file", "multi-rank", "uneven", "3 dimensions", "shifted", "shipped setup", "device aware", "sum order matters"]


def configs(tier):
    c = list(QUICK)
    if tier != "quick":
        c += MORE
    for e in shipped.TABLE:
        if tier != "quick" or e[0] in QUICK_SHIPPED:
            c.append(e[1] + "-" + e[0])
    return c


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    if rng.random() < 0.22:
        es = [e for e in shipped.TABLE if tier != "quick" or e[0] in QUICK_SHIPPED]
        p = shipped.gen(rng, rng.choice(es), maxranks=8)
        if p is not None:
            return p
    cfgs = QUICK if tier == "quick" else QUICK + MORE
    p = problem.gen(rng, cfgs[idx % len(cfgs)], maxranks=rng.choice([4, 6, 8, 12]), shift=rng.random() < 0.15)
    for _ in range(8):
        if p["ranks"] > 1:
            break
        p = problem.gen(rng, p["cfg"], maxranks=8, shift=rng.random() < 0.15)
    if p["ini"]["Grid"]["type"] == "Regular" and rng.random() < 0.2:
        p["ini"]["Output"]["iter_frequency"] = 2
    return p


def check(p, ctx):
    ref = ctx.run1("reference", problem.scn(problem.serial(p)), p["cfg"])
    completed(ref, "reference-failed", "one-process run")
    par = ctx.run1("parallel", problem.scn(p), p["cfg"])
    completed(par, "parallel-failed", "run on %d processes (%s)" % (p["ranks"], p["dims"]), trivial_ok=())
    a, b = outputs(par), outputs(ref)
    if not b:
        raise Violation("no-output", "the one-process run made no output")
    if p["ranks"] > 1:
        ctx.mark("multi-rank")
        if any(p["ini"]["Grid"]["Nx%d_glob" % d] % p["dims"][d] for d in range(3)):
            ctx.mark("uneven")
    nd = int(p["cfg"][0])
    ctx.mark("%d dimensions" % nd)
    if p["ini"]["Grid"].get("shift_grid") and "Shifting" in ref.out():
        ctx.mark("shifted")
    if not p["cfg"].endswith("-sim"):
        ctx.mark("shipped setup")
    if p.get("star"):
        ctx.mark("profile file")
    if p["ini"].get("Parallelization", {}).get("mpi_device_aware"):
        ctx.mark("device aware")
    if "Internal_mass" in p["cfg"]:
        ctx.mark("sum order matters")
    compare("decomposition", a, b, 1e-9, "%d processes %s against one" % (p["ranks"], p["dims"]))


shrink = problem.shrink
