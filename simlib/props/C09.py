"""C09: processes never deadlock or diverge; the failure of one ends the whole job."""
import re
from .. import core, problem
from ..driver import Violation, Trivial
from ..outputs import completed, outputs, refused

ID = "C09"
LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 150000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-pg-sphe-Internal_mass-sim", "3d-rad-cart-Uniform-sim"]
SITES = ["alloc", "alloc", "read", "fopen", "write", "close", "h5open", "h5close", "h5dwrite", "h5dread", "H5Fopen", "H5Fflush", "H5Awrite", "H5Dopen"]
BAD = {
    # name: (ini changes, words of the message)
    "unknown boundary": ({"Boundary Condition": {"BC_X0_left": "Perodic"}}, "Perodic"),
    "missing boundary": (None, "boundary condition not fully defined"),
    "unknown reconstruction": ({"Hydro": {"reconstruction": "Superbee"}}, "Superbee"),
    "unknown solver": ({"Hydro": {"riemann_solver": "Roe"}}, "Roe"),
    "unknown user step": ({"User step": {"user_step": "Maybe"}}, "Maybe"),
    "unknown grid": ({"Grid": {"type": "Stretched"}}, "Stretched"),
    "bad gamma": ({"Perfect Gas": {"gamma": 1.0}}, "gamma"),
    "bad mmw": ({"Perfect Gas": {"mu": 0.0}}, "mmw"),
    "process grid": ({"Parallelization": {"mpi_dims_cart_x0": 7}}, None),
    "priority": ({"Boundary Condition": {"priority": "X_left"}}, "priority"),
    "restart file": ({"Problem": {"restart": "true", "restart_file": "/sim/out/none.h5"}}, None),
    "no such input": ("args", None),
    "syntax": ("syntax", None),
    "no arguments": ("noargs", None),
}
MUST = ["clean run", "clean restart", "one-sided stall", "many processes", "rendezvous", "failure of one process", "failure of the first process", "failure of another process", "failure in a restart"] + ["failed " + s for s in sorted(set(SITES))] + ["bad input: " + b for b in BAD]
ASSUMPTIONS = ["MPI_Abort of one process ends all, as MPI launchers do"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6, 9, 16]), steps=rng.choice([1, 2, 3]), small=rng.random() < 0.8, shift=rng.random() < 0.25)
    k = p["knobs"]
    k["p_switch_kernel"] = rng.choice([0, 0.05, 0.3, 0.8, 1])
    k["p_switch_seam"] = rng.choice([0, 0.1, 0.5, 1])
    k["max_latency"] = rng.choice([0, 2, 8, 40, 400])
    k["race"] = 0
    k["starve"] = rng.choice([-1, 0, 1, 2])
    k["starve"] = k["starve"] if k["starve"] < p["ranks"] else -1
    if rng.random() < 0.4:
        p["ini"]["Output"]["time_frequency"] = 1e20
        p["ini"]["Output"]["iter_frequency"] = rng.choice([1, 2])
    r = rng.random()
    p["case"] = "clean" if r < 0.4 else "fault" if r < 0.8 else "bad"
    p["restart"] = rng.random() < 0.3 and p["case"] != "bad"
    p["stalls"] = [(rng.randrange(p["ranks"]), rng.randrange(400), rng.choice([1e3, 1e9, 1e13])) for _ in range(rng.choice([0, 0, 1, 3]))]
    if p["stalls"] and rng.random() < 0.4:
        p["ini"]["Output"]["time_job"] = 1  # some of the stalls are longer than this many hours
    p["fault"] = {"site": rng.choice(SITES), "rank": rng.random(), "nth": rng.random(), "action": rng.random()}
    p["bad"] = sorted(BAD)[idx // 7 % len(BAD)]
    return p


def check(p, ctx):
    s = problem.scn(p)
    if p["case"] == "bad":
        return check_bad(p, ctx)
    for k, (r, n, ns) in enumerate(p["stalls"]):
        s["p0.fault.%d" % k] = "stall %d %d stall %.17g" % (r, n, ns)
    base = ctx.run1("run", s, p["cfg"])
    clean(base, "run", p, ctx)
    phase = 0
    if p["restart"]:
        ids = sorted(outputs(base))
        if len(ids) < 2:
            raise Trivial()
        ident = ids[int(p["fault"]["action"] * (len(ids) - 1))]
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % ident}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        base = ctx.run("restart", s, p["cfg"])[-1]
        clean(base, "restart", p, ctx)
        phase = 1
    if p["case"] == "clean":
        return
    f = p["fault"]
    have = [(r, k["counters"].get(f["site"], 0)) for r, k in enumerate(base.ranks) if k["counters"].get(f["site"], 0) > 0]
    if not have:
        raise Trivial()
    r, n = have[int(f["rank"] * len(have))]
    nth = int(f["nth"] * n)
    k = len(p["stalls"]) if phase == 0 else 0
    act = {"read": "EIO", "write": ["EIO", "ENOSPC"][int(f["action"] * 2)], "close": "EIO"}.get(f["site"], "fail")
    s["p%d.fault.%d" % (phase, k)] = "%s %d %d %s" % (f["site"], r, nth, act)
    ph = ctx.run("fault", s, p["cfg"], allow=("abort",))[-1]
    at = [int(m.group(1)) for m in (re.match(r"fault %s %s rank %d occurrence %d event (\d+)$" % (f["site"], act, r, nth), l) for l in ph.notes) if m]
    if not at:
        raise Trivial()
    what = "%s%s call %d of process %d of %d fails" % ("restart: " if phase else "", f["site"], nth, r, p["ranks"])
    refused(ph, "failure", what)
    if ph.events - at[0] > 2 * base.events + 2000:
        raise Violation("not-prompt", "%s: the job went on for %d events (an undisturbed run has %d)" % (what, ph.events - at[0], base.events))
    ctx.mark("failed " + f["site"])
    ctx.mark("failure of one process" if p["ranks"] > 1 else "failure of the only process")
    if p["ranks"] > 1:
        ctx.mark("failure of the first process" if r == 0 else "failure of another process")
    if phase:
        ctx.mark("failure in a restart")


def clean(ph, what, p, ctx):
    completed(ph, "failed", what)
    if ph.leaks:
        raise Violation("leak", "%s: %s" % (what, "; ".join(ph.leaks[:6])))
    for r, k in enumerate(ph.ranks):
        if k["exit"] != 0 or not k["fin"]:
            raise Violation("end", "%s: process %d ended with exit code %s, MPI %s" % (what, r, k["exit"], "finalized" if k["fin"] else "not finalized"))
    ctx.mark("clean " + what)
    if p["stalls"]:
        ctx.mark("one-sided stall")
    if p["ranks"] > 8:
        ctx.mark("many processes")
    if p["knobs"].get("rendezvous"):
        ctx.mark("rendezvous")


def check_bad(p, ctx):
    change, word = BAD[p["bad"]]
    q = p
    B = q["ini"]["Boundary Condition"]
    over = {}
    if p["bad"] == "missing boundary":
        d = int(p["cfg"][0]) - 1
        for x in ("BC", "BC_X%d" % d, "BC_X%d_left" % d):
            B.pop(x, None)
        B.setdefault("BC_X%d_right" % d, "NullGradient")
        for e in range(d):
            B.setdefault("BC_X%d_left" % e, "NullGradient")
            B.setdefault("BC_X%d_right" % e, "NullGradient")
    elif change == "args":
        over["args"] = "heracles\x1f/sim/none.ini"
    elif change == "noargs":
        over["args"] = "heracles"
    elif isinstance(change, dict):
        q = problem.variant(p, ini=change)
        if p["bad"] == "process grid" and p["ranks"] == 7:
            q["ini"]["Parallelization"]["mpi_dims_cart_x0"] = 5
    s = problem.scn(q, **over)
    if change == "syntax":
        s["file:/sim/x.ini"] = s["file:/sim/x.ini"].replace("[Grid]\n", "[Grid]\nthis is not an assignment\n")
    ph = ctx.run1("bad input", s, p["cfg"])
    what = "bad input (%s)" % p["bad"]
    refused(ph, "accepted", what, word)
    if any(n == "step" for n, _, _, _ in ph.probes) or outputs(ph):
        raise Violation("late", "%s: the job computed or wrote before it ended" % what)
    ctx.mark("bad input: " + p["bad"])


def shrink(p):
    for q in problem.shrink(p):
        if all(x[0] < q["ranks"] for x in q["stalls"]):
            yield q
    if p["stalls"]:
        yield dict(p, stalls=p["stalls"][:-1])
    if p["restart"]:
        yield dict(p, restart=False)
    for k in ("rank", "nth"):
        if p["fault"][k] > 0:
            yield dict(p, fault=dict(p["fault"], **{k: 0.0}))
