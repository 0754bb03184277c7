"""C05: a restarted run continues the interrupted one on any number of processes."""
import numpy as np
from .. import core, problem, shipped
from ..driver import Violation, Trivial
from ..outputs import outputs, compare1, completed, scalar

ID = "C05"
LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 40000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-sphe-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "2d-rad-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-pg-sphe-Internal_mass-sim", "3d-rad-cart-Uniform-sim"]
MUST = ["restart", "chain of restarts", "other process count", "interrupted run", "time schedule", "shift", "scalars", "1 dimensions", "2 dimensions", "3 dimensions", "shipped setup"]
ASSUMPTIONS = ["the energy is rebuilt from the pressure at a restart, so later outputs are compared to 1e-9 (ideal gas) or 5e-5 (gas plus radiation), not bit by bit"]


def configs(tier):
    c = list(QUICK) + (MORE if tier != "quick" else [])
    return c + [e[1] + "-" + e[0] for e in shipped.TABLE if tier != "quick" or (e[0] == "v1d" and e[1][0] == "3") or e[0] == "rayleigh_taylor3d"]


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    have = configs(tier)
    if rng.random() < 0.06:
        p = shipped.gen(rng, rng.choice([e for e in shipped.TABLE if e[1] + "-" + e[0] in have]), maxranks=6, steps=4)
    else:
        p = None
    if p is None:
        sims = [c for c in have if c.endswith("-sim")]
        long = rng.random() < 0.06  # many outputs
        p = problem.gen(rng, rng.choice([c for c in sims if c[0] == "1"]) if long else sims[idx % len(sims)], maxranks=rng.choice([1, 4, 6, 8]), steps=rng.choice([12, 24]) if long else rng.choice([3, 4, 6, 8]), small=long)
        if rng.random() < 0.2:
            p["ini"]["Grid"]["shift_grid"] = "UserDefined"
            p["u"]["shift_every"] = 1
    last = p["ini"]["Output"]["max_iter"]
    p["ini"]["Output"]["iter_frequency"] = rng.choice([1, 1, 2, 3, 0])
    p["tfreq"] = rng.choice([None, None, 0.31, 0.47, 0.9])
    if p["tfreq"] is None and p["ini"]["Output"]["iter_frequency"] == 0:
        p["ini"]["Output"]["iter_frequency"] = 1
    nd = int(p["cfg"][0])
    nx = [int(p["ini"]["Grid"]["Nx%d_glob" % d]) for d in range(3)]
    fixed = [1 if "Internal_mass" in p["cfg"] else 0, 0, 0]
    p["legs"] = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        p["legs"].append(problem.layouts(rng, nx, nd, int(p["ini"]["Grid"].get("Nghost", 2)), rng.choice([1, 4, 8]), fixed))
    p["pick"] = [rng.random() for _ in p["legs"]]
    p["stop"] = [rng.choice([0, rng.randint(1, max(1, last - 1))]) for _ in p["legs"]]  # iteration at which the leg is interrupted, 0: not
    return p


def setdims(p, dims):
    auto = "mpi_dims_cart_x0" not in p["ini"].get("Parallelization", {})
    q = problem.variant(p, dims=dims)
    if auto:
        nx = [int(p["ini"]["Grid"]["Nx%d_glob" % d]) for d in range(3)]
        nd = int(p["cfg"][0])
        if all(nx[d] // q["ranks"] >= int(p["ini"]["Grid"].get("Nghost", 2)) for d in range(nd)):
            for d in range(3):
                q["ini"]["Parallelization"].pop("mpi_dims_cart_x%d" % d, None)
    return q


def check(p, ctx):
    c = core.Cfg.parse(p["cfg"])
    if p["tfreq"] is not None:
        # time needed by the iterations gives the time schedule
        q = problem.variant(problem.serial(p), ini={"Output": {"iter_frequency": 1}})
        ph = ctx.run1("length", problem.scn(q), p["cfg"])
        completed(ph, "failed", "run")
        o = outputs(ph)
        t = float(scalar(o[max(o)], "current_time"))
        t0 = float(scalar(o[min(o)], "current_time"))
        if not t > t0:
            raise Trivial()
        p = problem.variant(p, ini={"Output": {"time_frequency": (t - t0) * p["tfreq"]}})
        ctx.mark("time schedule")
    full = ctx.run1("uninterrupted", problem.scn(p), p["cfg"])
    completed(full, "failed", "uninterrupted run")
    ref = outputs(full)
    if not ref:
        raise Violation("no-output", "the run made no output")
    byiter = {int(scalar(h, "iter")): h for h in ref.values()}
    last = int(p["ini"]["Output"]["max_iter"])
    # first leg: the whole run, or interrupted
    s = problem.scn(p)
    stop0 = p["stop"][0]
    if stop0:
        s["file:/sim/x.ini"] = problem.ini_text(problem.variant(p, ini={"Output": {"max_iter": stop0}})["ini"])
        ctx.mark("interrupted run")
    # the restart points are outputs known from the uninterrupted run: made at the scheduled iterations
    def made(upto, frm=None):
        it = sorted(i for i in byiter if i <= upto and (frm is None or i > frm))
        if upto < last and upto not in it:
            it.append(upto)  # the output at the end of an interrupted run
        return it
    hist = made(stop0 or last)  # iterations of the outputs by id
    phases = 1
    plan = []
    for k, dims in enumerate(p["legs"]):
        if len(hist) < 1:
            break
        m = int(p["pick"][k] * len(hist))
        end = last
        if k + 1 < len(p["legs"]) and p["stop"][k + 1] and p["stop"][k + 1] > hist[m]:
            end = p["stop"][k + 1]
        if hist[m] >= end:
            break
        q = setdims(p, dims)
        q = problem.variant(q, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % m}, "Output": {"max_iter": end}})
        s["p%d.nranks" % phases] = q["ranks"]
        s["p%d.file:/sim/x.ini" % phases] = problem.ini_text(q["ini"])
        more = made(end, hist[m])
        plan.append((m, list(hist), more))
        hist = hist[: m + 1] + more
        phases += 1
    if not plan:
        raise Trivial()
    s["nphase"] = phases
    phs = ctx.run("restarted", s, p["cfg"])
    completed(phs[0], "failed", "first leg")
    tol = 1e-9 if c.eos == "PerfectGas" else 5e-5
    for k, (m, before, more) in enumerate(plan):
        what = "restart %d from output %d on %s processes (written by %s)" % (k + 1, m, s["p%d.nranks" % (k + 1)], p["ranks"])
        if k + 1 >= len(phs):
            raise Violation("not-continued", "%s did not run" % what)
        completed(phs[k + 1], "restart-failed", what)
        ctx.mark("restart")
        if k:
            ctx.mark("chain of restarts")
        if s["p%d.nranks" % (k + 1)] != p["ranks"]:
            ctx.mark("other process count")
        old, new = outputs(phs[k]), outputs(phs[k + 1])
        for i in sorted(old):
            if i <= m or i > m + len(more):
                if i not in new:
                    raise Violation("output-lost", "%s: output %d disappeared" % (what, i))
                x, y = new[i], old[i]
                if sorted(x.d) != sorted(y.d) or any(not np.array_equal(x.d[n], y.d[n], equal_nan=True) for n in y.d) or x.attrs != y.attrs:
                    raise Violation("output-rewritten", "%s: output %d was changed" % (what, i))
        for j, it in enumerate(more):
            i = m + 1 + j
            if i not in new:
                raise Violation("numbering", "%s: output %d (iteration %d) is missing; outputs %s" % (what, i, it, sorted(new)))
            h = new[i]
            if int(scalar(h, "iter")) != it or int(scalar(h, "output_id")) != i:
                raise Violation("numbering", "%s: output %d has iteration %d and number %d instead of %d and %d" % (what, i, int(scalar(h, "iter")), int(scalar(h, "output_id")), it, i))
            if it in byiter:
                r = byiter[it]
                compare_later(h, r, tol, "%s: output at iteration %d" % (what, it))
        extra = [i for i in new if i > m + len(more) and i not in old]
        if extra:
            raise Violation("numbering", "%s: unexpected outputs %s" % (what, extra))
    if int(p["ini"].get("Passive Scalar", {}).get("nfx", 0)):
        ctx.mark("scalars")
    ctx.mark("%d dimensions" % c.ndim)
    if not p["cfg"].endswith("-sim"):
        ctx.mark("shipped setup")
    if "Shifting" in full.out():
        ctx.mark("shift")


def compare_later(h, r, tol, what):
    """all fields; the numbers of outputs made by schedule agree, the total number may differ by outputs of interrupted runs"""
    a, b = core.H5(), core.H5()
    a.d = {n: v for n, v in h.d.items() if n != "output_id"}
    b.d = {n: v for n, v in r.d.items() if n != "output_id"}
    compare1("differs", a, b, tol, what, 1e-12)


def shrink(p):
    for q in problem.shrink(p):
        yield q
    if len(p["legs"]) > 1:
        for i in range(len(p["legs"])):
            yield dict(p, legs=p["legs"][:i] + p["legs"][i + 1:], pick=p["pick"][:i] + p["pick"][i + 1:], stop=p["stop"][:i] + p["stop"][i + 1:])
    for i in range(len(p["legs"])):
        if p["legs"][i] != [1, 1, 1]:
            yield dict(p, legs=p["legs"][:i] + [[1, 1, 1]] + p["legs"][i + 1:])
        if p["stop"][i]:
            yield dict(p, stop=p["stop"][:i] + [0] + p["stop"][i + 1:])
    if p["tfreq"] is not None and p["ini"]["Output"]["iter_frequency"]:
        yield dict(p, tfreq=None)
