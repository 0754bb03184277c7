"""C10: an invalid internal energy anywhere stops the run at once, and nothing else does."""
import re
import numpy as np
from .. import core, problem, state
from ..driver import Violation, Trivial
from ..model import probed
from ..outputs import completed, outputs, refused, same_file, scalar, fields

ID = "C10"
LEVEL = "exploration"
CASES = {"quick": 3600, "thorough": 100000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "3d-rad-cart-Uniform-sim"]
MSG = "detected invalid volumic internal energy"
MUST = ["stopped", "stopped at the start", "stopped after a step", "negative", "not a number", "minus infinity", "barely negative", "barely negative at rest", "other units", "zero total energy", "valid run to the end", "tiny valid pressure", "on another process than the first", "corner cell of a process", "no outputs configured", "with grid shift", "restart from the diagnostic output", "invalid in the last step", "restart of a stopped run", "natural"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6, 9, 12]), steps=rng.choice([1, 2, 3, 5]), small=rng.random() < 0.7, scale=0.4)
    u, g, ini = p["u"], p["ini"]["Grid"], p["ini"]
    O = ini["Output"]
    p["units"] = u["P0"] < 1e-3 or u["P0"] > 1e3
    how = rng.choice(["step", "step", "step", "init", "none", "hot"])
    edge = [rng.choice([None, 0, -1]) for _ in range(3)]
    n = [int(g["Nx%d_glob" % d]) for d in range(3)]
    p["how"] = how
    if how == "step":
        u["bad_step"] = rng.randrange(int(O["max_iter"]))
        u["bad_kind"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
        u["bad_rank"] = rng.randrange(p["ranks"])
        for d, q in enumerate("ijk"):
            m = n[d] // p["dims"][d]  # every process has at least so many
            u["bad_" + q] = rng.randrange(max(1, m)) if edge[d] is None else (0 if edge[d] == 0 else m - 1)
    elif how == "init":
        u["bad_init"] = rng.choice([1, 2, 3, 4, 5, 6, 7])
        for d, q in enumerate("ijk"):
            u["bad_" + q] = rng.randrange(n[d]) if edge[d] is None else (0 if edge[d] == 0 else n[d] - 1)
    elif how == "hot":  # the numerical solution itself may lose positivity
        cs = (u["P0"] / u["rho0"]) ** 0.5
        u["spike"] = float("%.5g" % (rng.choice([3, 10, 30]) * cs))
        for d, q in enumerate("ijk"):
            u["bad_" + q] = rng.randrange(n[d])
        ini["Run"]["cfl"] = rng.choice([0.5, 0.9])
    ini["User step"]["user_step"] = "UserDefined"
    if rng.random() < 0.25 and how != "hot":
        g["shift_grid"] = "UserDefined"
        u["shift_every"] = rng.choice([1, 2])
    else:
        p["probe"] = True
        g.pop("shift_grid", None)
        u.pop("shift_every", None)
    r = rng.random()
    if u.get("shift_every") or r < 0.5:
        O["iter_frequency"] = 1
    elif r < 0.75:
        O["iter_frequency"] = rng.choice([2, 3, 7])
    else:
        O.pop("iter_frequency", None)
    p["again"] = rng.random()
    return p


def energy(rho, m, E):
    with np.errstate(all="ignore"):
        ek = sum(v * v for v in m) / rho / 2
        return E - ek, np.abs(E) + np.abs(ek)


def verdict(e, big):
    """1: an invalid cell, -1: none, 0: within rounding of the limit"""
    with np.errstate(all="ignore"):
        if (np.isnan(e) | (e < -1e-12 * big)).any():
            return 1
        if (e < 1e-12 * big).any():
            return 0
    return -1


def of_output(h):
    nd = len([n for n in h.d if n.startswith("ux")])
    rho = np.asarray(h.d["rho"], float)
    return energy(rho, [rho * np.asarray(h.d["ux%d" % d], float) for d in range(nd)], np.asarray(h.d["E"], float))


def judge(p, ph, ctx, what, nd, it0, src=-1):
    """returns (stopped, outputs)"""
    out = {i: h for i, h in outputs(ph).items() if i > src}
    text = ph.err() + ph.msg
    stopped = MSG in text
    if stopped:
        refused(ph, "stop", what, MSG)
    else:
        completed(ph, "failed", what, trivial_ok=("time step is negative",))
    done = [sum(1 for a in ph.probes if a[0] == "step" and a[1] == r) for r in range(len(ph.ranks))]
    # the state after every step, by the iteration
    v, note = {}, {}
    for i, h in out.items():
        k = int(scalar(h, "iter"))
        if k >= it0:
            e, big = of_output(h)
            v[k] = verdict(e, big)
    if not p["u"].get("shift_every"):
        for k, st in enumerate(state.states(ph)):
            c, f, ng, n = state.assemble(st, nd)
            w = tuple(slice(ng[d], ng[d] + n[d]) for d in range(3))
            e, big = energy(c.rho[w], [q[w] for q in c.m], c.E[w])
            v[it0 + k + 1] = verdict(e, big)
    last = it0 + max(done)
    for k in sorted(v):
        if v[k] == 1 and k < last:
            raise Violation("continued", "%s: the state of iteration %d has an invalid internal energy, but %d more step(s) were begun" % (what, k, last - k))
    if stopped:
        m = re.search(r"iteration = (\d+): " + MSG, text)
        k = int(m.group(1)) if m else last
        if k != last:
            raise Violation("stop", "%s: stopped at iteration %d, but the processes made %s steps from %d" % (what, k, done, it0))
        if len(set(done)) > 1:
            raise Violation("stop", "%s: the processes made %s steps" % (what, done))
        diag = [i for i, h in out.items() if int(scalar(h, "iter")) == k and h is not None]
        top = max(out) if out else None
        if top is None or int(scalar(out[top], "iter")) != k or out[top].torn:
            raise Violation("diagnostic", "%s: no complete output of the invalid state at iteration %d (outputs %s)" % (what, k, {i: int(scalar(h, "iter")) for i, h in out.items()}))
        if sorted(out) != list(range(min(out), top + 1)):
            raise Violation("diagnostic", "%s: the outputs are %s" % (what, sorted(out)))
        want = expected(p, it0, k) + 1
        if top != want:
            raise Violation("diagnostic", "%s: the last output is %d instead of %d" % (what, top, want))
        e, big = of_output(out[top])
        x = verdict(e, big)
        if x == -1:
            raise Violation("false-stop", "%s: stopped at iteration %d, but every internal energy of that state is valid (least %r)" % (what, k, float(np.min(e))))
        if len(diag) == 2:
            a, b = sorted(diag)
            for n in fields(out[a]) + [q for q in out[a].d if q.startswith("x") or q in ("current_time", "iter")]:
                if not np.array_equal(out[a].d[n], out[b].d[n], equal_nan=True):
                    raise Violation("diagnostic", "%s: %s of the diagnostic output differs from the output of the same iteration" % (what, n))
        ctx.mark("stopped")
        ctx.mark("stopped at the start" if k == it0 else "stopped after a step")
    else:
        # it ended at its own end: only the last state may be invalid
        ctx.mark("invalid in the last step" if v.get(last) == 1 else "valid run to the end")
        if ph.end == "completed" and last == it0:
            pass
    return stopped, out, last


def expected(p, it0, k):
    """the number of the last regular output up to iteration k of a run started from scratch"""
    O = p["ini"]["Output"]
    f = int(O.get("iter_frequency", 0) or 0)
    base = p.get("base", -1)
    n = base
    if not p.get("restarted") and f > 0:
        n += 1
    for i in range(it0 + 1, k + 1):
        if (f > 0 and (i - it0) % f == 0) or i >= int(O["max_iter"]):
            n += 1
    return n


def check(p, ctx):
    nd = int(p["cfg"][0])
    p = probed(p) if p.get("probe") else p
    u = p["u"]
    s = problem.scn(p)
    ph = ctx.run1("run", s, p["cfg"])
    stopped, out, last = judge(p, ph, ctx, "run", nd, 0)
    bad = u.get("bad_kind") if p["how"] == "step" else u.get("bad_init")
    names = {1: "negative", 2: "not a number", 3: "not a number", 4: "zero total energy" if p["how"] == "step" else "negative", 5: "barely negative", 8: "barely negative at rest", 7: "minus infinity"}
    if stopped:
        if p["how"] in ("step", "init") and bad in names:
            ctx.mark(names[bad])
            if p["units"]:
                ctx.mark("other units")
        else:
            ctx.mark("natural")
        if p["how"] == "step" and u["bad_rank"] > 0:
            ctx.mark("on another process than the first")
        if p["how"] == "step" and all(int(u["bad_" + q]) == 0 for q in "ijk"[:nd]):
            ctx.mark("corner cell of a process")
        if not p["ini"]["Output"].get("iter_frequency"):
            ctx.mark("no outputs configured")
        if u.get("shift_every"):
            ctx.mark("with grid shift")
    elif bad == 6:
        ctx.mark("tiny valid pressure" if p["how"] == "init" else "valid")
    # restarts: from the diagnostic output nothing may be computed; from an earlier one the run goes the same way
    if not stopped or not core.Cfg.parse(p["cfg"]).eos == "PerfectGas":
        return
    top = max(out)
    if p["again"] < 0.3:
        src, what = top, "restart from the diagnostic output"
    elif p["again"] < 0.6 and len(out) > 2 and p["how"] == "hot":
        src, what = sorted(out)[int(p["again"] * 1000) % (len(out) - 2)], "restart of a stopped run"
    elif p["again"] < 0.8 and len(out) > 2 and p["how"] == "step":
        src, what = 0, "restart of a stopped run"
    else:
        return
    it = int(scalar(out[src], "iter"))
    q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % src}})
    q["restarted"], q["base"] = True, src
    if src == top:
        q["u"].pop("bad_step", None)
        q["ini"]["Output"]["max_iter"] = it + 3
    s = dict(s)
    s["nphase"] = 2
    s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
    # outputs of the first run with higher numbers would be overwritten by the restarted run: look only at what it wrote itself
    for i in out:
        if i > src:
            s["p1.damage.%d" % i] = "/sim/out/r_%08d.h5 delete" % i
    if src == top:
        for k in ("bad_step", "bad_init"):
            s["p1.u." + k] = -1 if k == "bad_step" else 0
    ph = ctx.run("again", s, p["cfg"])[-1]
    stopped2, out2, last2 = judge(q, ph, ctx, what, nd, it, src)
    if src == top and not stopped2:
        raise Violation("continued", "a restart from the invalid state was not stopped")
    if src == top and last2 != it:
        raise Violation("continued", "a restart from the invalid state made steps")
    ctx.mark(what)


def shrink(p):
    for q in problem.shrink(p):
        if "probe" in p or q["ini"]["Grid"].get("shift_grid"):
            if q["ini"].get("User step", {}).get("user_step"):
                if "bad_rank" not in q["u"] or q["u"]["bad_rank"] < q["ranks"]:
                    yield q
    if p["again"] < 0.8:
        yield dict(p, again=1.0)
