"""C08: outputs happen on schedule and the run ends when it should."""
import re
from .. import core, problem, state
from ..driver import Violation, Trivial
from ..model import probed
from ..outputs import outputs, completed, scalar

ID = "C08"
LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 120000}
QUICK = ["1d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim"]
MORE = ["3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MUST = ["iteration schedule", "time schedule", "both schedules", "no schedule", "first output time", "ended by time", "ended by iterations", "ended by clock", "clock of one process", "clock before its limit", "restart", "restart at the end", "requested time after the end", "several ranks", "end on an output time", "met exactly: output", "met exactly: end", "met exactly: both"]
ASSUMPTIONS = ["the run is not started at a requested output time (time_first_output = t_ini), which the code refuses", "steps are larger than the rounding of the time"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)] if rng.random() < 0.5 else cfgs[0]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6]), steps=1, small=True)
    p["ini"]["User step"] = {"user_step": "UserDefined"}
    p["ini"]["Pressure fix"] = {}
    p["u"].update(heat=0, decay=0)
    g, u = p["ini"]["Grid"], p["u"]
    nd = int(cfg[0])
    # a time of the order of one step
    dx = min((float(g["x%dmax" % d]) - float(g["x%dmin" % d])) / int(g["Nx%d_glob" % d]) for d in range(nd))
    dt = float(p["ini"]["Run"]["cfl"]) * dx / nd * (u["rho0"] / u["P0"] / 1.6) ** 0.5
    p["dt"] = dt
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    o.pop("iter_frequency", None)
    num = lambda x: float("%.4g" % x) if rng.random() < 0.7 else x
    r["t_ini"] = num(rng.choice([0.0, 0.0, 3.1, -7.7, 0.05]) * dt)
    k = rng.randrange(4)
    if k != 1 and k != 3:
        o["iter_frequency"] = rng.choice([1, 2, 3, 5, 100])
    if k != 2 and k != 3:
        o["time_frequency"] = num(rng.choice([0.3, 0.7, 1.0, 1.9, 3.3, 1000.0]) * dt)
        if rng.random() < 0.4:
            o["time_first_output"] = r["t_ini"] + num(rng.choice([0.1, 0.8, 2.5]) * dt)
    end = rng.choice([0.4, 2.2, 4.5, 7.3, 1e6]) * dt
    if "time_frequency" in o and rng.random() < 0.35:
        end = o.get("time_first_output", r["t_ini"] + o["time_frequency"]) + rng.randrange(5) * o["time_frequency"] - r["t_ini"]
        if rng.random() < 0.3:
            end -= rng.choice([1e-3, 0.2, 0.6]) * min(dt, o["time_frequency"])
    r["t_end"] = r["t_ini"] + end
    o["max_iter"] = rng.choice([1, 2, 3, 5, 9, 14])
    # an output time or the end met exactly by a step that is not shortened for it
    p["hit"] = [rng.choice(["output", "output", "end", "both"]), rng.randint(1, 4)] if rng.random() < 0.12 else None
    p["legs"] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        # what the next leg is given: more time, more iterations, both or nothing
        p["legs"].append([rng.choice([0, 0, 0.3, 1.7, 4.4, 1e6]), rng.choice([0, 0, 1, 3, 6]), rng.random() if rng.random() < 0.5 else 1.0])
    p["clock"] = None
    if rng.random() < 0.35:
        how = rng.choice(["all", "all", "one", "none", "zero", "rate"])
        o["time_job"] = 0 if how == "zero" else rng.choice([1, 2, 20])
        p["clock"] = {"how": how, "at": rng.random(), "rank": rng.random(), "over": rng.choice([1.001, 1.5, 100.0])}
        p["legs"] = []
        if rng.random() < 0.7:
            r["t_end"] = r["t_ini"] + 1e6 * dt
            o["max_iter"] = 9
    return p


def requested(p, lo, hi):
    """requested output times in (lo, hi]"""
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    f = float(o.get("time_frequency", 0))
    if f <= 0:
        return []
    first = float(o.get("time_first_output", float(r["t_ini"]) + f))
    out, n = [], 0
    while True:
        t = first + n * f
        if t > hi:
            return out
        if t > lo:
            out.append(t)
        n += 1
        if n > 2000:
            return out


def check(p, ctx):
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    clock = p["clock"]
    if p.get("hit") and not clock:
        how, k = p["hit"]
        ph = ctx.run1("steps", problem.scn(problem.variant(p, ini={"Run": {"t_end": 1e300}, "Output": {"max_iter": k, "time_frequency": 0, "iter_frequency": 1}})), p["cfg"])
        completed(ph, "failed", "run")
        at = float(scalar(outputs(ph)[k], "current_time"))
        if how != "end":
            p = problem.variant(p, ini={"Output": {"time_first_output": at, "time_frequency": float(o.get("time_frequency", 0)) or 2.5 * p["dt"]}})
        if how != "output":
            p = problem.variant(p, ini={"Run": {"t_end": at}})
        o, r = p["ini"]["Output"], p["ini"]["Run"]
        ctx.mark("met exactly: " + how)
    s = problem.scn(p)
    limit_ns = int(o.get("time_job", 20)) * 3600e9
    stopped_by = None
    if clock and clock["how"] in ("all", "one", "none"):
        # where in the run the processes stall
        base = problem.variant(p, ini={"Output": {"time_job": 1000}})
        ph = ctx.run1("timing", problem.scn(base), p["cfg"])
        completed(ph, "failed", "run")
        ranks = range(p["ranks"])
        if clock["how"] == "one":
            ranks = [int(clock["rank"] * p["ranks"])]
        over = clock["over"] if clock["how"] != "none" else 0.9 / p["ranks"]  # a stalled process delays the others
        for i, k in enumerate(ranks):
            n = ph.ranks[k]["counters"].get("stall", 0)
            s["p0.fault.%d" % i] = "stall %d %d delay %d" % (k, max(0, int(clock["at"] * n)), int(limit_ns * over))
    elif clock and clock["how"] == "rate":
        # every event takes 0.2 hours on clocks that all run fast, each at its own rate
        for k in range(p["ranks"]):
            s["clock_rate.%d" % k] = float(limit_ns / 1000.0 / 120 * (1 + 0.3 * k))
    ph = ctx.run1("run", s, p["cfg"])
    completed(ph, "failed", "run")
    hist = leg(p, ph, ctx, None, clock, "run", limit_ns)
    if p["ranks"] > 1:
        ctx.mark("several ranks")
    s["nphase"] = 1
    q = p
    for n, (more_t, more_i, pick) in enumerate(p["legs"]):
        ids = sorted(hist["outs"])
        if not ids:
            break
        k = ids[int(pick * (len(ids) - 1) + 0.5)]
        h = hist["outs"][k]
        oo, rr = q["ini"]["Output"], q["ini"]["Run"]
        q = problem.variant(q, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % k}, "Run": {"t_end": float(rr["t_end"]) + more_t * p["dt"]}, "Output": {"max_iter": int(oo["max_iter"]) + more_i}})
        i = s["nphase"]
        s["nphase"] = i + 1
        s["p%d.file:/sim/x.ini" % i] = problem.ini_text(q["ini"])
        for key in [x for x in s if x.startswith("p0.fault")]:
            s.pop(key)
        ph = ctx.run("restart%d" % (n + 1), s, p["cfg"])[-1]
        completed(ph, "failed", "restart %d" % (n + 1))
        ctx.mark("restart")
        hist = leg(q, ph, ctx, (k, hist), None, "restart %d from output %d" % (n + 1, k), limit_ns)


def leg(p, ph, ctx, start, clock, what, limit_ns):
    """checks one run; start: (output id, history) it was restarted from. Returns the history up to its end"""
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    f_it, f_t = int(o.get("iter_frequency", 0)), float(o.get("time_frequency", 0))
    t_end, max_iter = float(r["t_end"]), int(o["max_iter"])
    per = state.steps(ph)
    for k, d in enumerate(per):
        if len(d) != p["ranks"] or len(set(d.values())) != 1:
            raise Violation("decisions-differ", "%s: step %d is made by the processes %s as %s" % (what, k, sorted(d), sorted(set(d.values()))))
    steps = [next(iter(d.values())) for d in per]
    outs = outputs(ph)
    if start is None:
        t, it, have = float(r["t_ini"]), 0, {}
    else:
        k0, h0 = start
        h = h0["outs"][k0]
        t, it = float(scalar(h, "current_time")), int(scalar(h, "iter"))
        have = {i: v for i, v in h0["outs"].items() if i <= k0}
    eps = 4 * 2.0 ** -52 * max([abs(t), abs(float(r["t_ini"]))] + [abs(a) + abs(b) for a, b in steps])
    t0, it0 = t, it
    times = {it: t}
    for a, b in steps:
        if abs(a - t) > eps:
            raise Violation("time", "%s: the step after iteration %d starts at %r instead of %r" % (what, it, a, t))
        if not b > 0:
            raise Violation("time", "%s: the step from iteration %d has length %r" % (what, it, b))
        t = t + b
        it += 1
        times[it] = t
    N = it
    # the end
    if t > t_end + eps and steps:
        raise Violation("past-the-end", "%s: the run went to time %r past its end %r" % (what, t, t_end))
    if N > max_iter and N > it0:
        raise Violation("past-the-end", "%s: the run made iteration %d of %d" % (what, N, max_iter))
    for i in range(it0, N):
        if times[i] >= t_end or i >= max_iter:
            raise Violation("past-the-end", "%s: a step was made at iteration %d, time %r; the limits are %d, %r" % (what, i, times[i], max_iter, t_end))
    by_time, by_iter = abs(t - t_end) <= eps or t >= t_end, N >= max_iter
    if by_time:
        ctx.mark("ended by time")
    if by_iter:
        ctx.mark("ended by iterations")
    lo, hi = clock_window(p, ph, clock, limit_ns, it0, ctx)
    if not (by_time or by_iter):
        if not lo <= N <= hi:
            raise Violation("early-end", "%s: the run ended at iteration %d, time %r; the limits are %d, %r, and by the clocks iteration %s to %s" % (what, N, t, max_iter, t_end, lo, hi))
        ctx.mark("ended by clock")
    elif N > hi:
        raise Violation("clock", "%s: the run went on to iteration %d; the wall-clock limit was over by iteration %s" % (what, N, hi))
    # the outputs
    new = {i: h for i, h in outs.items() if start is None or i > start[0]}
    first = 0 if start is None else start[0] + 1
    # outputs of an earlier leg that this one has not reached again
    stale = {} if start is None else {i: h for i, h in start[1]["outs"].items() if i > start[0]}
    made = {}
    i = first
    while i in new and not (i in stale and same(new[i], stale[i], ph, i)):
        made[i] = new[i]
        i += 1
    rest = [j for j in new if j not in made and j not in stale]
    if rest:
        raise Violation("numbering", "%s: outputs %s after %s" % (what, rest, i - 1))
    recs = []
    for j in sorted(made):
        h = made[j]
        a, b = int(scalar(h, "iter")), float(scalar(h, "current_time"))
        if a not in times or abs(times[a] - b) > eps:
            raise Violation("numbering", "%s: output %d has iteration %d and time %r; times %s" % (what, j, a, b, times))
        recs.append(a)
    if recs != sorted(set(recs)):
        raise Violation("numbering", "%s: the iterations of the outputs are %s" % (what, recs))
    # requested outputs, in order
    want = {}
    if start is None and (f_it > 0 or f_t > 0):
        want[0] = "start"
    if start is None and not (f_it > 0 or f_t > 0):
        ctx.mark("no schedule")
    if f_it > 0:
        for k in range(it0 + 1, N + 1):
            if k % f_it == 0:
                want.setdefault(k, "iteration")
                ctx.mark("iteration schedule")
    for T in requested(p, t0 + eps, t + eps):
        hit = [k for k in range(it0, N + 1) if abs(times[k] - T) <= eps]
        if not hit:
            if T > t - eps and T > t_end:
                continue
            raise Violation("time-schedule", "%s: no step ends at the requested output time %r; times %s" % (what, T, sorted(times.values())))
        if not any(k in recs for k in hit):
            raise Violation("time-schedule", "%s: there is no output at the requested time %r (iteration %s); outputs at %s" % (what, T, hit, recs))
        for k in hit:
            if k > it0:
                want.setdefault(k, "time")
        ctx.mark("time schedule")
        if "time_first_output" in o:
            ctx.mark("first output time")
    if N > it0:
        want.setdefault(N, "end")
    for k in recs:
        if k not in want:
            raise Violation("unrequested", "%s: output at iteration %d, time %r was not requested; wanted %s" % (what, k, times[k], want))
    for k in want:
        if k not in recs and want[k] != "time":
            raise Violation("missing", "%s: there is no output at iteration %d (%s); outputs at %s" % (what, k, want[k], recs))
    if f_it > 0 and f_t > 0:
        ctx.mark("both schedules")
    if by_time and any(abs(T - t_end) <= eps for T in requested(p, t0, t_end + eps)):
        ctx.mark("end on an output time")
    if start is not None and N == it0:
        ctx.mark("restart at the end")
    if start is None and f_t > 0 and by_time and N > 0:
        T = requested(p, t_end + eps, t_end + f_t + p["dt"])
        if T and T[0] - times[N - 1] < p["dt"] * 0.5:
            ctx.mark("requested time after the end")
    allouts = dict(have)
    allouts.update(made)
    return {"outs": allouts, "t": t, "it": N}


def same(a, b, ph, i):
    """output i was left alone by this run"""
    return not any(re.match(r"@\d+ r-?\d+ create \S+_%08d\.h5$" % i, n) for n in ph.notes)


def clock_window(p, ph, clock, limit_ns, it0, ctx):
    """(first, last) iteration at which the wall-clock limit may and must end the run"""
    inf = 10 ** 9
    if clock is None:
        return inf, inf
    if clock["how"] == "zero":
        return it0 + 1, it0 + 1
    if clock["how"] == "rate":
        return it0 + 1, inf
    if clock["how"] == "none":
        ctx.mark("clock before its limit")
        return inf, inf
    # number of steps each process had made when it stalled
    ks, origin = [], True
    for n in ph.notes:
        m = re.match(r"fault stall \S+ rank (\d+) occurrence \d+ event (\d+)", n)
        if m:
            rank, ev = int(m.group(1)), int(m.group(2))
            k = sum(1 for name, rr, e, v in ph.probes if name == "step" and rr == rank and e <= ev)
            ks.append(k)
    if not ks:
        return inf, inf
    lo = it0 + min(ks) + 1
    if clock["how"] == "one":
        ctx.mark("clock of one process")
        return lo, inf
    # the clock is only known to have started once a step was made
    if min(ks) < 1:
        return lo, inf
    return lo, it0 + max(ks) + 2


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["legs"]:
        yield dict(p, legs=p["legs"][:-1])
    if p["clock"]:
        yield dict(p, clock=None)
    for sec, key in (("Output", "time_first_output"), ("Output", "iter_frequency"), ("Output", "time_frequency")):
        if key in p["ini"][sec]:
            yield problem.variant(p, ini={sec: {key: None}})
