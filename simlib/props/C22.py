"""C22: the log of a run tells its configuration, progress and end as they are."""
import re
import numpy as np
from .. import core, problem, ref, state
from ..driver import Violation, Trivial
from ..model import Model, probed
from ..outputs import completed, outputs, scalar

ID = "C22"
LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 120000}
QUICK = ["1d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["3d-pg-sphe-Uniform-sim", "1d-pg-cart-Uniform-sim", "3d-rad-sphe-Point_mass-sim"]
MUST = ["several processes", "process grid chosen by the program", "restart", "restart of a restart", "shifts", "limit of the shift", "no output schedule", "pressure fix on", "mass changes", "performance", "performance after a restart", "stall before the steps", "ended by an error", "3 dimensions"]
ASSUMPTIONS = ["the times and masses are printed with six digits"]
LABEL = {"eos": {"PerfectGas": "PerfectGas", "RadGas": "PerfectGasRadiation"}}


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6, 8]), steps=rng.randint(1, 6), small=True)
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    o["iter_frequency"] = rng.choice([0, 1, 1, 1, 2, 3])
    p = probed(p)
    o, r = p["ini"]["Output"], p["ini"]["Run"]
    p["u"]["shift_every"] = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.4:
        r["t_ini"] = rng.choice([-3.0, 12.5, 1e-7, 2.5e4])
    r["t_end"] = rng.choice([1e30, 7e4, 1e9])
    if p["u"]["shift_every"] and rng.random() < 0.4:
        G = p["ini"]["Grid"]
        p["ini"]["Problem"]["rmax_shift"] = float(G["x0max"]) + rng.uniform(-0.2, 3.5) * (float(G["x0max"]) - float(G["x0min"])) / int(G["Nx0_glob"])
    p["legs"] = [[rng.randint(1, 4), rng.random() if rng.random() < 0.5 else 1.0] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    p["stall"] = [rng.random() if rng.random() < 0.6 else 0.2 * rng.random(), rng.random(), rng.choice([40.0, 3600.0, 2e5])] if rng.random() < 0.5 else None
    p["probe"] = rng.random() < 0.8
    if not p["probe"]:
        # the solver alone: no user step, no moving grid
        p["ini"]["User step"] = rng.choice([{}, {"user_step": "Off"}])
        p["ini"]["Grid"].pop("shift_grid", None)
        p["u"].update(shift_every=0, probe_ghosts=0)
        p["stall"] = None
        o["iter_frequency"] = 1
    elif rng.random() < 0.12:
        p["legs"] = []
        p["u"].update(bad_step=rng.randint(0, 3), bad_kind=1, bad_rank=rng.randrange(p["ranks"]))
        p["stall"] = None
    return p


def info(text):
    """the lines name....value"""
    out = {}
    for l in text.splitlines():
        m = re.match(r"([A-Za-z_][\w\[\]]*?)\.\.+([^.].*|\.\d.*)?$", l)
        if m and len(l) >= 80:
            out.setdefault(m.group(1), []).append((m.group(2) or "").strip())
    return out


def close(a, b, scale=0.0):
    return abs(a - b) <= 6e-6 * max(abs(a), abs(b)) + scale


def configuration(p, ph, text, who, what, ctx):
    I, c = p["ini"], core.Cfg.parse(p["cfg"])
    have = info(text)
    nd = c.ndim
    G, Pz = I["Grid"], I["Parallelization"]
    want = {"Ndim": nd, "mpi_size": p["ranks"], "setup": c.setup, "nfx": int(I["Passive Scalar"].get("nfx", 0)),
            "restart": int(I["Problem"].get("restart") == "true"), "restart_file": I["Problem"].get("restart_file", "None"),
            "riemann_solver": I["Hydro"].get("riemann_solver", "HLL"), "user_step": I["User step"].get("user_step", "Off"),
            "pressure_fix": I["Pressure fix"].get("pressure_fix", "Off"), "eps_pf": float(I["Pressure fix"].get("eps_pf", 1e-6)),
            "eos": c.eos, "geometry": c.geom, "gravity": c.grav, "mpi_device_aware": int(str(Pz.get("mpi_device_aware", "false")).lower() in ("true", "1", "yes", "on"))}
    for d in range(3):
        want["Nghost[%d]" % d] = int(G.get("Nghost", 2)) if d < nd else 0
        want["Nx_glob_ng[%d]" % d] = int(G["Nx%d_glob" % d])
        want["mpi_dims_cart_x%d" % d] = int(Pz.get("mpi_dims_cart_x%d" % d, 0))
    sts = state.states(ph)
    if sts:
        l = sts[0][who]
        for d in range(3):
            want["mpi_dims_cart[%d]" % d] = len(set(k.corner[d] for k in sts[0].values()))
            want["Nx[%d]" % d] = l.n[d]
            want["Nx_local_wg[%d]" % d] = l.n[d] + 2 * l.ng[d]
            want["Corner_min[%d]" % d] = l.corner[d]
            want["Corner_max[%d]" % d] = l.corner[d] + l.n[d]
    for k, w in want.items():
        if len(have.get(k, [])) != 1:
            raise Violation("configuration", "%s: %s is told %d times: %s" % (what, k, len(have.get(k, [])), have.get(k)))
        g = have[k][0]
        try:
            ok = close(float(g), float(w)) if isinstance(w, (int, float)) else g == str(w)
        except ValueError:
            ok = False
        if not ok:
            raise Violation("configuration", "%s: %s is told to be %r, it is %r" % (what, k, g, w))
    if c.ndim == 3:
        ctx.mark("3 dimensions")
    if want["pressure_fix"] == "On":
        ctx.mark("pressure fix on")


NUM = r"(-?(?:\d[\d.]*(?:e[-+]?\d+)?|inf|nan))"
EVENTS = [("restart", r"restarting from file (\S*)\nat time " + NUM + r" \( ~ " + NUM + r"%\), with iteration +(\d+)"),
          ("output", r"current iteration (\d+) : \ncurrent time = " + NUM + r" \( ~ " + NUM + r"%\)\nfile number += +(\d+)"),
          ("shift", r"Shifting grid at time = " + NUM + r", iteration = (\d+)\nRmax = " + NUM),
          ("final", r"Final time = " + NUM + r" and number of iterations = (\d+)"),
          ("speed", r"Mean performance: " + NUM + r" Mcell-updates/s"),
          ("mass", r"Initial mass = " + NUM + r" and change in mass = " + NUM),
          ("end", r"(--- End ---)")]
PHRASES = {"restart": "restarting from", "output": "current iteration", "shift": "Shifting grid", "final": "Final time", "speed": "Mean performance", "mass": "Initial mass", "end": "--- End ---"}


def told(ph, what):
    """[(kind, values)] in order, {kind: values of every line} as told by all processes"""
    by, tellers = {k: [] for k, e in EVENTS}, {}
    order = []
    for r in range(len(ph.ranks)):
        text = ph.out(r)
        for k, e in EVENTS:
            l = [(m.start(), k, m.groups()) for m in re.finditer(e, text)]
            if text.count(PHRASES[k]) != len(l):
                raise Violation("form", "%s: %r is told in a form that cannot be read: %s" % (what, PHRASES[k], text[text.find(PHRASES[k]):][:200]))
            if l:
                tellers.setdefault(k, []).append(r)
                by[k] += [g for _, _, g in l]
                order += [(r, a, b, c) for a, b, c in l]
    for k, l in tellers.items():
        if len(l) > 1:
            raise Violation("told-twice", "%s: the processes %s all tell %r" % (what, l, PHRASES[k]))
    order = [(b, c) for _, _, b, c in sorted(order)] if len(set(r for r, _, _, _ in order)) == 1 else None
    return order, by


def history(p, ph, start, m, what):
    """what the run did, from its steps, shifts and files: the events that have to be told"""
    I = p["ini"]
    outs = outputs(ph)
    n0, ng = m.n[0], m.ng[0]
    ev = []
    if start is None:
        t, it, first = float(I["Run"].get("t_ini", 0)), 0, 0
    else:
        k0, h = start
        t, it, first = float(scalar(h, "current_time")), int(scalar(h, "iter")), k0 + 1
        ev.append(("restart", (I["Problem"]["restart_file"], t, it)))
    made, k = [], first
    while k in outs and created(ph, k):
        made.append((int(scalar(outs[k], "iter")), float(scalar(outs[k], "current_time")), k))
        k += 1
    last = outs[k - 1] if made else None
    if ph.end != "completed" and made:
        made.pop()  # the output of the invalid state is not told
    if not p["probe"]:
        for a, b, k in made:
            ev.append(("output", (a, b, k)))
            t, it = b, a
        return ev, t, it, None, last
    steps = [next(iter(d.values())) for d in state.steps(ph)]
    every = int(p["u"].get("shift_every", 0))
    rmax = float(I["Problem"].get("rmax_shift", 1e20))
    it0 = it

    def output():
        while made and made[0][0] == it:
            ev.append(("output", (it, t, made.pop(0)[2])))
    if start is None:
        output()
    stopped = False
    for n, (a, dt) in enumerate(steps):
        if every and (n + 1) % every == 0 and not stopped:
            e = float(m.x[0][n0 + ng + 1])
            if e >= rmax:
                stopped = True
            else:
                ev.append(("shift", (t, it, e)))
                m.shift_nodes()
        t += dt
        it += 1
        output()
    if made:
        raise Violation("numbering", "%s: outputs of the iterations %s, the run made %d to %d" % (what, [a for a, b, c in made], it0, it))
    return ev, t, it, len(steps), last


def created(ph, k):
    return any(re.match(r"@\d+ r-?\d+ create \S+_%08d\.h5$" % k, n) for n in ph.notes)


def agree(k, got, want, t_end, what):
    """one told event against what happened"""
    if k == "restart":
        ok = got[0] == want[0] and near(got[1], want[1]) and percent(got[2], want[1], t_end) and int(got[3]) == want[2]
    elif k == "output":
        ok = int(got[0]) == want[0] and near(got[1], want[1]) and percent(got[2], want[1], t_end) and int(got[3]) == want[2]
    else:
        ok = near(got[0], want[0]) and int(got[1]) == want[1] and near(got[2], want[2])
    if not ok:
        raise Violation(k, "%s: %r is told as %s; it is %s, the end of the run is at %r" % (what, PHRASES[k], list(got), list(want), t_end))


def near(a, b):
    return close(float(a), float(b), 1e-300)


def percent(a, t, t_end):
    return close(float(a), 100.0 * t / t_end, 1e-300)


def mass(m, rho):
    return float(np.sum((rho * m.mesh.V)[m.mesh.interior()] if rho.shape == m.mesh.V.shape else rho * m.mesh.V[m.mesh.interior()]))


def leg(p, ph, start, ctx, what, stall):
    I = p["ini"]
    t_end = float(I["Run"]["t_end"])
    m = Model(p)
    if start is not None:
        m.set_nodes([np.asarray(start[1].d["x%d" % d], float) for d in range(3)])
    m0 = Model(p)
    m0.set_nodes(m.x)
    who = [r for r in range(len(ph.ranks)) if info(ph.out(r))]
    if len(who) != 1:
        raise Violation("configuration", "%s: the configuration is told by the processes %s" % (what, who))
    configuration(p, ph, ph.out(who[0]), who[0], what, ctx)
    order, by = told(ph, what)
    ev, t, it, nsteps, last = history(p, ph, start, m, what)
    for k in ("restart", "output", "shift"):
        a, b = by[k], [v for q, v in ev if q == k]
        for x, y in zip(a, b):
            agree(k, x, y, t_end, what)
        if len(a) != len(b):
            raise Violation(k, "%s: %r is told %d times: %s; it happened %d times: %s" % (what, PHRASES[k], len(a), [list(x) for x in a], len(b), b))
    tail = ["final", "speed", "mass", "end"]
    if ph.end != "completed":
        for k in tail:
            if by[k]:
                raise Violation("end", "%s: %r is told by a run that was ended by an error" % (what, PHRASES[k]))
        g = re.search(r"Time = " + NUM + r", iteration = (\d+)", ph.err() + ph.msg)
        if not g or not near(g.group(1), t) or int(g.group(2)) != it:
            raise Violation("error", "%s: the error tells %s; the run was at time %r, iteration %d" % (what, g.groups() if g else None, t, it))
        ctx.mark("ended by an error")
        return
    if order is not None and [k for k, v in order] != [k for k, v in ev] + tail:
        raise Violation("order", "%s: told in the order %s instead of %s" % (what, [k for k, v in order], [k for k, v in ev] + tail))
    for k in tail:
        if len(by[k]) != 1:
            raise Violation("end", "%s: %r is told %d times" % (what, PHRASES[k], len(by[k])))
    a = by["final"][0]
    if not near(a[0], t) or int(a[1]) != it:
        raise Violation("final", "%s: the final time and iteration are told as %s; they are %r and %d" % (what, list(a), t, it))
    a = [float(x) for x in by["mass"][0]]
    if start is not None:
        rho = np.transpose(np.asarray(start[1].d["rho"], float))
    else:
        rho = m.initial()[0].rho
    mi = mass(m0, rho)
    if not close(a[0], mi, 1e-12 * mi):
        raise Violation("mass", "%s: the initial mass is told as %r, it is %r" % (what, a[0], mi))
    if last is not None or nsteps == 0:
        mf = mi if last is None else mass(m, np.transpose(np.asarray(last.d["rho"], float)))
        if not close(a[1], abs(mf - mi), 1e-12 * mi):
            raise Violation("mass", "%s: the change in mass is told as %r, it is %r" % (what, a[1], abs(mf - mi)))
        if abs(mf - mi) > 1e-6 * mi:
            ctx.mark("mass changes")
    if p["ranks"] > 1:
        ctx.mark("several processes")
        if not I["Parallelization"].get("mpi_dims_cart_x0"):
            ctx.mark("process grid chosen by the program")
    if by["shift"]:
        ctx.mark("shifts")
        if by["shift"] and p["u"]["shift_every"] and len(by["shift"]) < (nsteps or 0) // int(p["u"]["shift_every"]):
            ctx.mark("limit of the shift")
    if not I["Output"].get("iter_frequency"):
        ctx.mark("no output schedule")
    v = float(by["speed"][0][0])
    if not v >= 0:
        raise Violation("performance", "%s: the performance is told as %r" % (what, v))
    if nsteps == 0 and v != 0:
        raise Violation("performance", "%s: the performance is told as %r Mcell-updates/s, no step was made" % (what, v))
    if stall and nsteps:
        rank, D, other = stall
        at = [int(g.group(1)) for g in (re.match(r"fault stall \S+ rank %d occurrence \d+ event (\d+)" % rank, n) for n in ph.notes) if g]
        mine = [e for name, r, e, _ in ph.probes if name == "step" and r == rank]
        if at and mine:
            work = nsteps * m.n[0] * m.n[1] * m.n[2] * 1e-6
            if mine[0] < at[0] < mine[-1]:
                # the loop took the stall and at most what everything else took
                if not work / (D + other) * (1 - 1e-5) <= v <= work / D * (1 + 1e-5):
                    raise Violation("performance", "%s: the performance is told as %r Mcell-updates/s; %d steps of %d cells took %r to %r s: %r" % (what, v, nsteps, m.n[0] * m.n[1] * m.n[2], D, D + other, work / D))
                ctx.mark("performance")
                if start is not None:
                    ctx.mark("performance after a restart")
            elif before(ph, rank, at[0]):
                if v < work / other * (1 - 1e-5):
                    raise Violation("performance", "%s: the performance is told as %r Mcell-updates/s; %d steps of %d cells took at most %r s, after the start had taken %r s" % (what, v, nsteps, m.n[0] * m.n[1] * m.n[2], other, D))
                ctx.mark("stall before the steps")


def before(ph, rank, ev):
    """the process was at this event still in the initialization or in the reading of the restart"""
    start = [e for name, r, e, _ in ph.probes if name == "step" and r == rank]
    made = [int(g.group(1)) for g in (re.match(r"@(\d+) r-?\d+ create \S+_\d{8}\.h5$", n) for n in ph.notes) if g]
    return bool(made) and ev < min(made) < start[0]


def check(p, ctx):
    s = problem.scn(p)
    q, start, ph = p, None, None
    legs = [None] + p["legs"]
    for n, l in enumerate(legs):
        what = "run" if n == 0 else "restart %d" % n
        if l is not None:
            made = sorted(outputs(ph))
            if not made:
                break
            more, pick = l
            k = made[int(pick * (len(made) - 1) + 0.5)]
            start = (k, outputs(ph)[k])
            q = problem.variant(q, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % k}, "Output": {"max_iter": int(scalar(start[1], "iter")) + more}})
            s["nphase"] = n + 1
            s["p%d.file:/sim/x.ini" % n] = problem.ini_text(q["ini"])
            ctx.mark("restart" if n == 1 else "restart of a restart")
        stall = None
        if p["stall"] and n == len(legs) - 1:
            ph = ctx.run("timing", s, p["cfg"])[-1]
            completed(ph, "failed", what)
            at, who, D = p["stall"]
            r = int(who * p["ranks"])
            s["p%d.fault.0" % n] = "stall %d %d delay %d" % (r, int(at * ph.ranks[r]["counters"].get("stall", 0)), int(D * 1e9))
            stall = (r, D, 2.0 * ph.simtime_ns * 1e-9 + 1e-3)
        ph = ctx.run(what, s, p["cfg"], allow=("abort",))[-1]
        bad = "detected invalid" in ph.err() + ph.msg
        if not (bad and p["u"].get("bad_step", -1) >= 0):
            completed(ph, "failed", what)
        leg(q, ph, start, ctx, what, stall)


def shrink(p):
    for q in problem.shrink(p):
        if not p["probe"] or (q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step")):
            yield q
    if p["legs"]:
        yield dict(p, legs=p["legs"][:-1])
    if p["stall"]:
        yield dict(p, stall=None)
    if p["u"].get("shift_every"):
        yield problem.variant(p, u=dict(p["u"], shift_every=0))
