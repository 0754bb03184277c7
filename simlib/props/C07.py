"""C07: each output holds the whole state of one instant; the index describes the outputs."""
import re
import xml.etree.ElementTree as ET
import numpy as np
from .. import core, problem, ref, shipped, state
from ..core import H5, STAMP
from ..driver import Violation, Trivial
from ..model import Model, probed
from ..outputs import outputs, completed, scalar, reldiff, scale

ID = "C07"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 60000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim", "3d-pg-sphe-Uniform-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-rad-cart-Uniform-sim", "1d-rad-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim"]
MUST = ["states compared", "index read", "restart", "several scalars", "no output at the start", "time schedule", "parallel", "stretched grid", "other directory", "1 dimensions", "2 dimensions", "3 dimensions"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    steps = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.05:
        cfg, steps = rng.choice([c for c in cfgs if c[0] == "1"]), rng.choice([13, 30])  # many outputs
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 4, 8]), steps=steps, small=rng.random() < 0.5, nfx=rng.choice([0, 1, 2, 3, 10]) if rng.random() < 0.9 else None)
    p = probed(p)
    o = p["ini"]["Output"]
    o["directory"] = rng.choice(["/sim/out"] * 4 + ["/sim/out/", ".", "/sim/a", "/sim/out/deep"])
    o["prefix"] = rng.choice(["r"] * 3 + ["result", "x_1", "run.7"])
    o["iter_frequency"] = rng.choice([1, 1, 1, 2, 3, 0])
    if rng.random() < 0.3:
        p["ini"]["Run"]["t_ini"] = float("%.6g" % (rng.choice([0.25, -3.0, 1e3]) * crossing(p)))
    p["tfreq"] = rng.choice([None, None, 0.4, 0.77])
    p["restart"] = rng.random() < 0.35
    p["pick"] = rng.random()
    return p


def crossing(p):
    """a time of the order of the sound crossing of one cell"""
    g, u = p["ini"]["Grid"], p["u"]
    return (float(g["x0max"]) - float(g["x0min"])) / int(g["Nx0_glob"]) * (u["rho0"] / u["P0"]) ** 0.5


def directory(p):
    d = p["ini"]["Output"]["directory"].rstrip("/")
    return "/sim/cwd" if d == "." else d


def scenario(p):
    s = problem.scn(p)
    if directory(p) not in ("/sim/cwd", "/sim/out"):
        s["p0.mkdir:" + directory(p)] = ""
    return s


def check(p, ctx):
    m = Model(p)
    if p["tfreq"] is not None:
        q = problem.variant(p, ini={"Output": {"iter_frequency": 1}})
        ph = ctx.run1("length", scenario(q), p["cfg"])
        completed(ph, "failed", "run")
        st = state.steps(ph)
        T = sum(v[0][1] for v in st)
        p = problem.variant(p, ini={"Output": {"time_frequency": T * p["tfreq"]}})
        ctx.mark("time schedule")
    s = scenario(p)
    phs = [ctx.run1("run", s, p["cfg"])]
    completed(phs[0], "failed", "run")
    check_run(p, m, phs[0], ctx, None, "run")
    if p["restart"]:
        o = outputs(phs[0], directory(p), p["ini"]["Output"]["prefix"])
        ids = sorted(o)
        k = ids[int(p["pick"] * len(ids))]
        more = int(p["ini"]["Output"]["max_iter"]) + 1
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "%s/%s_%08d.h5" % (directory(p), p["ini"]["Output"]["prefix"], k)}, "Output": {"max_iter": more}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ph = ctx.run("restarted", s, p["cfg"])[-1]
        completed(ph, "failed", "restarted run")
        ctx.mark("restart")
        check_run(q, Model(q), ph, ctx, (k, o[k]), "restart from output %d" % k)
    ctx.mark("%d dimensions" % m.nd)
    if p["ranks"] > 1:
        ctx.mark("parallel")
    if p["ini"]["Grid"]["type"] == "UserDefined":
        ctx.mark("stretched grid")
    if m.nfx > 1:
        ctx.mark("several scalars")
    if directory(p) != "/sim/out":
        ctx.mark("other directory")


def check_run(p, m, ph, ctx, start, what):
    """start: None or (id, output) the run was restarted from"""
    pre = p["ini"]["Output"]["prefix"]
    outs = outputs(ph, directory(p), pre)
    sts, dts = state.states(ph), state.steps(ph)
    dts = [next(iter(d.values())) for d in dts]
    if len(sts) != len(dts):
        raise Trivial()
    # time after each step, as the run adds it up
    t = float(p["ini"]["Run"]["t_ini"]) if start is None else float(scalar(start[1], "current_time"))
    it0 = 0 if start is None else int(scalar(start[1], "iter"))
    times = [t]
    for a, b in dts:
        t = t + b
        times.append(t)
    mine = {i: h for i, h in outs.items() if start is None or i > start[0]}
    if not mine:
        raise Violation("no-output", "%s: no output was made" % what)
    for i, h in sorted(mine.items()):
        w = "%s: output %d" % (what, i)
        check_output(p, m, h, i, w, sts, times, it0, start is None, ctx)
    check_index(p, m, ph, mine, outs, what, ctx)


def need(h, name, shape, kind, w):
    if name not in h.d:
        raise Violation("incomplete", "%s has no dataset %s" % (w, name))
    v = np.asarray(h.d[name])
    if shape is not None and tuple(v.shape) != tuple(shape):
        raise Violation("shape", "%s: %s has shape %s instead of %s" % (w, name, v.shape, shape))
    if h.types[name] != kind:
        raise Violation("type", "%s: %s has type %s" % (w, name, h.types[name]))
    return v


def near(w, name, got, want, tol, floor=0.0):
    d = reldiff(got, want, floor)
    if not d <= tol:
        if np.asarray(got).shape == np.asarray(want).shape and np.isfinite(d):
            i = np.unravel_index(np.nanargmax(np.abs(got - want)), want.shape)
            raise Violation("content", "%s: %s at %s is %r instead of %r" % (w, name, tuple(int(x) for x in i), float(got[i]), float(want[i])))
        raise Violation("content", "%s: %s differs (%s)" % (w, name, d))


def check_output(p, m, h, i, w, sts, times, it0, fresh, ctx):
    if h.torn:
        raise Violation("incomplete", "%s was never closed" % w)
    for n in ("output_id", "iter_output_id", "time_output_id", "iter"):
        need(h, n, None, "int", w)
    for n in ("current_time", "gamma"):
        need(h, n, None, "double", w)
    it = int(scalar(h, "iter"))
    if int(scalar(h, "output_id")) != i:
        raise Violation("numbering", "%s has number %d" % (w, int(scalar(h, "output_id"))))
    k = it - it0
    if not 0 <= k <= len(sts):
        raise Violation("iteration", "%s is of iteration %d; the run went from %d to %d" % (w, it, it0, it0 + len(sts)))
    t = float(scalar(h, "current_time"))
    if abs(t - times[k]) > 1e-12 * max(abs(times[k]), abs(times[-1])):
        raise Violation("time", "%s of iteration %d has time %r instead of %r" % (w, it, t, times[k]))
    if float(scalar(h, "gamma")) != m.eos.g:
        raise Violation("gamma", "%s has adiabatic index %r instead of %r" % (w, float(scalar(h, "gamma")), m.eos.g))
    for n, v in (("git_build_string", "GIT_BUILD_STRING"), ("git_branch", "GIT_BRANCH"), ("compile_date", "DATE_STRING"), ("compile_time", "TIME_STRING")):
        if h.attrs.get(n, b"").rstrip(b"\0") != STAMP[v].encode():
            raise Violation("build-information", "%s: attribute %s is %r instead of %r" % (w, n, h.attrs.get(n), STAMP[v]))
    for d in range(3):
        x = m.x[d]
        ng = m.ng[d]
        a = need(h, "x%d" % d, (len(x),), "double", w)
        b = need(h, "x%d_ng" % d, (m.n[d] + 1,), "double", w)
        L = float(x[-1] - x[0])
        if np.max(np.abs(a - x)) > 1e-13 * (L + scale(x)):
            raise Violation("coordinates", "%s: x%d is %s instead of %s" % (w, d, a[:4], x[:4]))
        if not np.array_equal(b, a[ng:len(a) - ng]):
            raise Violation("coordinates", "%s: x%d_ng is not the part of x%d without ghost nodes" % (w, d, d))
    shape = m.n[::-1]
    got = {n: need(h, n, shape, "double", w).transpose(2, 1, 0) for n in ["rho", "P", "E", "T"] + ["ux%d" % d for d in range(m.nd)] + ["fx%d" % f for f in range(m.nfx)]}
    rel = 1e-12 if not m.eos.rad else 1e-7
    if k == 0:
        if not fresh:
            raise Violation("rewritten", "%s has the iteration the run was restarted at" % w)
        rho, u, P, fx = m.fields.initial(m.nd, m.nfx)
        cs = float(np.max(m.eos.sound(rho, P)))
        near(w, "rho", got["rho"], rho, 1e-13)
        near(w, "P", got["P"], P, max(rel, 1e-11))
        for d in range(m.nd):
            near(w, "ux%d" % d, got["ux%d" % d], u[d], 1e-12, cs)
        for f in range(m.nfx):
            near(w, "fx%d" % f, got["fx%d" % f], fx[f], 1e-13, 1.0)
        near(w, "E", got["E"], ref.cons(ref.Prim(rho, u, P), m.eos).E, rel)
        near(w, "T", got["T"], m.eos.T_from_P(rho, P), rel)
    else:
        c, fx, _, _ = state.assemble(sts[k - 1], m.nd)
        q = m.mesh.interior()
        rho, E, mom = c.rho[q], c.E[q], [v[q] for v in c.m]
        with np.errstate(all="ignore"):
            pr = ref.prim(ref.Cons(rho, mom, E), m.eos)
            cs = float(np.nanmax(m.eos.sound(rho, pr.P)))
        # exactly the conserved state of that instant
        for n, a, b in [("rho", got["rho"], rho), ("E", got["E"], E)] + [("fx%d" % f, got["fx%d" % f], fx[f][q]) for f in range(m.nfx)]:
            if not np.array_equal(a, b):
                j = np.unravel_index(np.argmax(a != b), a.shape)
                raise Violation("content", "%s (iteration %d): %s at cell %s is %r instead of %r" % (w, it, n, tuple(int(y) for y in j), float(a[j]), float(b[j])))
        for d in range(m.nd):
            near(w, "ux%d" % d, got["ux%d" % d], pr.u[d], 1e-13, cs)
        # the internal energy is a difference: its rounding is relative to the total energy
        e = E - ref.ek(ref.Cons(rho, mom, E))
        with np.errstate(all="ignore"):
            cond = float(np.nanmax(E / e))
        near(w, "P", got["P"], pr.P, rel * max(1, cond))
        near(w, "T", got["T"], m.eos.T_from_P(rho, got["P"]), rel * max(1, cond))
    ctx.mark("states compared")


def check_index(p, m, ph, mine, outs, what, ctx):
    pre = p["ini"]["Output"]["prefix"]
    path = directory(p) + "/" + pre + ".xmf"
    b = ph.disk.get(path)
    if not isinstance(b, bytes):
        raise Violation("index", "%s: there is no index %s" % (what, path))
    try:
        root = ET.fromstring(b)
    except ET.ParseError as e:
        raise Violation("index", "%s: the index is not well formed: %s" % (what, e))
    grids = [g for g in root.iter("Grid") if g.get("GridType") == "Uniform"]
    coll = [g for g in root.iter("Grid") if g.get("GridType") == "Collection"]
    if root.tag != "Xdmf" or len(coll) != 1 or coll[0].get("CollectionType") != "Temporal":
        raise Violation("index", "%s: the index is not one temporal collection" % what)
    ids = sorted(mine)
    if len(grids) != len(ids):
        raise Violation("index", "%s: the index lists %d outputs instead of %s" % (what, len(grids), ids))
    want = {"rho", "P", "E", "T"} | {"ux%d" % d for d in range(m.nd)} | {"fx%d" % f for f in range(m.nfx)}
    for g, i in zip(grids, ids):
        w = "%s: the index entry of output %d" % (what, i)
        h = mine[i]
        t = float(scalar(h, "current_time"))
        try:
            v = float(g.find("Time").get("Value"))
        except (AttributeError, TypeError, ValueError):
            raise Violation("index", "%s has no time" % w)
        if abs(v - t) > 1e-5 * abs(t):
            raise Violation("index", "%s has time %r instead of %r" % (w, v, t))
        top = g.find("Topology")
        dims = [int(x) for x in top.get("Dimensions").split()] if top is not None else None
        if dims != [n + 1 for n in m.n[::-1]]:
            raise Violation("index", "%s has dimensions %s" % (w, dims))
        geo = g.find("Geometry")
        items = [("axis %d" % a, x) for a, x in enumerate(geo.findall("DataItem"))] if geo is not None else []
        if len(items) != 3:
            raise Violation("index", "%s has %d axes" % (w, len(items)))
        names = [a.get("Name") for a in g.findall("Attribute")]
        if sorted(names) != sorted(want):
            raise Violation("index", "%s has the variables %s instead of %s" % (w, sorted(names), sorted(want)))
        for a in g.findall("Attribute"):
            if a.get("Center") != "Cell" or len(a.findall("DataItem")) != 1:
                raise Violation("index", "%s: variable %s is not described as cell data" % (w, a.get("Name")))
            items.append((a.get("Name"), a.find("DataItem")))
        for n, x in items:
            mm = re.match(r"\s*(\S+):/(\S+)\s*$", x.text or "")
            if not mm:
                raise Violation("index", "%s: %s names no dataset: %r" % (w, n, x.text))
            f = directory(p) + "/" + mm.group(1)
            if f != "%s/%s_%08d.h5" % (directory(p), pre, i):
                raise Violation("index", "%s: %s is in the file %s" % (w, n, mm.group(1)))
            dn = mm.group(2)
            if n.startswith("axis"):
                if dn != "x%s_ng" % n[-1]:
                    raise Violation("index", "%s: %s is %s" % (w, n, dn))
            elif dn != n:
                raise Violation("index", "%s: variable %s is the dataset %s" % (w, n, dn))
            sh = [int(y) for y in x.get("Dimensions").split()]
            if dn not in h.d or list(np.asarray(h.d[dn]).shape) != sh:
                raise Violation("index", "%s: %s has dimensions %s but the file has %s" % (w, dn, sh, list(h.d[dn].shape) if dn in h.d else None))
            if (x.get("NumberType"), x.get("Precision"), x.get("Format")) != ("Float", "8", "HDF"):
                raise Violation("index", "%s: %s is described as %s %s %s" % (w, dn, x.get("NumberType"), x.get("Precision"), x.get("Format")))
    ctx.mark("index read")
    if 0 not in [int(scalar(h, "iter")) for h in outs.values()]:
        ctx.mark("no output at the start")


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"]["Grid"].get("shift_grid") and q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["restart"]:
        yield dict(p, restart=False)
    if p["tfreq"] is not None:
        yield dict(p, tfreq=None)
