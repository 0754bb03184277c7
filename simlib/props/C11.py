"""C11: failed input/output is reported, never silently ignored."""
import re
import numpy as np
from .. import core, problem
from ..core import H5
from ..driver import Violation, Trivial
from ..outputs import completed, outputs, refused, same_file

ID = "C11"
LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 120000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "3d-rad-cart-Uniform-sim"]
# sites on the way of an output or a restart and how often they are chosen
SITES = {"fopen": 3, "write": 4, "close": 3, "rename": 1, "h5open": 3, "h5close": 2, "h5dwrite": 4, "h5dread": 3, "H5Fopen": 3, "H5Fcreate": 1, "H5Fflush": 2, "H5Fclose": 1, "H5Screate": 2, "H5Tcopy": 2, "H5Tset_size": 2, "H5Tset_cset": 2, "H5Acreate": 2, "H5Awrite": 2, "H5Dopen": 2, "H5Dget_space": 2, "H5Sget_ndims": 2, "H5Sget_dims": 2}
MUST = ["fired " + s for s in ("fopen", "write", "close", "h5open", "h5close", "h5dwrite", "h5dread", "H5Fopen", "H5Fflush", "H5Screate", "H5Tcopy", "H5Tset_size", "H5Tset_cset", "H5Acreate", "H5Awrite", "H5Dopen", "H5Dget_space", "H5Sget_ndims", "H5Sget_dims")] + ["harmless short", "harmless EINTR", "in a restart", "on another process than the first", "at a later output", "no output directory", "name taken", "diagnostic output", "two failures", "first output"]
ASSUMPTIONS = ["short and interrupted writes are no failures: the C++ library completes them", "PDI's default error handler (message and abort) is part of the modelled library"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6]), steps=rng.choice([1, 2, 4]), small=True)
    p["restart"] = rng.random() < 0.4
    p["case"] = "fault" if rng.random() < 0.92 else rng.choice(["nodir", "taken"])
    p["faults"] = [{"site": rng.random(), "rank": rng.random(), "nth": rng.random(), "action": rng.random()} for _ in range(rng.choice([1, 1, 1, 2]))]
    p["taken"] = rng.choice(["r.xmf", "r_00000001.h5", "r_00000000.h5"])
    if p["case"] != "fault":
        p["restart"] = False
    elif not p["restart"] and rng.random() < 0.12:
        p["u"]["bad_init"] = 1
        for d, q in enumerate("ijk"):
            p["u"]["bad_" + q] = rng.randrange(int(p["ini"]["Grid"]["Nx%d_glob" % d]))
    p["knobs"]["p_short_write"] = rng.choice([0, 0, 0.5])
    return p


def pick(f, ph, phase):
    """(site, rank, nth, action, harmless) of a fault on a call the undisturbed run makes"""
    have = {}
    for r, k in enumerate(ph.ranks):
        for s, n in k["counters"].items():
            skip = 1 if s == "fopen" else 0  # the first file opened is the configuration
            if s in SITES and n > skip:
                have.setdefault(s, []).append((r, n, skip))
    have["H5Fclose"] = [(r, 4, 0) for r in range(len(ph.ranks))]
    names = sorted(have)
    w = [SITES[s] for s in names]
    x = f["site"] * sum(w)
    for s, ww in zip(names, w):
        x -= ww
        if x < 0:
            break
    l = have[s]
    r, n, skip = l[int(f["rank"] * len(l))]
    nth = skip + int(f["nth"] * (n - skip))
    a, harmless = "fail", False
    if s == "write":
        a = ["short 1", "short 100", "EINTR", "ENOSPC", "EIO", "ENOSPC"][int(f["action"] * 6)]
        harmless = a[0] == "s" or a == "EINTR"
    elif s == "close":
        a = ["ENOSPC", "EIO"][int(f["action"] * 2)]
    return s, r, nth, a, harmless


def check(p, ctx):
    s = problem.scn(p)
    if p["case"] != "fault":
        return check_names(p, s, ctx)
    base = ctx.run1("undisturbed", s, p["cfg"], allow=())
    bad = "detected invalid" in base.err() + base.msg
    if not bad:
        completed(base, "failed", "undisturbed run")
    phase = 0
    if p["restart"]:
        ids = sorted(outputs(base))
        ident = ids[int(p["faults"][0]["action"] * (len(ids) - 1))]
        q = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % ident}})
        s["nphase"] = 2
        s["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        base = ctx.run("undisturbed restart", s, p["cfg"])[-1]
        completed(base, "failed", "undisturbed restart")
        phase = 1
    chosen = [pick(f, base, phase) for f in p["faults"]]
    for k, (site, r, nth, a, h) in enumerate(chosen):
        s["p%d.fault.%d" % (phase, k)] = "%s %d %d %s" % (site, r, nth, a)
    phs = ctx.run("faulted", s, p["cfg"])
    ph = phs[-1]
    fired = [c for c in chosen if any(n.startswith("fault %s %s rank %d occurrence %d " % (c[0], c[3].split()[0], c[1], c[2])) for n in ph.notes)]
    what = "; ".join("%s call %d of process %d fails (%s)" % (c[0], c[2], c[1], c[3]) for c in fired) or "nothing fails"
    if p["restart"]:
        what = "restart: " + what
    for c in fired:
        ctx.mark("fired " + c[0])
        if c[4]:
            ctx.mark("harmless " + c[3].split()[0])
        if c[1] > 0:
            ctx.mark("on another process than the first")
    if fired and p["restart"]:
        ctx.mark("in a restart")
    if len(fired) > 1:
        ctx.mark("two failures")
    fatal = [c for c in fired if not c[4]]
    mine, ref = ph.disk, base.disk
    if not fatal:
        if bad:
            refused(ph, "ignored", what)
        else:
            completed(ph, "failed", what)
        for f in ref:
            if f not in mine or not same_file(mine[f], ref[f]):
                raise Violation("changed", "%s: %s differs from the undisturbed run" % (what, f))
        return
    if bad:
        ctx.mark("diagnostic output")
    kind = "ignored:" + fatal[0][0]
    refused(ph, kind, what)
    # what the process that reported it had opened itself is closed again
    for n in ph.notes:
        if n.startswith("open at the end") and ph.kind == "mpi-abort":
            raise Violation("handle", "%s: %s" % (what, n))
    a, b = outputs(ph), outputs(base)
    before = outputs(phs[-2]) if p["restart"] else {}
    top = newest(ph)
    if top is not None and top > 0:
        ctx.mark("at a later output")
    elif top == 0:
        ctx.mark("first output")
    for i in a:
        if i != top and i in b and not same_file(a[i], b[i]) and not (i in before and same_file(a[i], before[i])):
            raise Violation("damage", "%s while output %s was being written: output %d is not what it was" % (what, top, i))
    for i in before:
        if i not in a:
            raise Violation("damage", "%s: output %d is gone" % (what, i))
    if mine.get("/sim/x.ini") != ref.get("/sim/x.ini"):
        raise Violation("damage", "%s: the input file changed" % what)


def newest(ph):
    """number of the last output that was created or opened for writing"""
    top = None
    for n in ph.notes:
        m = re.match(r"@\d+ r-?\d+ create \S+_(\d+)\.h5$", n)
        if m:
            top = int(m.group(1))
    return top


def check_names(p, s, ctx):
    if p["case"] == "nodir":
        p["ini"]["Output"]["directory"] = "/sim/nowhere"
        s = problem.scn(p)
        what = "the output directory does not exist"
    else:
        s["p0.mkdir:/sim/out/" + p["taken"]] = 1
        what = "%s is a directory" % p["taken"]
    ph = ctx.run1("run", s, p["cfg"])
    refused(ph, "ignored:" + p["case"], what)
    ctx.mark("no output directory" if p["case"] == "nodir" else "name taken")


def shrink(p):
    yield from problem.shrink(p)
    if len(p["faults"]) > 1:
        yield dict(p, faults=p["faults"][:1])
        yield dict(p, faults=p["faults"][1:])
    if p["knobs"].get("p_short_write"):
        yield dict(p, knobs=dict(p["knobs"], p_short_write=0))
    for k in ("rank", "nth"):
        for n, f in enumerate(p["faults"]):
            if f[k] > 0:
                l = [dict(x) for x in p["faults"]]
                l[n][k] = 0.0
                yield dict(p, faults=l)
