"""C06: completed outputs survive a crash; a restart from anything incomplete is refused."""
import re
import numpy as np
from .. import core, problem, state
from ..core import H5
from ..driver import Violation, Trivial
from ..outputs import outputs, compare1, completed, scalar, refused, same_file

ID = "C06"
LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 40000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["1d-pg-cart-Uniform-sim", "3d-pg-sphe-Uniform-sim", "3d-rad-cart-Uniform-sim"]
MUST = ["crash", "crash while an output is written", "crash before the first output", "restart after crash", "incomplete output left", "restart from the incomplete output refused", "refused missing", "refused torn", "refused dropped", "refused not-hdf5", "refused grid-size", "refused scalars", "crash of the restarted run"]
ASSUMPTIONS = ["an HDF5 file open for writing when the job is killed is left unopenable, or as it was, or with a random subset of its complete new datasets; a closed file is durable", "datasets with partly written content are not modelled: HDF5 keeps no mark of them that a reader could see"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def required(p):
    """the datasets a restart cannot do without"""
    nd = int(p["cfg"][0])
    nfx = int(p["ini"].get("Passive Scalar", {}).get("nfx", 0))
    return ["output_id", "iter_output_id", "time_output_id", "iter", "current_time", "rho", "P", "x0", "x1", "x2"] + ["ux%d" % d for d in range(nd)] + ["fx%d" % n for n in range(nfx)]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    steps = rng.choice([2, 3, 5])
    if rng.random() < 0.08:
        cfg, steps = rng.choice([c for c in cfgs if c[0] == "1"]), rng.choice([12, 24])  # many outputs
    p = problem.gen(rng, cfg, maxranks=rng.choice([1, 2, 4, 6]), steps=steps, small=True)
    p["ini"]["User step"]["user_step"] = "UserDefined"
    p["ini"]["Output"]["iter_frequency"] = rng.choice([1, 1, 2])
    nd = int(cfg[0])
    nx = [int(p["ini"]["Grid"]["Nx%d_glob" % d]) for d in range(3)]
    fixed = [1 if "Internal_mass" in cfg else 0, 0, 0]
    p["rdims"] = problem.layouts(rng, nx, nd, int(p["ini"]["Grid"]["Nghost"]), rng.choice([1, 4, 6]), fixed)
    if rng.random() < 0.6:
        p["case"] = "crash"
        p["at"] = rng.random()
        p["window"] = rng.random() < 0.6
        p["second"] = rng.choice([None, None, rng.random()])
    else:
        p["case"] = rng.choice(["missing", "torn", "dropped", "dropped", "dropped", "not-hdf5", "grid-size", "grid-size", "scalars", "directory"])
        p["pick"] = rng.random()
        p["what"] = rng.random()
    return p


def restart_scn(p, q, ident, phase, s):
    """adds a restart phase from the output `ident` with the layout of q"""
    r = problem.variant(q, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % ident}})
    s["p%d.nranks" % phase] = r["ranks"]
    s["p%d.file:/sim/x.ini" % phase] = problem.ini_text(r["ini"])
    return r


def relayout(p):
    return problem.variant(p, dims=p["rdims"])


def check(p, ctx):
    if p["case"] == "crash":
        return check_crash(p, ctx)
    return check_refuse(p, ctx)


def windows(ph):
    """event intervals in which an output was being written"""
    out, start = [], {}
    for n in ph.notes:
        m = re.match(r"@(\d+) r(-?\d+) (create|commit) (\S+)$", n)
        if m and m.group(4).endswith(".h5"):
            if m.group(3) == "create":
                start[m.group(4)] = int(m.group(1))
            else:
                out.append((start.get(m.group(4), int(m.group(1))), int(m.group(1)), m.group(4)))
    # one interval per file: from its creation to its last commit
    per = {}
    for a, b, f in out:
        per[f] = (min(a, per.get(f, (a, b))[0]), max(b, per.get(f, (a, b))[1]))
    return sorted(per.values())


def finished(ph, full):
    """ids of the outputs whose last writing session was closed"""
    def count(x):
        n = {}
        for l in x.notes:
            m = re.match(r"@\d+ r-?\d+ commit \S+_(\d+)\.h5$", l)
            if m:
                n[int(m.group(1))] = n.get(int(m.group(1)), 0) + 1
        return n

    a, b = count(ph), count(full)
    return {i for i in a if a[i] >= b.get(i, 1)}


def check_crash(p, ctx):
    c = core.Cfg.parse(p["cfg"])
    tol = 1e-9 if c.eos == "PerfectGas" else 5e-5
    s = problem.scn(p)
    full = ctx.run1("uncrashed", s, p["cfg"])
    completed(full, "failed", "uncrashed run")
    ref = outputs(full)
    byiter = {int(scalar(h, "iter")): h for h in ref.values()}
    w = windows(full)
    if p["window"] and w:
        a, b = w[int(p["at"] * len(w)) % len(w)]
        at = int(a + (p["at"] * 7919 % 1.0) * (b - a + 40))
    else:
        at = int(p["at"] * full.events)
    at = max(1, min(at, full.events - 1))
    s["crash_at"] = at
    dead = ctx.run1("crashed", s, p["cfg"])
    if dead.end != "crashed":
        raise Trivial()
    ctx.mark("crash")
    left = outputs(dead)
    known = finished(dead, full)
    good = survivors(p, left, ref, known, "killed at event %d of %d" % (at, full.events), ctx)
    # the run goes on from the latest complete output
    q = relayout(p)
    s2 = dict(s)
    s2.pop("crash_at")
    s2["p0.crash_at"] = at
    s2["nphase"] = 2
    what = "restart after the kill at event %d" % at
    if good:
        k = max(good)
        restart_scn(p, q, k, 1, s2)
        base, start = ref[k], k
    else:
        s2["p1.nranks"] = q["ranks"]
        s2["p1.file:/sim/x.ini"] = problem.ini_text(q["ini"])
        ctx.mark("crash before the first output")
        start = -1
        k = None
    if p["second"] is not None and good:
        # the restarted run is killed as well, and continued
        ph = ctx.run("restarted-timing", s2, p["cfg"])[-1]
        completed(ph, "restart-failed", what)
        e1 = max(1, min(int(p["second"] * ph.events), ph.events - 1))
        s3 = dict(s2, **{"p1.crash_at": e1})
        dead1 = ctx.run("restart-crashed", s3, p["cfg"])[-1]
        if dead1.end == "crashed":
            ctx.mark("crash of the restarted run")
            left1 = outputs(dead1)
            ref1 = outputs(ph)
            known1 = set(good)
            good1 = survivors(p, left1, ref1, known1, "restarted run killed at event %d" % e1, ctx, base=k)
            if not good1 or max(good1) < k:
                raise Violation("output-lost", "the output %d the run was restarted from is gone" % k)
            s3["nphase"] = 3
            restart_scn(p, p, max(good1), 2, s3)
            ph3 = ctx.run("restarted-again", s3, p["cfg"])[-1]
            completed(ph3, "restart-failed", "second " + what)
            later(ph3, byiter, k, tol, "second " + what, ref)
            for i in good1:
                if not same_file(outputs(ph3)[i], left1[i]):
                    raise Violation("output-damaged", "second %s: output %d was changed" % (what, i))
    ph = ctx.run("restarted", s2, p["cfg"])[-1]
    completed(ph, "restart-failed", what)
    ctx.mark("restart after crash")
    later(ph, byiter, start, tol, what, ref)
    # the incomplete output is refused, or has all that a restart needs
    bad = [i for i in left if i not in good]
    if bad:
        ctx.mark("incomplete output left")
        i = max(bad)
        s4 = dict(s2)
        restart_scn(p, q, i, 1, s4)
        ph = ctx.run("restart-incomplete", s4, p["cfg"])[-1]
        h = left[i]
        lacks = [n for n in required(p) if n not in h.d]
        if h.torn or lacks:
            check_refused(ph, dead, "restart from output %d, %s" % (i, "torn" if h.torn else "without " + ",".join(lacks)))
            ctx.mark("restart from the incomplete output refused")
        elif ph.end == "completed" and all(r["exit"] == 0 for r in ph.ranks):
            later(ph, byiter, i, tol, "restart from output %d, complete but for its attributes" % i, ref)


def survivors(p, left, ref, known, what, ctx, base=None):
    """ids of the complete outputs; those completed before must be intact"""
    good = []
    top = max(left) if left else -1
    for i in sorted(left):
        same = i in ref and same_file(left[i], ref[i])
        if same:
            good.append(i)
        elif i < top and (base is None or i != top):
            if base is not None and i > base:
                # left by the first run, not yet written again by the restarted one
                continue
            raise Violation("output-damaged", "%s: output %d, completed before, is %s" % (what, i, "torn" if left[i].torn else "changed"))
        elif i in known and base is None:
            raise Violation("output-damaged", "%s: output %d was complete but is %s" % (what, i, "torn" if left[i].torn else "not complete"))
    for i in known:
        if i not in left:
            raise Violation("output-lost", "%s: output %d was complete but does not exist" % (what, i))
    if any(i not in good for i in left):
        ctx.mark("crash while an output is written")
    return good


def later(ph, byiter, start, tol, what, ref):
    """every output after `start` is there and agrees with the run that was not killed"""
    new = outputs(ph)
    if sorted(new) != sorted(ref):
        raise Violation("numbering", "%s: outputs %s instead of %s" % (what, sorted(new), sorted(ref)))
    for i in sorted(ref):
        if i <= start:
            if not same_file(new[i], ref[i]) and not (i == start and all(np.array_equal(new[i].d[n], ref[i].d[n], equal_nan=True) for n in ref[i].d if n in new[i].d)):
                raise Violation("output-damaged", "%s: output %d was changed" % (what, i))
        else:
            if new[i].attrs != ref[i].attrs:
                raise Violation("differs", "%s: output %d has attributes %s" % (what, i, sorted(new[i].attrs)))
            compare1("differs", new[i], ref[i], tol, "%s: output %d" % (what, i), 1e-12)


def check_refused(ph, before, what):
    refused(ph, "not-refused", what)
    if any(len(v) for v in state.steps(ph)):
        raise Violation("not-refused:step", "%s: a step was made" % what)
    for f, v in before.disk.items():
        if f.startswith("/sim/out/") and not (f in ph.disk and same_file(ph.disk[f], v)):
            raise Violation("not-refused:file", "%s: %s was changed" % (what, f))
    extra = [f for f in ph.disk if f not in before.disk and f.startswith("/sim/out/")]
    if extra:
        raise Violation("not-refused:file", "%s: %s was created" % (what, extra))


def check_refuse(p, ctx):
    s = problem.scn(p)
    first = ctx.run1("first", s, p["cfg"])
    completed(first, "failed", "first run")
    ref = outputs(first)
    i = sorted(ref)[int(p["pick"] * len(ref))]
    path = "/sim/out/r_%08d.h5" % i
    q = relayout(p)
    kind = p["case"]
    s["nphase"] = 2
    nd = int(p["cfg"][0])
    if kind == "grid-size":
        g = p["ini"]["Grid"]
        d = int(p["what"] * 1000) % nd
        dn = [-1, 1, 2, int(g["Nx%d_glob" % d])][int(p["what"] * 10007) % 4]
        n = int(g["Nx%d_glob" % d]) + dn
        ng = int(g["Nghost"])
        if n // q["dims"][d] < ng:
            n = int(g["Nx%d_glob" % d]) + 1
        change = {"Nx%d_glob" % d: n}
        if int(p["what"] * 100003) % 4 == 0 and all(int(g["Nx%d_glob" % e]) // q["dims"][e] >= ng + 1 for e in range(nd)):
            change = {"Nghost": ng + 1}
        elif nd > 1 and int(p["what"] * 100003) % 4 == 1 and g["Nx0_glob"] != g["Nx1_glob"]:
            # the same number of cells, in another arrangement
            a, b = int(g["Nx1_glob"]), int(g["Nx0_glob"])
            if a // q["dims"][0] >= ng and b // q["dims"][1] >= ng:
                change = {"Nx0_glob": a, "Nx1_glob": b}
        q = problem.variant(q, ini={"Grid": change})
        what = "restart with %s" % change
    elif kind == "scalars":
        n = int(p["ini"]["Passive Scalar"].get("nfx", 0))
        q = problem.variant(q, ini={"Passive Scalar": {"nfx": n + 1}})
        what = "restart with more scalars than the file holds"
    elif kind == "dropped":
        req = required(p)
        ds = req[int(p["what"] * len(req))]
        s["p1.damage.0"] = "%s drop %s" % (path, ds)
        what = "restart from a file without %s" % ds
    elif kind == "torn":
        s["p1.damage.0"] = "%s tear" % path
        what = "restart from a torn file"
    elif kind == "not-hdf5":
        s["p1.damage.0"] = "%s %s" % (path, "garbage" if p["what"] < 0.5 else "empty")
        what = "restart from a file that is not HDF5"
    elif kind == "directory":
        s["p1.mkdir:/sim/out/r_dir"] = ""
        what = "restart from a directory"
    else:
        what = "restart from a missing file"
    r = restart_scn(p, q, i if kind not in ("missing",) else max(ref) + 1, 1, s)
    if kind == "directory":
        r = problem.variant(r, ini={"Problem": {"restart_file": "/sim/out/r_dir"}})
        s["p1.file:/sim/x.ini"] = problem.ini_text(r["ini"])
    # what was there before the restart (the damage included)
    before = type("Before", (), {})()
    before.disk = dict(first.disk)
    ph = ctx.run("refused", s, p["cfg"])[-1]
    if kind in ("dropped", "torn", "not-hdf5"):
        before.disk.pop(path)
        if path in ph.disk:
            before.disk[path] = ph.disk[path]
        else:
            raise Violation("not-refused:file", "%s: the file was removed" % what)
        if kind == "dropped" and (ph.disk[path].torn or ds in ph.disk[path].d):
            raise Violation("not-refused:file", "%s: the file was changed" % what)
    if kind == "directory":
        before.disk["/sim/out/r_dir"] = None
    check_refused(ph, before, what)
    ctx.mark("refused " + kind)


def shrink(p):
    for q in problem.shrink(p):
        if q["ini"].get("User step", {}).get("user_step"):
            yield q
    if p["rdims"] != [1, 1, 1]:
        yield dict(p, rdims=[1, 1, 1])
    if p.get("second") is not None:
        yield dict(p, second=None)
