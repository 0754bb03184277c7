"""C03: mirrored host/device arrays always show the last write."""
import numpy as np
from .. import core, problem
from ..driver import Violation, Trivial
from ..outputs import outputs, compare, completed

ID = "C03"
LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 120000}
HARNESS = [("dualview", (), ()), ("dualview", (), ("-DSIM_UNIFIED",))]
QUICK = ["2d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim"]
MORE = ["3d-pg-cart-Uniform-sim", "2d-pg-sphe-Internal_mass-sim", "3d-rad-sphe-Point_mass-sim"]
MUST = ["harness sequences", "stale read avoided", "program runs", "restart", "shift", "several ranks"]
NOPS = 21
# dtype: rank
RANKS = {0: 1, 1: 2, 2: 2, 3: 3, 4: 4, 5: 3}


def configs(tier):
    c = QUICK if tier == "quick" else QUICK + MORE
    return c + [x + "-uni" for x in c]


def needs(p):
    return [p["cfg"], p["cfg"] + "-uni"] if "cfg" in p else []


def gen(rng, tier, idx):
    if idx % 12 == 0:
        cfgs = QUICK if tier == "quick" else QUICK + MORE
        p = problem.gen(rng, rng.choice(cfgs), maxranks=4, steps=rng.choice([2, 3, 4]), shift=rng.random() < 0.5)
        p["knobs"]["race"] = 0
        p["restart"] = rng.random() < 0.5 and not p["ini"]["Grid"].get("shift_grid")
        return p
    n = rng.choice([4, 8, 16, 40])
    w = [rng.choice([0, 1, 4]) for _ in range(NOPS)]
    if not any(w):
        w = [1] * NOPS
    dt = rng.choice(list(RANKS))
    ops = [[rng.choices(range(NOPS), w)[0], rng.randrange(64), rng.randrange(1, 1000)] for _ in range(n)]
    k = problem.knobs(rng, race=False)
    k["p_switch_kernel"] = 0
    return {"ops": ops, "dtype": dt, "e": [rng.choice([1, 2, 3, 5]) for _ in range(4)], "narr": rng.choice([1, 1, 2, 3]), "uni": rng.random() < 0.25, "knobs": k}


def check(p, ctx):
    if "cfg" in p:
        return check_program(p, ctx)
    total = int(np.prod(p["e"][: RANKS[p["dtype"]]]))
    scn = {"nranks": 1, "entry": "harness_main", "args": "harness", "u.dtype": p["dtype"], "u.narr": p["narr"], "u.nops": len(p["ops"])}
    scn.update(p["knobs"])
    scn["unified"] = int(p["uni"])
    for d in range(4):
        scn["u.e%d" % d] = p["e"][d]
    for i, (op, slot, x) in enumerate(p["ops"]):
        scn["u.op%d" % i], scn["u.slot%d" % i], scn["u.x%d" % i] = op, slot, x
    ph = ctx.run1("harness", scn, so=ctx.so["dualview-uni" if p["uni"] else "dualview"])
    if ph.end != "completed" or ph.ranks[0]["exit"] != 0:
        raise Violation("harness-failed", "%s %s %s" % (ph.end, ph.kind, ph.msg))
    ctx.mark("harness sequences")
    got = {name: v for name, r, ev, v in ph.probes}
    # the model: arrays of values, per handle; where is the up-to-date copy
    arrays = [{"v": np.zeros(total), "dev": True, "host": True} for _ in range(p["narr"])]
    handles = list(range(p["narr"]))
    h2d = d2h = 0
    extra = 0
    q = np.arange(total)
    uni = p["uni"]

    def need(a, side):
        nonlocal h2d, d2h
        if not a[side]:
            ctx.mark("stale read avoided")
            if side == "dev":
                h2d += 1
            else:
                d2h += 1
            a["dev"] = a["host"] = True

    def wrote(a, side):
        a["dev"], a["host"] = side == "dev", side == "host"

    for i, (op, slot, x) in enumerate(p["ops"]):
        s = slot % len(handles)
        a = arrays[handles[s]]
        see = False
        if op in (0, 6):
            need(a, "dev")
            see, extra = True, extra + 1
        elif op in (1, 7):
            need(a, "host")
            see = True
        elif op in (2, 3):
            a["v"] = (x + q).astype(float)
            wrote(a, "dev" if op == 2 else "host")
        elif op in (4, 5):
            side = "dev" if op == 4 else "host"
            need(a, side)
            a["v"] = np.where(q % 3 == x % 3, a["v"] + x, a["v"])
            wrote(a, side)
        elif op == 8:
            need(a, "dev")
        elif op == 9:
            need(a, "host")
        elif op in (10, 12):
            handles.append(handles[s])
        elif op == 11:
            handles[x % len(handles)] = handles[s]
        elif op == 13:
            arrays.append({"v": np.zeros(total), "dev": True, "host": True})
            handles[s] = len(arrays) - 1
        elif op == 14:
            need(a, "dev")
            a["v"] = 2 * a["v"] + 1
            wrote(a, "dev")
            need(a, "host")
            see = True
        elif op == 15:
            need(a, "dev")
            see, extra = True, extra + 1
        elif op in (16, 17):
            need(a, "host")
            see = True
        elif op == 18:
            t = x % len(handles)
            handles[s], handles[t] = handles[t], handles[s]
        elif op == 19:
            need(a, "dev")
            a["v"] = (x - q).astype(float)
            wrote(a, "host")
            need(a, "dev")
            see, extra = True, extra + 1
        elif op == 20:
            need(a, "host")
            a["v"] = (x + 2 * q).astype(float)
            wrote(a, "dev")
        if p["dtype"] == 1 and np.abs(a["v"]).max(initial=0) > 2e9 or p["dtype"] == 4 and np.abs(a["v"]).max(initial=0) > 1e7:
            return  # outside of the exact range of the element type
        if see:
            g = got.get("see%d" % i)
            if g is None or not np.array_equal(g, a["v"]):
                raise Violation("stale", "operation %d (%d) of %s sees %s instead of %s" % (i, op, [o[0] for o in p["ops"][: i + 1]], None if g is None else g[:8], a["v"][:8]))
        if op != 13:
            g = got.get("sync%d" % i)
            want = [float(not a["dev"]), float(not a["host"])]
            if g is None or list(g) != want:
                raise Violation("sync-state", "after operation %d (%s): out of date (device, host) reported %s instead of %s" % (i, [o[0] for o in p["ops"][: i + 1]], g, want))
    t = ph.ranks[0]["transfers"]
    if uni:
        if t[0] or t[1]:
            raise Violation("transfers", "%s transfers although both sides are the same memory" % t)
    elif t[0] != h2d or t[1] != d2h + extra:
        raise Violation("transfers", "%d to the device and %d to the host instead of %d and %d" % (t[0], t[1] - extra, h2d, d2h))


def check_program(p, ctx):
    """the program with separate memories gives what it gives with one memory, where nothing can be stale"""
    def go(name, cfg, uni):
        s = problem.scn(p, unified=int(uni))
        if p.get("restart"):
            last = int(p["ini"]["Output"]["max_iter"])
            mid = max(1, last // 2)
            s["nphase"] = 2
            a = problem.variant(p, ini={"Output": {"max_iter": mid}})
            b = problem.variant(p, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % mid}})
            s["file:/sim/x.ini"] = problem.ini_text(a["ini"])
            s["p1.file:/sim/x.ini"] = problem.ini_text(b["ini"])
        phs = ctx.run(name, s, cfg)
        for ph in phs:
            completed(ph, "failed", name)
        return phs[-1]

    a = go("separate", p["cfg"], False)
    b = go("unified", p["cfg"] + "-uni", True)
    ctx.mark("program runs")
    if p.get("restart"):
        ctx.mark("restart")
    if "Shifting" in b.out():
        ctx.mark("shift")
    if p["ranks"] > 1:
        ctx.mark("several ranks")
    compare("program", outputs(a), outputs(b), 1e-9, "separate memories against one memory")


def shrink(p):
    if "cfg" in p:
        yield from problem.shrink(p)
        return
    n = len(p["ops"])
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(p, ops=p["ops"][:i] + p["ops"][i + size:])
        size //= 2
    yield dict(p, knobs=dict(problem.NATURAL))
    for i, o in enumerate(p["ops"]):
        if o[1] > 3 or o[2] > 9:
            yield dict(p, ops=p["ops"][:i] + [[o[0], o[1] % 4, o[2] % 10]] + p["ops"][i + 1:])
    for d in range(4):
        if p["e"][d] > 1:
            yield dict(p, e=p["e"][:d] + [1] + p["e"][d + 1:])
    if p["narr"] > 1:
        yield dict(p, narr=1)
    if p["uni"]:
        yield dict(p, uni=False)
