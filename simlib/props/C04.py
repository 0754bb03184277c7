"""C04: mass, momentum, energy and scalars are conserved, scalars stay in [0,1], the mass report is right."""
import re
import numpy as np
from .. import core, problem, ref
from ..driver import Violation, Trivial
from ..outputs import outputs, completed, scalar

ID = "C04"
LEVEL = "exploration"
CASES = {"quick": 2200, "thorough": 60000}
QUICK = ["1d-pg-sphe-Internal_mass-sim", "1d-pg-cart-Uniform-sim", "2d-pg-cart-Uniform-sim", "3d-pg-cart-Uniform-sim", "2d-rad-cart-Uniform-sim"]
MORE = ["3d-pg-sphe-Uniform-sim", "2d-pg-sphe-Point_mass-sim", "1d-rad-cart-Uniform-sim", "3d-rad-cart-Uniform-sim"]
MUST = ["periodic", "walls", "open", "mass", "energy", "scalar amount", "momentum", "scalar bounds", "sharp scalars", "restart", "several ranks", "mass report", "changing mass"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]]


def gen(rng, tier, idx):
    cfgs = configs(tier)
    cfg = cfgs[idx % len(cfgs)]
    cart = "cart" in cfg
    kind = rng.choice(["periodic", "periodic", "walls", "open"]) if cart else "open"
    steps = rng.choice([2, 5, 12]) if tier == "quick" else rng.choice([2, 8, 20, 40])
    p = problem.gen(rng, cfg, maxranks=6, steps=steps, grid="Regular" if kind == "walls" else "any", bc={"periodic": "periodic", "walls": "reflexive"}.get(kind, "any"), nfx=rng.choice([0, 1, 2, 3]), source=kind == "open")
    p["kind"] = kind
    if kind == "walls":
        p["u"]["stretch"] = 0.0
        # a mixture of walls and periodic directions is closed as well
        nd = int(cfg[0])
        B = {}
        for d in range(nd):
            B["BC_X%d" % d] = "Periodic" if rng.random() < 0.25 else "Reflexive"
        p["ini"]["Boundary Condition"] = B
    if p["ini"]["Passive Scalar"]["nfx"]:
        p["u"]["fxamp"] = rng.choice([0.45, 0.45, 0.6, 2.0])
        if rng.random() < 0.5:
            p["u"]["init"] = rng.choice([0, 2])
    p["restart"] = kind != "open" and rng.random() < 0.25
    if p["restart"]:
        p["dims2"] = problem.layouts(rng, [p["ini"]["Grid"]["Nx%d_glob" % d] for d in range(3)], int(cfg[0]), int(p["ini"]["Grid"]["Nghost"]), 6)
    return p


def volumes(h, cfg, ng):
    x = [np.asarray(h.d["x%d_ng" % d], float).reshape(-1) for d in range(3)]
    m = ref.Mesh(x, [0, 0, 0], cfg.ndim, cfg.geom == "Spherical")
    return m.V


def fieldsof(h, nd, nfx):
    q = lambda n: np.asarray(h.d[n], float).transpose(2, 1, 0)
    return q("rho"), [q("ux%d" % d) for d in range(nd)], q("P"), q("E"), [q("fx%d" % n) for n in range(nfx)]


def check(p, ctx):
    cfg = core.Cfg.parse(p["cfg"])
    nd, nfx = cfg.ndim, int(p["ini"]["Passive Scalar"]["nfx"])
    s = problem.scn(p)
    if p["restart"]:
        last = int(p["ini"]["Output"]["max_iter"])
        mid = max(1, last // 2)
        if mid == last:
            raise Trivial()
        s["file:/sim/x.ini"] = problem.ini_text(problem.variant(p, ini={"Output": {"max_iter": mid}})["ini"])
        b = problem.variant(p, dims=p["dims2"], ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % mid}})
        s["nphase"] = 2
        s["p1.nranks"] = b["ranks"]
        s["p1.file:/sim/x.ini"] = problem.ini_text(b["ini"])
    phs = ctx.run("run", s, p["cfg"])
    for ph in phs:
        completed(ph, "failed", "run")
    out = {}
    for ph in phs:
        out.update(outputs(ph))
    ids = sorted(out)
    if len(ids) < 2:
        raise Violation("no-output", "outputs %s" % ids)
    ctx.mark(p["kind"])
    if p["ranks"] > 1:
        ctx.mark("several ranks")
    if p["restart"]:
        ctx.mark("restart")
    ng = int(p["ini"]["Grid"].get("Nghost", 2))
    tot, mag = {}, {}
    clamp = False
    for i in ids:
        dv = volumes(out[i], cfg, ng)
        rho, u, P, E, fx = fieldsof(out[i], nd, nfx)
        if rho.shape != dv.shape:
            raise Violation("shape", "output %d: density %s on a grid of %s" % (i, rho.shape, dv.shape))
        m = rho * dv
        with np.errstate(all="ignore"):
            cs = float(np.nanmax(np.sqrt(np.abs(P / rho)))) + max(float(np.max(np.abs(v))) for v in u)
        T = {"mass": np.sum(m), "energy": np.sum(E * dv)}
        M = {"mass": np.sum(np.abs(m)), "energy": np.sum(np.abs(E * dv))}
        for d in range(nd):
            T["momentum %d" % d] = np.sum(m * u[d])
            M["momentum %d" % d] = np.sum(np.abs(m)) * cs
        for n in range(nfx):
            T["scalar %d" % n] = np.sum(m * fx[n])
            M["scalar %d" % n] = np.sum(np.abs(m))
            ctx.mark("scalar bounds")
            lo, hi = float(fx[n].min()), float(fx[n].max())
            if not (lo >= 0.0 and hi <= 1.0):
                raise Violation("scalar-bounds", "output %d: scalar %d lies in [%r, %r]" % (i, n, lo, hi))
            if i > ids[0] and (lo <= 1e-12 or hi >= 1 - 1e-12):
                clamp = True
        if not tot:
            tot, mag = T, M
            first = T
        for q in T:
            if p["kind"] == "open":
                continue
            if q.startswith("momentum") and p["kind"] != "periodic":
                continue
            if q.startswith("scalar") and clamp:
                continue
            tol = 2e-12 * (3 + i)
            if cfg.eos != "PerfectGas" and p["restart"]:
                tol = 1e-5
            ctx.mark("momentum" if q.startswith("mom") else "scalar amount" if q.startswith("scalar") else q)
            d = abs(T[q] - first[q]) / M[q]
            if not d <= tol:
                raise Violation("not-conserved", "%s of the %s domain changes from %r to %r by output %d (%.3g of its scale)" % (q, p["kind"], float(first[q]), float(T[q]), i, d))
    if p["u"].get("fxamp", 0.45) > 0.45:
        ctx.mark("sharp scalars")
    # the report of the run
    t = phs[-1].out()
    r = re.search(r"Initial mass = (\S+) and change in mass = (\S+)", t)
    if not r:
        raise Violation("mass-report", "no mass report in the text of the run")
    start = int(scalar(out[ids[-1]], "output_id")) if False else None
    base = ids[0]
    if p["restart"]:
        base = int(re.search(r"_(\d+)\.h5", problem.ini_text(b["ini"])).group(1))
    m0 = float(np.sum(fieldsof(out[base], nd, nfx)[0] * volumes(out[base], cfg, ng)))
    m1 = float(np.sum(fieldsof(out[ids[-1]], nd, nfx)[0] * volumes(out[ids[-1]], cfg, ng)))
    ctx.mark("mass report")
    if abs(m1 - m0) > 1e-3 * m0:
        ctx.mark("changing mass")
    if abs(float(r.group(1)) - m0) > 2e-5 * m0 or abs(float(r.group(2)) - abs(m1 - m0)) > 2e-5 * abs(m1 - m0) + 1e-11 * m0:
        raise Violation("mass-report", "reported initial mass %s and change %s, in the outputs %.8g and %.8g" % (r.group(1), r.group(2), m0, abs(m1 - m0)))


def shrink(p):
    for q in problem.shrink(p):
        yield q
    if p["restart"]:
        yield dict(p, restart=False)
