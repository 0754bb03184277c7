"""Helpers of the demonstrations: the program in the current directory is built with a small simulator of its libraries
(beside this file) and run on chosen problems; everything happens in a temporary directory."""
import atexit, copy, os, shutil, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_REPO"] = os.getcwd()
_tmp = tempfile.mkdtemp(prefix="demo.")
atexit.register(shutil.rmtree, _tmp, True)
os.environ["VERIF_BUILD"] = _tmp
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import numpy as np
from simlib import core, problem, outputs as O
from simlib.outputs import outputs, scalar, reldiff

SIMRUN = core.build_simrun()
_so = {}


def setup(cfg, n, dims=(1, 1, 1), steps=3, u=None, ng=2, **sections):
    """a plain problem of the compile-time configuration cfg"""
    c = core.Cfg.parse(cfg)
    sph = c.geom == "Spherical"
    n = list(n) + [1] * (3 - len(n))
    ext = [(1.0, 2.0), (1.0, 2.2), (0.0, 1.5)] if sph else [(1.0, 2.0), (0.0, 1.0), (0.0, 1.0)]
    G = {"Nghost": ng, "type": "Regular"}
    for d in range(3):
        G["Nx%d_glob" % d], (G["x%dmin" % d], G["x%dmax" % d]) = n[d], ext[d]
    ini = {
        "Problem": {"type": "sim"}, "Grid": G, "Parallelization": {"mpi_dims_cart_x%d" % d: dims[d] for d in range(3)},
        "Run": {"cfl": 0.3, "t_ini": 0.0, "t_end": 1e30}, "Output": {"max_iter": steps, "iter_frequency": 1, "directory": "/sim/out", "prefix": "r"},
        "Hydro": {"reconstruction": "VanLeer", "riemann_solver": "HLL"}, "Gravity": {"M": 1.0}, "Perfect Gas": {"gamma": 5. / 3},
        "Boundary Condition": {"BC": "NullGradient"}, "Passive Scalar": {"nfx": 0}, "User step": {}, "Pressure fix": {},
    }
    p = {"cfg": cfg, "ini": ini, "dims": list(dims), "ranks": dims[0] * dims[1] * dims[2], "knobs": dict(problem.NATURAL),
         "u": dict({"fseed": 7, "init": 1, "rho0": 1.0, "P0": 1.0, "u0": 0.3, "amp": 0.3, "uamp": 0.2, "bcmode": 0, "stretch": 0.0}, **(u or {}))}
    return problem.variant(p, ini={k.replace("_", " "): v for k, v in sections.items()})


def scn(p, **keys):
    return problem.scn(p, **keys)


def run(p, raw=None, **keys):
    """phases of the simulated execution of a problem (or of a raw scenario)"""
    cfg = p["cfg"]
    if cfg not in _so:
        _so.update(core.build([core.Cfg.parse(cfg)]))
    s = dict(raw) if raw is not None else scn(p)
    s.update(keys)
    s["so"] = _so[cfg]
    return core.simulate(SIMRUN, s)


def run1(p, **keys):
    return run(p, **keys)[-1]


def fail(*msg):
    print("FAIL:", *msg)
    sys.exit(1)


def normal(ph, what="the run"):
    if ph.end != "completed" or any(r["exit"] for r in ph.ranks):
        fail(what, "ended", ph.end, ph.kind, (ph.err() + ph.msg)[-500:])
    return ph


def same(a, b, tol, what, skip=()):
    """outputs a and b of two runs"""
    if sorted(a) != sorted(b):
        fail(what, "outputs", sorted(a), sorted(b))
    for i in b:
        for n in b[i].d:
            if n in skip:
                continue
            s = O.velocity_floor(b[i]) if n.startswith("u") else 0
            if n not in a[i].d or not reldiff(a[i].d[n], b[i].d[n], s) <= tol:
                fail(what, "output", i, n, "differs", a[i].d.get(n), b[i].d[n])


def restart(p, k, dims=None, **ini):
    """the problem restarted from output k"""
    q = problem.variant(p, **({"dims": dims} if dims else {}))
    q = problem.variant(q, ini={"Problem": {"restart": "true", "restart_file": "/sim/out/r_%08d.h5" % k}})
    return problem.variant(q, ini=ini)


def then(s, phase, q):
    """adds a further phase to a scenario"""
    s["nphase"] = phase + 1
    s["p%d.nranks" % phase] = q["ranks"]
    s["p%d.file:/sim/x.ini" % phase] = problem.ini_text(q["ini"])
    return s
