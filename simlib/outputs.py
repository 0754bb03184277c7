"""Reading and comparing the outputs of simulated runs."""
import re
import numpy as np
from .core import H5
from .driver import Violation

SCALARS = ("current_time", "gamma", "iter", "iter_output_id", "output_id", "time_output_id")


def outputs(ph, directory="/sim/out", prefix="r"):
    """{output id: H5} of the output files of a run"""
    out = {}
    rx = re.compile(re.escape(directory.rstrip("/") + "/" + prefix) + r"_(\d{8,})\.h5$")
    for p, f in ph.disk.items():
        m = rx.match(p)
        if m and isinstance(f, H5):
            out[int(m.group(1))] = f
    return out


def scalar(h, name):
    v = np.asarray(h.d[name]).reshape(-1)
    return v[0]


def fields(h):
    return [n for n in h.d if n not in SCALARS and not re.match(r"x[012](_ng)?$", n)]


def scale(a):
    a = np.asarray(a, float)
    a = a[np.isfinite(a)]
    return float(np.max(np.abs(a))) if a.size else 0.0


def reldiff(a, b, floor=0.0):
    """largest difference relative to the largest value of b (not a number equals not a number)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.where(na | (a == b), 0.0, a - b)
    m = float(np.max(np.abs(d)))
    if m == 0:
        return 0.0
    s = max(scale(b), floor)
    return m / s if s > 0 else float("inf")


def where(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    i = np.unravel_index(np.nanargmax(np.abs(a - b)), a.shape)
    return "%s: %r instead of %r" % (tuple(int(x) for x in i), float(a[i]), float(b[i]))


def velocity_floor(h):
    """scale below which a velocity is zero: the sound speed"""
    try:
        with np.errstate(all="ignore"):
            return float(np.nanmax(np.sqrt(np.abs(h.d["P"] / h.d["rho"]))))
    except (ValueError, KeyError):
        return 0.0


def compare(kind, a, b, tol, what, ids=None, coords_tol=1e-13):
    """outputs a against the reference outputs b"""
    if ids is None:
        if sorted(a) != sorted(b):
            raise Violation(kind, "%s: outputs %s instead of %s" % (what, sorted(a), sorted(b)))
        ids = sorted(b)
    for i in ids:
        if i not in a or i not in b:
            raise Violation(kind, "%s: output %d missing (have %s and %s)" % (what, i, sorted(a), sorted(b)))
        compare1(kind, a[i], b[i], tol, "%s: output %d" % (what, i), coords_tol)


def compare1(kind, x, y, tol, what, coords_tol=1e-13):
    if sorted(x.d) != sorted(y.d):
        raise Violation(kind, "%s: datasets %s instead of %s" % (what, sorted(x.d), sorted(y.d)))
    uf = velocity_floor(y)
    for n in y.d:
        u, v = np.asarray(x.d[n]), np.asarray(y.d[n])
        if u.shape != v.shape:
            raise Violation(kind, "%s: %s has shape %s instead of %s" % (what, n, u.shape, v.shape))
        if n in ("iter", "iter_output_id", "output_id", "time_output_id"):
            if not np.array_equal(u, v):
                raise Violation(kind, "%s: %s is %s instead of %s" % (what, n, u, v))
            continue
        t = coords_tol if re.match(r"x[012](_ng)?$", n) else tol
        d = reldiff(u, v, uf if re.match(r"u[xyz]?\d?$", n) else (1.0 if n.startswith("fx") else 0.0))
        if not d <= t:
            raise Violation(kind, "%s: %s differs by %.3g (relative), at %s" % (what, n, d, where(u, v) if np.isfinite(d) else "nan positions or shape"))


def completed(ph, kind, what, trivial_ok=("detected invalid",)):
    """the run must have ended normally, unless the random state became unphysical"""
    from .driver import Trivial

    if ph.end != "completed" or any(r["exit"] != 0 for r in ph.ranks):
        text = ph.err() + ph.msg
        for t in trivial_ok:
            if t in text:
                raise Trivial()
        raise Violation(kind, "%s: ended %s %s, exit codes %s: %s" % (what, ph.end, ph.kind, [r["exit"] for r in ph.ranks], text[-600:]))


def refused(ph, kind, what, message=None):
    """the whole job must have ended with a failing exit code and a message"""
    text = ph.err() + ph.msg
    if ph.end == "violation":
        raise Violation("sim:" + ph.kind, "%s: %s" % (what, ph.msg))
    if ph.end == "completed":
        codes = [r["exit"] for r in ph.ranks]
        if any(c == 0 for c in codes):
            raise Violation(kind, "%s: ended with exit codes %s: %s" % (what, codes, text[-300:]))
    elif ph.end != "abort":
        raise Violation(kind, "%s: ended %s %s" % (what, ph.end, ph.kind))
    elif ph.kind == "exit-without-finalize" or (ph.kind in ("exit", "mpi-abort") and "(0)" in ph.msg):
        raise Violation(kind, "%s: ended %s: %s" % (what, ph.kind, ph.msg))
    if not ph.err().strip():
        raise Violation(kind + ":no-message", "%s: ended without an error message (%s %s)" % (what, ph.end, ph.msg))
    if "--- End ---" in ph.out():
        raise Violation(kind + ":reported-normal", "%s: the run reported its normal end" % what)
    if message and message not in text:
        raise Violation(kind + ":message", "%s: the message does not contain %r: %s" % (what, message, text[-300:]))


def same_file(x, y):
    """two files hold exactly the same"""
    if isinstance(x, H5) != isinstance(y, H5):
        return False
    if not isinstance(x, H5):
        return x == y
    return x.torn == y.torn and sorted(x.d) == sorted(y.d) and all(np.array_equal(x.d[n], y.d[n], equal_nan=True) for n in y.d) and x.attrs == y.attrs
