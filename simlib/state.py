"""Reassembling the state of the whole domain from the probes of all processes."""
import numpy as np
from .ref import Cons


class Local:
    """the arrays of one process at one probe, with ghosts"""

    def __init__(self, rank, where):
        self.rank = rank
        w = [int(x) for x in where]
        self.corner, self.n, self.ng = w[0:3], w[3:6], w[6:9]
        self.v = {}


def arr(v):
    r = int(v[0])
    e = [int(x) for x in v[1:1 + r]]
    return v[1 + r:].reshape(e, order="F")


def states(ph):
    """list over steps of {rank: Local}"""
    per = {}
    for name, rank, ev, v in ph.probes:
        if name == "g.where":
            per.setdefault(rank, []).append(Local(rank, v))
        elif name.startswith("g."):
            per[rank][-1].v[name[2:]] = arr(v)
    n = min((len(l) for l in per.values()), default=0)
    return [{r: per[r][k] for r in per} for k in range(n)]


def steps(ph):
    """[{rank: (t, dt)}]"""
    per = {}
    for name, rank, ev, v in ph.probes:
        if name == "step":
            per.setdefault(rank, []).append((float(v[0]), float(v[1])))
    n = max((len(l) for l in per.values()), default=0)
    return [{r: per[r][k] for r in per if k < len(per[r])} for k in range(n)]


def assemble(st, nd):
    """(Cons, [fx]) of the whole domain with ghosts, from the processes' arrays"""
    any_ = next(iter(st.values()))
    ng = any_.ng
    n = [max(l.corner[d] + l.n[d] for l in st.values()) for d in range(3)]
    full = [n[d] + 2 * ng[d] for d in range(3)]
    nfx = any_.v["fx"].shape[3] if "fx" in any_.v else 0

    def build(get):
        g = np.full(full, np.nan)
        for l in st.values():
            a = get(l)
            g[tuple(slice(l.corner[d], l.corner[d] + a.shape[d]) for d in range(3))] = a
        for l in st.values():
            a = get(l)
            g[tuple(slice(l.corner[d] + ng[d], l.corner[d] + ng[d] + l.n[d]) for d in range(3))] = a[tuple(slice(ng[d], ng[d] + l.n[d]) for d in range(3))]
        return g

    c = Cons(build(lambda l: l.v["rho"]), [build(lambda l, d=d: l.v["rhou"][..., d]) for d in range(nd)], build(lambda l: l.v["E"]))
    return c, [build(lambda l, f=f: l.v["fx"][..., f]) for f in range(nfx)], ng, n


def local_slices(l):
    """slices of the process's array (with ghosts) in the global array with ghosts"""
    return tuple(slice(l.corner[d], l.corner[d] + l.n[d] + 2 * l.ng[d]) for d in range(3))
