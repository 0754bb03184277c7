META = {"property": "C07", "needs": "a run in one or two dimensions, where the directions that are not simulated have no ghost nodes", "what_it_breaks": "the index gives the number of nodes of the inactive directions without as many ghost nodes as the active ones have, so it does not match the coordinates in the files"}
EDITS = [("src/io/io.cpp", "axes_arrays[idim].extent_int(0) - (2 * grid.Nghost[idim])", "axes_arrays[idim].extent_int(0) - (2 * grid.Ng)")]
# ==== demo
from kit import *
import xml.etree.ElementTree as ET

for cfg, n in (("1d-pg-cart-Uniform-sim", (16,)), ("2d-pg-cart-Uniform-sim", (8, 6))):
    p = setup(cfg, n, steps=2)
    ph = normal(run1(p))
    idx = [k for k in ph.disk if k.endswith(".xmf") or k.endswith(".xdmf")]
    if len(idx) != 1:
        fail("index files", idx)
    count = 0
    for g in ET.fromstring(ph.disk[idx[0]]).iter("DataItem"):
        name, path = g.text.strip().split(":/")
        h = ph.disk["/sim/out/" + name]
        dims = tuple(int(x) for x in g.get("Dimensions").split())
        count += 1
        if dims != h.d[path].shape:
            fail(g.text.strip(), "is said to have the extents", dims, "but has", h.d[path].shape)
    if count == 0:
        fail("empty index")
