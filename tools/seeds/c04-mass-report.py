META = {"property": "C04", "needs": "several processes along the first direction in two or three dimensions", "what_it_breaks": "the total mass is summed over a part of the processes only, so the initial mass and the change in mass that the run reports are not those of its data"}
EDITS = [("src/analysis/integration.cpp", "MPI_SUM, grid.comm_cart);", "MPI_SUM, grid.comm_cart_horizontal);")]
# ==== demo
from kit import *
import re

for dims in ([1, 2, 1], [2, 1, 1], [2, 2, 1]):
    p = setup("2d-pg-cart-Uniform-sim", (8, 8), dims=dims, steps=2)
    ph = normal(run1(p))
    m = float(re.search(r"Initial mass = (\S+)", ph.out()).group(1))
    h = outputs(ph)[0]
    want = float(np.sum(h.d["rho"])) / 64
    if abs(m - want) > 1e-4 * want:
        fail("processes", dims, "report the mass", m, "instead of", want)
