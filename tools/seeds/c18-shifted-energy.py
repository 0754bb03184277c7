META = {"property": "C18", "needs": "an output of a step in which the grid was shifted", "what_it_breaks": "the total energy kept after a grid shift is the one from before the shift, so energy, pressure and density of the output do not belong together"}
EDITS = [("src/main.cpp", "            Kokkos::deep_copy(E(device, discard_write), E_new);\n            Kokkos::deep_copy(fx(device, discard_write), fx_new);\n\n            g =", "            Kokkos::deep_copy(fx(device, discard_write), fx_new);\n\n            g =")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=4, u={"shift_every": 2}, Grid={"shift_grid": "UserDefined", "rmax_shift": 1e30})
o = outputs(normal(run1(p)))
for i in o:
    h = o[i].d
    e = np.asarray(h["P"]) / (5. / 3 - 1) + np.asarray(h["rho"]) * np.asarray(h["ux0"]) ** 2 / 2
    d = np.abs(e - h["E"]).max() / np.abs(e).max()
    if d > 1e-10:
        fail("output", i, "total energy differs from that of density, velocity and pressure by", d)
