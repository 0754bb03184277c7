META = {"property": "C20", "needs": "three dimensions, the pressure fix active, and gas leaving a cell in the negative third direction", "what_it_breaks": "the internal energy carried across the right face of the third direction is always that of the left cell, so axes and directions are no longer equivalent"}
EDITS = [("src/hydro/pressure_fix.hpp", "if (us_p > 0) {", "if (us_p > 0 || idim == 2) {")]
# ==== demo
from kit import *

p = setup("3d-pg-cart-Uniform-sim", (6, 5, 7), steps=2, u={"u0": 3.0, "uamp": 1.0}, Pressure_fix={"pressure_fix": "On", "eps_pf": 100.0})
q = problem.variant(p, ini={"Grid": {"x2min": -1.0, "x2max": 0.0}})
q["u"]["flip2"] = 1
a, b = outputs(normal(run1(p)))[2], outputs(normal(run1(q)))[2]
for n in ("rho", "P", "E", "ux0"):
    e = np.flip(np.asarray(a.d[n]), 0)
    d = np.abs(e - b.d[n]).max()
    if not d < 1e-9:
        fail(n, "of the mirrored problem differs by", d)
