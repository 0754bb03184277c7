META = {"property": "C20", "needs": "the Low Mach solver, a subsonic flow and different sound speeds on the two sides of a face", "what_it_breaks": "the Mach number of the correction uses the sound speed of the left side only, so a problem and its mirror image give different results"}
EDITS = [("src/hydro/riemann_solver.hpp", "double const Ma = Kokkos::fabs(ustar) / Kokkos::fmin(cL, cR);", "double const Ma = Kokkos::fabs(ustar) / cL;")]
# ==== demo
from kit import *

p = setup("2d-pg-cart-Uniform-sim", (10, 8), steps=3, Hydro={"reconstruction": "Constant", "riemann_solver": "Low Mach"})
q = problem.variant(p, ini={"Grid": {"x0min": -2.0, "x0max": -1.0}})
q["u"]["flip0"] = 1
a, b = outputs(normal(run1(p)))[3], outputs(normal(run1(q)))[3]
for n in ("rho", "P", "ux0", "ux1"):
    e = np.flip(np.asarray(a.d[n]), 2) * (-1 if n == "ux0" else 1)
    d = np.abs(e - b.d[n]).max()
    if not d < 1e-10:
        fail(n, "of the mirrored problem differs by", d)
