META = {"property": "C20", "needs": "a passive scalar in a gas whose density is below 1e-15 in the units of the input", "what_it_breaks": "the scalar is divided by at least 1e-15 instead of by the density, so the units of the problem matter"}
EDITS = [("src/hydro/godunov_scheme.hpp", "Kokkos::clamp(fx_new(i, j, k, ifx) / rho_new(i, j, k), 0., 1.)", "Kokkos::clamp(fx_new(i, j, k, ifx) / Kokkos::fmax(rho_new(i, j, k), 1e-15), 0., 1.)")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (20,), steps=2, Passive_Scalar={"nfx": 2})
q = problem.variant(p, u=dict(p["u"], rho0=p["u"]["rho0"] * 2.0 ** -60, P0=p["u"]["P0"] * 2.0 ** -60))
a, b = outputs(normal(run1(p)))[2], outputs(normal(run1(q)))[2]
for n in ("fx0", "fx1", "ux0"):
    d = np.abs(np.asarray(a.d[n]) - b.d[n]).max()
    if not d < 1e-10:
        fail(n, "in other units of density differs by", d)
