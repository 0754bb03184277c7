META = {"property": "C19", "needs": "the spherical hydrostatic atmosphere, second layer of ghost cells at its outer edge", "what_it_breaks": "beyond the outer edge the atmosphere keeps the density of the first ghost layer instead of decreasing further"}
EDITS = [("src/setups/eq_hydro_sphe/setup.hpp", "                    double const x0 = units::kb * param_setup.T0 / (mu * units::mp * units::G * param_setup.M);\n\n                    rho(i, j, k) = param_setup.rho0 * Kokkos::exp(1. / (xc(i) * x0));\n\n                    for (int n", "                    double const x0 = units::kb * param_setup.T0 / (mu * units::mp * units::G * param_setup.M);\n                    int const i_atm = Kokkos::min(i, xc.extent_int(0) - ng);\n\n                    rho(i, j, k) = param_setup.rho0 * Kokkos::exp(1. / (xc(i_atm) * x0));\n\n                    for (int n")]
# ==== demo
from kit import *

# a longer atmosphere evolves like the part of it that a shorter one covers: the ghost cells of the latter continue it
def atmosphere(n, x1):
    p = setup("1d-pg-sphe-Point_mass-eq_hydro_sphe", (n,), steps=1, Gravity={"M": 2e19}, Boundary_Condition={"BC": "UserDefined"}, Initialisation={"rho0": 10.0, "u0": 0.0, "T0": 100.0},
              Grid={"x0min": 1000.0, "x0max": x1}, Run={"t_end": 1e-3})
    o = outputs(normal(run1(p)))
    return o[sorted(o)[-1]]

a, b = atmosphere(60, 1000.0 + 60 * 50), atmosphere(72, 1000.0 + 72 * 50)
for n in ("rho", "E"):
    u, v = np.asarray(a.d[n]).ravel(), np.asarray(b.d[n]).ravel()[:60]
    d = np.abs(u - v).max() / np.abs(v).max()
    if not d < 1e-12:
        fail(n, "of the last cells", u[-3:], "instead of", v[-3:])
u, v = np.asarray(a.d["ux0"]).ravel(), np.asarray(b.d["ux0"]).ravel()[:60]
if not np.abs(u - v).max() < 1e-9 * (1 + np.abs(v).max()):
    fail("velocity of the last cells", u[-3:], "instead of", v[-3:])
