META = {"property": "C18", "needs": "gas plus radiation in the regime where both contribute, so that the temperature needs several iterations", "what_it_breaks": "the iteration for the temperature stops as soon as a step is smaller than a thousandth of the temperature scale, leaving a pressure that does not belong to the energy"}
EDITS = [("src/thermodynamics/rad_gas.hpp", "double static constexpr tol_newton = 1E-6;", "double static constexpr tol_newton = 1E+3;")]
# ==== demo
from kit import *

kb, mp, ar = 1.380649e-23, 1.672649e-27, 7.565733e-16
for T0 in (1e4, 1e6):
    rho0 = ar * T0 ** 3 / 3 * mp / kb
    P0 = rho0 * kb * T0 / mp + ar * T0 ** 4 / 3
    p = setup("1d-rad-cart-Uniform-sim", (16,), steps=3, u={"rho0": rho0, "P0": P0, "u0": 0.0, "uamp": 0.0})
    o = outputs(normal(run1(p)))
    for i in o:
        h = {k: np.asarray(v, float) for k, v in o[i].d.items()}
        T = h["T"]
        e = h["rho"] * kb * T / mp / (5. / 3 - 1) + ar * T ** 4 + h["rho"] * h["ux0"] ** 2 / 2
        d = np.abs(e - h["E"]).max() / np.abs(e).max()
        if d > 1e-6:
            fail("T0", T0, "output", i, "energy does not belong to density and temperature, relative difference", d)
