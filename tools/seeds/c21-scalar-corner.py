META = {"property": "C21", "needs": "a passive scalar that varies across the flow in two or three dimensions, a time step of the usual size", "what_it_breaks": "the half step of the scalar on right faces leaves out the fluxes of the other directions: transport of scalars is only first order"}
EDITS = [("src/hydro/extrapolation_reconstruction.hpp", "                                fx_rec(i, j, k, 1, ipos, ifx) += dtodv * ((flux_fx_L", "                                fx_rec(i, j, k, 1, ipos, ifx) += (ipos == idim ? dtodv : 0) * ((flux_fx_L")]
# ==== demo
from kit import *
from simlib import model, state

p = setup("2d-pg-cart-Uniform-sim", (10, 8), steps=1, u={"u0": 1.0, "uamp": 0.3}, Passive_Scalar={"nfx": 1})
q = model.probed(p)
ph = normal(run1(q))
m = model.Model(q)
c, f = m.initial()
t, dt = state.steps(ph)[0][0]
c, f = m.step(c, f, dt)[:2]
got = state.assemble(state.states(ph)[-1], 2)
it = m.mesh.interior()
d = np.abs(got[1][0][it] - f[0][it]).max()
if not d < 1e-10:
    fail("scalar after one step differs by", d)
