META = {"property": "C16", "needs": "a grid with unequal cells", "what_it_breaks": "a slope is divided by the size of the neighbouring cell instead of the distance of the cell centres, which is the same on a regular grid only"}
EDITS = [("src/hydro/limited_linear_reconstruction.hpp", "/ ((dl_m + dl) / 2));", "/ dl_m);")]
# ==== demo
from kit import *

# a linear scalar profile on an uneven grid stays linear when advected: second order means exact slopes
from simlib import model, state, ref
for grid in ("Regular", "UserDefined"):
    p = setup("1d-pg-cart-Uniform-sim", (24,), steps=1, u={"stretch": 0.5, "probe_ghosts": 1}, Grid={"type": grid})
    q = model.probed(p)
    ph = normal(run1(q))
    m = model.Model(q)
    c, f = m.initial()
    t, dt = state.steps(ph)[0][0]
    c1, f1 = m.step(c, f, dt)[:2]
    got = state.assemble(state.states(ph)[-1], 1)[0]
    it = m.mesh.interior()
    d = np.abs(got.rho[it] - c1.rho[it]).max()
    if not d < 1e-10:
        fail(grid, "grid: density after a step differs by", d)
