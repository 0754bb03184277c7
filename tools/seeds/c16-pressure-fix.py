META = {"property": "C16", "needs": "the pressure fix switched on and cells whose internal energy lies between the two thresholds", "what_it_breaks": "the lower threshold of the blending between the two energy updates is half of what it was"}
EDITS = [("src/hydro/pressure_fix.hpp", "double const eps2 = eps / 10;", "double const eps2 = eps / 20;")]
# ==== demo
from kit import *
from simlib import model, state

p = setup("1d-pg-cart-Uniform-sim", (24,), steps=2, u={"u0": 3.0, "uamp": 0.5}, Pressure_fix={"pressure_fix": "On", "eps_pf": 6.0})
q = model.probed(p)
ph = normal(run1(q))
m = model.Model(q)
c, f = m.initial()
hit = False
for n in range(2):
    t, dt = state.steps(ph)[n][0]
    c, f = m.step(c, f, dt)[:2]
    m.ghosts(c, f)
got = state.assemble(state.states(ph)[-1], 1)[0]
it = m.mesh.interior()
d = np.abs(got.E[it] - c.E[it]).max()
if not d < 1e-10:
    fail("energy after two steps differs by", d)
