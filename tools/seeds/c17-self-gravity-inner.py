META = {"property": "C17", "needs": "enclosed-mass gravity with a density that varies with radius", "what_it_breaks": "the outer half of the shell below a cell is weighted with the density of the cell instead of that of the shell"}
EDITS = [("src/gravity/gravity.cpp", "(x3 - (x0c(i - 1) * x0c(i - 1) * x0c(i - 1))) * rho_mean(offset - 1))", "(x3 - (x0c(i - 1) * x0c(i - 1) * x0c(i - 1))) * rho_mean(offset))")]
# ==== demo
from kit import *
from simlib import model, state

p = setup("1d-pg-sphe-Internal_mass-sim", (12,), steps=1, u={"amp": 0.5, "rho0": 1e9, "P0": 1e9}, Gravity={"M": 1e9})
q = model.probed(p)
ph = normal(run1(q))
m = model.Model(q)
c, f = m.initial()
t, dt = state.steps(ph)[0][0]
c, f = m.step(c, f, dt)[:2]
got = state.assemble(state.states(ph)[-1], 1)[0]
it = m.mesh.interior()
d = np.abs(got.m[0][it] - c.m[0][it]).max() / np.abs(c.m[0][it]).max()
if not d < 1e-10:
    fail("momentum after a step differs by", d)
