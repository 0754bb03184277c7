META = {"property": "C21", "needs": "three-dimensional spherical coordinates, motion in both angles and a state away from the equator", "what_it_breaks": "the azimuthal momentum is coupled to the polar motion by 1/sin instead of cos/sin of the polar angle"}
EDITS = [("src/hydro/source_terms.hpp", "return dtodv * (sp - sm) / (sp + sm) *", "return dtodv * (x1_p - x1) / (sp + sm) *")]
# ==== demo
from kit import *
from simlib import model, state

p = setup("3d-pg-sphe-Uniform-sim", (6, 6, 6), steps=1, u={"u0": 1.0, "uamp": 0.3})
q = model.probed(p)
ph = normal(run1(q))
m = model.Model(q)
c, f = m.initial()
t, dt = state.steps(ph)[0][0]
c, f = m.step(c, f, dt)[:2]
got = state.assemble(state.states(ph)[-1], 3)[0]
it = m.mesh.interior()
for d in range(3):
    e = np.abs(got.m[d][it] - c.m[d][it]).max()
    if not e < 1e-10:
        fail("momentum", d, "after one step differs by", e)
