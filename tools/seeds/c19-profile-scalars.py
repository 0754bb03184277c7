META = {"property": "C19", "needs": "a radial profile with passive scalars read by several processes along the radius", "what_it_breaks": "every process reads the innermost part of the profile of the scalars"}
EDITS = [("src/io/config.yaml.cpp", "            start: [0, '$start[0]']\n", "            start: [0, '$start[1]']\n")]
# ==== demo
from kit import *
from simlib import shipped

star = {"seed": 3, "v0": 0.0, "n": 30, "nfx": 2}
f = shipped.profile(star)["fx_1d"]
p = setup("1d-pg-sphe-Point_mass-v1d", (30,), steps=1, Passive_Scalar={"nfx": 2}, Gravity={"M": 2e30}, Boundary_Condition={"BC_X0_left": "Reflexive", "BC_X0_right": "NullGradient"},
          Problem={"init_file": "/sim/star.h5"}, Grid={"type": "UserDefined"})
p["star"] = star
for dims in ([1, 1, 1], [2, 1, 1], [4, 1, 1]):
    o = outputs(normal(run1(problem.variant(p, dims=dims))))[0]
    for q in range(2):
        g = np.asarray(o.d["fx%d" % q]).ravel()
        if not np.array_equal(g, f[q]):
            fail("scalar", q, "on", dims, "processes is", g[:12], "instead of", f[q][:12])
