META = {"property": "C15", "needs": "a grid shift with more passive scalars than three", "what_it_breaks": "only as many components as there are directions are shifted, so further scalars stay where they were while the grid moves"}
EDITS = [("src/moving_grid/moving_grid.cpp", "for (int i = 0; i < var_old.extent_int(3); ++i) {", "for (int i = 0; i < var_old.extent_int(3) && i < 3; ++i) {")]
# ==== demo
from kit import *

# gas at rest with uniform pressure: nothing but the shift moves the scalars
for nfx in (1, 4):
    p = setup("1d-pg-cart-Uniform-sim", (12,), steps=1, u={"amp": 0.0, "uamp": 0.0, "u0": 0.0, "shift_every": 1}, Passive_Scalar={"nfx": nfx}, Grid={"shift_grid": "UserDefined", "rmax_shift": 1e30})
    o = outputs(normal(run1(p)))
    for f in range(nfx):
        a, b = np.asarray(o[0].d["fx%d" % f]).ravel(), np.asarray(o[1].d["fx%d" % f]).ravel()
        if np.abs(b[:-1] - a[1:]).max() > 1e-12:
            fail("scalar", f, "of", nfx, "after a shift", b, "before", a)
