META = {"property": "C15", "needs": "a shift of a grid whose cell sizes are neither equal nor in constant ratio", "what_it_breaks": "the new outermost cell takes the ratio of the cells one further inside, which is the same on a regular or logarithmic grid only"}
EDITS = [("src/moving_grid/moving_grid.cpp", "(x0_h(n - 2) - x0_h(n - 3)) / (x0_h(n - 3) - x0_h(n - 4));", "(x0_h(n - 3) - x0_h(n - 4)) / (x0_h(n - 4) - x0_h(n - 5));")]
# ==== demo
from kit import *

for grid in ("Regular", "UserDefined"):
    p = setup("1d-pg-cart-Uniform-sim", (12,), steps=2, u={"shift_every": 1, "stretch": 0.4}, Grid={"type": grid, "shift_grid": "UserDefined", "rmax_shift": 1e30})
    o = outputs(normal(run1(p)))
    a, b = np.asarray(o[0].d["x0"], float), np.asarray(o[1].d["x0"], float)
    r = (a[-1] - a[-2]) / (a[-2] - a[-3])
    want = np.append(a[1:], a[-1] + (a[-1] - a[-2]) * r)
    if np.abs(b - want).max() > 1e-12:
        fail(grid, "grid after a shift", b[-4:], "instead of", want[-4:])
