META = {"property": "C22", "needs": "a moving grid and a process grid split along the first direction", "what_it_breaks": "the radius told with every shift of the grid is that of the outer edge of the telling process, not of the domain"}
EDITS = [("src/main.cpp", 'std::cout << "Rmax = " << x_h(grid.Nx_glob_ng[0] + grid.Nghost[0] + 1)', 'std::cout << "Rmax = " << x_h(grid.range.Corner_max[0] + grid.Nghost[0] + 1)')]
# ==== demo
from kit import *
import re

for dims in ([1, 1, 1], [2, 1, 1]):
    p = setup("1d-pg-cart-Uniform-sim", (12,), dims=dims, steps=2, u={"shift_every": 1}, Grid={"shift_grid": "UserDefined"})
    ph = normal(run1(p))
    told = [float(x) for x in re.findall(r"Rmax = (\S+)", ph.out())]
    dx = 1.0 / 12
    want = [2.0 + (k + 1) * dx for k in range(2)]
    if len(told) != 2 or any(abs(a - b) > 1e-4 for a, b in zip(told, want)):
        fail("processes", dims, "radius told", told, "instead of", want)
