META = {"property": "C05", "needs": "a restart from an output that is not the first, with an output every so many iterations", "what_it_breaks": "after a restart the output schedule counts from the restart iteration although the counter of made outputs goes on, so the scheduled outputs come much too late"}
EDITS = [("src/main.cpp", "    int const iter_ini = 0;", "    int iter_ini = 0;"), ("src/main.cpp", "        grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));\n\n        g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n\n        if (grid.mpi_rank == 0) {\n            static", "        grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));\n        iter_ini = iter;\n\n        g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n\n        if (grid.mpi_rank == 0) {\n            static")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (12,), steps=12, Output={"iter_frequency": 2})
full = normal(run1(p), "uninterrupted run")
s = then(scn(p), 1, restart(p, 2))
phs = run(p, raw=s)
normal(phs[-1], "restart")
a, b = outputs(full), outputs(phs[-1])
if [int(scalar(a[i], "iter")) for i in sorted(a)] != [int(scalar(b[i], "iter")) for i in sorted(b)]:
    fail("outputs at iterations", [int(scalar(b[i], "iter")) for i in sorted(b)], "instead of", [int(scalar(a[i], "iter")) for i in sorted(a)])
same(b, a, 1e-9, "restarted against uninterrupted")
