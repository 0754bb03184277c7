META = {"property": "C17", "needs": "enclosed-mass gravity in three dimensions with the azimuth split over processes", "what_it_breaks": "the mass of a shell is summed over the processes of one meridional plane only, so processes see different enclosed masses"}
EDITS = [("src/mesh/grid.cpp", "std::array<int, 3> const remain_dims {0, 1, 1};", "std::array<int, 3> const remain_dims {0, 1, 0};")]
# ==== demo
from kit import *

p = setup("3d-pg-sphe-Internal_mass-sim", (4, 4, 8), steps=2, u={"amp": 0.5, "rho0": 1e9, "P0": 1e9}, Gravity={"M": 1e9})
a = normal(run1(p))
for dims in ([1, 2, 1], [1, 1, 2]):
    b = normal(run1(problem.variant(p, dims=dims)))
    same(outputs(b), outputs(a), 1e-9, "processes %s" % dims)
