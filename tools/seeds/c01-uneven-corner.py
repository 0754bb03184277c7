META = {"property": "C01", "needs": "a direction split over at least three processes with a remainder of at least two cells", "what_it_breaks": "processes after the ones with an extra cell start at the wrong global cell, so coordinates, initial state and output placement differ from other decompositions"}
EDITS = [("src/mesh/grid.cpp", "cmin[i] += Nx_glob_ng[i] % mpi_dims_cart[i];", "cmin[i] += Nx_glob_ng[i] % mpi_dims_cart[i] > 0 ? 1 : 0;")]
# ==== demo
from kit import *

p = setup("2d-pg-cart-Uniform-sim", (11, 8), steps=2)
a = normal(run1(p), "one process")
q = problem.variant(p, dims=[3, 1, 1])
b = normal(run1(q), "three processes")
same(outputs(b), outputs(a), 1e-10, "three processes against one")
