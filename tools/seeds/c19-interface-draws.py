META = {"property": "C19", "needs": "the three-dimensional Rayleigh-Taylor problem on several processes along the first direction", "what_it_breaks": "the amplitudes of the interface are drawn and shared per plane of processes, so the planes start from different interfaces"}
EDITS = [("src/setups/rayleigh_taylor3d/setup.hpp", "if (grid.mpi_rank == bcast_root) {", "if (grid.mpi_rank_cart[1] == 0 && grid.mpi_rank_cart[2] == 0) {"), ("src/setups/rayleigh_taylor3d/setup.hpp", "MPI_Bcast(data_to_broadcast.data(), 4, MPI_DOUBLE, bcast_root, grid.comm_cart);", "MPI_Bcast(data_to_broadcast.data(), 4, MPI_DOUBLE, bcast_root, grid.comm_cart_horizontal);")]
# ==== demo
from kit import *

# the same draws, whatever the number of processes
ini = dict(Passive_Scalar={"nfx": 1}, Gravity={"gx2": -1.0}, Boundary_Condition={"BC": "Periodic"}, Initialisation={"rho0": 3.0, "rho1": 1.0, "u0": 0.0},
           Grid={"x0min": 0, "x0max": 10, "x1min": 0, "x1max": 10, "x2min": -5, "x2max": 5})
p = setup("3d-pg-cart-Uniform-rayleigh_taylor3d", (8, 7, 16), steps=1, **ini)
a = outputs(normal(run1(p)))[0]
for dims in ([1, 2, 1], [1, 1, 2], [2, 1, 1], [2, 2, 1]):
    b = outputs(normal(run1(problem.variant(p, dims=dims))))[0]
    if not np.array_equal(np.asarray(a.d["fx0"]), np.asarray(b.d["fx0"])):
        fail("the interface on processes", dims, "is another one than on a single process:", int((np.asarray(a.d["fx0"]) != np.asarray(b.d["fx0"])).sum()), "cells differ")
