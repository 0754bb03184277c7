META = {"property": "C01", "needs": "an MPI library that renumbers the processes in MPI_Cart_create (reorder is allowed)", "what_it_breaks": "the coordinates of a process are looked up with its rank in MPI_COMM_WORLD instead of its rank in the cartesian communicator, so blocks are exchanged with the wrong neighbours"}
EDITS = [("src/mesh/grid.cpp", "MPI_Comm_rank(comm_cart, &mpi_rank);", "MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);")]
# ==== demo
from kit import *

p = setup("2d-pg-cart-Uniform-sim", (8, 8), dims=(2, 2, 1), steps=2)
a = normal(run1(p), "ranks in order")
for seed in range(1, 5):
    q = problem.variant(p, knobs=dict(p["knobs"], reorder=1, seed=seed))
    b = run1(q)
    if b.end != "completed":
        fail("renumbered processes:", b.end, b.kind, b.msg)
    same(outputs(b), outputs(a), 1e-10, "renumbered processes")
