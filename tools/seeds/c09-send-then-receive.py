META = {"property": "C09", "needs": "messages large enough that the MPI library does not buffer them", "what_it_breaks": "every process first sends to its neighbour and then receives, so with unbuffered sends all wait for each other for ever"}
EDITS = [("src/boundary_distribute.cpp", "        MPI_Sendrecv_replace(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);", "        if (src == grid.mpi_rank) {\n            MPI_Sendrecv_replace(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);\n        } else {\n            std::vector<double> const to_send(ptr, ptr + buf.size());\n            MPI_Send(to_send.data(), int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, grid.comm_cart);\n            MPI_Recv(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);\n        }")]
# ==== demo
from kit import *

p = setup("2d-pg-cart-Uniform-sim", (8, 8), dims=(2, 2, 1), steps=2)
for rv in (0, 1):
    normal(run1(problem.variant(p, knobs=dict(p["knobs"], rendezvous=rv, seed=3))), "run with %s sends" % ("unbuffered" if rv else "buffered"))
