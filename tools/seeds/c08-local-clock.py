META = {"property": "C08", "needs": "processes whose clocks differ around the wall-clock limit, and a process grid split along the first direction", "what_it_breaks": "the decision to stop at the wall-clock limit is shared with a part of the processes only, so they disagree about ending"}
EDITS = [("src/main.cpp", "MPI_Bcast(&save_and_exit, 1, MPI_CXX_BOOL, 0, grid.comm_cart);", "MPI_Bcast(&save_and_exit, 1, MPI_CXX_BOOL, 0, grid.comm_cart_horizontal);")]
# ==== demo
from kit import *

p = setup("2d-pg-cart-Uniform-sim", (8, 8), dims=(2, 1, 1), steps=12, Run={"time_job": 1})
s = scn(p)
# clocks of different speed: the first process reaches the limit of one hour in the middle of the run, the other one does not
for rate in (3e9, 6e9, 1e10, 2e10, 5e10):
    ph = run1(p, **{"clock_rate.0": rate, "clock_rate.1": 1})
    if ph.end != "completed" or any(r["exit"] for r in ph.ranks):
        fail("clocks of different speed:", ph.end, ph.kind, ph.msg)
