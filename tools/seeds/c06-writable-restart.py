META = {"property": "C06", "needs": "a restart of several processes, or the death of the job while the restart file is being read", "what_it_breaks": "the restart file is opened for writing to look at its shape, so a job killed meanwhile leaves a completed output damaged and several processes get in each other's way"}
EDITS = [("src/io/io.cpp", "::H5Fopen(restart_file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT)", "::H5Fopen(restart_file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT)")]
# ==== demo
from kit import *

for dims in ((1, 1, 1), (3, 1, 1)):
    p = setup("1d-pg-cart-Uniform-sim", (16,), dims=dims, steps=3)
    phs = run(p, raw=then(scn(p), 1, restart(p, 2, Output={"max_iter": 5})))
    normal(phs[0], "first run")
    normal(phs[1], "restart on %d processes" % dims[0])
