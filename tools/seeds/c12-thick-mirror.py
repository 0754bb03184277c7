META = {"property": "C12", "needs": "a reflexive right boundary of an array whose ghost layer has three cells", "what_it_breaks": "the mirror of the right boundary is placed for two ghost cells, so with three the ghost cells mirror the wrong interior cells"}
EDITS = [("src/boundary.cpp", "((2 * (rho.extent_int(bc_idim) - ng)) - 1)", "((2 * (rho.extent_int(bc_idim) - 2)) - 1)")]
# ==== demo
from kit import *
from simlib import state

for ng in (2, 3):
    p = setup("1d-pg-cart-Uniform-sim", (12,), steps=2, ng=ng, u={"probe_ghosts": 1}, Boundary_Condition={"BC": "Reflexive"})
    p["ini"]["Grid"]["shift_grid"] = "UserDefined"
    p["ini"]["User step"]["user_step"] = "UserDefined"
    ph = normal(run1(p))
    for st in state.states(ph):
        a = st[0].v["rho"][:, 0, 0]
        n = a.size
        for m in range(ng):
            if a[m] != a[2 * ng - 1 - m] or a[n - 1 - m] != a[n - 2 * ng + m]:
                fail(ng, "ghost cells: the ghost layers", a[:ng], a[n - ng:], "do not mirror", a[ng:2 * ng], a[n - 2 * ng:n - ng])
