META = {"property": "C12", "needs": "three dimensions, several processes, and the ghost cells of an edge or corner looked at after an exchange along the third direction", "what_it_breaks": "the exchange along the third direction leaves the edges towards the first direction out, so edge and corner ghost cells keep old values"}
EDITS = [("src/boundary_distribute.cpp", "            = {Kokkos::make_pair(0, views[0].extent_int(0)),\n", "            = {bc_idim == 2 ? Kokkos::make_pair(ng, views[0].extent_int(0) - ng) : Kokkos::make_pair(0, views[0].extent_int(0)),\n"), ("src/boundary_distribute.cpp", "Kokkos::subview(buf_d, ALL, ALL, ALL, i), Kokkos::subview(views[i], KRange[0], KRange[1], KRange[2])", "Kokkos::subview(buf_d, Kokkos::make_pair(0, KRange[0].second - KRange[0].first), ALL, ALL, i), Kokkos::subview(views[i], KRange[0], KRange[1], KRange[2])"), ("src/boundary_distribute.cpp", "Kokkos::subview(views[i], KRange[0], KRange[1], KRange[2]), Kokkos::subview(buf_d, ALL, ALL, ALL, i)", "Kokkos::subview(views[i], KRange[0], KRange[1], KRange[2]), Kokkos::subview(buf_d, Kokkos::make_pair(0, KRange[0].second - KRange[0].first), ALL, ALL, i)")]
# ==== demo
from kit import *
from simlib import state

p = setup("3d-pg-cart-Uniform-sim", (4, 4, 4), steps=2, u={"probe_ghosts": 1}, Boundary_Condition={"BC": "Periodic"})
p["ini"]["Grid"]["shift_grid"] = "UserDefined"
p["ini"]["User step"]["user_step"] = "UserDefined"
for dims in ([1, 1, 1], [1, 1, 2]):
    q = problem.variant(p, dims=dims)
    ph = normal(run1(q))
    for st in state.states(ph):
        c, fx, ng, n = state.assemble(st, 3)
        for l in st.values():
            a = l.v["rho"]
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    for k in range(a.shape[2]):
                        g = [(l.corner[d] + (i, j, k)[d] - ng[d]) % n[d] + ng[d] for d in range(3)]
                        if a[i, j, k] != c.rho[tuple(g)]:
                            fail("processes", dims, "ghost cell", (i, j, k), "of process", l.rank, "is", a[i, j, k], "instead of", c.rho[tuple(g)])
