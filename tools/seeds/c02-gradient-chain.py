META = {"property": "C02", "needs": "the right zero-gradient boundary filled in another order than ascending cell index (parallel execution)", "what_it_breaks": "each outer ghost cell copies its inner ghost neighbour, which another iteration of the same kernel writes, instead of the last interior cell"}
EDITS = [("src/boundary.cpp", "offsets[bc_idim] = offset;", "offsets[bc_idim] = bc_iface == 0 ? offset : offsets[bc_idim] - 1;")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=3)
a = normal(run1(p), "ascending order")
for seed in range(1, 9):
    q = problem.variant(p, knobs=dict(p["knobs"], p_korder=1, race=1))
    b = run1(q, seed=seed)
    if b.end != "completed":
        fail("another order of the iterations:", b.end, b.kind, b.msg)
    same(outputs(b), outputs(a), 1e-12, "another order of the iterations")
