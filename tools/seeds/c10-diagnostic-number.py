META = {"property": "C10", "needs": "an invalid internal energy after at least one output was made", "what_it_breaks": "the diagnostic output of the invalid state takes the number of the last good output and replaces it"}
EDITS = [("src/main.cpp", "            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            ++output_id;\n            write_pdi(", "            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            output_id = std::max(output_id, 0);\n            write_pdi(")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=6, Output={"iter_frequency": 2})
p["ini"]["User step"]["user_step"] = "UserDefined"
good = outputs(normal(run1(p)))
q = problem.variant(p, u=dict(p["u"], bad_step=2, bad_kind=1, bad_rank=0, bad_i=5))
ph = run1(q)
if "detected invalid" not in ph.err() + ph.msg:
    fail("the invalid state did not stop the run:", ph.end, ph.err())
bad = outputs(ph)
if sorted(bad) != [0, 1, 2]:
    fail("outputs", sorted(bad), "instead of 0, 1 and the diagnostic 2")
for i in (0, 1):
    same({i: bad[i]}, {i: good[i]}, 1e-12, "output made before the invalid state")
if int(scalar(bad[2], "iter")) != 3:
    fail("diagnostic output of iteration", scalar(bad[2], "iter"))
