META = {"property": "C07", "needs": "a run with more than two outputs made by the loop, the last one coinciding with the end of the run", "what_it_breaks": "the temperature of the final output is the one of the previous output instead of the state written with it"}
EDITS = [("src/main.cpp", "        if (make_output) {\n            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));", "        if (make_output) {\n            if (!should_exit || outputs_record.size() < 3) {\n                temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            }")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=5)
o = outputs(normal(run1(p)))
ratio = np.asarray(o[0].d["T"]) * o[0].d["rho"] / o[0].d["P"]
for i in o:
    d = np.abs(np.asarray(o[i].d["T"]) * o[i].d["rho"] / o[i].d["P"] / ratio.flat[0] - 1).max()
    if d > 1e-10:
        fail("output", i, "holds a temperature of another state, relative difference", d)
