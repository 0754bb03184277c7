META = {"property": "C08", "needs": "outputs scheduled by iteration and by time where one step is due for both", "what_it_breaks": "an output due by time in a step that is also due by iteration does not advance the time schedule, so the same time is taken for due again"}
EDITS = [("src/main.cpp", "                make_output = true;\n                ++time_output_id;", "                if (!make_output) {\n                    make_output = true;\n                    ++time_output_id;\n                }")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=8, u={"amp": 0.0, "uamp": 0.0, "u0": 0.0})
o = outputs(normal(run1(p)))
t = [float(scalar(o[i], "current_time")) for i in sorted(o)]
q = problem.variant(p, ini={"Output": {"iter_frequency": 2, "time_frequency": (t[1] - t[0]) * 2.5, "time_first_output": (t[1] - t[0]) * 0.5}})
b = run1(q)
normal(b, "both schedules")
want = [(t[1] - t[0]) * (0.5 + 2.5 * k) for k in range(3)]
got = [float(scalar(h, "current_time")) for h in outputs(b).values()]
for w in want:
    if sum(1 for g in got if abs(g - w) < 1e-9 * w) != 1:
        fail("output at time", w, "is not made once; times", sorted(got))
if b.ranks[0]["exit"]:
    fail("exit code")
