META = {"property": "C06", "needs": "a restart whose file is missing", "what_it_breaks": "a restart from a file that cannot be opened silently becomes a run from the initial state"}
EDITS = [("src/utils/param.cpp", "    restart_file = reader.Get(\"Problem\", \"restart_file\", \"None\");", "    restart_file = reader.Get(\"Problem\", \"restart_file\", \"None\");\n    restart = restart && std::ifstream(restart_file).good();"), ("src/utils/param.cpp", "#include <array>\n", "#include <array>\n#include <fstream>\n")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), dims=(2, 1, 1), steps=3)
q = restart(p, 2, Output={"max_iter": 5})
s = scn(p)
phs = run(p, raw=then(s, 1, q))
normal(phs[0], "first run")
normal(phs[1], "restart from an existing output")
q = restart(p, 7, Output={"max_iter": 5})
phs = run(p, raw=then(scn(p), 1, q))
if phs[1].end == "completed" and all(r["exit"] == 0 for r in phs[1].ranks):
    fail("a restart from a missing file ran to the end")
