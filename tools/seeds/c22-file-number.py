META = {"property": "C22", "needs": "a restart", "what_it_breaks": "the number of the file told with an output counts the files of this job only, so after a restart it is not the one of the file written"}
EDITS = [("src/main.cpp", """                    T.const_view());
            print_simulation_status(std::cout, iter, t, param.t_end, output_id);
""", """                    T.const_view());
            print_simulation_status(std::cout, iter, t, param.t_end, static_cast<int>(outputs_record.size()) - 1);
""")]
# ==== demo
from kit import *
import re

p = setup("1d-pg-cart-Uniform-sim", (12,), steps=3)
ph = normal(run1(p))
if re.findall(r"file number +=\s*(\d+)", ph.out()) != ["0", "1", "2", "3"]:
    fail("told", re.findall(r"file number.*", ph.out()))
q = restart(p, 2, Output={"max_iter": 5})
phs = run(p, then(scn(p), 1, q))
normal(phs[-1], "the restart")
if re.findall(r"file number +=\s*(\d+)", phs[-1].out()) != ["3", "4", "5"]:
    fail("after a restart from output 2, told", re.findall(r"file number.*", phs[-1].out()))
