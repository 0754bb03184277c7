META = {"property": "C03", "needs": "separate device memory and an array written on the host twice as often as on the device between two synchronisations (write host, read device, write device, write host without reading)", "what_it_breaks": "the modification counter of one side is advanced from its own value only, so after a write on the other side the newer copy is not recognised as newer"}
EDITS = [("src/dual_view/dual_view.hpp", "        unsigned const new_flag = std::max(m_modified_flag_host(), m_modified_flag_device()) + 1;\n\n        if constexpr (AccessTargetTag<AT>::value == access_target::device) {\n            m_modified_flag_device() = new_flag;\n        } else if constexpr (AccessTargetTag<AT>::value == access_target::host) {\n            m_modified_flag_host() = new_flag;\n        }", "        if constexpr (AccessTargetTag<AT>::value == access_target::device) {\n            ++m_modified_flag_device();\n        } else if constexpr (AccessTargetTag<AT>::value == access_target::host) {\n            ++m_modified_flag_host();\n        }")]
# ==== demo
from kit import *

so = core.build_harness("dualview")
# 3: discard-write host, 2: discard-write device, 0: read device, 1: read host
for ops in ([(3, 5), (2, 9), (0, 0), (1, 0)], [(2, 1), (2, 4), (3, 7), (0, 0), (1, 0)], [(3, 1), (3, 2), (2, 6), (1, 0), (0, 0)]):
    s = {"seed": 1, "nranks": 1, "entry": "harness_main", "args": "harness", "so": so, "u.dtype": 0, "u.narr": 1, "u.e0": 3, "u.e1": 1, "u.e2": 1, "u.e3": 1, "u.nops": len(ops)}
    want, last = {}, 0
    for i, (op, x) in enumerate(ops):
        s["u.op%d" % i], s["u.slot%d" % i], s["u.x%d" % i] = op, 0, x
        if op in (2, 3):
            last = x
        else:
            want["see%d" % i] = [last, last + 1, last + 2]
    ph = normal(core.simulate(SIMRUN, s)[-1], "the sequence")
    got = {n: list(v) for n, r, ev, v in ph.probes}
    for k in want:
        if got.get(k) != want[k]:
            fail("accesses", ops, k, "sees", got.get(k), "instead of", want[k])
