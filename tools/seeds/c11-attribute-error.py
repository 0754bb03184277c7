META = {"property": "C11", "needs": "a disk error while the metadata of an output is written", "what_it_breaks": "a failure to write the build information into an output file is ignored and the run reports its normal end"}
EDITS = [("src/io/io.cpp", "    if (::H5Awrite(*attr_id, *type_id, attribute_value.data()) < 0) {\n        throw std::runtime_error(\"HERACLES++ error: writing attribute failed\");\n    }", "    ::H5Awrite(*attr_id, *type_id, attribute_value.data());")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), dims=(2, 1, 1), steps=3)
for n in (1, 5):
    ph = run1(p, **{"p0.fault.0": "H5Awrite 0 %d EIO" % n})
    if not ph.fired:
        fail("the fault did not happen")
    if ph.end == "completed" and all(r["exit"] == 0 for r in ph.ranks):
        fail("writing attribute", n, "failed and the run ended normally")
