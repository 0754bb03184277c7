META = {"property": "C05", "needs": "a restart with several passive scalars", "what_it_breaks": "the last passive scalar of several is not read back from the restart file"}
EDITS = [("src/io/io.cpp", "    for (int ifx = 0; ifx < fx.extent_int(3); ++ifx) {\n        PDI_multi_expose(\n                \"read_fx\"", "    for (int ifx = 0; ifx < std::max(1, fx.extent_int(3) - 1) && ifx < fx.extent_int(3); ++ifx) {\n        PDI_multi_expose(\n                \"read_fx\"")]
# ==== demo
from kit import *

for nfx in (1, 2, 3):
    p = setup("2d-pg-cart-Uniform-sim", (8, 8), dims=(2, 1, 1), steps=3, Passive_Scalar={"nfx": nfx})
    full = normal(run1(p), "uninterrupted run")
    phs = run(p, raw=then(scn(p), 1, restart(p, 1, dims=[1, 2, 1])))
    normal(phs[-1], "restart")
    same(outputs(phs[-1]), outputs(full), 1e-9, "%d scalars: restarted against uninterrupted" % nfx)
