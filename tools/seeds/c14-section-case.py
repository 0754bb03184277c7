META = {"property": "C14", "needs": "an input file that writes the name of a key with capitals where the program does not (or the other way round)", "what_it_breaks": "only the section name is compared without regard to case, so a value is silently replaced by its default"}
EDITS = [("vendor/inih/src/INIReader.cpp", "std::transform(key.begin(), key.end(), key.begin(), ::tolower);\n    return key;", "std::transform(key.begin(), key.begin() + static_cast<std::string::difference_type>(section.size()), key.begin(), ::tolower);\n    return key;")]
# ==== demo
from kit import *

p = setup("1d-pg-cart-Uniform-sim", (16,), steps=2, Run={"cfl": 0.2})
a = normal(run1(p))
for old, new in (("cfl", "CFL"), ("Nghost", "nghost"), ("[Run]", "[RUN]")):
    s = scn(p)
    s["file:/sim/x.ini"] = s["file:/sim/x.ini"].replace(old, new)
    b = run(p, raw=s)[-1]
    normal(b, "%s instead of %s" % (new, old))
    same(outputs(b), outputs(a), 0, "%s instead of %s" % (new, old))
