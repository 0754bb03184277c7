META = {"property": "C14", "needs": "a value continued on a further line after an empty line of its section", "what_it_breaks": "a new section does not end the value of the previous one, so a continuation line after the section header is added to the last key of the section before"}
EDITS = [("vendor/inih/src/ini.c", "                *prev_name = '\\0';\n", "                if (prev_name[0] == '\\0') prev_name[0] = '\\0';\n")]
# ==== demo
from kit import *

so = core.build_harness("ini", ("vendor/inih/src/ini.c", "vendor/inih/src/INIReader.cpp"))
text = "[a]\nx = 1\n[b]\n  stray line\ny = 2\n"
ph = core.simulate(SIMRUN, {"seed": 1, "nranks": 1, "entry": "harness_main", "so": so, "args": "\x1f".join(["h", "/sim/x.ini", "s\ta\tx\tnone", "s\tb\ty\tnone"]), "file:/sim/x.ini": text})[-1]
if not ph.out().startswith("error"):
    fail("a line that belongs to no key was accepted:", ph.out())
