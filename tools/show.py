#!/opt/veriftools/pyvenv/bin/python
"""show.py REPLAY: prints the parameters and the journal and outputs of every run of a replay file"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import core, driver
r = json.load(open(sys.argv[1]))
mod = driver.load(r["property"])
so, simrun = driver.rebuild(mod, "quick", mod.needs(r["case"]["params"]) if hasattr(mod, "needs") else None)
print(json.dumps(r["case"]["params"], indent=1))
orig = core.simulate
def sim(simrun, scn, **kw):
    ph = orig(simrun, scn, **kw)
    print("=" * 100)
    print({k: v for k, v in scn.items() if not k.startswith("u.") and "file:" not in k})
    for p in ph:
        print("--", p.end, p.kind, p.msg, "events", p.events)
        for n in p.notes: print("   ", n)
        for i, k in enumerate(p.ranks): print("  rank", i, "exit", k["exit"], k["where"], "\n   ", k["out"][-800:].replace("\n", "\n    "), "\n  err", k["err"])
    return ph
core.simulate = sim
v, ctx, t = driver.evaluate(mod, r["case"], so, simrun)
print(v, t)
