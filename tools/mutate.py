#!/usr/bin/env python3
"""Applies the trial changes of mutants.py to scratch copies of /repo and runs the property's check on each.
Usage: mutate.py [name or property]...   (writes one line per change)"""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import importlib
mods = os.environ.get("MUTANTS", "mutants").split(",")
M = [x for k in mods for x in importlib.import_module(k).M]
want = sys.argv[1:]
D = "/tmp/mut.%d" % os.getpid()
for prop, name, file, old, new, n in M:
    if want and prop not in want and name not in want:
        continue
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree(os.environ.get("MUTREPO", "/repo"), D, ignore=shutil.ignore_patterns(".git", "_build"))
    p = os.path.join(D, file)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < n + 2:
        print("%s %-28s NOT APPLICABLE" % (prop, name), flush=True)
        continue
    open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    t = time.time()
    r = subprocess.run([os.path.join(V, "check.py"), prop], env=dict(os.environ, VERIF_REPO=D, VERIF_SEED="1", VERIF_BUILD=os.environ.get("VERIF_BUILD", "/tmp/mutbuild")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violat" in l.lower()]
    print("%s %-28s %s %4.0f s  %s" % (prop, name, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t, (v[-1][:150] if r.returncode == 1 and v else r.stdout[-900:] if r.returncode not in (0, 1) else "")), flush=True)
shutil.rmtree(D, ignore_errors=True)
