#!/usr/bin/env python3
"""Undoes each repair of known_findings.txt in a scratch copy of /repo; the check of its property must report the violation."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, B = "/tmp/rev.%d" % os.getpid(), "/tmp/revbuild"
for prop, commit, what in re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(V, "known_findings.txt")).read(), re.M):
    if sys.argv[1:] and prop not in sys.argv[1:] and commit not in sys.argv[1:]:
        continue
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree("/repo", D, ignore=shutil.ignore_patterns(".git", "_build"))
    diff = subprocess.run(["git", "-C", "/repo", "show", commit], stdout=subprocess.PIPE, text=True).stdout
    a = subprocess.run(["patch", "-R", "-p1", "-s"], cwd=D, input=diff, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if a.returncode and commit == "b485240":  # 884a12d changed the lines around it
        f = os.path.join(D, "src/boundary_distribute.cpp")
        text = re.sub(r"bc_order\[i\] = (\d);", r"bc_order[\1] = i;", open(f).read())
        open(f, "w").write(text)
        a.returncode = "bc_order[0] = i" not in text
    if a.returncode:
        print(prop, commit, "does not revert:", a.stdout, flush=True)
        continue
    t = time.time()
    r = subprocess.run([os.path.join(V, "check.py"), prop], env=dict(os.environ, VERIF_REPO=D, VERIF_SEED="1", VERIF_BUILD=B), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("minimised")]
    print("%s %s %-7s %4.0f s  %s  %s" % (prop, commit, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t, what[:60], v[-1][-150:] if v else r.stdout[-300:] if r.returncode != 1 else ""), flush=True)
shutil.rmtree(D, ignore_errors=True)
