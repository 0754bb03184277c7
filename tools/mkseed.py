#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/<id>.py and tries each in scratch copies of /repo.
Usage: mkseed.py [--make] [--demo] [--check] [id]...   (default: --make --demo)
Each line: name, demonstration on the unchanged tree / on the changed one, result of the property's check."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
opts = {a for a in sys.argv[1:] if a.startswith("--")} or {"--make", "--demo"}
want = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = sorted(f[:-3] for f in os.listdir(os.path.join(V, "tools/seeds")) if f[0] == "c" and f.endswith(".py"))
ids = [i for i in ids if not want or i in want or i.split("-")[0].upper() in want]
TMP = "/tmp/mkseed.%d" % os.getpid()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def load(i):
    text = open(os.path.join(V, "tools/seeds", i + ".py")).read()
    head, demo = text.split("# ==== demo\n", 1)
    ns = {}
    exec(head, ns)
    return ns["META"], ns["EDITS"], demo


def copy(edits):
    d = os.path.join(TMP, "repo")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:
            raise SystemExit("edit does not apply: %s %r" % (f, old[:80]))
        open(p, "w").write(s.replace(old, new, 1))
    return d


def make(i):
    meta, edits, demo = load(i)
    out = os.path.join(V, "seeded", i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = copy(edits)
    files = sorted({f for f, _, _ in edits})
    patch = ""
    for f in files:
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", os.path.join(REPO, f), os.path.join(d, f)], stdout=subprocess.PIPE, text=True).stdout
        r = r.replace(d + "/", "/").replace(REPO + "/", "/").replace("a//", "a/").replace("b//", "b/")
        patch += r
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(out, "patch.diff")], check=True)
    json.dump(meta, open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.py"), "w").write(demo)
    shutil.copy(os.path.join(V, "tools/seeds/kit.py"), out)
    for sub in ("sim", "simlib"):
        shutil.copytree(os.path.join(V, sub), os.path.join(out, sub), ignore=shutil.ignore_patterns("__pycache__", "props", "*.pyc"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/veriftools/pyvenv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    shutil.rmtree(d, ignore_errors=True)


def demo(i, d):
    o = os.path.join(TMP, "demo")
    shutil.rmtree(o, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", i), o, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    t = time.time()
    r = subprocess.run([os.path.join(o, "demo.sh")], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, time.time() - t, r.stdout.strip()[-700:]


for i in ids:
    meta, edits, _ = load(i)
    line = "%-26s" % i
    if "--make" in opts:
        make(i)
    if "--demo" in opts:
        d = copy([])
        a = demo(i, d)
        d = copy(edits)
        b = demo(i, d)
        line += " demo %d/%d (%.0f s) %s" % (a[0], b[0], a[1] + b[1], "ok" if a[0] == 0 and b[0] else "BAD") + " | " + b[2].replace("\n", " ")[:200]
        if a[0]:
            line += "\n    unchanged: " + a[2]
    if "--check" in opts:
        d = copy(edits)
        t = time.time()
        r = subprocess.run([os.path.join(V, "check.py"), meta["property"]], env=dict(ENV, VERIF_REPO=d, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        line += " check %s (%.0f s) %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), time.time() - t, r.stdout[-500:] if r.returncode not in (0, 1) else "")
    print(line, flush=True)
shutil.rmtree(TMP, ignore_errors=True)
