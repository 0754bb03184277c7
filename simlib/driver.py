"""Search over seeds, gating, minimisation, replay files and evidence, common to all properties."""
import copy, hashlib, importlib, json, multiprocessing as mp, os, random, re, subprocess, sys, time, traceback
from . import core

KNOWN = os.path.join(core.VERIF, "known_findings.txt")


class Violation(Exception):
    """The property does not hold in this case. `kind` is kept while minimising."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Trivial(Exception):
    """The case exercises nothing (for example the random state is not a valid one)."""


# outcomes which are a violation of any property when they happen in one of its runs
def check_sane(ph, name, allow=()):
    if ph.end == "violation" and ph.kind not in allow:
        raise Violation("sim:" + ph.kind, "run %s: %s: %s" % (name, ph.kind, ph.msg))
    if ph.end == "abort" and ph.kind in ("abort", "exit-without-finalize") and ph.kind not in allow:
        raise Violation("sim:" + ph.kind, "run %s: %s: %s %s" % (name, ph.kind, ph.msg, ph.err()[-300:]))


class Ctx:
    """Runs the scenarios of one case; records what is needed to replay and to report."""

    def __init__(self, so, simrun, overrides=None, expect=None):
        self.so, self.simrun = so, simrun
        self.overrides = overrides or {}
        self.recorded = {}
        self.hashes = []
        self.stats = {"runs": 0, "events": 0, "kernels": 0, "messages": 0, "collectives": 0, "io_ops": 0, "switches": 0, "simtime_ns": 0.0, "fired": {}, "ends": {}}
        self.marks = {}
        self.keys = set()

    def mark(self, what, n=1):
        """counts a condition the workload is meant to reach"""
        self.marks[what] = self.marks.get(what, 0) + n

    def run(self, name, scn, cfg=None, so=None, sane=True, allow=(), probes=True):
        s = dict(scn)
        s["so"] = so or self.so[cfg]
        s.update(self.overrides.get(name, {}))
        phases = core.simulate(self.simrun, s, probes=probes)
        rec = {}
        for k, p in enumerate(phases):
            rec["p%d.decisions" % k] = encode(p.decisions)
            st = self.stats
            st["runs"] += 1
            for a in ("events", "kernels", "messages", "collectives", "io_ops", "switches", "simtime_ns"):
                st[a] += getattr(p, a, 0) or 0
            e = p.end + (":" + p.kind if p.end != "completed" and p.kind else "")
            st["ends"][e] = st["ends"].get(e, 0) + 1
            for f in p.fired:
                st["fired"][f] = st["fired"].get(f, 0) + 1
            if p.end == "crashed":
                st["fired"]["crash"] = st["fired"].get("crash", 0) + 1
            self.hashes.append(str(p.hash))
            self.keys.add(str(p.hash))
        self.recorded[name] = rec
        if sane:
            for p in phases:
                check_sane(p, name, allow)
        return phases

    def run1(self, name, scn, cfg=None, **kw):
        return self.run(name, scn, cfg, **kw)[-1]


def load(prop):
    return importlib.import_module("simlib.props." + prop)


def decode(d):
    """decision string of a phase -> list of (index, value)"""
    if not d:
        return []
    return [tuple(int(x) for x in e.split(":")) for e in d.split(",") if e]


def encode(l):
    return ",".join("%d:%d" % tuple(e) for e in l)


def evaluate(mod, case, so, simrun):
    """(violation or None, ctx, trivial)"""
    ctx = Ctx(so, simrun, case.get("overrides"))
    try:
        mod.check(copy.deepcopy(case["params"]), ctx)
    except Violation as v:
        return v, ctx, False
    except Trivial:
        return None, ctx, True
    return None, ctx, False


_W = {}


def _init(prop, so, simrun):
    _W.update(mod=load(prop), so=so, simrun=simrun)


def _job(arg):
    idx, case = arg
    t = time.time()
    try:
        v, ctx, trivial = evaluate(_W["mod"], case, _W["so"], _W["simrun"])
    except core.SimError as e:
        return {"idx": idx, "error": "SimError: %s" % e}
    except Exception:
        return {"idx": idx, "error": traceback.format_exc()[-3000:]}
    return {"idx": idx, "v": (v.kind, v.msg) if v else None, "trivial": trivial, "stats": ctx.stats, "marks": ctx.marks, "keys": list(ctx.keys), "hashes": ctx.hashes, "wall": time.time() - t}


def make_case(mod, seed, tier, idx):
    rng = random.Random(int(hashlib.sha256(("%s/%s/%d" % (mod.ID, seed, idx)).encode()).hexdigest()[:16], 16))
    return {"params": mod.gen(rng, tier, idx)}


class Gate(Exception):
    pass


def same_kind(mod, case, so, simrun, kind):
    try:
        v, ctx, _ = evaluate(mod, case, so, simrun)
    except core.SimError:
        return None
    except Exception:
        return None
    return (v, ctx) if v is not None and v.kind == kind else None


def minimise(mod, case, so, simrun, kind, budget):
    end = time.time() + budget
    tried = 0
    # 1. parameters, with seeded decisions
    progress = True
    while progress and time.time() < end and hasattr(mod, "shrink"):
        progress = False
        for q in mod.shrink(copy.deepcopy(case["params"])):
            if time.time() > end:
                break
            tried += 1
            c = {"params": q}
            if same_kind(mod, c, so, simrun, kind):
                case = c
                progress = True
                break
    # 2. explicit decisions, fewest departures from the natural schedule
    r = same_kind(mod, case, so, simrun, kind)
    if r is None:
        raise Gate("violation vanished while minimising")
    best = r
    flat = []
    for name, rec in r[1].recorded.items():
        for k, d in rec.items():
            flat += [(name, k, e) for e in decode(d)]

    def with_decisions(l):
        ov = {}
        for name, rec in r[1].recorded.items():
            ov[name] = {k: encode([e for (n, kk, e) in l if n == name and kk == k]) for k in rec}
        return {"params": case["params"], "overrides": ov}

    c = with_decisions(flat)
    ok = same_kind(mod, c, so, simrun, kind)
    if ok is None:
        return case, best, tried, None  # the seeded form replays; explicit decisions are only a convenience
    best = ok
    cur = flat
    n = 2
    while cur and time.time() < end:
        size = max(1, len(cur) // n)
        hit = False
        i = 0
        while i < len(cur) and time.time() < end:
            l = cur[:i] + cur[i + size:]
            tried += 1
            ok = same_kind(mod, with_decisions(l), so, simrun, kind)
            if ok:
                cur, best, hit = l, ok, True
            else:
                i += size
        if not hit:
            if size == 1:
                break
            n = min(len(cur), n * 2)
        else:
            n = max(2, n // 2)
    return with_decisions(cur), best, tried, len(cur)


def known(prop):
    """[(pattern, text)] of the findings listed for the property"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) pattern=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
    return a


def rebuild(mod, tier, only=None):
    cfgs = [core.Cfg.parse(c) for c in (only or mod.configs(tier))]
    simrun = core.build_simrun()
    so = core.build(cfgs)
    for h, src, flags in getattr(mod, "HARNESS", []):
        so[h + ("-uni" if "-DSIM_UNIFIED" in flags else "")] = core.build_harness(h, src, flags)
    return so, simrun


def replay(path):
    r = json.load(open(path))
    mod = load(r["property"])
    need = mod.needs(r["case"]["params"]) if hasattr(mod, "needs") else None
    try:
        so, simrun = rebuild(mod, "quick", need)
    except core.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    v, ctx, _ = evaluate(mod, r["case"], so, simrun)
    if v is None:
        print("replay: the property holds in this case")
        return 0
    same = v.kind == r["kind"] and ctx.hashes == r["hashes"]
    print("replay: %s%s" % (v, "" if same else " (differs from the recorded execution)"))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--setup":
        print(core.build_simrun())
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = os.environ.get("VERIF_SEED", "1")
    mod = load(prop)
    t0 = time.time()
    print("check %s tier=%s VERIF_SEED=%s" % (prop, tier, seed), flush=True)
    try:
        so, simrun = rebuild(mod, tier)
    except core.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    t_build = time.time() - t0
    print("built %d configuration(s) in %.1f s" % (len(so), t_build), flush=True)
    ncases = mod.CASES[tier]
    if "--cases" in argv:
        ncases = int(argv[argv.index("--cases") + 1])
    first = int(argv[argv.index("--first") + 1]) if "--first" in argv else 0
    limit = {"quick": 240, "thorough": 1500}[tier]
    if "--limit" in argv:
        limit = float(argv[argv.index("--limit") + 1])
    tsearch = time.time()
    total = {"runs": 0}
    marks, keys, hist = {}, set(), []
    n = trivial = 0
    kn = known(prop)
    kn_hit = {}
    found = None
    errors = []
    regress = os.path.join(core.VERIF, "regress", prop)
    fixed_cases = []
    if os.path.isdir(regress):
        for f in sorted(os.listdir(regress)):
            c = json.load(open(os.path.join(regress, f)))["case"]
            if not hasattr(mod, "needs") or all(x in so for x in mod.needs(c["params"])):
                fixed_cases.append({"params": c["params"]})

    def cases():
        for i, c in enumerate(fixed_cases):
            yield -1 - i, c
        for i in range(first, first + ncases):
            if time.time() - tsearch > limit:
                return
            yield i, make_case(mod, seed, tier, i)

    ctxm = mp.get_context("fork")
    all_cases = {}

    def feed():
        for i, c in cases():
            all_cases[i] = c
            yield i, c

    with ctxm.Pool(core.NPROC, _init, (prop, so, simrun)) as pool:
        it = pool.imap(_job, throttled(feed(), core.NPROC * 4), chunksize=1)
        for r in it:
            _release()
            if "error" in r:
                errors.append((r["idx"], r["error"]))
                if len(errors) > 3:
                    break
                continue
            case = all_cases.pop(r["idx"])
            n += 1
            trivial += bool(r["trivial"])
            merge(total, r["stats"])
            merge(marks, r["marks"])
            if not r["trivial"]:
                keys.update(r["keys"])
            hist.append((r["idx"], r["hashes"]))
            if r["v"]:
                pat = next((t for p, t in kn if p.search("%s: %s" % r["v"])), None)
                if pat:
                    kn_hit[pat] = kn_hit.get(pat, 0) + 1
                    continue
                if time.time() - tsearch > limit + 300:
                    pass
                found = (r["idx"], case, r["v"], r["hashes"])
                break
        _stop()
        pool.terminate()
    t_search = time.time() - tsearch
    for p, t in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    violations = 0
    rc = 0
    if errors:
        print("ERROR: %d case(s) could not be evaluated; first: case %s\n%s" % (len(errors), errors[0][0], errors[0][1]))
        if not found:
            rc = 2
    det = None
    if found:
        idx, case, (kind, msg), hashes = found
        print("case %d: %s: %s" % (idx, kind, msg[:1500]), flush=True)
        # gate: the same seed twice gives the same execution and the same violation
        r = same_kind(mod, case, so, simrun, kind)
        if r is None or r[1].hashes != hashes:
            print("ERROR: case %d is not reproducible" % idx)
            rc = 2
        else:
            small, best, tried, ndec = minimise(mod, case, so, simrun, kind, float(os.environ.get("VERIF_SHRINK", "60" if tier == "quick" else "300")))
            d = os.path.join(core.VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (prop, seed, idx))
            json.dump({"property": prop, "kind": kind, "message": best[0].msg[:4000], "seed": seed, "case_index": idx, "case": small, "hashes": best[1].hashes, "schedule_decisions": ndec, "runs_to_minimise": tried, "faults": {k: v for k, v in best[1].stats["fired"].items()}}, open(path, "w"), indent=1)
            print("minimised in %d evaluations: %s" % (tried, str(best[0])[:1500]))
            # gate: a fresh process reproduces it from the file
            q = subprocess.run([sys.executable, os.path.join(core.VERIF, "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode != 1 or "differs from the recorded" in q.stdout:
                print("ERROR: the replay file does not reproduce the violation:\n" + q.stdout[-2000:])
                rc = 2
            else:
                violations = 1
                rc = 1
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    elif not rc:
        # determinism: a sample of the cases again, in another process
        det = determinism(mod, prop, seed, tier, so, simrun, hist)
        if det is None:
            rc = 2
    wall = time.time() - t0
    missing = [m for m in getattr(mod, "MUST", []) if not marks.get(m)] if not found else []
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(seed) if str(seed).isdigit() else 0,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": total.get("runs", 0),
            "distinct_nontrivial": len(keys),
            "rule": "an evaluation is one simulated execution of the real program (all its processes) under one seed; distinct executions are counted by the hash of their event sequence (process interleaving, messages, I/O, faults); executions of cases found trivial are not counted as distinct",
            "samples": [{"case": i, "hashes": h[:4]} for i, h in hist[:3]] or [{"case": 0, "hashes": []}],
            "cases": n,
            "trivial_cases": trivial,
            "runs_per_hour": int(3600 * total.get("runs", 0) / max(t_search, 1e-3)),
            "seeds_per_hour": int(3600 * n / max(t_search, 1e-3)),
            "simulated_time_s": total.get("simtime_ns", 0) / 1e9,
            "events": total.get("events", 0),
            "kernels": total.get("kernels", 0),
            "messages": total.get("messages", 0),
            "collectives": total.get("collectives", 0),
            "io_operations": total.get("io_ops", 0),
            "context_switches": total.get("switches", 0),
            "run_ends": total.get("ends", {}),
            "faults_fired": total.get("fired", {}),
            "conditions_reached": marks,
            "conditions_not_reached": missing,
            "configurations": sorted(so),
            "determinism_sample": det,
            "build_s": round(t_build, 1),
            "real_components": "all of /repo/src (main program, mesh, boundaries, solver, gravity, EOS, output, restart) and vendored inih, compiled from the working tree",
            "stub_components": "MPI, Kokkos, HDF5, PDI+decl_hdf5, paraconf, file system, clocks: deterministic in-process models; problem setup functions unless a shipped setup is named",
        },
        "assumptions": ["the models of MPI, Kokkos, HDF5, PDI and the file system in /verif/sim behave as the documented interfaces allow", "a clean batch of seeds is evidence, not proof"] + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d cases (%d trivial), %d runs, %d distinct executions, %.1f s" % (prop, n, trivial, total.get("runs", 0), len(keys), wall))
    print("  ends %s faults %s" % (total.get("ends", {}), total.get("fired", {})))
    print("  reached %s" % marks)
    if missing:
        print("  NOT reached: %s" % missing)
    return rc


# imap reads its input eagerly: a semaphore bounds what is generated ahead, so the time limit takes effect
import threading
_SEM = None
_STOP = False


def throttled(it, ahead):
    global _SEM, _STOP
    _SEM = threading.Semaphore(ahead)
    _STOP = False
    for x in it:
        _SEM.acquire()
        if _STOP:
            return
        yield x


def _stop():
    # the thread that feeds the pool may be waiting in throttled(): terminating the pool would wait for it for ever
    global _STOP
    _STOP = True
    for _ in range(1000):
        _SEM.release()


def _release():
    _SEM.release()


def determinism(mod, prop, seed, tier, so, simrun, hist):
    """re-evaluates a sample in fresh interpreters with another hash seed; returns the sample size, None on divergence"""
    sample = [h for h in hist if h[0] >= 0][:: max(1, len(hist) // 16)][:16]
    if not sample:
        return 0
    code = (
        "import sys,json;sys.path.insert(0,%r);from simlib import driver;a=json.loads(sys.argv[1]);mod=driver.load(a['p']);"
        "print(json.dumps([driver.evaluate(mod,driver.make_case(mod,a['s'],a['t'],i),a['so'],a['sr'])[1].hashes for i in a['i']]))" % core.VERIF
    )
    procs = []
    for k in range(4):
        part = sample[k::4]
        if part:
            env = dict(os.environ, PYTHONHASHSEED=str(k + 11))
            a = json.dumps({"p": prop, "s": seed, "t": tier, "so": so, "sr": simrun, "i": [h[0] for h in part]})
            procs.append((part, subprocess.Popen([sys.executable, "-c", code, a], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for part, p in procs:
        o, e = p.communicate()
        try:
            got = json.loads(o.strip().splitlines()[-1])
        except Exception:
            print("ERROR: determinism sample failed: %s" % e[-1500:])
            return None
        for (i, h), g in zip(part, got):
            if h != g:
                print("ERROR: case %d is not deterministic: %s / %s" % (i, h, g))
                return None
    return len(sample)
