"""Building the simulator and the code under test, running one simulated execution, reading its outputs."""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
CORE_SRC = ["sched.cpp", "mpi.cpp", "fs.cpp", "pdi.cpp"]
TYPES = {"int": np.int32, "double": np.float64}
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class BuildError(Exception):
    pass


def _sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _hash_tree(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _walk(d, exts):
    out = []
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in files:
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(base, f))
    return out


def _prune(d, keep):
    """keeps only the most recent build directories"""
    try:
        ents = [os.path.join(d, e) for e in os.listdir(d)]
    except FileNotFoundError:
        return
    ents = sorted((e for e in ents if os.path.isdir(e)), key=os.path.getmtime, reverse=True)
    for e in ents[keep:]:
        if e.startswith(BUILD + "/"):
            shutil.rmtree(e, ignore_errors=True)


def build_simrun():
    srcs = [os.path.join(VERIF, "sim/core", s) for s in CORE_SRC]
    deps = _walk(os.path.join(VERIF, "sim/core"), {".cpp", ".hpp"}) + _walk(os.path.join(VERIF, "sim/include"), {".h", ".hpp"})
    key = _hash_tree(deps, "simrun-1")
    out = os.path.join(BUILD, "core", key, "simrun")
    if os.path.exists(out):
        return out
    d = os.path.dirname(out)
    os.makedirs(d, exist_ok=True)
    objs = []

    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        _sh(["g++", "-std=c++20", "-O2", "-g", "-fno-builtin", "-c", s, "-o", o])
        return o

    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, srcs))
    _sh(["g++", "-o", out + ".tmp"] + objs + ["-rdynamic", "-ldl"])
    os.rename(out + ".tmp", out)
    _prune(os.path.join(BUILD, "core"), 3)
    return out


GEN = {"eos.hpp.in": "eos.hpp", "geom.hpp.in": "geom.hpp", "ndim.hpp.in": "ndim.hpp", "git_version.cpp.in": "git_version.cpp"}
STAMP = {"GIT_BUILD_STRING": "sim-build-string-0123456789abcdef", "GIT_BRANCH": "sim-branch", "DATE_STRING": "2024-02-29", "TIME_STRING": "12:34:56"}


class Cfg:
    """One compile-time configuration of the code under test."""

    def __init__(self, ndim=1, eos="PerfectGas", geom="Cartesian", grav="Uniform", setup="sim", unified=False):
        self.ndim, self.eos, self.geom, self.grav, self.setup, self.unified = int(ndim), eos, geom, grav, setup, bool(unified)

    def name(self):
        return "%dd-%s-%s-%s-%s%s" % (self.ndim, "pg" if self.eos == "PerfectGas" else "rad", self.geom[:4].lower(), self.grav, self.setup, "-uni" if self.unified else "")

    def shared(self):
        return "%dd-%s-%s%s" % (self.ndim, "pg" if self.eos == "PerfectGas" else "rad", self.geom[:4].lower(), "-uni" if self.unified else "")

    @staticmethod
    def parse(s):
        p = s.split("-")
        return Cfg(int(p[0][0]), "PerfectGas" if p[1] == "pg" else "Gas+Radiation", "Cartesian" if p[2] == "cart" else "Spherical", p[3], p[4], len(p) > 5 and p[5] == "uni")


def _sources():
    src = os.path.join(REPO, "src")
    out = []
    for base, dirs, files in os.walk(src):
        dirs.sort()
        if os.path.relpath(base, src).split(os.sep)[0] == "setups":
            dirs[:] = []
            continue
        out += [os.path.join(base, f) for f in sorted(files) if f.endswith(".cpp")]
    inih = os.path.join(REPO, "vendor/inih/src")
    out += [os.path.join(inih, f) for f in sorted(os.listdir(inih)) if f.endswith((".c", ".cpp"))]
    return out


def repo_hash():
    deps = _walk(os.path.join(REPO, "src"), {".cpp", ".hpp", ".h", ".in", ".c"}) + _walk(os.path.join(REPO, "vendor/inih"), {".c", ".cpp", ".h", ".hpp"})
    deps += _walk(os.path.join(VERIF, "sim/include"), {".h", ".hpp"}) + _walk(os.path.join(VERIF, "sim/setup"), {".hpp", ".cpp"})
    return _hash_tree(deps, "repo-2")


def _common_flags(gen, cfg):
    src = os.path.join(REPO, "src")
    inc = ["-I" + os.path.join(VERIF, "sim/include"), "-I" + gen, "-I" + os.path.join(REPO, "vendor/inih/include"), "-I" + src]
    for base, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(base, src)
        if rel == "." or rel.split(os.sep)[0] == "setups":
            if rel != ".":
                dirs[:] = []
            continue
        inc.append("-I" + base)
    fl = ["-O1", "-fPIC", "-ffp-contract=off", "-w"]
    if cfg.unified:
        fl.append("-DSIM_UNIFIED")
    return fl, inc


def build(cfgs):
    """Builds the shared object of every configuration from the current working tree; returns {name: path}."""
    key = repo_hash()
    root = os.path.join(BUILD, "so", key)
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    _prune(os.path.join(BUILD, "so"), 3)
    todo = {c.name(): c for c in cfgs if not os.path.exists(os.path.join(root, c.name() + ".so"))}
    srcs = _sources()
    mains = [s for s in srcs if os.path.basename(s) == "main.cpp" and os.path.dirname(s) == os.path.join(REPO, "src")]
    rest = [s for s in srcs if s not in mains]
    # a source other than main.cpp may come to depend on the gravity or the setup: those are then compiled per configuration
    special = set()
    for s in rest:
        t = open(s, errors="replace").read()
        if "HERACLESPP_GRAVITY" in t or "MY_SETUP" in t or "setup.hpp" in t.replace("_setup.hpp", ""):
            special.add(s)
    jobs = []
    links = {}
    seen = set()
    for c in todo.values():
        sh = os.path.join(root, c.shared())
        own = os.path.join(root, c.name())
        gen = os.path.join(sh, "gen")
        for d in (sh, own, gen):
            os.makedirs(d, exist_ok=True)
        if sh not in seen:
            seen.add(sh)
            for i, o in GEN.items():
                t = open(os.path.join(REPO, "src/utils", i)).read()
                for k, v in dict(STAMP, Heraclespp_EOS=c.eos, Heraclespp_GEOM=c.geom, Heraclespp_NDIM=str(c.ndim)).items():
                    t = t.replace("@%s@" % k, v)
                p = os.path.join(gen, o)
                if not os.path.exists(p) or open(p).read() != t:
                    open(p, "w").write(t)
        fl, inc = _common_flags(gen, c)
        setup = os.path.join(VERIF, "sim/setup") if c.setup == "sim" else os.path.join(REPO, "src/setups", c.setup)
        objs = []
        for s in [os.path.join(gen, "git_version.cpp")] + rest + mains:
            per = s in mains or s in special
            o = os.path.join(own if per else sh, os.path.relpath(s, "/").replace("/", "_") + ".o")
            objs.append(o)
            if (o in seen) or os.path.exists(o):
                continue
            seen.add(o)
            cmd = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++20", "-fno-gnu-unique"]
            cmd += fl
            if per:
                cmd += ["-DMY_SETUP=\"%s\"" % c.setup, "-DHERACLESPP_GRAVITY_" + c.grav, "-I" + setup]
            if s in mains:
                cmd += ["-Dmain=heracles_main", "-include", os.path.join(VERIF, "sim/include/sim_entry.h")]
            jobs.append((s in mains, cmd + inc + ["-c", s, "-o", o]))
        links[c.name()] = objs
    jobs.sort(key=lambda j: not j[0])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: _sh(j[1]), jobs))

        def link(n):
            out = os.path.join(root, n + ".so")
            _sh(["g++", "-shared", "-o", out + ".tmp%d" % os.getpid()] + links[n] + ["-Wl,-Bsymbolic", "-Wl,--unresolved-symbols=ignore-all"])
            os.rename(out + ".tmp%d" % os.getpid(), out)

        list(ex.map(link, links))
    return {c.name(): os.path.join(root, c.name() + ".so") for c in cfgs}


def build_harness(name, extra_src=(), flags=()):
    """Builds /verif/sim/harness/<name>.cpp together with the sources of /repo it names, as an entry for the simulator."""
    key = _hash_tree(_walk(os.path.join(VERIF, "sim/harness"), {".cpp", ".hpp"}), repo_hash())
    root = os.path.join(BUILD, "harness", key)
    os.makedirs(root, exist_ok=True)
    _prune(os.path.join(BUILD, "harness"), 3)
    if "-DSIM_UNIFIED" in flags:
        src_name, name = name, name + "-uni"
    else:
        src_name = name
    out = os.path.join(root, name + ".so")
    if os.path.exists(out):
        return out
    c = Cfg(3)
    gen = os.path.join(root, "gen")
    os.makedirs(gen, exist_ok=True)
    for i, o in GEN.items():
        t = open(os.path.join(REPO, "src/utils", i)).read()
        for k, v in dict(STAMP, Heraclespp_EOS=c.eos, Heraclespp_GEOM=c.geom, Heraclespp_NDIM=str(c.ndim)).items():
            t = t.replace("@%s@" % k, v)
        open(os.path.join(gen, o), "w").write(t)
    fl, inc = _common_flags(gen, c)
    objs, jobs = [], []
    for s in [os.path.join(VERIF, "sim/harness", src_name + ".cpp")] + [os.path.join(REPO, e) for e in extra_src]:
        o = os.path.join(root, name + "_" + os.path.basename(s) + ".o")
        cmd = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++20", "-fno-gnu-unique"]
        jobs.append(cmd + fl + list(flags) + inc + ["-c", s, "-o", o])
        objs.append(o)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_sh, jobs))
    _sh(["g++", "-shared", "-o", out + ".tmp"] + objs + ["-Wl,-Bsymbolic", "-Wl,--unresolved-symbols=ignore-all"])
    os.rename(out + ".tmp", out)
    return out


# ---------------------------------------------------------------------------------------------------------------- running

def esc(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = repr(v)
    b = v if isinstance(v, bytes) else str(v).encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 32 <= c < 127 and c != 37 else "%%%02x" % c for c in b)


def scn_text(scn):
    return "".join("%s=%s\n" % (k, esc(v)) for k, v in scn.items())


class Phase:
    def __init__(self, j, disk, probes):
        self.__dict__.update(j)
        self.disk = disk
        self.probes = probes
        self.j = j

    def out(self, r=None):
        return "".join(k["out"] for k in self.ranks) if r is None else self.ranks[r]["out"]

    def err(self, r=None):
        return "".join(k["err"] for k in self.ranks) if r is None else self.ranks[r]["err"]


class H5:
    def __init__(self):
        self.d, self.attrs, self.types, self.torn = {}, {}, {}, False


def read_disk(p):
    b = open(p, "rb").read()
    pos = 0

    def u64():
        nonlocal pos
        v = struct.unpack_from("<Q", b, pos)[0]
        pos += 8
        return v

    def s():
        nonlocal pos
        n = u64()
        v = b[pos:pos + n]
        pos += n
        return v

    out = {}
    for _ in range(u64()):
        path = s().decode("utf-8", "replace")
        t = u64()
        if t == 0:
            out[path] = s()
        elif t == 1:
            s()
            out[path] = None
        else:
            h = H5()
            h.torn = t == 3
            for _ in range(u64()):
                nm = s().decode()
                typ = s().decode()
                nd = u64()
                dims = [u64() for _ in range(nd)]
                raw = s()
                h.types[nm] = typ
                h.d[nm] = np.frombuffer(raw, dtype=TYPES[typ]).reshape(dims) if typ in TYPES else raw
            for _ in range(u64()):
                nm = s().decode()
                h.attrs[nm] = s()
            out[path] = h
    return out


def read_probe(p):
    out = []
    if not os.path.exists(p):
        return out
    b = open(p, "rb").read()
    pos = 0
    while pos < len(b):
        n = struct.unpack_from("<I", b, pos)[0]
        nm = b[pos + 4:pos + 4 + n].decode()
        pos += 4 + n
        r, ev, m = struct.unpack_from("<iqQ", b, pos)
        pos += 20
        out.append((nm, r, ev, np.frombuffer(b, dtype=np.float64, count=m, offset=pos)))
        pos += 8 * m
    return out


class SimError(Exception):
    pass


def simulate(simrun, scn, keep=None, probes=True):
    """Runs one scenario (all its phases); returns the list of phases."""
    d = tempfile.mkdtemp(prefix="hsim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        f = os.path.join(d, "scenario")
        open(f, "w").write(scn_text(scn))
        try:
            p = subprocess.run([simrun, f, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise SimError("simulator process did not end in 600 s")
        phases = []
        for k in range(int(scn.get("nphase", 1))):
            jf = os.path.join(d, "p%d.json" % k)
            if not os.path.exists(jf):
                break
            with open(jf, "rb") as fh:
                j = json.loads(fh.read().decode("utf-8", "replace"))
            df = os.path.join(d, "p%d.disk" % k)
            with open(df, "rb") as fh:
                j["hash"] += "%08x" % zlib.crc32(fh.read())
            phases.append(Phase(j, read_disk(df), read_probe(os.path.join(d, "p%d.probe" % k)) if probes else []))
        if not phases or p.returncode in (97, 98):
            raise SimError("simulator failed (exit %d): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-2000:]))
        return phases
    finally:
        if keep is None:
            shutil.rmtree(d, ignore_errors=True)
        else:
            shutil.move(d, keep)
