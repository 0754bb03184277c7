"""C14: every process reads the same, complete configuration."""
import math, random, re, struct
from .. import core, problem
from ..driver import Violation, Trivial
from ..outputs import completed, outputs, refused, same_file

ID = "C14"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 400000}
HARNESS = [("ini", ("vendor/inih/src/ini.c", "vendor/inih/src/INIReader.cpp"), ())]
QUICK = ["2d-pg-cart-Uniform-sim", "1d-pg-sphe-Internal_mass-sim", "2d-rad-sphe-Point_mass-sim"]
MORE = ["3d-pg-cart-Uniform-sim"]
MUST = ["file read", "short reads", "continuation", "duplicate", "comment", "inline comment", "byte order mark", "crlf", "no final newline", "hexadecimal", "out of range", "not a number", "default", "boolean", "real", "case", "syntax error", "read error", "read error at the end of the file", "read error on another process", "open error", "many reads", "program: same text in another form", "program: defaults spelt out", "program: default end", "program: read error", "empty value"]
ASSUMPTIONS = ["lines of the input file are shorter than the documented limit of 200 bytes and names shorter than 50", "numbers followed by other text are not part of the claim"]


def configs(tier):
    return QUICK if tier == "quick" else QUICK + MORE


def needs(p):
    return [p["cfg"]] if "cfg" in p else []


WS = " \t"
NAMES = ["Nx0_glob", "type", "cfl", "t_end", "prefix", "BC", "BC_X0_left", "restart", "mu", "gamma", "a", "key with space", "x-y.z", "max_iter", "UPPER", "tab\tname"]
SECTIONS = ["Grid", "Run", "Output", "Boundary Condition", "Perfect Gas", "s", "Pressure fix", ""]
VALUES = ["Periodic", "a b  c", "x;y", "p#q", "http://a:b=c", "true", "False", "YES", "no", "on", "OFF", "1", "0", "12", "-7", "+3", "0x1F", "0Xff", "-0x10", "010", "007", "2147483647", "2147483648", "-2147483648", "99999999999", "123456789012345678901234567890", "1.5", "-2e-3", ".25", "1e300", "1e400", "inf", "nan", "0x1p3", "abc", "", "12", "3.14159265358979", "1E+2", "maybe", "-", "0x", "e", "two words = here", "[not a section]"]


def gen(rng, tier, idx):
    if idx % 10 == 0:
        return gen_program(rng, tier, idx)
    lines = []
    for _ in range(rng.choice([0, 1, 5, 12, 30])):
        r = rng.random()
        if r < 0.2:
            lines.append(["sec", case(rng, rng.choice(SECTIONS)), rng.choice(["", " ", "  ", "\t"]), rng.choice(["", "", " ; about", " trailing"])])
        elif r < 0.7:
            v = rng.choice(VALUES)
            lines.append(["kv", case(rng, rng.choice(NAMES)), rng.choice(["=", ":", " = ", "\t:\t", " =", "= "]), v, rng.choice(["", "", "", " ; note", "\t;x", "   "])])
        elif r < 0.8:
            lines.append(["cont", rng.choice(["  ", "\t", " \t "]), rng.choice(["more", "text = here", "12", "[x]", "a:b"])])
        elif r < 0.92:
            lines.append(["com", rng.choice(["", "", "  "]), rng.choice(";#"), rng.choice(["", " a comment", " x = 3", "[Grid]", "=" * 150])])
        else:
            lines.append(["blank", rng.choice(["", " ", "\t "])])
    if rng.random() < 0.15:
        lines.insert(rng.randrange(len(lines) + 1), ["raw", rng.choice(["no assignment here", "[unclosed", "[Grid ; x", "lonely"])])
        if rng.random() < 0.3:
            lines.insert(rng.randrange(len(lines) + 1), ["raw", "another wrong line"])
    pad = rng.choice([0, 0, 0, 80])
    p = {"lines": lines, "eol": rng.choice(["\n", "\n", "\r\n"]), "final": rng.random() < 0.8, "bom": rng.random() < 0.15, "pad": pad, "ranks": rng.choice([1, 1, 2, 3]), "short": rng.choice([0, 0, 0.3, 1.0]), "knobs": problem.knobs(rng, race=False), "qseed": rng.randrange(1 << 30), "fault": None}
    if rng.random() < 0.3:
        p["fault"] = [rng.choice(["read", "read", "read", "fopen"]), rng.random(), rng.random()]
    return p


def case(rng, s):
    return rng.choice([s, s, s.upper(), s.lower(), s.swapcase()])


def text(p):
    out = []
    for l in p["lines"]:
        k = l[0]
        if k == "sec":
            t = "[%s]%s" % (l[1], l[3])
        elif k == "kv":
            t = l[1] + l[2] + l[3] + l[4]
        elif k == "cont":
            t = l[1] + l[2]
        elif k == "com":
            t = l[1] + l[2] + l[3]
        else:
            t = l[1]
        out.append(t)
    out += ["; " + "padding " * 20] * p["pad"]
    s = p["eol"].join(out)
    if p["final"] and out:
        s += p["eol"]
    return (b"\xef\xbb\xbf" if p["bom"] else b"") + s.encode("latin-1")


C_SPACE = " \t\n\v\f\r"


def parse(b):
    """(values, first wrong line or 0), from the documented form of the file"""
    s = b.decode("latin-1")
    vals, err, sec, prev = {}, 0, "", ""
    lines = s.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for n, raw in enumerate(lines, 1):
        l = raw
        if n == 1 and l.startswith("\xef\xbb\xbf"):
            l = l[3:]
        t = l.strip(C_SPACE)
        indented = bool(t) and (l[0] in C_SPACE)
        if not t or t[0] in ";#":
            continue

        def add(name, v):
            k = (sec + "=" + name).lower()
            vals[k] = vals[k] + "\n" + v if vals.get(k) else vals.get(k, "") + v

        if prev and indented:
            add(prev, t)
        elif t[0] == "[":
            e = None
            was = False
            for i, c in enumerate(t[1:], 1):
                if c == "]":
                    e = i
                    break
                if was and c == ";":
                    break
                was = c in C_SPACE
            if e is None:
                err = err or n
            else:
                sec, prev = t[1:e], ""
        else:
            e, was = None, False
            for i, c in enumerate(t):
                if c in "=:":
                    e = i
                    break
                if was and c == ";":
                    break
                was = c in C_SPACE
            if e is None:
                err = err or n
                continue
            name, v = t[:e].rstrip(C_SPACE), t[e + 1:]
            cut = re.search("[%s];" % C_SPACE, v)
            if cut:
                v = v[:cut.start() + 1]
            v = v.strip(C_SPACE)
            add(name, v)
            prev = name
    return vals, err


REAL = re.compile(r"^[%s]*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$" % C_SPACE)
LIM = {"i": (-2 ** 31, 2 ** 31 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "L": (-2 ** 63, 2 ** 63 - 1), "u": (0, 2 ** 32 - 1), "U": (0, 2 ** 64 - 1)}


def typed(kind, v, default, ctx):
    """expected answer: '=...', '!' for an error, None when not part of the claim"""
    if kind == "s":
        return "=" + (default if v is None else v).encode("latin-1").hex()
    if v is None or v == "":
        if v == "":
            ctx.mark("empty value")
        ctx.mark("default")
        return "=" + default
    if kind == "b":
        ctx.mark("boolean")
        w = v.lower()
        return "=1" if w in ("true", "yes", "on", "1") else "=0" if w in ("false", "no", "off", "0") else "!"
    if kind in LIM:
        m = re.match(r"^([+-]?)(0[xX][0-9a-fA-F]+|\d+)$", v)
        if not m:
            if re.match(r"^[a-zA-Z\[]", v) or v in ("-",):
                ctx.mark("not a number")
                return "!"
            return None  # a number followed by something else
        n = int(m.group(2), 16 if m.group(2)[:2].lower() == "0x" else 10)
        if m.group(2)[:2].lower() == "0x":
            ctx.mark("hexadecimal")
        n = -n if m.group(1) == "-" else n
        if kind in "uU" and n < 0:
            return None
        if not LIM[kind][0] <= n <= LIM[kind][1]:
            ctx.mark("out of range")
            return "!"
        return "=%d" % n
    # reals
    if not REAL.match(v):
        if re.match(r"^[b-hj-mo-zB-HJ-MO-Z\[]", v) or v in ("-",):
            return "!"
        return None
    ctx.mark("real")
    x = float(v)
    if math.isinf(x) or (x != 0 and abs(x) < 2.3e-308) or (kind == "f" and x != 0 and not 1.2e-38 < abs(x) < 3.4e38):
        return "!" if math.isinf(x) or abs(x) > 1 else None
    return x


def queries(p, vals):
    rng = random.Random(p["qseed"])
    keys = sorted(vals)
    q = []
    for k in keys:
        sec, _, name = k.partition("=")
        for kind in ["s", rng.choice("ilLuUdfb"), rng.choice("idb")]:
            q.append((kind, case(rng, sec), case(rng, name)))
    for _ in range(4):
        q.append((rng.choice("silLuUdfb"), rng.choice(SECTIONS), rng.choice(NAMES) + rng.choice(["", "_none"])))
    rng.shuffle(q)
    out = []
    for kind, sec, name in q[:40]:
        d = {"s": "dflt", "b": "1", "d": "2.5", "f": "0.5"}.get(kind, "41")
        out.append((kind, sec, name, d))
    return out


def check(p, ctx):
    if "cfg" in p:
        return check_program(p, ctx)
    b = text(p)
    vals, err = parse(b)
    q = [x for x in queries(p, vals) if "\t" not in x[1] and "\t" not in x[2]]
    s = {"nranks": p["ranks"], "entry": "harness_main", "args": "harness\x1f/sim/x.ini" + "".join("\x1f" + "\t".join(x) for x in q), "file:/sim/x.ini": b, "p_short_read": p["short"]}
    s.update(p["knobs"])
    fault = None
    if p["fault"]:
        site, a, c = p["fault"]
        r = int(c * p["ranks"])
        # how many reads there are is seen in an undisturbed run
        base = ctx.run1("undisturbed", s, so=ctx.so["ini"])
        n = base.ranks[r]["counters"].get(site, 0)
        if not n:
            raise Violation("unread", "process %d never called %s" % (r, site))
        nth = int(a * n) if a < 0.7 else n - 1
        fault = (site, r, nth, n)
        s["p0.fault.0"] = "%s %d %d %s" % (site, r, nth, "EIO" if site == "read" else "fail")
    ph = ctx.run1("read", s, so=ctx.so["ini"])
    if ph.end != "completed":
        raise Violation("harness-failed", "%s %s %s" % (ph.end, ph.kind, ph.msg))
    for r in range(p["ranks"]):
        o, rc = ph.out(r), ph.ranks[r]["exit"]
        if fault and fault[1] == r and any(x.startswith("fault " + fault[0]) for x in ph.notes):
            if rc == 0 or not o.startswith("error: "):
                raise Violation("error-ignored", "%s call %d of %d of process %d failed, but the file was taken as read (%d bytes)" % (fault[0], fault[2], fault[3], r, len(b)))
            ctx.mark("open error" if fault[0] == "fopen" else "read error")
            if fault[0] == "read" and fault[2] == fault[3] - 1:
                ctx.mark("read error at the end of the file")
            if r > 0:
                ctx.mark("read error on another process")
            continue
        if err:
            if rc == 0 or not o.startswith("error: ") or not re.search(r"\b%d\b" % err, o):
                raise Violation("syntax", "line %d is wrong, but process %d answered %r" % (err, r, o[:200]))
            ctx.mark("syntax error")
            continue
        if rc != 0:
            raise Violation("refused", "process %d refused a correct file: %s" % (r, o[:300]))
        l = o.split("\n")[:-1]
        if len(l) != len(q):
            raise Violation("answers", "process %d gave %d answers to %d queries" % (r, len(l), len(q)))
        for (kind, sec, name, d), got in zip(q, l):
            want = typed(kind, vals.get((sec + "=" + name).lower()), d, ctx)
            if want is None:
                continue
            if isinstance(want, float):
                x = float(got[1:]) if got.startswith("=") and got[1:] else None
                y = struct.unpack("f", struct.pack("f", want))[0] if kind == "f" else want
                ok = x is not None and (x == y or abs(x - y) <= 1e-15 * abs(y))
            else:
                ok = got == want
            if not ok:
                raise Violation("value", "process %d: type %s of [%s] %s is %r instead of %r" % (r, kind, sec, name, got, want))
        ctx.mark("file read")
        for k in p["lines"]:
            ctx.mark({"cont": "continuation", "com": "comment"}.get(k[0], "line"))
            if k[0] == "kv" and ";" in k[4]:
                ctx.mark("inline comment")
        if any("\n" in v for v in vals.values()):
            ctx.mark("duplicate")
        if p["bom"]:
            ctx.mark("byte order mark")
        if p["eol"] != "\n":
            ctx.mark("crlf")
        if not p["final"]:
            ctx.mark("no final newline")
        if p["short"]:
            ctx.mark("short reads")
        if p["pad"]:
            ctx.mark("many reads")
        ctx.mark("case")


# ------------------------------------------------------------------------------------------------------ whole program

DEFAULTS = {
    ("Grid", "Nghost"): "2", ("Grid", "type"): "Regular", ("Grid", "x0min"): "0.0", ("Grid", "x0max"): "1.0", ("Grid", "x1min"): "0", ("Grid", "x1max"): "1", ("Grid", "x2min"): "0.0", ("Grid", "x2max"): "1e0",
    ("Grid", "shift_grid"): "Off", ("Problem", "restart"): "no", ("Problem", "rmax_shift"): "1e20", ("Run", "t_ini"): "0.", ("Run", "t_end"): "0.2", ("Run", "cfl"): "0.4", ("Output", "max_iter"): "10000",
    ("Output", "iter_frequency"): "0", ("Output", "time_frequency"): "0.0", ("Output", "time_job"): "20", ("Hydro", "reconstruction"): "VanLeer", ("Hydro", "riemann_solver"): "HLL", ("Gravity", "gx0"): "0", ("Gravity", "gx1"): "0.", ("Gravity", "gx2"): "0.0",
    ("Output", "directory"): ".", ("Output", "prefix"): "result", ("Perfect Gas", "gamma"): repr(5. / 3),
    ("Gravity", "M"): "1", ("Perfect Gas", "mu"): "1.0", ("Passive Scalar", "nfx"): "0", ("User step", "user_step"): "Off", ("Pressure fix", "pressure_fix"): "Off", ("Pressure fix", "eps_pf"): "1e-6", ("Parallelization", "mpi_device_aware"): "off",
}
INTS = {"Nx0_glob", "Nx1_glob", "Nx2_glob", "Nghost", "max_iter", "nfx", "mpi_dims_cart_x0", "mpi_dims_cart_x1", "mpi_dims_cart_x2", "iter_frequency"}


def gen_program(rng, tier, idx):
    cfgs = configs(tier)
    p = problem.gen(rng, rng.choice(cfgs), maxranks=rng.choice([1, 2, 4]), steps=rng.choice([1, 2]), small=True)
    p["mode"] = rng.choice(["form", "defaults", "defaults", "read"])
    p["fseed"] = rng.randrange(1 << 30)
    p["fault"] = [rng.random(), rng.random()]
    p["short"] = rng.choice([0, 0.5, 1.0])
    if p["mode"] == "defaults":
        # some settings are left to their defaults
        for (s, k) in DEFAULTS:
            if rng.random() < 0.5 and k in p["ini"].get(s, {}) and k not in ("max_iter", "iter_frequency", "nfx", "x0min", "x0max", "x1min", "x1max", "x2min", "x2max", "t_end"):
                p["ini"][s].pop(k)
        g = p["ini"]["Grid"]
        if int(g.get("Nghost", 2)) != 2:
            g["Nghost"] = 2
        if "-cart-Uniform" in p["cfg"]:
            for d in range(int(p["cfg"][0])):
                lo, hi = rng.choice([(None, None), (None, 0.7), (None, 2.5), (-0.5, None), (0.3, None), (-1.0, 2.0)])
                for k, v in (("min", lo), ("max", hi)):
                    g.pop("x%d%s" % (d, k), None)
                    if v is not None:
                        g["x%d%s" % (d, k)] = v
            if rng.random() < 0.4:
                # slow enough for the end to come after some steps
                p["ini"]["Run"].pop("t_end")
                p["ini"]["Run"]["t_ini"] = rng.choice([0.0, 0.1, -0.3])
                p["ini"]["Output"]["max_iter"] = 40
                dx = 1.0 / max(int(g["Nx%d_glob" % d]) for d in range(3))
                problem.units(p["ini"], p["u"], dx / (0.2 / rng.choice([1, 3, 6])) / (p["u"]["P0"] / p["u"]["rho0"]) ** 0.5)
            if rng.random() < 0.3:
                p["ini"]["Output"]["time_frequency"] = rng.choice([0.01, 0.05])
        p["knobs"]["race"] = 0
    return p


def form(ini, rng):
    """the same settings written differently"""
    out = ["# another form"] if rng.random() < 0.5 else []
    secs = list(ini)
    rng.shuffle(secs)
    for s in secs:
        kv = list(ini[s].items())
        if not kv:
            continue
        rng.shuffle(kv)
        parts = [kv] if len(kv) < 2 or rng.random() < 0.7 else [kv[: len(kv) // 2], kv[len(kv) // 2:]]
        for part in parts:
            out.append("[%s]%s" % (case(rng, s), rng.choice(["", " ; section"])))
            for k, v in part:
                if isinstance(v, bool):
                    v = rng.choice(["true", "Yes", "ON", "1"]) if v else rng.choice(["false", "no", "Off", "0"])
                elif isinstance(v, float):
                    v = repr(v)
                elif isinstance(v, int) and k in INTS and rng.random() < 0.4:
                    v = hex(v) if v >= 0 else str(v)
                if rng.random() < 0.2:
                    out.append(rng.choice(["", "; comment = 1", "# [Grid]", "   # x"]))
                out.append("%s%s%s%s" % (case(rng, k), rng.choice(["=", " = ", ":", "\t=\t"]), v, rng.choice(["", "", " ; why", "  "])))
    e = rng.choice(["\n", "\r\n"])
    return e.join(out) + rng.choice(["", e])


def check_program(p, ctx):
    rng = random.Random(p["fseed"])
    s = problem.scn(p)
    s["p_short_read"] = 0
    base = ctx.run1("plain", s, p["cfg"])
    completed(base, "failed", "plain run")
    t = dict(s)
    t["p_short_read"] = p["short"]
    if p["mode"] == "read":
        t["file:/sim/x.ini"] = s["file:/sim/x.ini"] + ("; " + "padding " * 20 + "\n") * rng.choice([0, 60])
        r = int(p["fault"][0] * p["ranks"])
        whole = ctx.run1("padded", t, p["cfg"])
        same(whole, base, "the same settings followed by comments")
        n = whole.ranks[r]["counters"].get("read", 0)
        if not n:
            raise Violation("unread", "process %d never read its input" % r)
        t["p0.fault.0"] = "read %d %d EIO" % (r, int(p["fault"][1] * n))
        ph = ctx.run1("read error", t, p["cfg"])
        what = "read %d of %d of process %d of %d fails" % (int(p["fault"][1] * n), n, r, p["ranks"])
        if not any(x.startswith("fault read") for x in ph.notes):
            raise Trivial()
        refused(ph, "error-ignored", what)
        if outputs(ph):
            raise Violation("error-ignored", "%s, but the run made outputs" % what)
        ctx.mark("program: read error")
        return
    if p["mode"] == "form":
        t["file:/sim/x.ini"] = form(p["ini"], rng)
        what, mark = "the same settings in another form", "program: same text in another form"
    else:
        q = problem.variant(p)
        R, O = q["ini"]["Run"], q["ini"]["Output"]
        if float(O.get("time_frequency", 0)) > 0 and "time_first_output" not in O:
            O["time_first_output"] = float(R.get("t_ini", 0)) + float(O["time_frequency"])
        if "t_end" not in R:
            ctx.mark("program: default end")
        for (sec, k), v in DEFAULTS.items():
            if k not in q["ini"].get(sec, {}):
                q["ini"].setdefault(sec, {})[k] = v
        t["file:/sim/x.ini"] = problem.ini_text(q["ini"])
        what, mark = "the defaults spelt out", "program: defaults spelt out"
    ph = ctx.run1(p["mode"], t, p["cfg"])
    O = p["ini"]["Output"]
    same(ph, base, what, O.get("directory", "/sim/cwd"), O.get("prefix", "result"))
    ctx.mark(mark)
    if p["short"]:
        ctx.mark("short reads")


def same(ph, base, what, directory="/sim/out", prefix="r"):
    completed(ph, "failed", what)
    a, b = outputs(ph, directory, prefix), outputs(base, directory, prefix)
    if not a:
        raise Violation("no-output", "%s: no output %s/%s_*.h5, but %s" % (what, directory, prefix, sorted(ph.disk)))
    if sorted(a) != sorted(b):
        raise Violation("differs", "%s: outputs %s instead of %s" % (what, sorted(a), sorted(b)))
    for i in b:
        for n in b[i].d:
            import numpy as np

            x, y = a[i].d.get(n), b[i].d[n]
            if x is None or x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9 * float(np.nanmax(np.abs(y))) if y.size else 0, equal_nan=True):
                raise Violation("differs", "%s: %s of output %d differs" % (what, n, i))


def shrink(p):
    if "cfg" in p:
        yield from problem.shrink(p)
        if p["short"]:
            yield dict(p, short=0)
        return
    for n in (len(p["lines"]) // 2, 1):
        if n:
            for i in range(0, len(p["lines"]), n):
                yield dict(p, lines=p["lines"][:i] + p["lines"][i + n:])
    for k, v in (("ranks", 1), ("short", 0), ("pad", 0), ("bom", False), ("eol", "\n"), ("final", True)):
        if p[k] != v:
            yield dict(p, **{k: v})
    if p["knobs"] != problem.NATURAL:
        yield dict(p, knobs=dict(problem.NATURAL))
