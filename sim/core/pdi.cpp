// Simulated PDI: executes the configuration the solver passes (YAML) with the decl_hdf5 semantics, over the simulated disk.
#include "core.hpp"
#include "../include/pdi.h"

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <stdexcept>

namespace sim {
namespace {

// ------------------------------------------------------------------ YAML subset
struct Y
{
    enum K { Null, Scalar, Map, Seq } k = Null;
    std::string s;
    std::vector<std::pair<std::string, Y>> m;
    std::vector<Y> q;
    Y const* get(std::string const& key) const
    {
        for (auto const& [a, b] : m) if (a == key) return &b;
        return nullptr;
    }
};
struct ConfigError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Line { int ind; std::string t; int no; };

struct Parser
{
    std::vector<Line> l;
    size_t p = 0;
    static std::string trim(std::string s)
    {
        size_t a = 0, b = s.size();
        while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == '\r')) ++a;
        while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t' || s[b - 1] == '\r')) --b;
        return s.substr(a, b - a);
    }
    explicit Parser(std::string const& doc)
    {
        std::string cur;
        int no = 0;
        auto add = [&] {
            ++no;
            // strip comments outside quotes
            char q = 0;
            std::string s;
            for (size_t i = 0; i < cur.size(); ++i) {
                char const c = cur[i];
                if (q) { if (c == q) q = 0; }
                else if (c == '\'' || c == '"') q = c;
                else if (c == '#' && (i == 0 || cur[i - 1] == ' ' || cur[i - 1] == '\t')) break;
                s.push_back(c);
            }
            std::string const t = trim(s);
            if (!t.empty() && t != "---" && t != "...") {
                int ind = 0;
                while (static_cast<size_t>(ind) < s.size() && s[static_cast<size_t>(ind)] == ' ') ++ind;
                // join flow collections written over several lines
                if (!l.empty() && depth(l.back().t) > 0) l.back().t += " " + t;
                else l.push_back({ind, t, no});
            }
            cur.clear();
        };
        for (char c : doc) {
            if (c == '\n') add(); else cur.push_back(c);
        }
        add();
    }
    static int depth(std::string const& s)
    {
        int d = 0;
        char q = 0;
        bool value = false;
        char prev = ' ';
        for (char c : s) {
            if (q) { if (c == q) q = 0; }
            else if ((c == '\'' || c == '"') && (prev == ' ' || prev == ',' || prev == '[' || prev == '{')) q = c;
            else if ((c == '[' || c == '{') && (prev == ' ' || prev == ',' || prev == '[' || prev == '{' || d > 0)) { ++d; value = true; }
            else if ((c == ']' || c == '}') && d > 0) --d;
            prev = c;
        }
        (void)value;
        return d;
    }
    // position of the ':' that ends a block key, npos if none
    static size_t key_end(std::string const& t)
    {
        char q = 0;
        int d = 0;
        for (size_t i = 0; i < t.size(); ++i) {
            char const c = t[i];
            if (q) { if (c == q) q = 0; }
            else if ((c == '\'' || c == '"') && i == 0) q = c;
            else if (c == '[' || c == '{') ++d;
            else if (c == ']' || c == '}') --d;
            else if (c == ':' && d == 0 && (i + 1 == t.size() || t[i + 1] == ' ')) return i;
        }
        return std::string::npos;
    }
    static std::string unquote(std::string const& s)
    {
        if (s.size() >= 2 && (s[0] == '\'' || s[0] == '"') && s.back() == s[0]) return s.substr(1, s.size() - 2);
        return s;
    }
    static Y scalar(std::string const& t)
    {
        Y y;
        if (t.empty() || t == "~" || t == "null") return y;
        y.k = Y::Scalar;
        y.s = unquote(t);
        return y;
    }
    static Y flow(std::string const& t, size_t& i)
    {
        auto ws = [&] { while (i < t.size() && t[i] == ' ') ++i; };
        ws();
        Y y;
        if (i < t.size() && t[i] == '[') {
            y.k = Y::Seq;
            ++i;
            for (;;) {
                ws();
                if (i >= t.size()) throw ConfigError("unterminated list");
                if (t[i] == ']') { ++i; break; }
                y.q.push_back(flow(t, i));
                ws();
                if (i < t.size() && t[i] == ',') ++i;
            }
            return y;
        }
        if (i < t.size() && t[i] == '{') {
            y.k = Y::Map;
            ++i;
            for (;;) {
                ws();
                if (i >= t.size()) throw ConfigError("unterminated map");
                if (t[i] == '}') { ++i; break; }
                std::string key;
                if (t[i] == '\'' || t[i] == '"') {
                    char const q = t[i++];
                    while (i < t.size() && t[i] != q) key.push_back(t[i++]);
                    ++i;
                    ws();
                } else {
                    while (i < t.size() && t[i] != ':') key.push_back(t[i++]);
                }
                if (i < t.size() && t[i] == ':') ++i;
                y.m.emplace_back(trim(key), flow(t, i));
                ws();
                if (i < t.size() && t[i] == ',') ++i;
            }
            return y;
        }
        std::string s;
        if (i < t.size() && (t[i] == '\'' || t[i] == '"')) {
            char const q = t[i++];
            while (i < t.size() && t[i] != q) s.push_back(t[i++]);
            ++i;
            y.k = Y::Scalar;
            y.s = s;
            return y;
        }
        int d = 0;
        while (i < t.size()) {
            char const c = t[i];
            if (c == '{' || c == '[') ++d;
            if (d == 0 && (c == ',' || c == ']' || c == '}')) break;
            if ((c == '}' || c == ']') && d > 0) --d;
            s.push_back(c);
            ++i;
        }
        return scalar(trim(s));
    }
    static Y value(std::string const& t)
    {
        if (!t.empty() && (t[0] == '[' || t[0] == '{')) {
            size_t i = 0;
            return flow(t, i);
        }
        return scalar(t);
    }
    Y block(int ind)
    {
        Y y;
        if (p >= l.size() || l[p].ind < ind) return y;
        int const my = l[p].ind;
        if (l[p].t[0] == '-' && (l[p].t.size() == 1 || l[p].t[1] == ' ')) {
            y.k = Y::Seq;
            while (p < l.size() && l[p].ind == my && l[p].t[0] == '-' && (l[p].t.size() == 1 || l[p].t[1] == ' ')) {
                std::string rest = trim(l[p].t.substr(1));
                if (rest.empty()) {
                    ++p;
                    y.q.push_back(block(my + 1));
                } else if (key_end(rest) != std::string::npos && rest[0] != '{' && rest[0] != '[') {
                    int const off = static_cast<int>(l[p].t.size() - rest.size());
                    l[p].ind = my + off;
                    l[p].t = rest;
                    y.q.push_back(block(my + off));
                } else {
                    y.q.push_back(value(rest));
                    ++p;
                }
            }
            return y;
        }
        if (key_end(l[p].t) == std::string::npos) {
            y = value(l[p].t);
            ++p;
            return y;
        }
        y.k = Y::Map;
        while (p < l.size() && l[p].ind == my) {
            size_t const e = key_end(l[p].t);
            if (e == std::string::npos) throw ConfigError("line " + std::to_string(l[p].no) + ": key expected");
            std::string const key = unquote(trim(l[p].t.substr(0, e)));
            std::string const rest = trim(l[p].t.substr(e + 1));
            ++p;
            if (!rest.empty()) {
                y.m.emplace_back(key, value(rest));
            } else if (p < l.size() && (l[p].ind > my || (l[p].ind == my && l[p].t[0] == '-' && (l[p].t.size() == 1 || l[p].t[1] == ' ')))) {
                y.m.emplace_back(key, block(l[p].ind));
            } else {
                y.m.emplace_back(key, Y());
            }
        }
        if (p < l.size() && l[p].ind > my) throw ConfigError("line " + std::to_string(l[p].no) + ": unexpected indentation");
        return y;
    }
};

// ------------------------------------------------------------------ data store
struct Ref { void* p; int acc; };
struct Desc
{
    Y type;
    bool metadata = false;
    std::vector<Ref> refs;
    std::string kept; // value kept after reclaim (metadata)
    bool has_kept = false;
};
struct Inst
{
    bool inited = false;
    Y conf;
    std::map<std::string, Desc> data;
};
std::map<int, Inst> insts; // per rank
std::map<void*, Y> trees;
std::string last_err;

[[noreturn]] void pdi_error(std::string const& m)
{
    me().err += "[PDI] error: " + m + "\n";
    finish("abort", "pdi-error", m);
}

void assert_handler(PDI_status_t, char const* m, void*) { pdi_error(m); }
void warn_handler(PDI_status_t, char const* m, void*) { me().err += std::string("[PDI] warning: ") + m + "\n"; }
std::map<int, PDI_errhandler_t> handlers; // per rank; the default handler ends the job

PDI_status_t report(std::string const& m)
{
    last_err = m;
    auto it = handlers.find(W.cur);
    PDI_errhandler_t const h = it == handlers.end() ? PDI_errhandler_t {assert_handler, nullptr} : it->second;
    if (h.func) h.func(PDI_ERR_SYSTEM, last_err.c_str(), h.context);
    return PDI_ERR_SYSTEM;
}

Inst& inst()
{
    Inst& i = insts[W.cur];
    if (!i.inited) pdi_error("PDI is not initialized");
    return i;
}

// ------------------------------------------------------------------ expressions
struct Val
{
    bool str = false;
    long i = 0;
    std::string s;
};
long esize(std::string const& t)
{
    if (t == "int" || t == "MPI_Comm") return 4;
    if (t == "double" || t == "int64" || t == "long") return 8;
    if (t == "float" || t == "int32") return 4;
    if (t == "char" || t == "int8" || t == "bool") return 1;
    throw ConfigError("unknown type " + t);
}
std::string base_type(Y const& t)
{
    if (t.k == Y::Scalar) return t.s;
    Y const* ty = t.get("type");
    if (!ty) throw ConfigError("type without name");
    if (ty->s == "array") {
        Y const* st = t.get("subtype");
        if (!st) throw ConfigError("array without subtype");
        return base_type(*st);
    }
    return ty->s;
}
Val eval(std::string const& e);
long eval_int(Y const& y)
{
    if (y.k != Y::Scalar) throw ConfigError("integer expression expected");
    Val const v = eval(y.s);
    if (v.str) {
        char* end = nullptr;
        long const r = std::strtol(v.s.c_str(), &end, 10);
        if (end == v.s.c_str()) throw ConfigError("integer expression expected: " + y.s);
        return r;
    }
    return v.i;
}
std::vector<long> dims_of(Y const& t)
{
    std::vector<long> d;
    if (t.k != Y::Map) return d;
    Y const* ty = t.get("type");
    if (!ty || ty->s != "array") return d;
    Y const* sz = t.get("size");
    if (!sz) throw ConfigError("array without size");
    if (sz->k == Y::Seq) for (auto const& x : sz->q) d.push_back(eval_int(x));
    else d.push_back(eval_int(*sz));
    return d;
}
long bytes_of(Y const& t)
{
    long n = esize(base_type(t));
    for (long x : dims_of(t)) n *= x;
    return n;
}
char const* cur_ptr(Desc& d, std::string const& name)
{
    if (!d.refs.empty()) return static_cast<char const*>(d.refs.back().p);
    if (d.has_kept) return d.kept.data();
    throw ConfigError("value of \"" + name + "\" is not available");
}
Val ref_val(std::string const& name, bool idx, long ix)
{
    Inst& in = insts[W.cur];
    auto it = in.data.find(name);
    if (it == in.data.end()) throw ConfigError("unknown reference \"" + name + "\"");
    Desc& d = it->second;
    char const* p = cur_ptr(d, name);
    std::string const bt = base_type(d.type);
    auto const dm = dims_of(d.type);
    Val v;
    if (bt == "char" && !idx) {
        v.str = true;
        v.s = std::string(p, static_cast<size_t>(dm.empty() ? 1 : dm[0]));
        size_t const z = v.s.find('\0');
        if (z != std::string::npos) v.s.resize(z);
        return v;
    }
    if (idx) {
        if (dm.empty() || ix < 0 || ix >= dm[0]) throw ConfigError("index out of bounds: " + name);
        p += ix * esize(bt);
    } else if (!dm.empty()) {
        throw ConfigError("array used as a scalar: " + name);
    }
    if (bt == "int" || bt == "MPI_Comm" || bt == "int32") {
        int x;
        std::memcpy(&x, p, 4);
        v.i = x;
    } else if (bt == "double") {
        double x;
        std::memcpy(&x, p, 8);
        v.i = static_cast<long>(x);
    } else if (bt == "long" || bt == "int64") {
        std::memcpy(&v.i, p, 8);
    } else {
        throw ConfigError("unsupported reference type " + bt);
    }
    return v;
}
struct Ex
{
    std::string const& s;
    size_t i = 0;
    void ws() { while (i < s.size() && s[i] == ' ') ++i; }
    bool eat(char const* t)
    {
        ws();
        size_t const n = std::strlen(t);
        if (s.compare(i, n, t) == 0) { i += n; return true; }
        return false;
    }
    Val reference()
    {
        ++i; // $
        bool const br = i < s.size() && s[i] == '{';
        if (br) ++i;
        std::string n;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) n.push_back(s[i++]);
        bool idx = false;
        long ix = 0;
        if (i < s.size() && s[i] == '[') {
            ++i;
            idx = true;
            ix = orx();
            if (!eat("]")) throw ConfigError("] expected in " + s);
        }
        if (br) {
            if (i >= s.size() || s[i] != '}') throw ConfigError("} expected in " + s);
            ++i;
        }
        if (!br && !idx && i < s.size() && s[i] == '[') idx = true;
        if (br && i < s.size() && s[i] == '[' && !idx) {
            ++i;
            idx = true;
            ix = orx();
            if (!eat("]")) throw ConfigError("] expected in " + s);
        }
        return ref_val(n, idx, ix);
    }
    long prim()
    {
        ws();
        if (i >= s.size()) throw ConfigError("unexpected end of " + s);
        if (s[i] == '(') {
            ++i;
            long const v = orx();
            if (!eat(")")) throw ConfigError(") expected in " + s);
            return v;
        }
        if (s[i] == '-') { ++i; return -prim(); }
        if (s[i] == '!') { ++i; return !prim(); }
        if (s[i] == '$') {
            Val const v = reference();
            if (v.str) throw ConfigError("string in an integer expression " + s);
            return v.i;
        }
        if (!std::isdigit(static_cast<unsigned char>(s[i]))) throw ConfigError("bad expression " + s);
        long v = 0;
        while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) v = v * 10 + (s[i++] - '0');
        return v;
    }
    long mul()
    {
        long v = prim();
        for (;;) {
            if (eat("*")) v *= prim();
            else if (eat("/")) { long const d = prim(); if (d == 0) throw ConfigError("division by zero"); v /= d; }
            else if (eat("%")) { long const d = prim(); if (d == 0) throw ConfigError("division by zero"); v %= d; }
            else return v;
        }
    }
    long addx()
    {
        long v = mul();
        for (;;) {
            if (eat("+")) v += mul();
            else if (eat("-")) v -= mul();
            else return v;
        }
    }
    long cmp()
    {
        long v = addx();
        for (;;) {
            if (eat("<=")) v = v <= addx();
            else if (eat(">=")) v = v >= addx();
            else if (eat("!=")) v = v != addx();
            else if (eat("==")) v = v == addx();
            else if (eat("=")) v = v == addx();
            else if (eat("<")) v = v < addx();
            else if (eat(">")) v = v > addx();
            else return v;
        }
    }
    long andx()
    {
        long v = cmp();
        while (eat("&&") || eat("&")) { long const w = cmp(); v = v && w; }
        return v;
    }
    long orx()
    {
        long v = andx();
        while (eat("||") || eat("|")) { long const w = andx(); v = v || w; }
        return v;
    }
};
Val eval(std::string const& e)
{
    // an arithmetic expression, or else a string with references
    if (!e.empty() && (e[0] == '$' || e[0] == '(' || e[0] == '-' || e[0] == '!' || std::isdigit(static_cast<unsigned char>(e[0])))) {
        bool single_string = false;
        try {
            Ex x {e};
            if (e[0] == '$') {
                Val const v = x.reference();
                if (v.str) single_string = true;
                x.i = 0;
            }
            if (!single_string) {
                long const v = x.orx();
                x.ws();
                if (x.i == e.size()) {
                    Val r;
                    r.i = v;
                    return r;
                }
            }
        } catch (ConfigError const&) {
            if (e.find('$') != std::string::npos && e.find_first_of("/.") == std::string::npos) throw;
        }
    }
    Val r;
    r.str = true;
    size_t i = 0;
    while (i < e.size()) {
        if (e[i] == '\\' && i + 1 < e.size()) {
            r.s.push_back(e[i + 1]);
            i += 2;
        } else if (e[i] == '$') {
            Ex x {e};
            x.i = i;
            Val const v = x.reference();
            r.s += v.str ? v.s : std::to_string(v.i);
            i = x.i;
        } else {
            r.s.push_back(e[i++]);
        }
    }
    return r;
}
std::string eval_str(Y const& y)
{
    Val const v = eval(y.s);
    return v.str ? v.s : std::to_string(v.i);
}
bool when_ok(Y const* w)
{
    if (!w) return true;
    return eval_int(*w) != 0;
}
std::vector<long> list_of(Y const& y)
{
    std::vector<long> d;
    if (y.k == Y::Seq) for (auto const& x : y.q) d.push_back(eval_int(x));
    else d.push_back(eval_int(y));
    return d;
}
struct Sel { std::vector<long> start, size; };
Sel selection(Y const* y, std::vector<long> const& dims)
{
    Sel s;
    s.start.assign(dims.size(), 0);
    s.size = dims;
    if (!y) return s;
    if (Y const* z = y->get("size")) s.size = list_of(*z);
    if (Y const* z = y->get("start")) s.start = list_of(*z);
    if (s.size.size() != dims.size() || s.start.size() != dims.size()) throw ConfigError("rank of a selection differs from the rank of the data");
    for (size_t i = 0; i < dims.size(); ++i) {
        if (s.size[i] < 0 || s.start[i] < 0 || s.start[i] + s.size[i] > dims[i]) {
            throw ConfigError("selection outside of the data: start " + std::to_string(s.start[i]) + " size " + std::to_string(s.size[i]) + " extent " + std::to_string(dims[i]));
        }
    }
    return s;
}
std::vector<long> offsets(std::vector<long> const& dims, Sel const& s)
{
    std::vector<long> o;
    long n = 1;
    for (long x : s.size) n *= x;
    std::vector<long> ix(dims.size(), 0);
    for (long k = 0; k < n; ++k) {
        long off = 0;
        for (size_t d = 0; d < dims.size(); ++d) off = off * dims[d] + s.start[d] + ix[d];
        o.push_back(off);
        for (size_t d = dims.size(); d-- > 0;) {
            if (++ix[d] < s.size[d]) break;
            ix[d] = 0;
        }
    }
    return o;
}

// ------------------------------------------------------------------ decl_hdf5
int group_counter = 0;

void transfer(Y const& spec, std::string const& var, bool write, int comm, H5File& file, Y const* datasets, std::string const& path)
{
    Y const* w = spec.k == Y::Map ? spec.get("when") : nullptr;
    if (!when_ok(w)) return;
    Inst& in = insts[W.cur];
    std::string dname = var;
    if (spec.k == Y::Map) {
        if (Y const* d = spec.get("dataset")) dname = eval_str(*d);
    }
    auto it = in.data.find(var);
    if (it == in.data.end() || (it->second.refs.empty() && !it->second.has_kept)) throw ConfigError("data \"" + var + "\" is not available");
    Desc& d = it->second;
    std::vector<long> const mdims = dims_of(d.type);
    std::string const bt = base_type(d.type);
    long const es = esize(bt);
    Sel const ms = selection(spec.k == Y::Map ? spec.get("memory_selection") : nullptr, mdims);
    auto const mo = offsets(mdims, ms);
    char* mem = nullptr;
    if (!d.refs.empty()) {
        mem = static_cast<char*>(d.refs.back().p);
        int const need = write ? PDI_OUT : PDI_IN;
        if (!(d.refs.back().acc & need)) throw ConfigError("no access right on data \"" + var + "\"");
    } else {
        if (!write) throw ConfigError("data \"" + var + "\" is not shared");
        mem = d.kept.data();
    }
    long total = es;
    for (long x : mdims) total *= x;
    if (!mo.empty()) {
        if (!mem) throw ConfigError("data \"" + var + "\" is null");
        check_buffer(("PDI data " + var).c_str(), mem, static_cast<uint64_t>(total), false);
    }

    seam(write ? "h5dwrite" : "h5dread");
    ++W.io_ops;
    if (Fault* f = fault_at(write ? "h5dwrite" : "h5dread")) {
        (void)f;
        throw ConfigError(std::string(write ? "writing" : "reading") + " dataset " + dname + " failed: I/O error");
    }
    if (write) {
        std::vector<long> ddims;
        std::string dbt = bt;
        Y const* dt = datasets ? datasets->get(dname) : nullptr;
        if (!dt && datasets) {
            // names of explicit datasets may be expressions in newer releases; here they are literal
        }
        if (dt) {
            ddims = dims_of(*dt);
            dbt = base_type(*dt);
        } else {
            ddims = ms.size;
        }
        Y const* dsel = spec.k == Y::Map ? spec.get("dataset_selection") : nullptr;
        if (!dt && dsel) throw ConfigError("dataset selection without an explicit dataset: " + dname);
        Sel const ss = selection(dsel, ddims);
        auto const fo = offsets(ddims, ss);
        if (fo.size() != mo.size()) throw ConfigError("selections of different sizes for " + dname + ": memory " + std::to_string(mo.size()) + ", file " + std::to_string(fo.size()));
        if (comm) {
            std::string sig = "create " + path + " " + dname;
            for (long x : ddims) sig += " " + std::to_string(x);
            comm_sync(comm, sig);
        }
        H5Dataset& ds = file.dsets[dname];
        long n = 1;
        for (long x : ddims) n *= x;
        long const des = esize(dbt);
        std::vector<uint64_t> const udims(ddims.begin(), ddims.end());
        if (ds.dims != udims || ds.type != dbt || static_cast<long>(ds.data.size()) != n * des) {
            if (!ds.data.empty()) throw ConfigError("dataset " + dname + " already exists with another shape");
            ds.dims = udims;
            ds.type = dbt;
            ds.data.assign(static_cast<size_t>(n * des), '\0');
        }
        if (static_cast<long>(ds.writer.size()) != n) ds.writer.assign(static_cast<size_t>(n), '\0');
        if (des != es) throw ConfigError("type conversion is not modelled: " + dname);
        for (size_t k = 0; k < mo.size(); ++k) {
            char& wby = ds.writer[static_cast<size_t>(fo[k])];
            if (wby && wby != static_cast<char>(W.cur + 1)) violation("overlapping-writes", "two processes write the same element of dataset " + dname + " of " + path);
            wby = static_cast<char>(W.cur + 1);
            std::memcpy(ds.data.data() + fo[k] * es, mem + mo[k] * es, static_cast<size_t>(es));
        }
    } else {
        auto f = file.dsets.find(dname);
        if (f == file.dsets.end()) throw ConfigError("dataset " + dname + " not found in " + path);
        H5Dataset& ds = f->second;
        std::vector<long> const ddims(ds.dims.begin(), ds.dims.end());
        Sel const ss = selection(spec.k == Y::Map ? spec.get("dataset_selection") : nullptr, ddims);
        auto const fo = offsets(ddims, ss);
        if (fo.size() != mo.size()) throw ConfigError("selections of different sizes for " + dname + ": memory " + std::to_string(mo.size()) + ", file " + std::to_string(fo.size()));
        if (esize(ds.type) != es) throw ConfigError("type conversion is not modelled: " + dname);
        for (size_t k = 0; k < mo.size(); ++k) std::memcpy(mem + mo[k] * es, ds.data.data() + fo[k] * es, static_cast<size_t>(es));
    }
}

void transfers(Y const& list, bool write, int comm, H5File& f, Y const* datasets, std::string const& path)
{
    auto one = [&](std::string const& var, Y const& spec) {
        if (spec.k == Y::Seq) for (auto const& s : spec.q) transfer(s, var, write, comm, f, datasets, path);
        else transfer(spec, var, write, comm, f, datasets, path);
    };
    if (list.k == Y::Map) for (auto const& [var, spec] : list.m) one(var, spec);
    else if (list.k == Y::Seq) for (auto const& x : list.q) one(x.s, Y());
    else if (list.k == Y::Scalar) one(list.s, Y());
}

void run_file(Y const& item)
{
    if (!when_ok(item.get("when"))) return;
    Y const* fy = item.get("file");
    if (!fy) throw ConfigError("decl_hdf5 entry without file");
    std::string raw = eval_str(*fy);
    std::string const path = norm(raw.empty() || raw[0] != '/' ? "/sim/cwd/" + raw : raw);
    int comm = 0;
    if (Y const* c = item.get("communicator")) comm = static_cast<int>(eval_int(*c));
    Y const* wr = item.get("write");
    Y const* rd = item.get("read");
    std::string pol = "skip_and_warn";
    if (Y const* p = item.get("collision_policy")) pol = p->s;
    Y const* datasets = item.get("datasets");
    if (wr) {
        if (comm) comm_sync(comm, "open-write " + path);
        seam("h5open");
        ++W.io_ops;
        if (fault_at("h5open")) throw ConfigError("cannot open " + path + ": I/O error");
        auto n = find(path);
        int const grp = comm ? comm : -100 - W.cur;
        if (n && (n->readers || (n->writers && n->writer_group != grp))) violation("io-conflict", "an output file is opened while another process uses it: " + path);
        if (n && n->writers) {
            ++n->writers; // joins the collective open
        } else {
            if (!parent_exists(path)) throw ConfigError("cannot create " + path + ": no such directory");
            if (n && n->dir) throw ConfigError("cannot create " + path + ": is a directory");
            bool const usable = n && n->h5 && !n->torn && n->file;
            if (n && pol == "replace") {
                n.reset();
            } else if (n && !usable) {
                throw ConfigError("cannot open " + path + ": not an HDF5 file");
            } else if (n && (pol == "error")) {
                throw ConfigError("file exists: " + path);
            } else if (n && pol == "skip") {
                return;
            }
            if (n) {
                n->inflight = std::make_shared<H5File>(*n->file);
                for (auto& [name, d] : n->inflight->dsets) d.writer.clear();
            } else {
                n = std::make_shared<Node>();
                n->h5 = true;
                n->inflight = std::make_shared<H5File>();
                disk[path] = n;
                journal("create", path);
            }
            n->writers = 1;
            n->writer_group = grp;
        }
        transfers(*wr, true, comm, *n->inflight, datasets, path);
        seam("h5close");
        if (comm) comm_sync(comm, "close " + path);
        if (fault_at("h5close")) throw ConfigError("closing " + path + " failed: I/O error");
        if (--n->writers == 0) {
            n->file = n->inflight;
            n->inflight.reset();
            ++n->commits;
            journal("commit", path);
        }
        // the collective close returns once the file is closed everywhere
        if (comm) comm_sync(comm, "closed " + path);
    }
    if (rd) {
        if (comm) comm_sync(comm, "open-read " + path);
        seam("h5open");
        ++W.io_ops;
        if (fault_at("h5open")) throw ConfigError("cannot open " + path + ": I/O error");
        auto n = find(path);
        if (!n || n->dir || !n->h5 || n->torn || !n->file) throw ConfigError("cannot open " + path);
        if (n->writers) violation("io-conflict", "a file is read while another process writes it: " + path);
        ++n->readers;
        transfers(*rd, false, comm, *n->file, datasets, path);
        --n->readers;
        if (comm) comm_sync(comm, "close " + path);
    }
}

void fire(std::string const& ev)
{
    Inst& in = inst();
    seam("pdi-event");
    fault_at("pdi-event");
    Y const* pl = in.conf.get("plugins");
    if (!pl) return;
    Y const* h = pl->get("decl_hdf5");
    if (!h) return;
    auto handle = [&](Y const& item) {
        Y const* e = item.get("on_event");
        bool hit = false;
        if (e && e->k == Y::Scalar) hit = e->s == ev;
        if (e && e->k == Y::Seq) for (auto const& x : e->q) hit = hit || x.s == ev;
        if (hit) run_file(item);
    };
    if (h->k == Y::Seq) for (auto const& item : h->q) handle(item);
    else if (h->k == Y::Map) handle(*h);
}
void share(std::string const& name, void* p, int acc)
{
    Inst& in = inst();
    Desc& d = in.data[name];
    d.refs.push_back({p, acc});
    if (d.metadata) {
        // metadata are readable at once and remembered
        long const n = bytes_of(d.type);
        check_buffer(("PDI metadata " + name).c_str(), p, static_cast<uint64_t>(n), false);
        d.kept.assign(static_cast<char const*>(p), static_cast<size_t>(n));
        d.has_kept = true;
    }
}
void reclaim(std::string const& name)
{
    Inst& in = inst();
    Desc& d = in.data[name];
    if (d.refs.empty()) throw ConfigError("reclaim of \"" + name + "\", which is not shared");
    Ref const r = d.refs.back();
    if (d.metadata) {
        long const n = bytes_of(d.type);
        d.kept.assign(static_cast<char const*>(r.p), static_cast<size_t>(n));
        d.has_kept = true;
    }
    d.refs.pop_back();
}
} // namespace
} // namespace sim

using namespace sim;
extern "C" {
PC_tree_t PC_parse_string(char const* doc)
{
    seam("PC_parse");
    PC_tree_t t {PC_OK, nullptr};
    try {
        Parser p(doc);
        Y y = p.block(0);
        if (p.p != p.l.size()) throw ConfigError("line " + std::to_string(p.l[p.p].no) + ": unexpected content");
        void* h = new int(0);
        trees[h] = y;
        t.node = h;
    } catch (std::exception const& e) {
        pdi_error(std::string("configuration: ") + e.what());
    }
    return t;
}
PC_tree_t PC_parse_path(char const* path)
{
    seam("PC_parse");
    auto n = find(norm(path[0] == '/' ? path : std::string("/sim/cwd/") + path));
    if (!n || n->dir) pdi_error(std::string("cannot read configuration ") + path);
    return PC_parse_string(n->bytes.c_str());
}
PC_status_t PC_tree_destroy(PC_tree_t* t)
{
    if (!t || !trees.count(t->node)) violation("pdi-usage", "PC_tree_destroy of an invalid tree");
    trees.erase(t->node);
    t->node = nullptr;
    return PC_OK;
}
PDI_status_t PDI_init(PC_tree_t c)
{
    seam("PDI_init");
    Inst& i = insts[W.cur];
    if (i.inited) pdi_error("PDI_init called twice");
    if (!me().mpi_init || me().mpi_fin) violation("pdi-usage", "PDI_init outside of MPI");
    if (!trees.count(c.node)) pdi_error("invalid configuration");
    i.inited = true;
    i.conf = trees[c.node];
    if (Y const* m = i.conf.get("metadata")) {
        for (auto const& [n, t] : m->m) {
            i.data[n].type = t;
            i.data[n].metadata = true;
        }
    }
    if (Y const* m = i.conf.get("data")) {
        for (auto const& [n, t] : m->m) i.data[n].type = t;
    }
    return PDI_OK;
}
PDI_status_t PDI_finalize(void)
{
    seam("PDI_finalize");
    inst();
    if (me().mpi_fin) violation("pdi-usage", "PDI_finalize after MPI_Finalize");
    for (auto& [n, d] : insts[W.cur].data) {
        if (!d.refs.empty()) W.leaks.push_back("rank " + std::to_string(W.cur) + ": PDI data \"" + n + "\" never reclaimed");
    }
    insts.erase(W.cur);
    return PDI_OK;
}
PDI_status_t PDI_event(char const* e)
{
    try {
        fire(e);
    } catch (ConfigError const& x) {
        return report(std::string("event ") + e + ": " + x.what());
    }
    return PDI_OK;
}
PDI_status_t PDI_share(char const* n, void const* p, PDI_inout_t a)
{
    try {
        share(n, const_cast<void*>(p), a);
    } catch (ConfigError const& x) {
        return report(std::string("share ") + n + ": " + x.what());
    }
    return PDI_OK;
}
PDI_status_t PDI_reclaim(char const* n)
{
    try {
        reclaim(n);
    } catch (ConfigError const& x) {
        return report(std::string("reclaim ") + n + ": " + x.what());
    }
    return PDI_OK;
}
PDI_status_t PDI_release(char const* n) { return PDI_reclaim(n); }
PDI_status_t PDI_expose(char const* n, void const* p, PDI_inout_t a)
{
    if (PDI_status_t const r = PDI_share(n, p, a)) return r;
    return PDI_reclaim(n);
}
PDI_status_t PDI_multi_expose(char const* ev, char const* name, void const* data, PDI_inout_t acc, ...)
{
    std::vector<std::string> names;
    va_list ap;
    va_start(ap, acc);
    PDI_share(name, data, acc);
    names.emplace_back(name);
    for (;;) {
        char const* n = va_arg(ap, char const*);
        if (!n) break;
        void const* p = va_arg(ap, void const*);
        int const a = va_arg(ap, int);
        PDI_share(n, p, static_cast<PDI_inout_t>(a));
        names.emplace_back(n);
    }
    va_end(ap);
    PDI_status_t r = PDI_event(ev);
    for (size_t i = names.size(); i-- > 0;) {
        PDI_status_t const q = PDI_reclaim(names[i].c_str());
        if (!r) r = q;
    }
    return r;
}
const PDI_errhandler_t PDI_ASSERT_HANDLER = {assert_handler, nullptr};
const PDI_errhandler_t PDI_WARN_HANDLER = {warn_handler, nullptr};
const PDI_errhandler_t PDI_NULL_HANDLER = {nullptr, nullptr};
PDI_errhandler_t PDI_errhandler(PDI_errhandler_t h)
{
    PDI_errhandler_t const old = handlers.count(W.cur) ? handlers[W.cur] : PDI_ASSERT_HANDLER;
    handlers[W.cur] = h;
    return old;
}
char const* PDI_errmsg(void) { return last_err.c_str(); }
}
