// Fibers, scheduler, decisions, clocks, output capture, process end.
#include "core.hpp"
#include "../include/sim_api.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>

namespace sim {

World W;

uint64_t hash_str(std::string const& s, uint64_t h)
{
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return h;
}
std::string World::str(std::string const& k, std::string const& d) const
{
    auto it = sc.find(pfx + k);
    if (it == sc.end()) it = sc.find(k);
    return it == sc.end() ? d : it->second;
}
double World::param(std::string const& k, double d) const
{
    std::string const s = str(k, "");
    return s.empty() ? d : std::strtod(s.c_str(), nullptr);
}
Rank& me()
{
    return W.ranks[static_cast<size_t>(W.cur)];
}

uint64_t decide(uint64_t n, double p)
{
    if (n <= 1) return 0;
    long const i = W.ndec++;
    uint64_t v = 0;
    if (W.seeded) {
        v = W.rng.chance(p) ? W.rng.below(n) : 0;
        if (v) W.decisions.emplace_back(i, v);
    } else {
        auto it = W.replay.find(i);
        if (it != W.replay.end()) {
            v = it->second % n;
            if (v) W.decisions.emplace_back(i, v);
        }
    }
    return v;
}

// ------------------------------------------------------------------ output capture
namespace {
struct RouterBuf : std::streambuf
{
    bool err;
    explicit RouterBuf(bool e) : err(e) {}
    std::string& dst()
    {
        static std::string none;
        if (W.cur < 0) return none;
        return err ? me().err : me().out;
    }
    int overflow(int c) override
    {
        if (c != EOF) dst().push_back(static_cast<char>(c));
        return c;
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override
    {
        dst().append(s, static_cast<size_t>(n));
        return n;
    }
};
RouterBuf* g_out;
RouterBuf* g_err;
struct IosState { std::ios_base::fmtflags f; std::streamsize prec, width; std::ios_base::iostate st; char fill; };
static_assert(sizeof(IosState) <= 64);
void ios_save(std::ostream& os, unsigned char* b)
{
    IosState s {os.flags(), os.precision(), os.width(), os.rdstate(), os.fill()};
    std::memcpy(b, &s, sizeof s);
}
void ios_load(std::ostream& os, unsigned char const* b)
{
    IosState s;
    std::memcpy(&s, b, sizeof s);
    os.flags(s.f);
    os.precision(s.prec);
    os.width(s.width);
    os.clear(s.st);
    os.fill(s.fill);
}
void switch_in(int r)
{
    W.cur = r;
    Rank& k = W.ranks[static_cast<size_t>(r)];
    std::memcpy(__cxxabiv1::__cxa_get_globals(), k.eh, 16);
    ios_load(std::cout, k.iosstate[0]);
    ios_load(std::cerr, k.iosstate[1]);
}
void switch_out()
{
    Rank& k = me();
    std::memcpy(k.eh, __cxxabiv1::__cxa_get_globals(), 16);
    std::memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    ios_save(std::cout, k.iosstate[0]);
    ios_save(std::cerr, k.iosstate[1]);
}
void yield_to_scheduler()
{
    Rank& k = me();
    switch_out();
    swapcontext(&k.ctx, &W.sched_ctx);
    // resumed by the scheduler, which has called switch_in
}
} // namespace

void maybe_switch(double p)
{
    if (W.ranks.size() < 2) return;
    // the decision is a rank to run next; 0 keeps the current one
    uint64_t const v = decide(W.ranks.size(), p);
    if (v == 0) return;
    yield_to_scheduler();
}

void seam(char const* kind, bool allow_switch)
{
    ++W.ev;
    W.hash = mix(W.hash, static_cast<uint64_t>(W.cur) * 1000003ULL + hash_str(kind));
    me().vt += 1000.0;
    if (W.crash_at >= 0 && W.ev >= W.crash_at) {
        finish("crashed", "", std::string("job killed at event ") + std::to_string(W.ev) + " (" + kind + ")");
    }
    if (W.ev > W.max_events) {
        finish("violation", "no-progress", "event limit reached: the run does not terminate");
    }
    if (Fault* f = fault_at("stall")) {
        me().vt += f->param;
    }
    if (allow_switch) maybe_switch(W.p_switch_seam);
}

void block_until(char const* where, std::function<bool()> ready)
{
    Rank& k = me();
    if (ready()) return;
    k.state = Rank::Blocked;
    k.ready = std::move(ready);
    k.where = where;
    yield_to_scheduler();
    k.where.clear();
}

Fault* fault_at(char const* site)
{
    long const n = me().counters[site]++;
    long const g = W.global_counters[site]++;
    for (Fault& f : W.faults) {
        if (f.fired || f.site != site) continue;
        if (f.rank == W.cur ? n == f.nth : (f.rank < 0 && g == f.nth)) {
            f.fired = true;
            W.notes.push_back("fault " + f.site + " " + f.action + " rank " + std::to_string(W.cur) + " occurrence " + std::to_string(f.nth) + " event " + std::to_string(W.ev));
            return &f;
        }
    }
    return nullptr;
}

void note(std::string const& s) { W.notes.push_back(s); }

void check_buffer(char const* what, void const* p, uint64_t bytes, bool device_ok)
{
    if (!p || bytes == 0) return;
    auto const a = reinterpret_cast<uintptr_t>(p);
    for (size_t r = 0; r < W.ranks.size(); ++r) {
        auto& m = W.ranks[r].allocs;
        auto it = m.upper_bound(a);
        if (it == m.begin()) continue;
        --it;
        if (a >= it->first + it->second.bytes + (it->second.bytes == 0)) continue;
        if (static_cast<int>(r) != W.cur) violation("memory", std::string(what) + " uses memory of another rank");
        if (a + bytes > it->first + it->second.bytes) violation("bounds", std::string(what) + " goes past the end of \"" + it->second.label + "\"");
        if (it->second.space == 1 && !device_ok) violation("memory-space", std::string(what) + " is given the device memory of \"" + it->second.label + "\"");
        return;
    }
}

void violation(std::string const& kind, std::string const& msg) { finish("violation", kind, msg); }

static std::string jesc(std::string const& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

static std::string g_probe;
static bool g_finishing = false;

void finish(std::string const& end, std::string const& kind, std::string const& msg)
{
    if (g_finishing) _exit(98);
    g_finishing = true;
    int const cur = W.cur;
    std::string const base = W.outdir + "/p" + std::to_string(W.phase);
    W.cur = -1;
    disk_save(base + ".disk", end == "crashed"); // may take decisions: before they are written out
    for (Rank& k : W.ranks) W.hash = mix(W.hash, hash_str(k.out, hash_str(k.err)));
    W.hash = mix(W.hash, hash_str(end + kind + msg));
    std::ostringstream o;
    o.precision(17);
    o << "{\"end\":" << jesc(end) << ",\"kind\":" << jesc(kind) << ",\"msg\":" << jesc(msg) << ",\"rank\":" << cur << ",\n\"events\":" << W.ev
      << ",\"kernels\":" << W.kernels << ",\"messages\":" << W.messages << ",\"collectives\":" << W.collectives << ",\"io_ops\":" << W.io_ops
      << ",\"switches\":" << W.switches << ",\"ndec\":" << W.ndec << ",\"hash\":\"" << std::hex << W.hash << std::dec << "\",\n\"ranks\":[";
    double vt = 0;
    for (size_t r = 0; r < W.ranks.size(); ++r) {
        Rank& k = W.ranks[r];
        vt = std::max(vt, k.vt);
        o << (r ? "," : "") << "\n{\"exit\":" << k.exit_code << ",\"state\":" << int(k.state) << ",\"where\":" << jesc(k.where) << ",\"out\":" << jesc(k.out)
          << ",\"err\":" << jesc(k.err) << ",\"vt\":" << k.vt << ",\"alloc_bytes\":" << k.alloc_bytes << ",\"fin\":" << k.mpi_fin
          << ",\"transfers\":[" << k.transfers_h2d << "," << k.transfers_d2h << "," << k.transfers_same << "],\"counters\":{";
        bool first = true;
        for (auto& [n, c] : k.counters) {
            o << (first ? "" : ",") << jesc(n) << ":" << c;
            first = false;
        }
        o << "}}";
    }
    o << "],\n\"simtime_ns\":" << vt << ",\"fired\":[";
    bool first = true;
    for (Fault& f : W.faults) {
        if (!f.fired) continue;
        o << (first ? "" : ",") << jesc(f.site + ":" + f.action);
        first = false;
    }
    o << "],\"leaks\":[";
    for (size_t i = 0; i < W.leaks.size(); ++i) o << (i ? "," : "") << jesc(W.leaks[i]);
    o << "],\"notes\":[";
    for (size_t i = 0; i < W.notes.size() && i < 400; ++i) o << (i ? "," : "") << jesc(W.notes[i]);
    o << "],\"decisions\":[";
    for (size_t i = 0; i < W.decisions.size(); ++i) o << (i ? "," : "") << "[" << W.decisions[i].first << "," << W.decisions[i].second << "]";
    o << "]}\n";
    if (!g_probe.empty()) {
        int fd = ::open((base + ".probe").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        size_t off = 0;
        while (off < g_probe.size()) {
            ssize_t n = syscall(SYS_write, fd, g_probe.data() + off, g_probe.size() - off);
            if (n <= 0) break;
            off += static_cast<size_t>(n);
        }
        ::close(fd);
    }
    std::string const s = o.str();
    int fd = ::open((base + ".json").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = syscall(SYS_write, fd, s.data() + off, s.size() - off);
        if (n <= 0) break;
        off += static_cast<size_t>(n);
    }
    ::close(fd);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ------------------------------------------------------------------ one phase
static std::vector<std::string> split(std::string const& s, char c)
{
    std::vector<std::string> v;
    std::string t;
    for (char x : s) {
        if (x == c) { v.push_back(t); t.clear(); } else t.push_back(x);
    }
    v.push_back(t);
    return v;
}

struct RankArgs
{
    int (*fn)(int, char**);
    std::vector<std::string> args;
};
static std::vector<RankArgs> g_args;

static void fiber_main()
{
    Rank& k = me();
    RankArgs& a = g_args[static_cast<size_t>(W.cur)];
    std::vector<char*> argv;
    for (auto& s : a.args) argv.push_back(s.data());
    argv.push_back(nullptr);
    int rc = -1;
    try {
        rc = a.fn(static_cast<int>(a.args.size()), argv.data());
    } catch (std::exception const& e) {
        violation("uncaught-exception", e.what());
    } catch (...) {
        violation("uncaught-exception", "unknown type");
    }
    Rank& kk = me();
    kk.exit_code = rc;
    if (kk.mpi_init && !kk.mpi_fin) {
        finish("abort", "exit-without-finalize", "rank " + std::to_string(W.cur) + " ended without MPI_Finalize, exit code " + std::to_string(rc));
    }
    if (kk.alloc_bytes != 0) W.leaks.push_back("rank " + std::to_string(W.cur) + ": " + std::to_string(kk.alloc_bytes) + " bytes of View memory");
    kk.state = Rank::Done;
    (void)k;
    yield_to_scheduler();
    abort();
}

static void sig_handler(int s)
{
    if (s == SIGALRM) finish("violation", "no-progress", "the run makes no progress between two events (endless computation)");
    finish("violation", "signal", std::string("signal ") + strsignal(s));
}

static void* load_copy(std::string const& so, int r)
{
    int const fd = static_cast<int>(syscall(SYS_memfd_create, ("rank" + std::to_string(r)).c_str(), 1u));
    int const in = ::open(so.c_str(), O_RDONLY);
    if (fd < 0 || in < 0) {
        std::fprintf(stderr, "cannot open %s\n", so.c_str());
        _exit(97);
    }
    static std::string content;
    static std::string content_of;
    if (content_of != so) {
        content.clear();
        char buf[65536];
        ssize_t n;
        while ((n = syscall(SYS_read, in, buf, sizeof buf)) > 0) content.append(buf, static_cast<size_t>(n));
        content_of = so;
    }
    ::close(in);
    size_t off = 0;
    while (off < content.size()) {
        ssize_t n = syscall(SYS_write, fd, content.data() + off, content.size() - off);
        if (n <= 0) _exit(97);
        off += static_cast<size_t>(n);
    }
    std::string const path = "/proc/self/fd/" + std::to_string(fd);
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        std::fprintf(stderr, "dlopen: %s\n", dlerror());
        _exit(97);
    }
    return h;
}

void run_phase(int phase)
{
    W.phase = phase;
    W.pfx = "p" + std::to_string(phase) + ".";
    int const n = static_cast<int>(W.param("nranks", 1));
    uint64_t seed = std::strtoull(W.str("seed", "1").c_str(), nullptr, 10);
    W.rng.s = mix(seed * 0x9E3779B97F4A7C15ULL, static_cast<uint64_t>(phase) + 77);
    W.rng.next();
    W.crash_at = static_cast<long>(W.param("crash_at", -1));
    W.max_events = static_cast<long>(W.param("max_events", 2000000));
    W.p_switch_kernel = W.param("p_switch_kernel", 0.05);
    W.p_switch_seam = W.param("p_switch_seam", 0.5);
    W.p_korder = W.param("p_korder", 0.5);
    W.p_defer = W.param("p_defer", 0.3);
    W.race = static_cast<int>(W.param("race", 0));
    W.max_latency = static_cast<int>(W.param("max_latency", 4));
    W.unified = W.param("unified", 0) != 0;
    W.reorder = W.param("reorder", 0) != 0;
    W.rendezvous = W.param("rendezvous", 0) != 0;
    W.starve = static_cast<int>(W.param("starve", -1));
    std::string const dec = W.str("decisions", "-");
    if (dec != "-") {
        W.seeded = false;
        for (auto const& s : split(dec, ',')) {
            if (s.empty()) continue;
            auto const kv = split(s, ':');
            W.replay[std::strtol(kv[0].c_str(), nullptr, 10)] = std::strtoull(kv[1].c_str(), nullptr, 10);
        }
    }
    for (int i = 0;; ++i) {
        auto it = W.sc.find(W.pfx + "fault." + std::to_string(i));
        if (it == W.sc.end()) break;
        auto const f = split(it->second, ' ');
        Fault x;
        x.site = f.at(0);
        x.rank = std::atoi(f.at(1).c_str());
        x.nth = std::atol(f.at(2).c_str());
        x.action = f.at(3);
        x.param = f.size() > 4 ? std::strtod(f[4].c_str(), nullptr) : 0;
        W.faults.push_back(x);
    }
    W.ranks.resize(static_cast<size_t>(n));
    std::string const so = W.str("so", "");
    std::string const entry = W.str("entry", "heracles_main");
    static char altstack[65536];
    stack_t ss {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = sig_handler;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm(static_cast<unsigned>(W.param("wall_limit", 60)));
    g_out = new RouterBuf(false);
    g_err = new RouterBuf(true);
    std::cout.rdbuf(g_out);
    std::cerr.rdbuf(g_err);
    std::cerr.unsetf(std::ios::unitbuf);
    std::cerr.tie(nullptr);
    auto const args = split(W.str("args", "heracles"), '\x1f');
    for (int r = 0; r < n; ++r) {
        Rank& k = W.ranks[static_cast<size_t>(r)];
        k.id = r;
        k.rnd_dev.s = mix(seed, 1000u + static_cast<unsigned>(r) + 131u * static_cast<unsigned>(phase));
        k.offset = W.param("clock_offset." + std::to_string(r), 1e15 + 1e12 * r);
        k.rate = W.param("clock_rate." + std::to_string(r), 1);
        ios_save(std::cout, k.iosstate[0]);
        ios_save(std::cerr, k.iosstate[1]);
        void* h = load_copy(so, r);
        auto fn = reinterpret_cast<int (*)(int, char**)>(dlsym(h, entry.c_str()));
        if (!fn) {
            std::fprintf(stderr, "dlsym: %s\n", dlerror());
            _exit(97);
        }
        g_args.push_back({fn, args});
        size_t const ssz = 4u << 20;
        k.stack = static_cast<char*>(mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        getcontext(&k.ctx);
        k.ctx.uc_stack.ss_sp = k.stack;
        k.ctx.uc_stack.ss_size = ssz;
        k.ctx.uc_link = nullptr;
        makecontext(&k.ctx, fiber_main, 0);
    }
    // scheduler loop
    int last = 0;
    std::vector<int> runnable;
    for (;;) {
        runnable.clear();
        bool all_done = true;
        for (int i = 0; i < n; ++i) {
            int const r = (last + i) % n;
            Rank& k = W.ranks[static_cast<size_t>(r)];
            if (k.state == Rank::Done) continue;
            all_done = false;
            if (k.state == Rank::Blocked) {
                W.cur = r;
                bool const ok = k.ready();
                W.cur = -1;
                if (!ok) continue;
            }
            runnable.push_back(r);
        }
        if (all_done) finish("completed", "", "");
        if (runnable.empty()) {
            extern bool mpi_advance();
            if (mpi_advance()) continue;
            std::string m;
            for (auto& k : W.ranks) {
                m += "rank " + std::to_string(k.id) + ": " + (k.state == Rank::Done ? "ended" : "blocked in " + k.where) + "; ";
            }
            finish("violation", "deadlock", m);
        }
        size_t pick = static_cast<size_t>(decide(runnable.size(), W.p_switch_seam));
        if (W.starve >= 0 && runnable.size() > 1 && runnable[pick] == W.starve) pick = (pick + 1) % runnable.size();
        int const r = runnable[pick];
        if (r != last) {
            ++W.switches;
            W.hash = mix(W.hash, 0xABCDEFULL + static_cast<uint64_t>(r));
        }
        last = r;
        Rank& k = W.ranks[static_cast<size_t>(r)];
        k.state = Rank::Runnable;
        switch_in(r);
        swapcontext(&W.sched_ctx, &k.ctx);
        W.cur = -1;
    }
}

} // namespace sim

// ------------------------------------------------------------------ exported API
using namespace sim;
extern "C" {
void sim_violation(char const* kind, char const* msg) { violation(kind, msg); }
void sim_note(char const* kind, char const* msg) { note(std::string(kind) + " " + msg); }
int sim_rank() { return W.cur; }
int sim_unified() { return W.unified; }
double sim_param(char const* name, double d) { return W.param(std::string("u.") + name, d); }

void sim_kernel_plan(char const* label, uint64_t n, int kind, SimKernelPlan* p)
{
    ++W.kernels;
    ++W.ev;
    (void)label;
    me().vt += 5000.0 + 10.0 * static_cast<double>(n);
    if (W.crash_at >= 0 && W.ev >= W.crash_at) finish("crashed", "", std::string("job killed at kernel ") + label);
    if (W.ev > W.max_events) finish("violation", "no-progress", "event limit reached: the run does not terminate");
    p->order = 0;
    p->mul = 1;
    p->add = 0;
    p->groups = 1;
    p->join_seed = 0;
    p->defer = 0;
    p->race = W.race;
    uint64_t v = decide(1ULL << 31, W.p_korder);
    W.hash = mix(W.hash, v + n);
    if (v) {
        Rng r {v};
        p->order = static_cast<int>(r.below(3));
        if (n > 1) {
            p->add = r.below(n);
            uint64_t m = 1 + r.below(n);
            auto gcd = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; };
            while (gcd(m, n) != 1) ++m;
            p->mul = m;
        }
        p->groups = kind == 0 ? 1 : 1 + static_cast<int>(r.below(5));
        if (static_cast<uint64_t>(p->groups) > n && n > 0) p->groups = static_cast<int>(n);
        p->join_seed = r.next() | 1;
        p->defer = !W.unified && r.chance(W.p_defer);
    }
    maybe_switch(W.p_switch_kernel);
}
void sim_kernel_done(char const*, uint64_t, int) {}
void sim_transfer(int dst, int src, uint64_t bytes, char const*)
{
    me().vt += static_cast<double>(bytes) * 0.1;
    if (dst == 1 && src != 1) ++me().transfers_h2d;
    else if (dst != 1 && src == 1) ++me().transfers_d2h;
    else ++me().transfers_same;
}
void sim_fence(char const*) { ++me().fences; }
void* sim_alloc(char const* label, uint64_t bytes, int space)
{
    if (W.cur >= 0) {
        if (Fault* f = fault_at("alloc")) {
            (void)f;
            return nullptr;
        }
    }
    void* p = std::malloc(bytes ? bytes : 1);
    if (W.cur >= 0) {
        me().allocs[reinterpret_cast<uintptr_t>(p)] = Alloc {bytes, space, label};
        me().alloc_bytes += bytes;
    }
    return p;
}
void sim_free(void* p, uint64_t bytes, int)
{
    if (W.cur >= 0) {
        me().allocs.erase(reinterpret_cast<uintptr_t>(p));
        me().alloc_bytes -= bytes;
    }
    // poison: a use after free is visible
    std::memset(p, 0xDB, bytes);
    std::free(p);
}
void sim_probe(char const* name, double const* data, uint64_t n)
{
    uint32_t const l = static_cast<uint32_t>(std::strlen(name));
    int32_t const r = W.cur;
    int64_t const ev = W.ev;
    g_probe.append(reinterpret_cast<char const*>(&l), 4);
    g_probe.append(name, l);
    g_probe.append(reinterpret_cast<char const*>(&r), 4);
    g_probe.append(reinterpret_cast<char const*>(&ev), 8);
    g_probe.append(reinterpret_cast<char const*>(&n), 8);
    g_probe.append(reinterpret_cast<char const*>(data), n * 8);
}

// ---- process end
void exit(int rc)
{
    if (W.cur >= 0) {
        me().exit_code = rc;
        finish("abort", "exit", "exit(" + std::to_string(rc) + ") called");
    }
    syscall(SYS_exit_group, rc);
    __builtin_unreachable();
}
void abort()
{
    if (W.cur >= 0) finish("abort", "abort", "abort() called");
    syscall(SYS_exit_group, 134);
    __builtin_unreachable();
}

// ---- clocks
static int64_t now_ns()
{
    Rank& k = me();
    k.vt += 100;
    return static_cast<int64_t>(k.vt * k.rate + k.offset);
}
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (W.cur >= 0) {
        int64_t const n = now_ns();
        ts->tv_sec = n / 1000000000;
        ts->tv_nsec = n % 1000000000;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
double MPI_Wtime(void) { return static_cast<double>(now_ns()) * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec)));
}
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(std::chrono::duration_cast<duration>(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec)));
}
std::random_device::result_type std::random_device::_M_getval()
{
    if (W.cur >= 0) {
        ++me().nrandom;
        // one global stream: two processes that draw get different values, the draw order decides which
        static Rng rd {static_cast<uint64_t>(W.param("rdseed", 1)) * 0x9E3779B97F4A7C15ULL + 99};
        return static_cast<result_type>(rd.next() >> 32);
    }
    return 4;
}

// ------------------------------------------------------------------ driver of a scenario
static std::string unq(std::string const& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            o.push_back(static_cast<char>(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)));
            i += 2;
        } else {
            o.push_back(s[i]);
        }
    }
    return o;
}

static void damage(std::vector<std::string> const& a)
{
    auto it = disk.find(norm(a.at(0)));
    if (it == disk.end()) return;
    auto& n = it->second;
    std::string const& op = a.at(1);
    if (op == "delete") disk.erase(it);
    else if (op == "tear" && n->h5) n->torn = true;
    else if (op == "drop" && n->h5) n->file->dsets.erase(a.at(2));
    else if (op == "garbage") {
        auto g = std::make_shared<Node>();
        g->bytes = std::string(100, 'x');
        n = g;
    } else if (op == "empty") {
        n = std::make_shared<Node>();
    }
}

int main(int argc, char** argv)
{
    if (argc < 3) {
        std::fprintf(stderr, "usage: simrun SCENARIO OUTDIR\n");
        return 2;
    }
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        size_t const e = line.find('=');
        if (e == std::string::npos) continue;
        W.sc[line.substr(0, e)] = unq(line.substr(e + 1));
    }
    in.close();
    W.outdir = argv[2];
    int const nphase = static_cast<int>(W.param("nphase", 1));
    for (int p = 0; p < nphase; ++p) {
        std::string const base = W.outdir + "/p" + std::to_string(p);
        pid_t const pid = fork();
        if (pid == 0) {
            if (p > 0) disk_load(W.outdir + "/p" + std::to_string(p - 1) + ".disk");
            std::string const pre = "p" + std::to_string(p) + ".file:";
            for (auto& [k, v] : W.sc) {
                std::string path;
                if (p == 0 && k.rfind("file:", 0) == 0) path = k.substr(5);
                else if (k.rfind(pre, 0) == 0) path = k.substr(pre.size());
                else continue;
                auto nd = std::make_shared<Node>();
                nd->bytes = v;
                disk[norm(path)] = nd;
            }
            // HDF5 files: one dataset per line, "name type dims,... hexadecimal bytes"
            for (auto& [k, v] : W.sc) {
                std::string const hpre = "p" + std::to_string(p) + ".h5:";
                if (k.rfind(hpre, 0) != 0) continue;
                auto nd = std::make_shared<Node>();
                nd->h5 = true;
                nd->file = std::make_shared<H5File>();
                for (std::string const& l : split(v, '\n')) {
                    auto const w = split(l, ' ');
                    if (w.size() < 4) continue;
                    H5Dataset d;
                    d.type = w[1];
                    for (std::string const& x : split(w[2], ',')) {
                        if (!x.empty()) d.dims.push_back(std::stoull(x));
                    }
                    for (size_t i = 0; i + 1 < w[3].size(); i += 2) d.data.push_back(static_cast<char>(std::stoi(w[3].substr(i, 2), nullptr, 16)));
                    nd->file->dsets[w[0]] = d;
                }
                disk[norm(k.substr(hpre.size()))] = nd;
            }
            if (p == 0) {
                for (char const* d : {"/sim", "/sim/out"}) {
                    auto nd = std::make_shared<Node>();
                    nd->dir = true;
                    disk[d] = nd;
                }
            }
            for (auto& [k, v] : W.sc) {
                std::string const dpre = "p" + std::to_string(p) + ".mkdir:";
                if (k.rfind(dpre, 0) == 0) {
                    auto nd = std::make_shared<Node>();
                    nd->dir = true;
                    disk[norm(k.substr(dpre.size()))] = nd;
                }
            }
            // damage done to files between two phases: "/path op [dataset]"
            for (auto& [k, v] : W.sc) {
                if (k.rfind("p" + std::to_string(p) + ".damage.", 0) == 0) damage(split(v, ' '));
            }
            run_phase(p);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (access((base + ".json").c_str(), R_OK) != 0) {
            std::fprintf(stderr, "phase %d left no result (status %d)\n", p, st);
            return 3;
        }
    }
    return 0;
}
