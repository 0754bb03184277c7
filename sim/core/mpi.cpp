// Simulated MPI: matched point-to-point messages with latency, collectives matched by sequence, communicators.
#include "core.hpp"
#include "../include/mpi.h"

#include <algorithm>
#include <cstring>
#include <deque>
#include <numeric>

namespace sim {
namespace {

struct Coll
{
    std::string sig;
    int sig_rank = -1;
    int arrived = 0, left = 0;
    std::vector<bool> in;
    std::vector<std::string> data;
    bool complete = false;
    std::string result;
    std::vector<int> out_comm; // per member
    int root = -1;
};
struct Msg
{
    int src, tag, type;
    std::string data;
    long visible; // event number at which it can be received
    long seq;
    bool taken = false;
};
struct Comm
{
    int id = 0;
    std::vector<int> world; // comm rank -> world rank
    std::vector<int> dims, periods;
    std::vector<bool> freed;
    std::vector<long> seq;
    std::map<long, Coll> colls;
    std::vector<std::deque<std::shared_ptr<Msg>>> box; // per destination
    bool user = false;
    int find(int wr) const
    {
        for (size_t i = 0; i < world.size(); ++i) if (world[i] == wr) return static_cast<int>(i);
        return -1;
    }
};
std::map<int, std::shared_ptr<Comm>> comms;
int next_comm = 100;
std::map<std::pair<int, int>, int> self_comm_coll; // unused members kept simple
long next_seq = 0;

struct Req
{
    int owner;
    bool recv;
    void* buf;
    int count, type, src, tag, comm;
    std::shared_ptr<Msg> msg; // a send: done when taken (rendezvous) or at once
    bool done = false;
    MPI_Status status {};
};
std::map<int, Req> reqs;
int next_req = 1;

int tsize(int t)
{
    if (t == MPI_DOUBLE_INT) return 16;
    switch (t & 0xF00) {
    case 0x100: return 1;
    case 0x200: return 2;
    case 0x400: return 4;
    case 0x800: return 8;
    default: violation("mpi-usage", "unknown MPI datatype " + std::to_string(t));
    }
}
std::shared_ptr<Comm> make_comm(std::vector<int> const& world, bool user)
{
    auto c = std::make_shared<Comm>();
    c->id = next_comm++;
    c->world = world;
    c->freed.assign(world.size(), false);
    c->seq.assign(world.size(), 0);
    c->box.resize(world.size());
    c->user = user;
    comms[c->id] = c;
    return c;
}
std::shared_ptr<Comm> world_comm()
{
    auto it = comms.find(MPI_COMM_WORLD);
    if (it == comms.end()) {
        std::vector<int> w(W.ranks.size());
        std::iota(w.begin(), w.end(), 0);
        auto c = make_comm(w, false);
        comms.erase(c->id);
        c->id = MPI_COMM_WORLD;
        comms[MPI_COMM_WORLD] = c;
        return c;
    }
    return it->second;
}
std::shared_ptr<Comm> get_comm(int h, char const* who)
{
    Rank& k = me();
    if (!k.mpi_init) violation("mpi-usage", std::string(who) + " before MPI_Init");
    if (k.mpi_fin) violation("mpi-usage", std::string(who) + " after MPI_Finalize");
    if (h == MPI_COMM_WORLD) return world_comm();
    if (h == MPI_COMM_SELF) {
        int const id = -1000 - W.cur;
        if (!comms.count(id)) {
            auto c = make_comm({W.cur}, false);
            comms.erase(c->id);
            c->id = id;
            comms[id] = c;
        }
        return comms[id];
    }
    auto it = comms.find(h);
    if (it == comms.end()) violation("mpi-usage", std::string(who) + " on an invalid communicator");
    int const r = it->second->find(W.cur);
    if (r < 0) violation("mpi-usage", std::string(who) + " on a communicator of other processes");
    if (it->second->freed[static_cast<size_t>(r)]) violation("mpi-usage", std::string(who) + " on a freed communicator");
    return it->second;
}

std::string str_sig(char const* op, std::initializer_list<long> v)
{
    std::string s = op;
    for (long x : v) s += " " + std::to_string(x);
    return s;
}

// enters the next collective of the communicator, leaves its contribution
Coll& enter(Comm& c, int r, std::string const& sig, std::string data)
{
    ++W.collectives;
    long const n = c.seq[static_cast<size_t>(r)]++;
    Coll& k = c.colls[n];
    if (k.in.empty()) {
        k.in.assign(c.world.size(), false);
        k.data.resize(c.world.size());
        k.out_comm.assign(c.world.size(), 0);
        k.sig = sig;
        k.sig_rank = r;
    } else if (k.sig != sig) {
        violation("collective-mismatch", "ranks disagree on a collective operation: rank " + std::to_string(k.sig_rank) + " \"" + k.sig + "\", rank " + std::to_string(r) + " \"" + sig + "\"");
    }
    k.in[static_cast<size_t>(r)] = true;
    k.data[static_cast<size_t>(r)] = std::move(data);
    ++k.arrived;
    return k;
}
void leave(Comm& c, int r, Coll& k)
{
    long const n = c.seq[static_cast<size_t>(r)] - 1;
    if (++k.left == static_cast<int>(c.world.size())) c.colls.erase(n);
}
void sync_time(Comm& c)
{
    double t = 0;
    for (int w : c.world) t = std::max(t, W.ranks[static_cast<size_t>(w)].vt);
    me().vt = std::max(me().vt, t) + 2000;
}
void wait_all(Comm& c, Coll& k, char const* where)
{
    int const n = static_cast<int>(c.world.size());
    block_until(where, [&k, n] { return k.arrived == n; });
    sync_time(c);
}

template <class T>
void red(T* a, T const* b, int n, int op)
{
    for (int i = 0; i < n; ++i) {
        switch (op) {
        case MPI_SUM: a[i] = static_cast<T>(a[i] + b[i]); break;
        case MPI_PROD: a[i] = static_cast<T>(a[i] * b[i]); break;
        case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
        case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
        case MPI_LAND: a[i] = static_cast<T>(a[i] && b[i]); break;
        case MPI_LOR: a[i] = static_cast<T>(a[i] || b[i]); break;
        case MPI_BAND: if constexpr (std::is_integral_v<T>) a[i] = static_cast<T>(a[i] & b[i]); break;
        case MPI_BOR: if constexpr (std::is_integral_v<T>) a[i] = static_cast<T>(a[i] | b[i]); break;
        default: violation("mpi-usage", "unknown MPI reduction");
        }
    }
}
void reduce(std::string& acc, std::string const& b, int count, int type, int op)
{
    if (type == MPI_DOUBLE_INT) {
        struct DI { double d; int i; };
        auto* x = reinterpret_cast<DI*>(acc.data());
        auto const* y = reinterpret_cast<DI const*>(b.data());
        for (int i = 0; i < count; ++i) {
            bool const take = op == MPI_MINLOC ? (y[i].d < x[i].d || (y[i].d == x[i].d && y[i].i < x[i].i)) : (y[i].d > x[i].d || (y[i].d == x[i].d && y[i].i < x[i].i));
            if (take) x[i] = y[i];
        }
        return;
    }
#define CASE(T, C) case T: red(reinterpret_cast<C*>(acc.data()), reinterpret_cast<C const*>(b.data()), count, op); return;
    switch (type) {
        CASE(MPI_DOUBLE, double) CASE(MPI_FLOAT, float) CASE(MPI_INT, int) CASE(MPI_UNSIGNED, unsigned) CASE(MPI_LONG, long) CASE(MPI_UNSIGNED_LONG, unsigned long)
        CASE(MPI_CXX_BOOL, bool) CASE(MPI_CHAR, char) CASE(MPI_SIGNED_CHAR, signed char) CASE(MPI_UNSIGNED_CHAR, unsigned char) CASE(MPI_SHORT, short)
        CASE(MPI_UNSIGNED_SHORT, unsigned short) CASE(MPI_BYTE, unsigned char)
    }
    violation("mpi-usage", "unknown MPI datatype in a reduction");
}
// result of a reduction, combined in an order chosen by the simulator, once for all ranks
void compute(Coll& k, int count, int type, int op)
{
    if (k.complete) return;
    int const n = static_cast<int>(k.data.size());
    std::vector<int> o(static_cast<size_t>(n));
    std::iota(o.begin(), o.end(), 0);
    uint64_t const v = decide(1ULL << 31, 0.7);
    if (v) {
        Rng r {v};
        for (int i = n - 1; i > 0; --i) std::swap(o[static_cast<size_t>(i)], o[static_cast<size_t>(r.below(static_cast<uint64_t>(i + 1)))]);
    }
    // a random binary tree over that order
    std::vector<std::string> parts;
    for (int i : o) parts.push_back(k.data[static_cast<size_t>(i)]);
    Rng r {v};
    while (parts.size() > 1) {
        size_t const i = v ? static_cast<size_t>(r.below(parts.size() - 1)) : 0;
        reduce(parts[i], parts[i + 1], count, type, op);
        parts.erase(parts.begin() + static_cast<long>(i) + 1);
    }
    k.result = parts[0];
    k.complete = true;
}
bool device_ok() { return W.param("device_aware", 0) != 0; }
std::string grab(char const* who, void const* p, int count, int type)
{
    if (count < 0) violation("mpi-usage", std::string(who) + ": negative count");
    size_t const n = static_cast<size_t>(count) * static_cast<size_t>(tsize(type));
    check_buffer(who, p, n, device_ok());
    if (n && !p) violation("mpi-usage", std::string(who) + ": null buffer");
    return std::string(static_cast<char const*>(p), n);
}

bool match(Msg const& m, int src, int tag)
{
    return (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag);
}
std::shared_ptr<Msg> post(Comm& c, int r, void const* buf, int count, int type, int dst, int tag, char const* who)
{
    if (dst == MPI_PROC_NULL) return nullptr;
    if (dst < 0 || dst >= static_cast<int>(c.world.size())) violation("mpi-usage", std::string(who) + ": invalid destination rank " + std::to_string(dst));
    if (tag < 0) violation("mpi-usage", std::string(who) + ": invalid tag");
    ++W.messages;
    auto m = std::make_shared<Msg>();
    m->src = r;
    m->tag = tag;
    m->type = type;
    m->data = grab(who, buf, count, type);
    m->visible = W.ev + static_cast<long>(decide(static_cast<uint64_t>(W.max_latency) * 4 + 1, 0.5));
    m->seq = next_seq++;
    c.box[static_cast<size_t>(dst)].push_back(m);
    return m;
}
// first matching message of a source; messages of one source are not overtaken
std::shared_ptr<Msg> pick(Comm& c, int r, int src, int tag)
{
    auto& b = c.box[static_cast<size_t>(r)];
    std::vector<std::shared_ptr<Msg>> cand;
    std::set<int> seen;
    for (auto& m : b) {
        if (!match(*m, src, tag)) continue;
        if (seen.count(m->src)) continue;
        seen.insert(m->src);
        if (m->visible <= W.ev) cand.push_back(m);
    }
    if (cand.empty()) return nullptr;
    return cand[0];
}
void receive(Comm& c, int r, void* buf, int count, int type, int src, int tag, MPI_Status* st, char const* who, int before = std::numeric_limits<int>::max());
bool overlaps(int a, int b, int any) { return a == b || a == any || b == any; }
void earlier_receives(Comm& c, int r, int src, int tag, int before, char const* who)
{
    for (auto& [id, q] : reqs) {
        if (id >= before) return;
        if (q.owner != W.cur || !q.recv || q.done || q.comm != c.id || q.src == MPI_PROC_NULL) continue;
        if (!overlaps(q.src, src, MPI_ANY_SOURCE) || !overlaps(q.tag, tag, MPI_ANY_TAG)) continue;
        receive(c, r, q.buf, q.count, q.type, q.src, q.tag, &q.status, who, id);
        q.done = true;
    }
}
void receive(Comm& c, int r, void* buf, int count, int type, int src, int tag, MPI_Status* st, char const* who, int before)
{
    if (src == MPI_PROC_NULL) {
        if (st) { st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->sim_count = 0; }
        return;
    }
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= static_cast<int>(c.world.size()))) violation("mpi-usage", std::string(who) + ": invalid source rank");
    earlier_receives(c, r, src, tag, before, who); // a receive started earlier gets the earlier message
    std::shared_ptr<Msg> m;
    block_until(who, [&] { return pick(c, r, src, tag) != nullptr; });
    m = pick(c, r, src, tag);
    size_t const cap = static_cast<size_t>(count) * static_cast<size_t>(tsize(type));
    if (m->data.size() > cap) violation("mpi-truncate", std::string(who) + ": message of " + std::to_string(m->data.size()) + " bytes received into " + std::to_string(cap));
    if (m->type != type) violation("mpi-type", std::string(who) + ": datatype of the receive differs from that of the send");
    check_buffer(who, buf, cap, device_ok());
    std::memcpy(buf, m->data.data(), m->data.size());
    m->taken = true;
    auto& b = c.box[static_cast<size_t>(r)];
    b.erase(std::find(b.begin(), b.end(), m));
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_count = static_cast<int>(m->data.size()); }
    W.hash = mix(W.hash, static_cast<uint64_t>(m->seq));
    me().vt += 1500;
}
} // namespace

// no fiber can run: let the next message in flight arrive
bool mpi_advance()
{
    long best = -1;
    for (auto& [id, c] : comms) {
        for (auto& b : c->box) {
            for (auto& m : b) {
                if (m->visible > W.ev && (best < 0 || m->visible < best)) best = m->visible;
            }
        }
    }
    if (best < 0) return false;
    W.ev = best;
    return true;
}
int comm_rank_of(int h)
{
    auto c = get_comm(h, "communicator query");
    return c->find(W.cur);
}
int comm_size_of(int h) { return static_cast<int>(get_comm(h, "communicator query")->world.size()); }
void comm_sync(int h, std::string const& sig)
{
    auto c = get_comm(h, "collective I/O");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, sig, "");
    wait_all(*c, k, "collective I/O");
    leave(*c, r, k);
}
} // namespace sim

using namespace sim;
extern "C" {

int MPI_Init(int*, char***)
{
    seam("MPI_Init");
    if (me().mpi_init) violation("mpi-usage", "MPI_Init called twice");
    me().mpi_init = true;
    world_comm();
    return MPI_SUCCESS;
}
int MPI_Init_thread(int* a, char*** b, int, int* prov)
{
    if (prov) *prov = MPI_THREAD_SERIALIZED;
    return MPI_Init(a, b);
}
int MPI_Initialized(int* f) { *f = me().mpi_init; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = me().mpi_fin; return MPI_SUCCESS; }
int MPI_Finalize(void)
{
    seam("MPI_Finalize");
    auto c = get_comm(MPI_COMM_WORLD, "MPI_Finalize");
    for (auto& [id, k] : comms) {
        int const r = k->find(W.cur);
        if (k->user && r >= 0 && !k->freed[static_cast<size_t>(r)]) W.leaks.push_back("rank " + std::to_string(W.cur) + ": communicator never freed");
    }
    check_h5_leaks();
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, "MPI_Finalize", "");
    wait_all(*c, k, "MPI_Finalize");
    if (k.left == 0) {
        for (auto& [id, q] : comms) {
            for (auto& b : q->box) {
                if (!b.empty()) W.leaks.push_back("messages sent and never received");
            }
        }
        for (auto& [id, q] : reqs) {
            if (!q.done) W.leaks.push_back("request never completed");
        }
    }
    leave(*c, r, k);
    me().mpi_fin = true;
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int rc)
{
    seam("MPI_Abort", false);
    me().exit_code = rc;
    note_open_h5();
    finish("abort", "mpi-abort", "MPI_Abort(" + std::to_string(rc) + ")");
}
int MPI_Get_processor_name(char* n, int* l)
{
    std::strcpy(n, "sim");
    *l = 3;
    return MPI_SUCCESS;
}
int MPI_Error_string(int, char* s, int* l)
{
    std::strcpy(s, "error");
    *l = 5;
    return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm h, int* r)
{
    *r = get_comm(h, "MPI_Comm_rank")->find(W.cur);
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm h, int* n)
{
    *n = static_cast<int>(get_comm(h, "MPI_Comm_size")->world.size());
    return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
    *r = a == b ? 0 : 3;
    return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* n)
{
    *n = tsize(t);
    return MPI_SUCCESS;
}

static int new_comm(std::shared_ptr<Comm> const& c, int r, std::string const& sig, std::string const& mine, MPI_Comm* out, std::function<void(Coll&)> const& build)
{
    Coll& k = enter(*c, r, sig, mine);
    wait_all(*c, k, sig.c_str());
    if (!k.complete) {
        build(k);
        k.complete = true;
    }
    *out = k.out_comm[static_cast<size_t>(r)];
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm h, MPI_Comm* out)
{
    seam("MPI_Comm_dup");
    auto c = get_comm(h, "MPI_Comm_dup");
    return new_comm(c, c->find(W.cur), "MPI_Comm_dup", "", out, [&](Coll& k) {
        auto d = make_comm(c->world, true);
        d->dims = c->dims;
        d->periods = c->periods;
        std::fill(k.out_comm.begin(), k.out_comm.end(), d->id);
    });
}
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm* out)
{
    seam("MPI_Comm_split");
    auto c = get_comm(h, "MPI_Comm_split");
    int v[2] = {color, key};
    return new_comm(c, c->find(W.cur), "MPI_Comm_split", std::string(reinterpret_cast<char*>(v), sizeof v), out, [&](Coll& k) {
        std::map<int, std::vector<std::pair<int, int>>> g;
        for (size_t i = 0; i < c->world.size(); ++i) {
            int w[2];
            std::memcpy(w, k.data[i].data(), sizeof w);
            if (w[0] != MPI_UNDEFINED) g[w[0]].emplace_back(w[1], static_cast<int>(i));
        }
        for (auto& [col, m] : g) {
            std::stable_sort(m.begin(), m.end());
            std::vector<int> w;
            for (auto& x : m) w.push_back(c->world[static_cast<size_t>(x.second)]);
            auto d = make_comm(w, true);
            for (auto& x : m) k.out_comm[static_cast<size_t>(x.second)] = d->id;
        }
    });
}
int MPI_Comm_split_type(MPI_Comm h, int, int key, MPI_Info, MPI_Comm* out) { return MPI_Comm_split(h, 0, key, out); }
int MPI_Comm_free(MPI_Comm* h)
{
    seam("MPI_Comm_free");
    if (*h == MPI_COMM_WORLD || *h == MPI_COMM_SELF) violation("mpi-usage", "MPI_Comm_free of a predefined communicator");
    auto c = get_comm(*h, "MPI_Comm_free");
    c->freed[static_cast<size_t>(c->find(W.cur))] = true;
    *h = MPI_COMM_NULL;
    return MPI_SUCCESS;
}
int MPI_Dims_create(int n, int nd, int* dims)
{
    // as balanced as possible, in decreasing order, entries set by the caller are kept
    long fixed = 1;
    int free = 0;
    for (int i = 0; i < nd; ++i) {
        if (dims[i] < 0) violation("mpi-usage", "MPI_Dims_create: negative entry");
        if (dims[i] > 0) fixed *= dims[i]; else ++free;
    }
    if (n % fixed != 0 || (free == 0 && fixed != n)) { me().err += std::string("MPI error: ") + "MPI_Dims_create: the number of processes is not a multiple of the imposed dimensions" + "\n"; finish("abort", "mpi-error", "MPI_Dims_create: the number of processes is not a multiple of the imposed dimensions"); }
    long rest = n / fixed;
    std::vector<int> best;
    std::vector<int> cur;
    int best_spread = 1 << 30;
    std::function<void(long, int, int)> rec = [&](long left, int k, int maxf) {
        if (k == 1) {
            if (left > maxf) return;
            cur.push_back(static_cast<int>(left));
            int const spread = cur.front() - cur.back();
            if (spread < best_spread) { best_spread = spread; best = cur; }
            cur.pop_back();
            return;
        }
        for (long f = std::min<long>(left, maxf); f >= 1; --f) {
            if (left % f) continue;
            cur.push_back(static_cast<int>(f));
            rec(left / f, k - 1, static_cast<int>(f));
            cur.pop_back();
        }
    };
    if (free) rec(rest, free, static_cast<int>(rest));
    int j = 0;
    for (int i = 0; i < nd; ++i) if (dims[i] == 0) dims[i] = best[static_cast<size_t>(j++)];
    return MPI_SUCCESS;
}
int MPI_Cart_create(MPI_Comm h, int nd, int const* dims, int const* per, int reorder, MPI_Comm* out)
{
    seam("MPI_Cart_create");
    auto c = get_comm(h, "MPI_Cart_create");
    std::string sig = str_sig("MPI_Cart_create", {nd, reorder});
    long p = 1;
    for (int i = 0; i < nd; ++i) {
        sig += " " + std::to_string(dims[i]) + (per[i] ? "p" : "n");
        p *= dims[i];
    }
    if (p > static_cast<long>(c->world.size())) { me().err += std::string("MPI error: ") + "MPI_Cart_create: grid larger than the communicator" + "\n"; finish("abort", "mpi-error", "MPI_Cart_create: grid larger than the communicator"); }
    return new_comm(c, c->find(W.cur), sig, "", out, [&](Coll& k) {
        std::vector<int> o(c->world.size());
        std::iota(o.begin(), o.end(), 0);
        if (reorder && W.reorder) {
            uint64_t const v = decide(1ULL << 31, 1.0);
            if (v) {
                Rng r {v};
                for (size_t i = o.size() - 1; i > 0; --i) std::swap(o[i], o[static_cast<size_t>(r.below(i + 1))]);
            }
        }
        std::vector<int> w;
        for (long i = 0; i < p; ++i) w.push_back(c->world[static_cast<size_t>(o[static_cast<size_t>(i)])]);
        auto d = make_comm(w, true);
        d->dims.assign(dims, dims + nd);
        for (int i = 0; i < nd; ++i) d->periods.push_back(per[i] ? 1 : 0);
        for (long i = 0; i < p; ++i) k.out_comm[static_cast<size_t>(o[static_cast<size_t>(i)])] = d->id;
    });
}
static Comm& cart(std::shared_ptr<Comm> const& c, char const* who)
{
    if (c->dims.empty()) violation("mpi-usage", std::string(who) + " on a communicator without Cartesian topology");
    return *c;
}
static std::vector<int> coords_of(Comm const& c, int r)
{
    std::vector<int> x(c.dims.size());
    for (size_t i = c.dims.size(); i-- > 0;) {
        x[i] = r % c.dims[i];
        r /= c.dims[i];
    }
    return x;
}
static int rank_of(Comm const& c, std::vector<int> x)
{
    int r = 0;
    for (size_t i = 0; i < c.dims.size(); ++i) {
        if (x[i] < 0 || x[i] >= c.dims[i]) {
            if (!c.periods[i]) return MPI_PROC_NULL;
            x[i] = ((x[i] % c.dims[i]) + c.dims[i]) % c.dims[i];
        }
        r = r * c.dims[i] + x[i];
    }
    return r;
}
int MPI_Cart_coords(MPI_Comm h, int r, int nd, int* x)
{
    auto c = get_comm(h, "MPI_Cart_coords");
    auto v = coords_of(cart(c, "MPI_Cart_coords"), r);
    for (int i = 0; i < nd && i < static_cast<int>(v.size()); ++i) x[i] = v[static_cast<size_t>(i)];
    return MPI_SUCCESS;
}
int MPI_Cart_rank(MPI_Comm h, int const* x, int* r)
{
    auto c = get_comm(h, "MPI_Cart_rank");
    cart(c, "MPI_Cart_rank");
    *r = rank_of(*c, std::vector<int>(x, x + c->dims.size()));
    return MPI_SUCCESS;
}
int MPI_Cart_shift(MPI_Comm h, int dir, int disp, int* src, int* dst)
{
    auto c = get_comm(h, "MPI_Cart_shift");
    cart(c, "MPI_Cart_shift");
    if (dir < 0 || dir >= static_cast<int>(c->dims.size())) violation("mpi-usage", "MPI_Cart_shift: invalid direction");
    auto x = coords_of(*c, c->find(W.cur));
    auto a = x, b = x;
    a[static_cast<size_t>(dir)] -= disp;
    b[static_cast<size_t>(dir)] += disp;
    *src = rank_of(*c, a);
    *dst = rank_of(*c, b);
    return MPI_SUCCESS;
}
int MPI_Cart_get(MPI_Comm h, int nd, int* dims, int* per, int* x)
{
    auto c = get_comm(h, "MPI_Cart_get");
    cart(c, "MPI_Cart_get");
    auto v = coords_of(*c, c->find(W.cur));
    for (int i = 0; i < nd; ++i) {
        dims[i] = c->dims[static_cast<size_t>(i)];
        per[i] = c->periods[static_cast<size_t>(i)];
        x[i] = v[static_cast<size_t>(i)];
    }
    return MPI_SUCCESS;
}
int MPI_Cartdim_get(MPI_Comm h, int* n)
{
    *n = static_cast<int>(get_comm(h, "MPI_Cartdim_get")->dims.size());
    return MPI_SUCCESS;
}
int MPI_Cart_sub(MPI_Comm h, int const* remain, MPI_Comm* out)
{
    seam("MPI_Cart_sub");
    auto c = get_comm(h, "MPI_Cart_sub");
    cart(c, "MPI_Cart_sub");
    std::string sig = "MPI_Cart_sub";
    for (size_t i = 0; i < c->dims.size(); ++i) sig += remain[i] ? " 1" : " 0";
    std::vector<int> const rem(remain, remain + c->dims.size());
    return new_comm(c, c->find(W.cur), sig, "", out, [&](Coll& k) {
        std::map<std::vector<int>, std::vector<int>> g;
        for (int r = 0; r < static_cast<int>(c->world.size()); ++r) {
            auto x = coords_of(*c, r);
            std::vector<int> key;
            for (size_t i = 0; i < x.size(); ++i) if (!rem[i]) key.push_back(x[i]);
            g[key].push_back(r); // comm ranks in row-major order
        }
        for (auto& [key, m] : g) {
            std::vector<int> w;
            for (int r : m) w.push_back(c->world[static_cast<size_t>(r)]);
            auto d = make_comm(w, true);
            for (size_t i = 0; i < rem.size(); ++i) {
                if (rem[i]) {
                    d->dims.push_back(c->dims[i]);
                    d->periods.push_back(c->periods[i]);
                }
            }
            for (int r : m) k.out_comm[static_cast<size_t>(r)] = d->id;
        }
    });
}

// ---------------------------------------------------------------- point to point
int MPI_Send(void const* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm h)
{
    seam("MPI_Send");
    auto c = get_comm(h, "MPI_Send");
    auto m = post(*c, c->find(W.cur), b, n, t, dst, tag, "MPI_Send");
    if (W.rendezvous && m) block_until("MPI_Send", [m] { return m->taken; });
    return MPI_SUCCESS;
}
int MPI_Ssend(void const* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm h)
{
    seam("MPI_Ssend");
    auto c = get_comm(h, "MPI_Ssend");
    auto m = post(*c, c->find(W.cur), b, n, t, dst, tag, "MPI_Ssend");
    if (m) block_until("MPI_Ssend", [m] { return m->taken; });
    return MPI_SUCCESS;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Status* st)
{
    seam("MPI_Recv");
    auto c = get_comm(h, "MPI_Recv");
    receive(*c, c->find(W.cur), b, n, t, src, tag, st, "MPI_Recv");
    return MPI_SUCCESS;
}
int MPI_Sendrecv(void const* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm h, MPI_Status* st)
{
    seam("MPI_Sendrecv");
    auto c = get_comm(h, "MPI_Sendrecv");
    int const r = c->find(W.cur);
    auto m = post(*c, r, sb, sn, stt, dst, stag, "MPI_Sendrecv");
    receive(*c, r, rb, rn, rt, src, rtag, st, "MPI_Sendrecv");
    if (W.rendezvous && m) block_until("MPI_Sendrecv", [m] { return m->taken; });
    return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm h, MPI_Status* st)
{
    seam("MPI_Sendrecv_replace");
    auto c = get_comm(h, "MPI_Sendrecv_replace");
    int const r = c->find(W.cur);
    auto m = post(*c, r, b, n, t, dst, stag, "MPI_Sendrecv_replace");
    receive(*c, r, b, n, t, src, rtag, st, "MPI_Sendrecv_replace");
    if (W.rendezvous && m) block_until("MPI_Sendrecv_replace", [m] { return m->taken; });
    return MPI_SUCCESS;
}
int MPI_Isend(void const* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm h, MPI_Request* q)
{
    seam("MPI_Isend");
    auto c = get_comm(h, "MPI_Isend");
    Req x {W.cur, false, const_cast<void*>(b), n, t, dst, tag, h, post(*c, c->find(W.cur), b, n, t, dst, tag, "MPI_Isend"), false};
    *q = next_req++;
    reqs[*q] = x;
    return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Request* q)
{
    seam("MPI_Irecv");
    get_comm(h, "MPI_Irecv");
    Req x {W.cur, true, b, n, t, src, tag, h, nullptr, false};
    *q = next_req++;
    reqs[*q] = x;
    return MPI_SUCCESS;
}
// true if waiting for this receive would not block; the ones started earlier with the same envelope count first
static bool ready(Comm& c, int r, Req const& x, int id)
{
    if (x.src == MPI_PROC_NULL) return true;
    for (auto& [i, q] : reqs) {
        if (i >= id) break;
        if (q.owner == W.cur && q.recv && !q.done && q.comm == x.comm && overlaps(q.src, x.src, MPI_ANY_SOURCE) && overlaps(q.tag, x.tag, MPI_ANY_TAG)) {
            if (!pick(c, r, q.src, q.tag)) return false;
            receive(c, r, q.buf, q.count, q.type, q.src, q.tag, &q.status, "MPI_Test", i);
            q.done = true;
        }
    }
    return pick(c, r, x.src, x.tag) != nullptr;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    seam("MPI_Wait");
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    auto it = reqs.find(*q);
    if (it == reqs.end() || it->second.owner != W.cur) violation("mpi-usage", "MPI_Wait on an invalid request");
    Req x = it->second;
    if (x.recv) {
        auto c = get_comm(x.comm, "MPI_Wait");
        if (!x.done) receive(*c, c->find(W.cur), x.buf, x.count, x.type, x.src, x.tag, &x.status, "MPI_Wait", *q);
        if (st) *st = x.status;
    } else if (x.msg) {
        auto m = x.msg;
        if (W.rendezvous) block_until("MPI_Wait", [m] { return m->taken; });
        if (std::memcmp(x.buf, m->data.data(), m->data.size()) != 0) violation("mpi-usage", "the buffer of a non-blocking send was changed before the send was completed");
    }
    reqs.erase(*q);
    *q = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    for (int pass = 0; pass < 2; ++pass) {
        for (int i = 0; i < n; ++i) {
            auto it = reqs.find(q[i]);
            if (it != reqs.end() && it->second.recv == (pass == 0)) MPI_Wait(&q[i], st ? &st[i] : MPI_STATUS_IGNORE);
        }
    }
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
    seam("MPI_Test");
    *flag = 1;
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    if (!reqs.count(*q)) violation("mpi-usage", "MPI_Test on an invalid request");
    Req const x = reqs.at(*q);
    if (x.recv) {
        auto c = get_comm(x.comm, "MPI_Test");
        if (!x.done && !ready(*c, c->find(W.cur), x, *q)) {
            *flag = 0;
            return MPI_SUCCESS;
        }
    } else if (x.msg && W.rendezvous && !x.msg->taken) {
        *flag = 0;
        return MPI_SUCCESS;
    }
    return MPI_Wait(q, st);
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st)
{
    *flag = 1;
    for (int i = 0; i < n; ++i) {
        int f = 0;
        MPI_Test(&q[i], &f, st ? &st[i] : MPI_STATUS_IGNORE);
        if (!f) *flag = 0;
    }
    return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st)
{
    *idx = MPI_UNDEFINED;
    bool any = false;
    for (int i = 0; i < n; ++i) any |= q[i] != MPI_REQUEST_NULL;
    while (any) {
        for (int i = 0; i < n; ++i) {
            if (q[i] == MPI_REQUEST_NULL) continue;
            int f = 0;
            MPI_Test(&q[i], &f, st);
            if (f) {
                *idx = i;
                return MPI_SUCCESS;
            }
        }
        seam("MPI_Waitany");
        bool const now = mpi_advance();
        (void)now;
    }
    return MPI_SUCCESS;
}
int MPI_Get_count(MPI_Status const* st, MPI_Datatype t, int* n)
{
    *n = st->sim_count / tsize(t);
    return MPI_SUCCESS;
}

// ---------------------------------------------------------------- collectives
int MPI_Barrier(MPI_Comm h)
{
    seam("MPI_Barrier");
    auto c = get_comm(h, "MPI_Barrier");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, "MPI_Barrier", "");
    wait_all(*c, k, "MPI_Barrier");
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm h)
{
    seam("MPI_Bcast");
    auto c = get_comm(h, "MPI_Bcast");
    int const r = c->find(W.cur);
    if (root < 0 || root >= static_cast<int>(c->world.size())) violation("mpi-usage", "MPI_Bcast: invalid root");
    std::string mine = r == root ? grab("MPI_Bcast", b, n, t) : std::string();
    Coll& k = enter(*c, r, str_sig("MPI_Bcast", {n, t, root}), std::move(mine));
    if (r != root) {
        auto const sr = static_cast<size_t>(root);
        block_until("MPI_Bcast", [&k, sr] { return static_cast<bool>(k.in[sr]); });
        check_buffer("MPI_Bcast", b, k.data[sr].size(), device_ok());
        std::memcpy(b, k.data[sr].data(), k.data[sr].size());
    } else if (W.rendezvous) {
        wait_all(*c, k, "MPI_Bcast");
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Allreduce(void const* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
    seam("MPI_Allreduce");
    auto c = get_comm(h, "MPI_Allreduce");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, str_sig("MPI_Allreduce", {n, t, op}), grab("MPI_Allreduce", s == MPI_IN_PLACE ? d : s, n, t));
    wait_all(*c, k, "MPI_Allreduce");
    compute(k, n, t, op);
    check_buffer("MPI_Allreduce", d, k.result.size(), device_ok());
    std::memcpy(d, k.result.data(), k.result.size());
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Reduce(void const* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h)
{
    seam("MPI_Reduce");
    auto c = get_comm(h, "MPI_Reduce");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, str_sig("MPI_Reduce", {n, t, op, root}), grab("MPI_Reduce", s == MPI_IN_PLACE ? d : s, n, t));
    if (r == root) {
        wait_all(*c, k, "MPI_Reduce");
        compute(k, n, t, op);
        check_buffer("MPI_Reduce", d, k.result.size(), device_ok());
        std::memcpy(d, k.result.data(), k.result.size());
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
static int scan(void const* s, void* d, int n, int t, int op, int h, bool incl)
{
    auto c = get_comm(h, "MPI_Scan");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, str_sig(incl ? "MPI_Scan" : "MPI_Exscan", {n, t, op}), grab("MPI_Scan", s == MPI_IN_PLACE ? d : s, n, t));
    wait_all(*c, k, "MPI_Scan");
    int const last = incl ? r : r - 1;
    if (last >= 0) {
        std::string a = k.data[0];
        for (int i = 1; i <= last; ++i) reduce(a, k.data[static_cast<size_t>(i)], n, t, op);
        std::memcpy(d, a.data(), a.size());
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Scan(void const* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
    seam("MPI_Scan");
    return scan(s, d, n, t, op, h, true);
}
int MPI_Exscan(void const* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
    seam("MPI_Exscan");
    return scan(s, d, n, t, op, h, false);
}
int MPI_Gather(void const* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
    seam("MPI_Gather");
    auto c = get_comm(h, "MPI_Gather");
    int const r = c->find(W.cur);
    std::string mine;
    size_t const blk = static_cast<size_t>(sn) * static_cast<size_t>(tsize(st));
    if (s == MPI_IN_PLACE) mine = std::string(static_cast<char*>(d) + static_cast<size_t>(r) * static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt)), static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt)));
    else mine = grab("MPI_Gather", s, sn, st);
    (void)blk;
    Coll& k = enter(*c, r, str_sig("MPI_Gather", {root}), mine);
    if (r == root) {
        wait_all(*c, k, "MPI_Gather");
        size_t const b = static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt));
        for (size_t i = 0; i < k.data.size(); ++i) std::memcpy(static_cast<char*>(d) + i * b, k.data[i].data(), std::min(b, k.data[i].size()));
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Allgather(void const* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, MPI_Comm h)
{
    seam("MPI_Allgather");
    auto c = get_comm(h, "MPI_Allgather");
    int const r = c->find(W.cur);
    size_t const b = static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt));
    std::string mine = s == MPI_IN_PLACE ? std::string(static_cast<char*>(d) + static_cast<size_t>(r) * b, b) : grab("MPI_Allgather", s, sn, st);
    Coll& k = enter(*c, r, "MPI_Allgather", mine);
    wait_all(*c, k, "MPI_Allgather");
    for (size_t i = 0; i < k.data.size(); ++i) std::memcpy(static_cast<char*>(d) + i * b, k.data[i].data(), std::min(b, k.data[i].size()));
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Allgatherv(void const* s, int sn, MPI_Datatype st, void* d, int const* rn, int const* off, MPI_Datatype rt, MPI_Comm h)
{
    seam("MPI_Allgatherv");
    auto c = get_comm(h, "MPI_Allgatherv");
    int const r = c->find(W.cur);
    size_t const b = static_cast<size_t>(tsize(rt));
    std::string mine = s == MPI_IN_PLACE ? std::string(static_cast<char*>(d) + static_cast<size_t>(off[r]) * b, static_cast<size_t>(rn[r]) * b) : grab("MPI_Allgatherv", s, sn, st);
    Coll& k = enter(*c, r, "MPI_Allgatherv", mine);
    wait_all(*c, k, "MPI_Allgatherv");
    for (size_t i = 0; i < k.data.size(); ++i) {
        if (k.data[i].size() != static_cast<size_t>(rn[i]) * b) violation("mpi-truncate", "MPI_Allgatherv: contribution of another size");
        std::memcpy(static_cast<char*>(d) + static_cast<size_t>(off[i]) * b, k.data[i].data(), k.data[i].size());
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Gatherv(void const* s, int sn, MPI_Datatype st, void* d, int const* rn, int const* off, MPI_Datatype rt, int root, MPI_Comm h)
{
    seam("MPI_Gatherv");
    auto c = get_comm(h, "MPI_Gatherv");
    int const r = c->find(W.cur);
    size_t const b = static_cast<size_t>(tsize(rt));
    std::string mine = s == MPI_IN_PLACE ? std::string(static_cast<char*>(d) + static_cast<size_t>(off[r]) * b, static_cast<size_t>(rn[r]) * b) : grab("MPI_Gatherv", s, sn, st);
    Coll& k = enter(*c, r, str_sig("MPI_Gatherv", {root}), mine);
    if (r == root) {
        wait_all(*c, k, "MPI_Gatherv");
        for (size_t i = 0; i < k.data.size(); ++i) {
            if (k.data[i].size() != static_cast<size_t>(rn[i]) * b) violation("mpi-truncate", "MPI_Gatherv: contribution of another size");
            std::memcpy(static_cast<char*>(d) + static_cast<size_t>(off[i]) * b, k.data[i].data(), k.data[i].size());
        }
    }
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Alltoall(void const* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, MPI_Comm h)
{
    seam("MPI_Alltoall");
    auto c = get_comm(h, "MPI_Alltoall");
    int const r = c->find(W.cur);
    Coll& k = enter(*c, r, "MPI_Alltoall", grab("MPI_Alltoall", s == MPI_IN_PLACE ? d : s, (s == MPI_IN_PLACE ? rn : sn) * static_cast<int>(c->world.size()), s == MPI_IN_PLACE ? rt : st));
    wait_all(*c, k, "MPI_Alltoall");
    size_t const b = static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt));
    for (size_t i = 0; i < k.data.size(); ++i) std::memcpy(static_cast<char*>(d) + i * b, k.data[i].data() + static_cast<size_t>(r) * b, b);
    leave(*c, r, k);
    return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm h, MPI_Status* st)
{
    seam("MPI_Probe");
    auto c = get_comm(h, "MPI_Probe");
    int const r = c->find(W.cur);
    block_until("MPI_Probe", [&] { return pick(*c, r, src, tag) != nullptr; });
    auto m = pick(*c, r, src, tag);
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_count = static_cast<int>(m->data.size()); }
    return MPI_SUCCESS;
}
int MPI_Scatter(void const* s, int sn, MPI_Datatype st, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
    seam("MPI_Scatter");
    auto c = get_comm(h, "MPI_Scatter");
    int const r = c->find(W.cur);
    std::string mine;
    if (r == root) mine = grab("MPI_Scatter", s, sn * static_cast<int>(c->world.size()), st);
    Coll& k = enter(*c, r, str_sig("MPI_Scatter", {root}), mine);
    auto const sr = static_cast<size_t>(root);
    block_until("MPI_Scatter", [&k, sr] { return static_cast<bool>(k.in[sr]); });
    size_t const b = static_cast<size_t>(rn) * static_cast<size_t>(tsize(rt));
    if (d != MPI_IN_PLACE) std::memcpy(d, k.data[sr].data() + static_cast<size_t>(r) * b, b);
    leave(*c, r, k);
    return MPI_SUCCESS;
}
}
