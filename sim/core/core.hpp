// Internal interface of the simulator.
#pragma once
#include <ucontext.h>

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng
{
    uint64_t s = 0;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(double p) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
uint64_t hash_str(std::string const& s, uint64_t h = 1469598103934665603ULL);
inline uint64_t mix(uint64_t h, uint64_t v) { return (h ^ (v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2))) * 1099511628211ULL; }

struct Fault
{
    std::string site;
    int rank = -1; // -1: any rank (global count)
    long nth = 0;  // 0-based occurrence
    std::string action;
    double param = 0;
    bool fired = false;
};

struct Alloc
{
    uint64_t bytes;
    int space;
    std::string label;
};

struct Rank
{
    int id = 0;
    ucontext_t ctx {};
    char* stack = nullptr;
    enum State { Runnable, Blocked, Done } state = Runnable;
    std::function<bool()> ready;
    std::string where;
    int exit_code = -1;
    std::string out, err;
    double vt = 0; // virtual time, ns
    double rate = 1, offset = 0;
    unsigned char eh[16] {};
    unsigned char iosstate[2][64] {};
    std::map<std::string, long> counters;
    std::map<uintptr_t, Alloc> allocs;
    uint64_t alloc_bytes = 0;
    bool mpi_init = false, mpi_fin = false;
    std::map<std::string, std::string> note;
    Rng rnd_dev;
    long long nrandom = 0;
    long long transfers_h2d = 0, transfers_d2h = 0, transfers_same = 0, fences = 0;
};

struct World
{
    std::map<std::string, std::string> sc; // scenario
    std::string pfx;                       // "p0."
    std::vector<Rank> ranks;
    int cur = -1;
    ucontext_t sched_ctx {};
    long ev = 0; // global event counter
    long crash_at = -1;
    long max_events = 2000000;
    uint64_t hash = 1469598103934665603ULL;
    long switches = 0;
    long kernels = 0, messages = 0, collectives = 0, io_ops = 0;
    bool seeded = true;
    Rng rng;
    std::vector<std::pair<long, uint64_t>> decisions; // nonzero decisions
    std::map<long, uint64_t> replay;
    long ndec = 0;
    std::vector<Fault> faults;
    std::map<std::string, long> global_counters;
    std::vector<std::string> leaks;
    std::vector<std::string> notes;
    double p_switch_kernel = 0.1, p_switch_seam = 0.5, p_korder = 0.5, p_defer = 0.3;
    double sched_bias = 0; // probability of keeping a favourite rank starved
    int starve = -1;
    int race = 0;
    int max_latency = 4;
    bool unified = false;
    bool reorder = false;
    bool rendezvous = false;
    double param(std::string const& k, double d) const;
    std::string str(std::string const& k, std::string const& d) const;
    std::string outdir;
    int phase = 0;
};
extern World W;

Rank& me();
// decision in [0,n): 0 is the canonical choice; with probability 1-p the canonical choice is taken
uint64_t decide(uint64_t n, double p = 1.0);
// one event at a seam; may crash the job, may switch fiber
void seam(char const* kind, bool allow_switch = true);
void maybe_switch(double p);
void block_until(char const* where, std::function<bool()> ready);
Fault* fault_at(char const* site);
[[noreturn]] void finish(std::string const& end, std::string const& kind, std::string const& msg);
[[noreturn]] void violation(std::string const& kind, std::string const& msg);
void note(std::string const& s);
void check_buffer(char const* what, void const* p, uint64_t bytes, bool device_ok);

// file system
struct H5Dataset
{
    std::string type; // "int" or "double"
    std::vector<uint64_t> dims;
    std::string data;
    std::string writer; // last writing rank +1 per element (only while being written)
};
struct H5File
{
    std::map<std::string, H5Dataset> dsets;
    std::map<std::string, std::string> attrs;
};
struct Node
{
    bool dir = false;
    bool h5 = false;
    bool torn = false; // an HDF5 file that cannot be opened
    std::string bytes;
    std::shared_ptr<H5File> file;     // committed content
    std::shared_ptr<H5File> inflight; // being written
    int writers = 0, readers = 0;
    bool dirty = false; // written to since the last flush
    int writer_group = 0;
    long commits = 0;
};
extern std::map<std::string, std::shared_ptr<Node>> disk;
std::string norm(std::string const& p);
bool is_virtual(char const* p);
void disk_save(std::string const& file, bool crashed);
void disk_load(std::string const& file);
std::shared_ptr<Node> find(std::string const& p);
bool parent_exists(std::string const& p);
void journal(std::string const& what, std::string const& path);
void check_h5_leaks();
void note_open_h5(); // what the process ending the job still holds open

// mpi helpers used by the I/O layer
int comm_rank_of(int comm);
int comm_size_of(int comm);
void comm_sync(int comm, std::string const& signature);
} // namespace sim
