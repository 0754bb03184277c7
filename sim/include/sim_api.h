// Interface exported by the simulator executable to the code under test (one copy per simulated rank).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- generic
[[noreturn]] void sim_violation(char const* kind, char const* msg);
void sim_note(char const* kind, char const* msg);
int sim_rank();                                        // world rank of the running fiber
// ---- kernels
struct SimKernelPlan
{
    int order;          // 0 natural, 1 reversed, 2 affine permutation
    uint64_t mul, add;  // affine parameters
    int groups;         // number of partial results of a reduction / chunks of a scan
    uint64_t join_seed; // order of joins
    int defer;          // 1: asynchronous execution, run at the next fence
    int race;           // 1: record accesses and look for conflicting iterations
};
void sim_kernel_plan(char const* label, uint64_t n, int kind, SimKernelPlan* plan);
void sim_kernel_done(char const* label, uint64_t n, int kind);
void sim_transfer(int dst_space, int src_space, uint64_t bytes, char const* label);
void sim_fence(char const* label);
void* sim_alloc(char const* label, uint64_t bytes, int space); // null: injected allocation failure
void sim_free(void* p, uint64_t bytes, int space);
int sim_unified();
// ---- probes used by the simulation's own setup
void sim_probe(char const* name, double const* data, uint64_t n);
// ---- parameters of the scenario, read by the simulation's own setup
double sim_param(char const* name, double dflt);
}
