// Simulator runtime: internals shared between rt.cpp, io.cpp and drv.cpp.
#pragma once
#include "rt.h"
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Sw { uint32_t tid; uint32_t target; uint64_t step; };
struct Flt { uint32_t kind; uint32_t pad; uint64_t idx; uint64_t val; };

struct Plan {
    const Scenario* sc = nullptr;
    uint64_t seed = 0;
    bool explicit_mode = false;
    std::vector<Sw> sw;
    std::vector<Flt> flt;
    std::vector<uint32_t> dropped_ops;
    std::map<std::string, uint64_t> knobs;
    bool verbose = false;
};

enum { MAX_SW = 60000, MAX_FLT = 20000, MAX_PROBES = 96, MAX_SITES = 4096, MAX_KNOBS = 96 };
struct ProbeRec { char name[48]; uint64_t count; };
struct KnobRec { char name[40]; uint64_t val, lo, hi; };
struct Result {
    volatile int status;         // 0 = child died without report, 1 = ok, 2 = violation
    char cls[80];
    char detail[6000];
    uint64_t hash, sched_hash, steps, switches, preempts, simtime, ops;
    uint64_t faults[F_COUNT];
    uint32_t threads;
    int nontrivial;
    uint32_t n_sw, n_flt, n_probes, n_sites, n_knobs;
    int sw_overflow;
    Sw sw[MAX_SW];
    Flt flt[MAX_FLT];
    ProbeRec probes[MAX_PROBES];
    KnobRec knobs[MAX_KNOBS];
    uint64_t sites[MAX_SITES];
    char sample[8192];
    char bt[640];
};

extern Plan g_plan;
extern Result* g_res;
extern bool g_active;
std::vector<Scenario>& scenarios();

// Runs the plan in this process (a forked child); never returns.
[[noreturn]] void run_child();

// Blocking inside the simulator.
struct BlkFn { bool (*fn)(void*); void* ctx; };
bool block(bool (*ready)(void*), void* ctx, uint64_t deadline, const char* what, const void* obj); // false on timeout
template <class F> bool block_on(F& f, const char* what, const void* obj, uint64_t deadline = ~0ull) {
    return block([](void* c) { return (*static_cast<F*>(c))(); }, &f, deadline, what, obj);
}
void sync_point(int kind, uint64_t a = 0);
bool in_sim();          // called from a simulated thread
bool in_sut();
void heap_check(const void* p, size_t n, const char* what);
void real_init();
void fs_reset();
void* real_sym(const char* name);
enum { K_LOCK = 1, K_UNLOCK, K_CWAIT, K_CSIGNAL, K_CREATE, K_JOIN, K_CLOCK, K_SLEEP, K_SOCK, K_FILE, K_ONCE, K_YIELD, K_GUARD };
} // namespace sim
