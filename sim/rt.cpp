// Simulator runtime: deterministic scheduler, synchronisation, clock, checked heap and the
// memory-access callbacks of code compiled with -fsanitize=thread (whose own runtime is not linked).
#include <cstdarg>
#include <linux/futex.h>
#include <sys/syscall.h>
#include "rt_internal.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_memalign(size_t, size_t);

namespace sim {

const char* const fault_names[F_COUNT] = {
    "short_send", "send_eintr", "send_reset", "short_recv", "recv_eintr", "recv_reset",
    "accept_eintr", "accept_aborted", "accept_emfile",
    "socket_fail", "setsockopt_fail", "bind_fail", "listen_fail", "connect_refused",
    "open_fail", "write_eio", "write_enospc", "write_short", "write_eintr",
    "read_short", "read_eio", "read_eintr", "close_eio",
    "alloc_fail", "spurious_wakeup", "clock_jump", "process_crash", "stall",
    "peer_close", "peer_reset", "bitflip", "truncate", "proc_read_fault", "thread_create_fail", "send_enobufs",
};

Plan g_plan;
Result* g_res;
bool g_active = false;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario& s) { scenarios().push_back(s); }

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull)); return r.next(); }
uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

// ================================================================= threads
enum { MAX_THREADS = 96, STACK_SIZE = 512 * 1024 };
static const uintptr_t STACK_BASE = 0x210000000000ull;
static const uintptr_t STACK_STRIDE = 0x200000ull;

enum St { T_RUN, T_BLK, T_DONE, T_DEAD };
struct Dtor { void (*fn)(void*); void* obj; };
struct Thread {
    int id;
    std::atomic<int> fut;
    St st;
    bool (*ready)(void*); void* rctx; uint64_t deadline; bool timed_out; const char* what; const void* obj;
    uint64_t steps, next, ready_since;
    int in_sut;
    bool app;
    void* (*fn)(void*); void* arg; void* ret;
    std::function<void()>* hfn;
    pthread_t pt;
    bool detached;
    Dtor dtors[64]; int ndtors;
    void* keys[128];
    uint64_t prio;
    char name[24];
    bool cond_signaled; const void* cond_obj;
    size_t swpos; std::vector<Sw>* sws;
    char alt[16384];
};
static __thread Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;
static Thread* threads[MAX_THREADS];
static int nthreads;
static uint64_t g_steps, g_next, g_step_cap = 3000000, g_crash_at = ~0ull;
static bool g_crashed;
static uint64_t g_now;
static uint64_t g_clock_step = 1000;
static uint64_t FAIR = 60000;
static uint64_t g_starve = 200000;                 // a ready thread is scheduled after at most about this many steps
void set_starvation_bound(uint64_t n) { g_starve = n; if (FAIR > 2 * n) FAIR = 2 * n; }
static int g_hiprio = 4000000;
static uint64_t g_run_len;              // consecutive steps without a switch
static std::atomic<int> g_finish;

// schedule policy
enum Pol { P_RANDOM, P_PCT };
static Pol g_pol;
static uint64_t g_access_den, g_sync_num;  // preempt probability at accesses 1/den (0 = never), at sync points num/64
static Rng g_srng(1), g_frng(1), g_crng(1);
static uint64_t g_pct[8]; static int g_npct, g_pctpos; static uint64_t g_lowprio;
static unsigned g_frate_num[F_COUNT], g_frate_den[F_COUNT];
static uint64_t g_fidx[F_COUNT];
static std::map<std::pair<uint32_t, uint64_t>, uint64_t>* g_xfaults;
static uint32_t g_opidx;

void set_step_cap(uint64_t c);
bool in_sim() { return self != nullptr; }
bool in_sut() { return self && self->in_sut; }
int self_id() { return self ? self->id : -1; }
bool is_app_thread() { return self && self->app; }
uint64_t now() { return g_now; }
uint64_t seed() { return g_plan.seed; }
uint64_t global_steps() { return g_steps; }
uint64_t runs_steps() { return g_steps; }
bool large_run(unsigned odds) { if (knob("large", 0, odds - 1) != odds - 1) return false; set_coarse(); probe("large run"); return true; }
void set_coarse() { if (g_access_den && g_access_den < 30000) g_access_den = 30000; if (g_sync_num > 1) g_sync_num = 1; set_step_cap(400000000); }
void set_step_cap(uint64_t c) { g_step_cap = c; if (g_next > c) g_next = c; }

static long raw_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static void futex_wait(std::atomic<int>* a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(std::atomic<int>* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void fold(uint64_t v) { g_res->hash = (g_res->hash ^ v) * 0x100000001b3ull; g_res->hash ^= g_res->hash >> 29; }

void trace(const char* fmt, ...) {
    if (likely(!g_plan.verbose)) return;
    char b[1024]; va_list ap; va_start(ap, fmt);
    int n = snprintf(b, sizeof b, "[%8lu t%d] ", (unsigned long)g_steps, self ? self->id : -1);
    n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (write(9, b, n)) {}
}
void note(const char* fmt, ...) {
    size_t l = strlen(g_res->sample);
    if (l + 2 >= sizeof g_res->sample) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_res->sample + l, sizeof g_res->sample - l, fmt, ap); va_end(ap);
}
void nontrivial() { g_res->nontrivial = 1; }
void probe(const char* name) {
    for (uint32_t i = 0; i < g_res->n_probes; i++)
        if (!strcmp(g_res->probes[i].name, name)) { g_res->probes[i].count++; return; }
    if (g_res->n_probes < MAX_PROBES) {
        ProbeRec& p = g_res->probes[g_res->n_probes++];
        snprintf(p.name, sizeof p.name, "%s", name); p.count = 1;
    }
}

static void finalize() {
    g_res->steps = g_steps; g_res->simtime = g_now; g_res->threads = nthreads; g_res->ops = g_opidx;
}
[[noreturn]] static void die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }
void fail(const char* cls, const char* fmt, ...) {
    static std::atomic<int> once{0};
    if (once.exchange(1)) { for (;;) futex_wait(&g_finish, 0); }
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_res->detail, sizeof g_res->detail, fmt, ap); va_end(ap);
    fold(hash_str(cls));
    finalize();
    if (self) {   // frames of the failing thread (frame pointers are kept everywhere)
        uintptr_t lo = STACK_BASE + (uintptr_t)self->id * STACK_STRIDE, hi = lo + STACK_SIZE, fp = (uintptr_t)__builtin_frame_address(0);
        size_t l = 0; g_res->bt[0] = 0;
        for (int i = 0; i < 24 && fp >= lo && fp + 16 <= hi && l + 24 < sizeof g_res->bt; i++) {
            uintptr_t pc = ((uintptr_t*)fp)[1], nx = ((uintptr_t*)fp)[0];
            l += snprintf(g_res->bt + l, sizeof g_res->bt - l, " %#lx", (unsigned long)pc);
            if (nx <= fp) break;
            fp = nx;
        }
    }
    trace("VIOLATION %s: %s", cls, g_res->detail);
    g_res->status = 2;
    die(0);
}

// ----------------------------------------------------------------- scheduling
static void update_gnext() {
    uint64_t n = g_step_cap;
    if (g_crash_at < n) n = g_crash_at;
    if (!g_plan.explicit_mode && g_pol == P_PCT && g_pctpos < g_npct && g_pct[g_pctpos] < n) n = g_pct[g_pctpos];
    g_next = n;
}
static void draw_next(Thread* t) {
    if (g_plan.explicit_mode) {
        while (t->swpos < t->sws->size() && (*t->sws)[t->swpos].step <= t->steps) t->swpos++;
        t->next = t->swpos < t->sws->size() ? (*t->sws)[t->swpos].step : ~0ull;
    } else if (g_pol == P_RANDOM && g_access_den) {
        // geometric-ish distance
        t->next = t->steps + 1 + g_srng.below(2 * g_access_den);
    } else t->next = ~0ull;
}
static bool is_ready(Thread* t) {
    if (t->st == T_RUN) return true;
    if (t->st != T_BLK) return false;
    if (t->ready && t->ready(t->rctx)) return true;
    if (t->deadline <= g_now) return true;
    return false;
}
static void freeze_app() {
    g_crashed = true; g_crash_at = ~0ull;
    for (int i = 0; i < nthreads; i++) if (threads[i]->app && threads[i]->st != T_DONE) threads[i]->st = T_DEAD;
    g_res->faults[F_CRASH]++;
    update_gnext();
    trace("CRASH: application threads frozen");
}
bool crashed() { return g_crashed; }
void arm_crash(uint64_t s) { g_crash_at = g_steps + s; update_gnext(); }

static void describe_blocked(char* b, size_t n) {
    size_t l = 0;
    for (int i = 0; i < nthreads && l + 1 < n; i++) {
        Thread* t = threads[i];
        if (t->st == T_BLK || t->st == T_RUN)
            l += snprintf(b + l, n - l, "%s(t%d)%s ", t->name, t->id, t->st == T_BLK ? (std::string(":blocked in ") + t->what).c_str() : ":runnable");
    }
}
static void park_forever() { for (;;) futex_wait(&g_finish, 0); }

static void switch_to(Thread* t) {
    Thread* me = self;
    if (t == me) return;
    g_run_len = 0;
    g_res->switches++;
    g_res->sched_hash = (g_res->sched_hash ^ (me->id * 131 + t->id + (me->steps << 16))) * 0x100000001b3ull;
    fold(((uint64_t)me->id << 8) ^ t->id ^ (me->steps << 16));
    t->fut.store(1, std::memory_order_release);
    futex_wake(&t->fut);
    if (me->st == T_DONE || me->st == T_DEAD) park_forever();
    while (me->fut.load(std::memory_order_acquire) == 0) futex_wait(&me->fut, 0);
    me->fut.store(0, std::memory_order_relaxed);
}

static void record_sw(Thread* me, Thread* target) {
    if (g_res->n_sw < MAX_SW) g_res->sw[g_res->n_sw++] = {(uint32_t)me->id, (uint32_t)target->id, me->steps};
    else g_res->sw_overflow = 1;
}

// Chooses the next thread and transfers control.  `must`: the current thread cannot continue
// (blocked/done); `preempt`: the policy wants a switch here.
static void decide(bool preempt) {
    Thread* me = self;
    if (g_steps >= g_crash_at) freeze_app();
    if (g_steps >= g_step_cap) {
        char b[1500] = ""; describe_blocked(b, sizeof b);
        fail("no-progress", "no completion within %lu simulated steps; threads: %s", (unsigned long)g_step_cap, b);
    }
    Thread* cand[MAX_THREADS]; int nc = 0; bool me_ok = false;
    for (;;) {
        nc = 0; me_ok = false;
        uint64_t earliest = ~0ull; bool alive = false;
        for (int i = 0; i < nthreads; i++) {
            Thread* t = threads[i];
            if (t->st == T_DONE || t->st == T_DEAD) continue;
            alive = true;
            if (is_ready(t)) { cand[nc++] = t; if (t == me) me_ok = true; if (!t->ready_since) t->ready_since = g_steps; }
            else if (t->deadline != ~0ull && t->deadline < earliest) earliest = t->deadline;
        }
        if (nc) break;
        if (earliest == ~0ull || !alive) {
            char b[2500] = ""; describe_blocked(b, sizeof b);
            fail("deadlock", "no thread can make progress: %s", b);
        }
        g_now = earliest;
        if (++g_steps >= g_step_cap) {
            char b[1500] = ""; describe_blocked(b, sizeof b);
            fail("no-progress", "no completion within %lu simulated steps; threads: %s", (unsigned long)g_step_cap, b);
        }
    }
    bool forced = me_ok && g_run_len > FAIR && nc > 1;
    if (g_run_len > FAIR) g_run_len = 0;
    // default choice: keep running; otherwise the next candidate in cyclic id order
    Thread* def = nullptr;
    if (me_ok && !forced) def = me;
    else {
        for (int i = 0; i < nc; i++) if (cand[i]->id > me->id) { def = cand[i]; break; }
        if (!def) def = cand[0];
        if (def == me && nc > 1) def = cand[0] == me ? cand[1] : cand[0];
    }
    Thread* ch = def;
    if (g_plan.explicit_mode) {
        while (me->swpos < me->sws->size() && (*me->sws)[me->swpos].step < me->steps) me->swpos++;
        if (me->swpos < me->sws->size() && (*me->sws)[me->swpos].step == me->steps) {
            uint32_t tgt = (*me->sws)[me->swpos].target;
            for (int i = 0; i < nc; i++) if ((uint32_t)cand[i]->id == tgt) ch = cand[i];
        }
    } else if (g_pol == P_RANDOM) {
        if (!me_ok || forced) {
            if (nc > 1) {
                int k; do k = g_srng.below(nc); while (forced && cand[k] == me);
                ch = cand[k];
            } else ch = cand[0];
        } else if (preempt && nc > 1) {
            int k; do k = g_srng.below(nc); while (cand[k] == me);
            ch = cand[k];
        }
    } else {
        if (g_pctpos < g_npct && g_steps >= g_pct[g_pctpos]) {
            while (g_pctpos < g_npct && g_steps >= g_pct[g_pctpos]) g_pctpos++;
            me->prio = g_lowprio--;
            update_gnext();
        }
        if (forced) me->prio = g_lowprio--;
        ch = cand[0];
        for (int i = 1; i < nc; i++) if (cand[i]->prio > ch->prio) ch = cand[i];
    }
    if (!g_plan.explicit_mode) {
        Thread* st = nullptr;
        for (int i = 0; i < nc; i++) if (cand[i] != me && cand[i] != ch && cand[i]->ready_since + g_starve < g_steps && (!st || cand[i]->ready_since < st->ready_since)) st = cand[i];
        if (st) { ch = st; ch->prio = g_hiprio++; }
    }
    ch->ready_since = 0; if (me_ok) me->ready_since = 0;
    if (ch != def) record_sw(me, ch);
    if (me_ok && ch != me) g_res->preempts++;
    if (ch->st == T_BLK) {
        bool rdy = ch->ready && ch->ready(ch->rctx);
        ch->timed_out = !rdy;
        ch->st = T_RUN; ch->ready = nullptr; ch->deadline = ~0ull;
    }
    trace("switch -> t%d (%s)", ch->id, ch->name);
    switch_to(ch);
    draw_next(me);
}

static void __attribute__((noinline)) slow_access(void* pc) {
    Thread* me = self;
    bool hit = me->steps >= me->next;
    if (hit && g_res->n_sites < MAX_SITES) g_res->sites[g_res->n_sites++] = (uint64_t)pc;
    if (g_pol == P_PCT && !g_plan.explicit_mode) {
        if (g_pctpos < g_npct && g_steps >= g_pct[g_pctpos] && g_res->n_sites < MAX_SITES) g_res->sites[g_res->n_sites++] = (uint64_t)pc;
        hit = true;
    }
    trace("preemption point pc=%p", pc);
    decide(hit);
    if (me->next <= me->steps) draw_next(me);
}

void sync_point(int kind, uint64_t a) {
    Thread* me = self;
    if (!me) return;
    me->steps++; g_steps++; g_run_len++;
    (void)a; if (unlikely(g_plan.verbose)) trace("sync point kind=%d from %p", kind, __builtin_return_address(0));
    if (g_plan.explicit_mode) {
        if (me->steps >= me->next || g_steps >= g_next || g_run_len > FAIR) decide(true);
        return;
    }
    bool p;
    if (g_pol == P_RANDOM) p = g_srng.below(64) < g_sync_num || me->steps >= me->next;
    else p = true;
    if (p || g_steps >= g_next || g_run_len > FAIR) decide(p);
}

bool block(bool (*ready)(void*), void* ctx, uint64_t deadline, const char* what, const void* obj) {
    Thread* me = self;
    me->steps++; g_steps++;
    me->st = T_BLK; me->ready = ready; me->rctx = ctx; me->deadline = deadline; me->what = what; me->obj = obj;
    me->timed_out = false;
    trace("block: %s", what);
    decide(true);
    return !me->timed_out;
}

static inline __attribute__((always_inline)) void access_point(void* pc) {
    Thread* me = self;
    if (likely(me && me->in_sut)) {
        me->steps++; g_steps++; g_run_len++;
        if (unlikely(me->steps >= me->next || g_steps >= g_next || g_run_len > FAIR)) slow_access(pc);
    }
}

// ----------------------------------------------------------------- thread creation
static void run_dtors(Thread* t) {
    for (int round = 0; round < 8; round++) {
        bool any = false;
        while (t->ndtors) { Dtor d = t->dtors[--t->ndtors]; any = true; d.fn(d.obj); }
        extern void run_key_dtors(Thread*, bool*);
        run_key_dtors(t, &any);
        if (!any) break;
    }
}
static struct { bool used; void (*dtor)(void*); } g_keys[128];
void run_key_dtors(Thread* t, bool* any) {
    for (int k = 0; k < 128; k++)
        if (g_keys[k].used && g_keys[k].dtor && t->keys[k]) { void* v = t->keys[k]; t->keys[k] = nullptr; *any = true; g_keys[k].dtor(v); }
}
static void* thread_main(void* p) {
    Thread* t = (Thread*)p;
    self = t;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = t->alt; ss.ss_size = sizeof t->alt; sigaltstack(&ss, nullptr);
    while (t->fut.load(std::memory_order_acquire) == 0) futex_wait(&t->fut, 0);
    t->fut.store(0);
    draw_next(t);
    struct Exit {                              // pthread_exit() unwinds to here
        Thread* t; bool normal;
        ~Exit() { if (normal) return; t->in_sut = 1; run_dtors(t); t->in_sut = 0; t->steps++; g_steps++; t->st = T_DONE; trace("thread exits"); decide(true); park_forever(); }
    } ex{t, false};
    if (t->hfn) (*t->hfn)(); else t->ret = t->fn(t->arg);
    ex.normal = true;
    { int o = t->in_sut; t->in_sut = 1; run_dtors(t); t->in_sut = o; }
    if (t->id == 0) { finalize(); g_res->status = 1; die(0); }
    t->steps++; g_steps++;
    t->st = T_DONE;
    trace("thread done");
    decide(true);
    park_forever();
    return nullptr;
}
static std::vector<Sw> per[MAX_THREADS];      // explicit mode: the switches to take, filled before the run's heap is in use
static Thread* new_thread(const char* name) {
    if (nthreads >= MAX_THREADS) fail("harness-limit", "too many threads");
    Thread* t = (Thread*)mmap(nullptr, sizeof(Thread), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    new (t) Thread();
    t->id = nthreads; t->st = T_RUN; t->deadline = ~0ull; t->next = ~0ull;
    snprintf(t->name, sizeof t->name, "%s", name);
    t->sws = (std::vector<Sw>*)nullptr;
    t->sws = &per[t->id];
    t->prio = 1000000 + g_srng.below(1000000);
    threads[nthreads++] = t;
    return t;
}
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static void start_thread(Thread* t) {
    static pc_t real = (pc_t)real_sym("pthread_create");
    uintptr_t base = STACK_BASE + (uintptr_t)t->id * STACK_STRIDE;
    void* st = mmap((void*)base, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, STACK_SIZE);
    int o = self ? self->in_sut : 0; if (self) self->in_sut = 0;
    int r = real(&t->pt, &at, thread_main, t);
    if (self) self->in_sut = o;
    if (r) fail("harness-limit", "pthread_create failed %d", r);
    pthread_attr_destroy(&at);
}
static int g_sut_threads;
int spawn(const char* name, std::function<void()> fn, bool app) {
    Thread* t = new_thread(name);
    t->app = app; t->in_sut = 0;
    t->hfn = new std::function<void()>(std::move(fn));
    start_thread(t);
    sync_point(K_CREATE);
    return t->id;
}
void join(int tid) {
    Thread* t = threads[tid];
    auto f = [t] { return t->st == T_DONE || t->st == T_DEAD; };
    std::string w = std::string("join of ") + t->name;
    while (!f()) block_on(f, w.c_str(), t);
}
bool joined_done(int tid) { return threads[tid]->st == T_DONE; }
void yield() { sync_point(K_YIELD); }
void sleep_ns(uint64_t ns) { auto f = [] { return false; }; uint64_t d = g_now + (ns ? ns : 1); block_on(f, "sleep", nullptr, d); }
void advance(uint64_t ns) { g_now += ns; }
void set_clock_step(uint64_t s) { g_clock_step = s; }
void wait_until(const std::function<bool()>& cond, const char* what) {
    auto f = [&] { return cond(); };
    while (!cond()) block_on(f, what, nullptr);
}
bool wait_until_or(const std::function<bool()>& cond, uint64_t timeout, const char* what) {
    auto f = [&] { return cond(); };
    uint64_t d = g_now + timeout;
    while (!cond()) if (!block_on(f, what, nullptr, d)) return cond();
    return true;
}
void crash_now() { freeze_app(); if (self->app) { self->st = T_DEAD; decide(true); } }

Sut::Sut() { old = self ? self->in_sut : 0; if (self) self->in_sut = 1; }
Sut::~Sut() { if (self) self->in_sut = old; }
Har::Har() { old = self ? self->in_sut : 0; if (self) self->in_sut = 0; }
Har::~Har() { if (self) self->in_sut = old; }

// ----------------------------------------------------------------- faults, knobs, ops
void enable_fault(FaultKind k, unsigned num, unsigned den) { g_frate_num[k] = num; g_frate_den[k] = den; }
void disable_faults() { memset(g_frate_num, 0, sizeof g_frate_num); }
bool fault_enabled(FaultKind k) { return g_frate_num[k] != 0; }
void note_fault(FaultKind k) { g_res->faults[k]++; fold(0xfa017 + k); }
bool fault(FaultKind k, uint64_t maxv, uint64_t* value) {
    if (!g_frate_num[k]) return false;
    uint64_t idx = g_fidx[k]++;
    uint64_t v = 0; bool fire;
    if (g_plan.explicit_mode) {
        auto it = g_xfaults->find({(uint32_t)k, idx});
        fire = it != g_xfaults->end();
        if (fire) v = it->second;
        if (fire && v > maxv) v = maxv;
        if (fire && v < 1) v = 1;
    } else {
        // independent of the order of other draws, so that removing a step keeps the others
        Rng r(mix(g_plan.seed ^ 0xfa017f00d, k * 1000003ull + idx));
        fire = r.below(g_frate_den[k]) < g_frate_num[k];
        if (fire) { v = 1 + r.below(maxv); if (g_res->n_flt < MAX_FLT) g_res->flt[g_res->n_flt++] = {(uint32_t)k, 0, idx, v}; }
    }
    if (fire) { g_res->faults[k]++; fold(0xfa017 + k * 7 + v); if (value) *value = v; trace("fault %s value=%lu", fault_names[k], (unsigned long)v); }
    return fire;
}
static uint64_t knob_rec(const char* name, uint64_t v, uint64_t lo, uint64_t hi) {
    for (uint32_t i = 0; i < g_res->n_knobs; i++) if (!strcmp(g_res->knobs[i].name, name)) return v;
    if (g_res->n_knobs < MAX_KNOBS) {
        KnobRec& k = g_res->knobs[g_res->n_knobs++];
        snprintf(k.name, sizeof k.name, "%s", name); k.val = v; k.lo = lo; k.hi = hi;
    }
    return v;
}
uint64_t knob(const char* name, uint64_t lo, uint64_t hi) {
    auto it = g_plan.knobs.find(name);
    uint64_t v;
    if (it != g_plan.knobs.end()) { v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; }
    else { Rng r(mix(g_plan.seed ^ 0x6b6e6f62, hash_str(name))); v = lo + r.below(hi - lo + 1); }
    return knob_rec(name, v, lo, hi);
}
uint64_t pick(const char* name, const std::vector<uint64_t>& c) { return c[knob(name, 0, c.size() - 1)]; }
bool op_keep(Rng* out) {
    uint32_t i = g_opidx++;
    *out = Rng(mix(g_plan.seed ^ 0x6f70736565640ull, i));
    for (uint32_t d : g_plan.dropped_ops) if (d == i) return false;
    return true;
}

// ================================================================= heap
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static const uintptr_t SHADOW = 0x220000000000ull;
static uintptr_t g_bump;
struct Hdr { size_t size; uint32_t magic; uint32_t sut; };
enum { RZ = 32, MAGIC_LIVE = 0x51a11fe, MAGIC_FREE = 0xdeadf4ee };
static uint64_t g_live_blocks, g_live_bytes;

static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }
static inline unsigned char* shadow(uintptr_t a) { return (unsigned char*)(SHADOW + ((a - ARENA) >> 3)); }

bool heap_addressable(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!n) return true;
    if (!in_arena(a)) return true;
    uintptr_t e = a + n;
    if (!in_arena(e - 1)) return false;
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
        unsigned char s = *shadow(g);
        uintptr_t lim = g + s;            // addressable bytes [g, g+s)
        uintptr_t need = e < g + 8 ? e : g + 8;
        if (s > 8 || need > lim) return false;
    }
    return true;
}
static void heap_report(const void* p, size_t n, const char* what) {
    uintptr_t a = (uintptr_t)p;
    // find the owning block by walking back
    const char* kind = "out of bounds of any heap block";
    for (uintptr_t q = a & ~15ull; q >= ARENA && a - q < (1 << 20); q -= 16) {
        Hdr* h = (Hdr*)q;
        if (h->magic == MAGIC_LIVE) { kind = "outside a live heap block"; break; }
        if (h->magic == MAGIC_FREE) { kind = (a < q + sizeof(Hdr) + h->size) ? "inside a freed heap block" : "outside a heap block"; break; }
    }
    fail("memory-error", "%s of %zu bytes %s", what, n, kind);
}
void heap_check(const void* p, size_t n, const char* what) {
    if (likely(!g_active || !n)) return;
    if (unlikely(!heap_addressable(p, n))) heap_report(p, n, what);
}
// Normally an address is never used twice, so every access to a freed block is seen. In a part of the runs ("heap_reuse") a
// freed block of the code under test is handed out again at once, as real allocators do: for defects which need an old address.
static bool g_reuse;
static uintptr_t g_freelist[257], g_harfree[257];     // the second: blocks of the harness, used again once half of the arena is gone
static void* arena_alloc(size_t n, size_t align = 16) {
    size_t cls = (n + 15) >> 4; uintptr_t p;
    if (g_reuse && n && cls <= 256 && align <= 16 && g_freelist[cls] && self && self->in_sut) { p = g_freelist[cls]; memcpy(&g_freelist[cls], (void*)p, sizeof(uintptr_t)); }
    else if (n && cls <= 256 && align <= 16 && g_bump - ARENA > ARENA_SIZE / 2 && g_harfree[cls] && !(self && self->in_sut)) { p = g_harfree[cls]; memcpy(&g_harfree[cls], (void*)p, sizeof(uintptr_t)); }
    else {
        p = g_bump + sizeof(Hdr);
        p = (p + align - 1) & ~(align - 1);
        uintptr_t end = p + n;
        if (n > ARENA_SIZE / 2 || end + RZ + 64 - ARENA > ARENA_SIZE) { errno = ENOMEM; return nullptr; }
        g_bump = (end + RZ + 15) & ~15ull;
    }
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n; h->magic = MAGIC_LIVE; h->sut = self && self->in_sut;
    size_t full = n >> 3;
    memset(shadow(p), 8, full);
    if (n & 7) *shadow(p + (full << 3)) = n & 7;
    memset((void*)p, 0xCD, n < 65536 ? n : 65536);
    if (h->sut) { g_live_blocks++; g_live_bytes += n; }
    return (void*)p;
}
static void arena_free(void* v) {
    uintptr_t p = (uintptr_t)v;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (h->magic == MAGIC_FREE) fail("memory-error", "double free of a %zu-byte block", h->size);
    if (h->magic != MAGIC_LIVE) fail("memory-error", "free of a pointer that is not the start of a heap block");
    h->magic = MAGIC_FREE;
    memset(shadow(p), 0, (h->size + 7) >> 3);
    memset(v, 0xDD, h->size < 65536 ? h->size : 65536);
    if (h->sut) { g_live_blocks--; g_live_bytes -= h->size; }
    size_t cls = (h->size + 15) >> 4;
    if (g_reuse && h->sut && h->size && cls <= 256) { memcpy(v, &g_freelist[cls], sizeof(uintptr_t)); g_freelist[cls] = p; }
    else if (!h->sut && h->size && cls <= 256 && (cls << 4) >= sizeof(uintptr_t) && h->size >= sizeof(uintptr_t)) { memcpy(v, &g_harfree[cls], sizeof(uintptr_t)); g_harfree[cls] = p; }
}
uint64_t heap_live_sut_blocks() { return g_live_blocks; }
uint64_t heap_live_sut_bytes() { return g_live_bytes; }

static void heap_init() {
    mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    mmap((void*)SHADOW, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    g_bump = ARENA + 64;
}

// ================================================================= symbols
void* real_sym(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "missing symbol %s\n", n); abort(); }
    return p;
}

// ================================================================= crash handling
static void on_signal(int sig, siginfo_t* si, void* uc) {
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (abort/terminate)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGVTALRM ? "CPU-time limit" : "signal";
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    (void)si;
    if (sig == SIGVTALRM) fail("hang", "a single simulated run used more than its CPU limit (endless loop outside a scheduling point)");
    Dl_info di; const char* fn = "?";
    if (dladdr(pc, &di) && di.dli_sname) fn = di.dli_sname;
    fail("crash", "process died with %s in %s (thread %s)", n, fn, self ? self->name : "?");
}

static void scenario_entry() { g_plan.sc->run(); }

void run_child() {
    heap_init();
    fs_reset();
    Rng r(mix(g_plan.seed, 0x5c4ed));
    g_srng = Rng(mix(g_plan.seed, 1)); g_frng = Rng(mix(g_plan.seed, 2)); g_crng = Rng(mix(g_plan.seed, 3));
    g_pol = r.below(100) < 60 ? P_RANDOM : P_PCT;
    static const uint64_t dens[] = {0, 3000, 400, 400, 60, 60, 12, 4};
    g_access_den = dens[r.below(8)];
    static const uint64_t qs[] = {2, 8, 20, 40};
    g_sync_num = qs[r.below(4)];
    if (g_pol == P_PCT) {
        g_npct = 1 + r.below(5);
        static const uint64_t lens[] = {300, 1000, 3000, 10000, 40000};
        uint64_t L = lens[r.below(5)];
        for (int i = 0; i < g_npct; i++) g_pct[i] = 1 + r.below(L);
        for (int i = 0; i < g_npct; i++) for (int j = i + 1; j < g_npct; j++) if (g_pct[j] < g_pct[i]) std::swap(g_pct[i], g_pct[j]);
    }
    g_lowprio = 900000;
    g_reuse = knob("heap_reuse", 0, 3) == 3;
    g_now = 1000000000ull + r.below(1000000000ull);
    static const uint64_t cs[] = {0, 1, 50, 1000, 100000};
    g_clock_step = cs[r.below(5)];
    if (g_plan.explicit_mode) {
        for (auto& s : g_plan.sw) if (s.tid < MAX_THREADS) per[s.tid].push_back(s);
        g_xfaults = new std::map<std::pair<uint32_t, uint64_t>, uint64_t>();
        for (auto& f : g_plan.flt) (*g_xfaults)[{f.kind, f.idx}] = f.val;
    }
    update_gnext();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_DFL);
    { struct itimerval rt; memset(&rt, 0, sizeof rt); rt.it_value.tv_sec = 180; setitimer(ITIMER_REAL, &rt, nullptr); }
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    Thread* t = new_thread("main");
    t->hfn = new std::function<void()>(scenario_entry);
    start_thread(t);
    g_active = true;
    t->fut.store(1); futex_wake(&t->fut);
    park_forever();
    __builtin_unreachable();
}
} // namespace sim

using namespace sim;

// ================================================================= malloc family
extern "C" {
void* malloc(size_t n) { return likely(!g_active) ? __libc_malloc(n) : arena_alloc(n); }
void* calloc(size_t a, size_t b) {
    if (!g_active) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = arena_alloc(n); if (p) memset(p, 0, n); return p;
}
void free(void* p) {
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p); else if (!g_active) __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (!g_active) return __libc_realloc(p, n);
    if (!p) return arena_alloc(n);
    if (!n) { free(p); return nullptr; }
    if (!in_arena((uintptr_t)p)) { // block from before the simulation started
        void* q = arena_alloc(n); extern size_t malloc_usable_size(void*) noexcept; if (q) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); } return q;
    }
    Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
    if (h->magic != MAGIC_LIVE) fail("memory-error", "realloc of a freed or invalid block");
    void* q = arena_alloc(n);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    arena_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return g_active ? arena_alloc(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }

// ================================================================= tsan callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define PC __builtin_return_address(0)
#define ACC(name, n, w) void name(void* p) { access_point(PC); if (unlikely(in_arena((uintptr_t)p))) heap_check(p, n, w); }
#define ACCS(n) \
  ACC(__tsan_read##n, n, "read") ACC(__tsan_write##n, n, "write") \
  ACC(__tsan_unaligned_read##n, n, "read") ACC(__tsan_unaligned_write##n, n, "write") \
  ACC(__tsan_read_write##n, n, "write") ACC(__tsan_unaligned_read_write##n, n, "write") \
  ACC(__tsan_volatile_read##n, n, "read") ACC(__tsan_volatile_write##n, n, "write") \
  ACC(__tsan_unaligned_volatile_read##n, n, "read") ACC(__tsan_unaligned_volatile_write##n, n, "write")
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
void __tsan_vptr_update(void** p, void*) { access_point(PC); heap_check(p, 8, "write"); }
void __tsan_vptr_read(void** p) { access_point(PC); heap_check(p, 8, "read"); }
void __tsan_read_range(void* p, size_t n) { access_point(PC); heap_check(p, n, "read"); }
void __tsan_write_range(void* p, size_t n) { access_point(PC); heap_check(p, n, "write"); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    access_point(PC); heap_check(s, n, "memcpy read"); heap_check(d, n, "memcpy write");
    // a large copy is not atomic: allow a preemption in the middle
    if (n > 8) { size_t h = n / 2; memcpy(d, s, h); access_point(PC); memcpy((char*)d + h, (const char*)s + h, n - h); }
    else memcpy(d, s, n);
    access_point(PC);
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) { access_point(PC); heap_check(s, n, "memmove read"); heap_check(d, n, "memmove write"); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access_point(PC); heap_check(d, n, "memset write"); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic load"); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic store"); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access_point(PC); heap_check((void*)a, sizeof(T), "atomic rmw"); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// ---- string functions reached from the code under test (linked with --wrap)
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
    if (likely(g_active) && in_arena((uintptr_t)s)) { const char* p = s; for (;; p++) { heap_check(p, 1, "strlen read"); if (!*p) return p - s; } }
    return __real_strlen(s);
}
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) {
    if (g_active && (in_arena((uintptr_t)a) || in_arena((uintptr_t)b)))
        for (;; a++, b++) { heap_check(a, 1, "strcmp read"); heap_check(b, 1, "strcmp read"); if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; }
    return __real_strcmp(a, b);
}
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) { size_t n = __wrap_strlen(s) + 1; heap_check(d, n, "strcpy write"); return __real_strcpy(d, s); }

// ================================================================= pthreads
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!in_sim()) { static pc_t real = (pc_t)real_sym("pthread_create"); return real(out, at, fn, arg); }
    if (fault(F_THREAD_FAIL)) { trace("pthread_create fails"); return EAGAIN; }
    char nm[24]; snprintf(nm, sizeof nm, "sut-thread%d", ++g_sut_threads);
    Thread* t = new_thread(nm);
    t->app = self->app; t->in_sut = 1; t->fn = fn; t->arg = arg;
    start_thread(t);
    *out = t->pt;
    trace("pthread_create t%d", t->id);
    sync_point(K_CREATE);
    return 0;
}
static Thread* find_pt(pthread_t p) { for (int i = 0; i < nthreads; i++) if (pthread_equal(threads[i]->pt, p)) return threads[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    if (!in_sim()) { typedef int (*f)(pthread_t, void**); static f real = (f)real_sym("pthread_join"); return real(p, ret); }
    Thread* t = find_pt(p);
    if (!t) fail("bad-join", "pthread_join on an unknown thread");
    if (t->detached) fail("bad-join", "thread %s joined twice or joined after detach", t->name);
    if (t == self) return EDEADLK;
    sync_point(K_JOIN);
    auto f = [t] { return t->st == T_DONE; };
    std::string w = std::string("join of ") + t->name;
    while (!f()) block_on(f, w.c_str(), t);
    t->detached = true;
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!in_sim()) { typedef int (*f)(pthread_t); static f real = (f)real_sym("pthread_detach"); return real(p); }
    Thread* t = find_pt(p); if (t) t->detached = true; return 0;
}

// mutex state lives in the pthread_mutex_t: first int = owner id + 1
static inline int* mword(pthread_mutex_t* m) { return &m->__data.__lock; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int ty = 0; pthread_mutexattr_gettype(a, &ty); m->__data.__kind = ty; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!in_sim()) return 0;
    heap_check(m, sizeof *m, "mutex destroy");
    if (*mword(m)) fail("mutex-misuse", "mutex destroyed while locked");
    *mword(m) = -1;
    return 0;
}
static int lock_impl(pthread_mutex_t* m, bool count_sync) {
    Thread* me = self;
    if (count_sync) sync_point(K_LOCK);
    heap_check(m, sizeof *m, "mutex lock");
    if (*mword(m) == me->id + 1) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (*mword(m) == -1) fail("mutex-misuse", "lock of a destroyed mutex");
    auto f = [m] { return *mword(m) == 0; };
    while (!f()) { block_on(f, "mutex lock", m); heap_check(m, sizeof *m, "mutex lock"); }
    *mword(m) = me->id + 1;
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) m->__data.__count = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_sim()) return 0;
    return lock_impl(m, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK);
    heap_check(m, sizeof *m, "mutex trylock");
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (rec && *mword(m) == self->id + 1) { m->__data.__count++; return 0; }
    if (*mword(m)) return EBUSY;
    *mword(m) = self->id + 1; if (rec) m->__data.__count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_sim()) return 0;
    heap_check(m, sizeof *m, "mutex unlock");
    if (*mword(m) != self->id + 1) fail("mutex-misuse", "unlock of a mutex the thread does not own (owner %d)", *mword(m) - 1);
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && --m->__data.__count) return 0;
    *mword(m) = 0;
    sync_point(K_UNLOCK);
    return 0;
}
// reader/writer locks: word 0 = writer id + 1, word 1 = readers
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
static inline unsigned* rword(pthread_rwlock_t* l) { return (unsigned*)l; }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK); heap_check(l, sizeof *l, "rwlock lock");
    auto f = [l] { return rword(l)[0] == 0; };
    while (!f()) block_on(f, "rwlock read lock", l);
    rword(l)[1]++; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK); heap_check(l, sizeof *l, "rwlock lock");
    auto f = [l] { return rword(l)[0] == 0 && rword(l)[1] == 0; };
    while (!f()) block_on(f, "rwlock write lock", l);
    rword(l)[0] = self->id + 1; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    heap_check(l, sizeof *l, "rwlock unlock");
    if (rword(l)[0] == (unsigned)self->id + 1) rword(l)[0] = 0;
    else if (rword(l)[1]) rword(l)[1]--;
    else fail("mutex-misuse", "unlock of an rwlock that is not held");
    sync_point(K_UNLOCK); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!in_sim()) return 0; sync_point(K_LOCK); heap_check(l, sizeof *l, "rwlock lock"); if (rword(l)[0]) return EBUSY; rword(l)[1]++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!in_sim()) return 0; sync_point(K_LOCK); heap_check(l, sizeof *l, "rwlock lock"); if (rword(l)[0] || rword(l)[1]) return EBUSY; rword(l)[0] = self->id + 1; return 0; }
static int rw_until(pthread_rwlock_t* l, bool wr, const struct timespec* t) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK); heap_check(l, sizeof *l, "rwlock lock");
    auto f = [l, wr] { return rword(l)[0] == 0 && (!wr || rword(l)[1] == 0); };
    while (!f()) if (!block_on(f, "timed rwlock lock", l, ts_ns(t)) && !f()) return ETIMEDOUT;
    if (wr) rword(l)[0] = self->id + 1; else rword(l)[1]++;
    return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_until(l, false, t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_until(l, true, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) { return rw_until(l, false, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) { return rw_until(l, true, t); }
static int mutex_until(pthread_mutex_t* m, const struct timespec* t) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK); heap_check(m, sizeof *m, "mutex lock");
    if (*mword(m) == self->id + 1 && (m->__data.__kind & 3) != PTHREAD_MUTEX_NORMAL) return lock_impl(m, false);
    auto f = [m] { return *mword(m) == 0; };
    while (!f()) { if (*mword(m) == -1) fail("mutex-misuse", "lock of a destroyed mutex"); if (!block_on(f, "timed mutex lock", m, ts_ns(t)) && !f()) return ETIMEDOUT; }
    return lock_impl(m, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return mutex_until(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return mutex_until(m, t); }
int pthread_spin_trylock(pthread_spinlock_t* l) { if (!in_sim()) return 0; sync_point(K_LOCK); if (*l) return EBUSY; *l = self->id + 1; return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
    if (!in_sim()) return 0;
    sync_point(K_LOCK);
    auto f = [l] { return *l == 0; };
    while (!f()) block_on(f, "spin lock", (const void*)l);
    *l = self->id + 1; return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!in_sim()) return 0; *l = 0; sync_point(K_UNLOCK); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    Thread* me = self;
    sync_point(K_CWAIT);
    heap_check(c, sizeof *c, "condition wait");
    if (*mword(m) != me->id + 1) fail("mutex-misuse", "condition wait without holding the mutex");
    me->cond_signaled = false; me->cond_obj = c;
    *mword(m) = 0;
    bool to = false;
    if (fault(F_SPURIOUS_WAKE)) { sync_point(K_CWAIT); }
    else {
        auto f = [me] { return me->cond_signaled; };
        to = !block_on(f, "condition wait", c, deadline);
    }
    me->cond_obj = nullptr; me->cond_signaled = false;
    lock_impl(m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!in_sim()) abort(); return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!in_sim()) abort(); return cond_wait(c, m, ts_ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { if (!in_sim()) abort(); return cond_wait(c, m, ts_ns(t)); }
static int cond_wake(pthread_cond_t* c, bool all) {
    sync_point(K_CSIGNAL);
    heap_check(c, sizeof *c, "condition signal");
    Thread* w[MAX_THREADS]; int n = 0;
    for (int i = 0; i < nthreads; i++) { Thread* t = threads[i]; if (t->st == T_BLK && t->cond_obj == c && !t->cond_signaled) w[n++] = t; }
    if (!n) return 0;
    if (all) for (int i = 0; i < n; i++) w[i]->cond_signaled = true;
    else w[n > 1 ? mix(g_plan.seed ^ 0xc0d, self->steps) % n : 0]->cond_signaled = true;
    sync_point(K_CSIGNAL);
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!in_sim()) return 0; return cond_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!in_sim()) return 0; return cond_wake(c, true); }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    volatile int* w = (volatile int*)o;
    if (!in_sim()) { if (*w != 2) { *w = 2; fn(); } return 0; }
    sync_point(K_ONCE);
    if (*w == 2) return 0;
    if (*w == 1) { auto f = [w] { return *w != 1; }; while (*w == 1) block_on(f, "pthread_once", o); if (*w == 2) return 0; }
    *w = 1;
    try { fn(); } catch (...) { *w = 0; throw; }
    *w = 2;
    sync_point(K_ONCE);
    return 0;
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    if (!in_sim()) { typedef int (*f)(pthread_key_t*, void (*)(void*)); static f real = (f)real_sym("pthread_key_create"); return real(k, d); }
    for (int i = 0; i < 128; i++) if (!g_keys[i].used) { g_keys[i].used = true; g_keys[i].dtor = d; *k = 100000 + i; return 0; }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) {
    if (k < 100000) { typedef int (*f)(pthread_key_t); static f real = (f)real_sym("pthread_key_delete"); return real(k); }
    g_keys[k - 100000].used = false; return 0;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    if (k < 100000) { typedef int (*f)(pthread_key_t, const void*); static f real = (f)real_sym("pthread_setspecific"); return real(k, v); }
    if (!self) return EINVAL;
    self->keys[k - 100000] = (void*)v; return 0;
}
void* pthread_getspecific(pthread_key_t k) {
    if (k < 100000) { typedef void* (*f)(pthread_key_t); static f real = (f)real_sym("pthread_getspecific"); return real(k); }
    return self ? self->keys[k - 100000] : nullptr;
}
// semaphores: the value is the first word of the sem_t (as in glibc, so that ones made before the simulation keep working)
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); *(volatile unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
static int sem_wait_until(sem_t* s, uint64_t deadline) {
    volatile unsigned* w = (volatile unsigned*)s;
    if (!in_sim()) { if (!*w) abort(); --*w; return 0; }
    sync_point(K_LOCK); heap_check(s, 4, "semaphore wait");
    auto f = [w] { return *w != 0; };
    while (!*w) if (!block_on(f, "semaphore", s, deadline) && !*w) { errno = ETIMEDOUT; return -1; }
    --*w; return 0;
}
int sem_wait(sem_t* s) { return sem_wait_until(s, ~0ull); }
int sem_trywait(sem_t* s) noexcept { volatile unsigned* w = (volatile unsigned*)s; if (in_sim()) { sync_point(K_LOCK); heap_check(s, 4, "semaphore wait"); } if (!*w) { errno = EAGAIN; return -1; } --*w; return 0; }
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_wait_until(s, ts_ns(t)); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* t) { return sem_wait_until(s, ts_ns(t)); }
int sem_post(sem_t* s) noexcept { if (in_sim()) { sync_point(K_UNLOCK); heap_check(s, 4, "semaphore post"); } ++*(volatile unsigned*)s; if (in_sim()) sync_point(K_UNLOCK); return 0; }
int sem_getvalue(sem_t* s, int* v) noexcept { *v = (int)*(volatile unsigned*)s; return 0; }
// std::future and waiting atomics sit on futexes directly
long syscall(long nr, ...) noexcept {
    va_list ap; va_start(ap, nr); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
    if (in_sim() && nr == SYS_gettid) return 1000 + self->id;
    if (in_sim() && nr == SYS_futex) {
        int* w = (int*)a[0]; int op = (int)a[1] & 127, v = (int)a[2]; const struct timespec* t = (const struct timespec*)a[3];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(K_LOCK); heap_check(w, 4, "futex wait");
            auto f = [w, v] { return *(volatile int*)w != v; };
            if (f()) { errno = EAGAIN; return -1; }
            uint64_t d = !t ? ~0ull : op == FUTEX_WAIT ? g_now + ts_ns(t) : ts_ns(t);
            if (!block_on(f, "futex", w, d) && !f()) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sync_point(K_UNLOCK); return 1; }
    }
    return raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield(void) { if (in_sim()) sync_point(K_YIELD); return 0; }

// thread_local destructors: kept per simulated thread so that they run under the scheduler
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
    if (!self) return 0;
    if (self->ndtors >= 64) fail("harness-limit", "too many thread_local destructors");
    self->dtors[self->ndtors++] = {fn, obj};
    return 0;
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* d) { return __cxa_thread_atexit(fn, obj, d); }
// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* b = (volatile char*)g;
    if (b[0]) return 0;
    if (!self) { return 1; }
    sync_point(K_GUARD);
    if (b[0]) return 0;
    while (b[1]) { auto f = [b] { return b[1] == 0; }; block_on(f, "static initialisation", g); if (b[0]) return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { volatile char* b = (volatile char*)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile char* b = (volatile char*)g; b[1] = 0; }

// ================================================================= clock
static uint64_t tick() {
    uint64_t v;
    if (g_clock_step) g_now += mix(g_plan.seed ^ 0xc10c, g_steps) % (g_clock_step + 1);
    if (fault(F_CLOCK_JUMP, 5000000000ull, &v)) g_now += v;
    return g_now;
}
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!in_sim()) return syscall(SYS_clock_gettime, c, t);
    sync_point(K_CLOCK);
    uint64_t n = tick();
    t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* t, void* z) {
    if (!in_sim()) return syscall(SYS_gettimeofday, t, z);
    uint64_t n = tick(); t->tv_sec = n / 1000000000ull; t->tv_usec = n % 1000000000ull / 1000; return 0;
}
time_t time(time_t* o) {
    time_t v; if (in_sim()) v = g_now / 1000000000ull; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (o) *o = v; return v;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (!in_sim()) return syscall(SYS_nanosleep, t, rem);
    sleep_ns(ts_ns(t)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem) {
    if (!in_sim()) return syscall(SYS_clock_nanosleep, c, fl, t, rem) ? errno : 0;
    uint64_t d = ts_ns(t); if (fl & TIMER_ABSTIME) d = d > g_now ? d - g_now : 0;
    sleep_ns(d); return 0;
}
int usleep(useconds_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
} // extern "C"
