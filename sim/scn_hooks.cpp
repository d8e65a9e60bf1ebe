// C23: the allocation hooks (optional platform feature) on top of a simulated C allocator.
#include "model.h"
#include <hawktracer/alloc_hooks.h>
#include <errno.h>
#include <deque>
#include <algorithm>
using namespace sim;
extern "C" { void* hk_malloc(size_t); void* hk_calloc(size_t, size_t); void* hk_realloc(void*, size_t); void hk_free(void*); }

namespace {
enum Op { MALLOC, CALLOC, REALLOC, FREE };
const char* const op_name[] = {"malloc", "calloc", "realloc", "free"};
struct Rec { int what; Op op; void* ret; void* ptr; size_t a, b; void* ud; int gen; };     // what: 0 pre hook, 1 the C library, 2 post hook
std::string show(const Rec& r) { char b[200]; snprintf(b, sizeof b, "%s %s(ret %p, ptr %p, %zu, %zu) ud %p", r.what == 0 ? "pre-hook" : r.what == 1 ? "libc" : "post-hook", op_name[r.op], r.ret, r.ptr, r.a, r.b, r.ud); return b; }
struct Blk { void* p; size_t n; unsigned char fill; };
std::map<int, std::vector<Rec>> recs;            // per thread, the current operation
std::map<void*, size_t> live;                    // what the simulated C library has handed out
int hook_gen, inner_kind; int nhooks; bool inside[128];
uint64_t calls;

bool libc_fails() { bool f = fault(F_ALLOC_FAIL); if (f) errno = ENOMEM; return f; }
void hook(int what, Op op, void* ret, void* ptr, size_t a, size_t b, void* ud, int gen) {
    Har h; int me = self_id();
    recs[me].push_back({what, op, ret, ptr, a, b, ud, gen}); calls++;
    trace("%s", show(recs[me].back()).c_str());
    if (what == 0 && ptr && !live.count(ptr)) fail("hook-too-late", "the pre-hook of %s runs when its block is gone already", op_name[op]);
    if (what == 2 && ret && !live.count(ret)) fail("bad-result", "the post-hook of %s got an unusable block", op_name[op]);
    if (inside[me]) fail("recursion", "an allocation made by a hook through a skip_hook function called a hook");
    if (inner_kind) {
        inside[me] = true; int e = errno; std::vector<Rec> keep = recs[me]; void *p, *q;
        { Sut s; p = ht_alloc_hooks_malloc_skip_hook(24); } if (p) memset(p, 7, 24);
        { Sut s; q = inner_kind == 1 ? ht_alloc_hooks_calloc_skip_hook(3, 9) : ht_alloc_hooks_realloc_skip_hook(nullptr, 40); }
        if (q && inner_kind == 1) for (int i = 0; i < 27; i++) if (((char*)q)[i]) fail("not-zeroed", "calloc_skip_hook returned dirty memory");
        if (p) { void* r; { Sut s; r = ht_alloc_hooks_realloc_skip_hook(p, 64); } if (r) p = r; for (int i = 0; i < 24; i++) if (((char*)p)[i] != 7) fail("content-lost", "realloc_skip_hook lost the content"); }
        { Sut s; ht_alloc_hooks_free_skip_hook(q); ht_alloc_hooks_free_skip_hook(p); }
        std::vector<Rec>& now_ = recs[me]; size_t lib = 0; for (size_t i = keep.size(); i < now_.size(); i++) lib += now_[i].what == 1;
        if (lib != (p ? 5u : 4u)) fail("skip-function", "%zu calls of the C library for %d calls of skip_hook functions", lib, p ? 5 : 4);
        now_ = keep; errno = e; inside[me] = false; probe("allocations inside hooks");
    } else if (nhooks % 3 == 1) { Sut s; yield(); }
}
// two sets of hooks, so that a hook of the wrong set is noticed
template <int G, int W> void h_malloc(void* r, size_t n, void* ud) { hook(W, MALLOC, r, nullptr, n, 0, ud, G); }
template <int G, int W> void h_calloc(void* r, size_t n, size_t z, void* ud) { hook(W, CALLOC, r, nullptr, n, z, ud, G); }
template <int G, int W> void h_realloc(void* r, void* p, size_t n, void* ud) { hook(W, REALLOC, r, p, n, 0, ud, G); }
template <int G, int W> void h_free(void* p, void* ud) { hook(W, FREE, nullptr, p, 0, 0, ud, G); }
struct Cfg { unsigned mask = 0; void* ud = nullptr; int gen = 0; } cfg; char ud_space[8];
template <int G> void reg(unsigned m, void* ud) {
    Sut s;
    ht_alloc_hooks_register_hooks(m & 1 ? h_malloc<G, 0> : nullptr, m & 2 ? h_malloc<G, 2> : nullptr, m & 4 ? h_calloc<G, 0> : nullptr, m & 8 ? h_calloc<G, 2> : nullptr,
                                  m & 16 ? h_realloc<G, 0> : nullptr, m & 32 ? h_realloc<G, 2> : nullptr, m & 64 ? h_free<G, 0> : nullptr, m & 128 ? h_free<G, 2> : nullptr, ud);
}
std::deque<Blk> pool;
void fill(Blk& b) { memset(b.p, b.fill, b.n); }
void check_fill(const Blk& b, size_t n, const char* when) { for (size_t i = 0; i < n; i++) if (((unsigned char*)b.p)[i] != b.fill) fail("content-lost", "byte %zu of a block of %zu bytes changed (%s)", i, b.n, when); }
void expect(Op op, void* ret, void* ptr, size_t a, size_t b, uint64_t failed) {
    std::vector<Rec> got; got.swap(recs[self_id()]); std::vector<Rec> want;
    if (cfg.mask >> (2 * op) & 1) want.push_back({0, op, nullptr, ptr, a, b, cfg.ud, cfg.gen});
    want.push_back({1, op, ret, ptr, a, b, nullptr, 0});
    if (cfg.mask >> (2 * op + 1) & 1) want.push_back({2, op, op == FREE ? nullptr : ret, ptr, a, b, cfg.ud, cfg.gen});
    std::string g, w; for (auto& r : got) g += show(r) + "; "; for (auto& r : want) w += show(r) + "; ";
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); i++) { const Rec &x = got[i], &y = want[i]; ok = x.what == y.what && x.op == y.op && x.ret == y.ret && x.ptr == y.ptr && x.a == y.a && x.b == y.b && x.ud == y.ud && x.gen == y.gen; }
    if (!ok) fail("wrong-hooks", "%s(%p, %zu, %zu) = %p: happened: %s expected: %s", op_name[op], ptr, a, b, ret, g.c_str(), w.c_str());
    (void)failed;
}
size_t size_of(Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return r.range(1, 8); case 2: return r.range(1, 300); case 3: return 1u << r.range(0, 12); default: return r.range(1, 40); } }
void one_op(Rng& r) {
    int k = r.below(10); Blk b{nullptr, 0, 0};
    if (k >= 4 && !pool.empty() && !r.chance(1, 12)) { size_t i = r.below(pool.size()); b = pool[i]; pool.erase(pool.begin() + i); }
    if (k < 2) { size_t n = size_of(r); { Sut s; errno = 0; b.p = hk_malloc(n); } int e = errno; expect(MALLOC, b.p, nullptr, n, 0, 0); if (!b.p && e != ENOMEM) fail("wrong-errno", "errno %d after a failed malloc", e); b.n = n; }
    else if (k < 4) {
        size_t n = size_of(r) % 70, z = size_of(r) % 50; { Sut s; errno = 0; b.p = hk_calloc(n, z); } int e = errno; expect(CALLOC, b.p, nullptr, n, z, 0); if (!b.p && e != ENOMEM) fail("wrong-errno", "errno %d after a failed calloc", e); b.n = n * z;
        if (b.p) { b.fill = 0; check_fill(b, b.n, "not zeroed by calloc"); }
    } else if (k < 7) {
        size_t n = r.range(1, 300); void* q; { Sut s; errno = 0; q = hk_realloc(b.p, n); } int e = errno; expect(REALLOC, q, b.p, n, 0, 0);
        if (!q) { if (e != ENOMEM) fail("wrong-errno", "errno %d after a failed realloc", e); if (b.p) { check_fill(b, b.n, "after a failed realloc"); pool.push_back(b); } probe("realloc fails"); return; }
        size_t m = std::min(n, b.n); b.p = q; check_fill(b, m, "realloc"); b.n = n;
    } else { void* p = b.p; if (p) check_fill(b, b.n, "before free"); { Sut s; errno = 77; hk_free(p); } int e = errno; expect(FREE, nullptr, p, 0, 0, 0); if (e != 77) fail("wrong-errno", "free changed errno to %d", e); if (!p) probe("free(NULL)"); return; }
    if (!b.p) { probe("allocation fails"); return; }
    nontrivial(); b.fill = (unsigned char)r.range(1, 255); fill(b); pool.push_back(b);
}
void run() {
    recs.clear(); live.clear(); pool.clear(); calls = 0; cfg = Cfg(); memset(inside, 0, sizeof inside);
    int threads = knob("threads", 1, 4), rounds = knob("rounds", 1, 4); inner_kind = pick("inner", {0, 0, 1, 2}); nhooks = knob("yielding", 0, 2);
    if (knob("faulty", 0, 1)) enable_fault(F_ALLOC_FAIL, 1, pick("rate", {4, 10, 30}));
    Rng r(seed() ^ 0x5eed);
    for (int i = 0; i < rounds; i++) {
        // the hooks are replaced while nobody allocates
        unsigned m = r.chance(1, 4) ? 255 : r.chance(1, 8) ? 0 : r.below(256); int g = r.below(2); cfg = Cfg{m, r.chance(1, 6) ? nullptr : &ud_space[r.below(8)], g};
        if (g) reg<1>(m, cfg.ud); else reg<0>(m, cfg.ud);
        if (!recs.empty() && !recs[self_id()].empty()) fail("unexpected-allocation", "registering hooks allocated through the hooked functions");
        std::vector<int> ts;
        for (int t = 0; t < threads; t++) { uint64_t sd = r.next(); ts.push_back(spawn("app", [sd] { Rng q(sd); for (int n = q.range(3, 25); n--;) { Rng o; if (op_keep(&o)) one_op(o); } })); }
        for (int t : ts) join(t);
    }
    reg<0>(0, nullptr); cfg = Cfg();
    disable_faults();
    for (auto& b : pool) { check_fill(b, b.n, "at the end"); { Sut s; hk_free(b.p); } expect(FREE, nullptr, b.p, 0, 0, 0); }
    if (!live.empty()) fail("leak", "%zu blocks of the C library were never given back", live.size());
    fold(calls); note("%d threads, %d rounds, %llu hook calls", threads, rounds, (unsigned long long)calls);
}
Reg reg_c23("C23", "alloc_hooks", run);
}

extern "C" {
static void* got(Op op, void* ret, void* ptr, size_t a, size_t b) { recs[self_id()].push_back({1, op, ret, ptr, a, b, nullptr, 0}); trace("%s", show(recs[self_id()].back()).c_str()); return ret; }
void* hk_libc_malloc(size_t n) { Har h; if (libc_fails()) return got(MALLOC, nullptr, nullptr, n, 0); void* p; { Sut s; p = malloc(n); } live[p] = n; memset(p, 0xa5, n); return got(MALLOC, p, nullptr, n, 0); }
void* hk_libc_calloc(size_t n, size_t z) { Har h; if (libc_fails()) return got(CALLOC, nullptr, nullptr, n, z); void* p; { Sut s; p = calloc(n, z); } live[p] = n * z; return got(CALLOC, p, nullptr, n, z); }
void* hk_libc_realloc(void* p, size_t n) {
    Har h; if (p && !live.count(p)) fail("bad-free", "realloc of a block which is not allocated");
    if (libc_fails()) return got(REALLOC, nullptr, p, n, 0);
    void* q; { Sut s; q = realloc(p, n); } if (p) live.erase(p); live[q] = n; return got(REALLOC, q, p, n, 0);
}
void hk_libc_free(void* p) { Har h; if (p && !live.count(p)) fail("bad-free", "free of a block which is not allocated"); if (p) { live.erase(p); int e = errno; { Sut s; free(p); } errno = e; } got(FREE, nullptr, p, 0, 0); }
}
