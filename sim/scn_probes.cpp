// C19: CPU and memory usage probes over a simulated /proc.
#include "model.h"
#include "user_code.h"
#include <cmath>
#include <memory>
using namespace sim;

namespace {
const char* const comms[] = {"app", "my app", "a) R 1 2 3 4 5 6 7 8 9 10 11 12", "(((", ")))", "", "x)(y", "fifteen chars.", "\xff\xfe", "two\nlines", ") S 1 1 1 1 1 1 1 1 1 1"};
std::string stat_line(Rng& r, int pid, uint64_t ut, uint64_t st) {
    auto n = [&](uint64_t lim) { return std::to_string(r.below(lim)); };
    bool tiny = r.chance(1, 4); uint64_t big = tiny ? 1 : 1ull << r.below(40);
    std::string s = std::to_string(pid) + " (" + comms[r.below(sizeof comms / sizeof *comms)] + ") " + "RSDZTtXxKWPI"[r.below(12)];
    s += " " + n(40000) + " " + n(40000) + " " + n(40000) + " " + n(70000) + " " + (r.chance(1, 2) ? "-1" : n(40000)) + " " + n(4294967296ull);
    for (int i = 0; i < 4; i++) s += " " + n(big); s += " " + std::to_string(ut) + " " + std::to_string(st);
    for (int i = 0; i < 37; i++) s += " " + (r.chance(1, 10) ? std::string("-1") : i == 9 && !tiny ? std::to_string(r.next()) : n(big)); return s + "\n";
}
struct Cpu { int pid = 0; HT_CPUUsageContext* c = nullptr; bool own = false, base = false; uint64_t ts = 0, ticks = 0; std::string path; bool valid = false, exists = false; uint64_t cur = 0; };
bool armed; 
void cpu_probe(Cpu& x, bool* faulted) {
    (void)faulted; uint64_t t0 = now(); float v; { Sut s; v = ht_cpu_usage_get_percentage(x.c); } uint64_t t1 = now();
    if (std::isnan(v) || std::isinf(v)) fail("not-a-number", "pid %d: the CPU usage is %g after %llu ns", x.pid, v, (unsigned long long)(t0 - x.ts));
    fold((uint64_t)(int64_t)(v > 1e15f ? 1e15 : v * 1000)); if (t0 != t1) fail("harness", "the clock moved during a probe");
    if (!x.exists) { if (v >= 0) fail("phantom-usage", "pid %d does not exist, but uses %g%% of CPU", x.pid, v); return; }
    if (!x.valid) { if (v >= 0) fail("phantom-usage", "the process file of pid %d is invalid, but the usage is %g%%", x.pid, v); return; }
    if (v < 0) { if (armed) return; if (!x.base || x.cur < x.ticks) { x.base = true; x.ts = t0; x.ticks = x.cur; return; } fail("no-value", "pid %d: valid process file, but no value", x.pid); }
    if (!x.base) { x.base = true; x.ts = t0; x.ticks = x.cur; return; }
    if (x.cur < x.ticks) fail("wrong-usage", "the CPU time of pid %d went back from %llu to %llu ticks, the usage is %g%%", x.pid, (unsigned long long)x.ticks, (unsigned long long)x.cur, v);
    if (t0 == x.ts) { probe("two probes at the same instant"); return; }
    double want = (double)(x.cur - x.ticks) * 100.0 / 100.0 /* ticks per second */ / ((double)(t0 - x.ts) / 1e9);
    if (std::fabs(v - want) > 1e-4 * want + 1e-6) fail("wrong-usage", "pid %d used %llu ticks in %llu ns, which is %g%%, not %g%%", x.pid, (unsigned long long)(x.cur - x.ticks), (unsigned long long)(t0 - x.ts), want, v);
    x.ts = t0; x.ticks = x.cur; probe("usage compared");
}
void new_state(Rng& r, Cpu& x) {
    x.path = x.own ? "stat" : std::to_string(x.pid) + "/stat"; x.exists = true; x.valid = true; x.cur += r.chance(1, 3) ? 0 : r.below(r.chance(1, 5) ? 1000000 : 500); if (r.chance(1, 12)) x.cur = r.below(x.cur + 1);
    uint64_t ut = r.below(x.cur + 1); std::string s = stat_line(r, x.pid, ut, x.cur - ut);
    switch (r.below(10)) {
    case 0: x.exists = false; proc_del(x.path); note_fault(F_PROC_READ); return;
    case 1: x.valid = false; note_fault(F_PROC_READ); switch (r.below(6)) {
        case 0: s = ""; break; case 1: { size_t z = s.rfind(')'); size_t keep = z + 2; for (size_t f = r.below(12); f; f--) { size_t q = s.find(' ', keep + 1); if (q == std::string::npos) break; keep = q; } s.resize(keep); break; }
        case 2: for (auto& c : s) if (c == ')') c = '_'; break; case 3: s = std::string(r.below(2000), ')'); break; case 4: s = std::string(r.below(3000), (char)(1 + r.below(40))); break;
        default: s = std::string(r.below(2000), '\0'); break; } break;
    default: break;
    }
    proc_put(x.path, s);
}
void cpu() {
    stdin_closed(); unsigned np = (unsigned)knob("processes", 1, 3), ops = (unsigned)knob("ops", 1, 30); bool faults = knob("faults", 0, 1); set_clock_step(0); armed = false; lib_init(-1, false); uint64_t blocks0 = heap_live_sut_blocks(); set_stdio_buffer(pick("stdio_buf", {0, 1, 64, 4096}));
    if (knob("late", 0, 1)) advance(1ull << knob("epoch", 1, 58)); unsigned compared = 0;
    std::vector<std::unique_ptr<Cpu>> ps; for (unsigned i = 0; i < np; i++) { Rng r(seed() + i); ps.push_back(std::make_unique<Cpu>()); Cpu& x = *ps.back(); x.own = i == 0 && r.chance(1, 2); x.pid = x.own ? 0 : (int)(1 + r.below(3999999)); new_state(r, x); }
    for (unsigned o = 0; o < ops; o++) {
        Rng r(1); if (!op_keep(&r)) continue; Cpu& x = *ps[r.below(np)];
        bool f = faults && r.chance(1, 3); if (f) { armed = true; if (r.chance(1, 2)) enable_fault(F_READ_EIO, 1, 2); else if (r.chance(1, 2)) enable_fault(F_OPEN_FAIL, 1, 2); else enable_fault(F_READ_SHORT, 1, 2); }
        if (!x.c) { { Sut s; x.c = ht_cpu_usage_context_create(x.own ? nullptr : &x.pid); } if (!x.c) fail("create-failed", "no CPU usage context"); x.base = x.exists && x.valid && !armed; x.ts = now(); x.ticks = x.cur; if (!x.base) { x.base = false; } }
        else switch (r.below(5)) {
        case 0: new_state(r, x); break;
        case 1: advance(r.chance(1, 3) ? 0 : r.chance(1, 4) ? r.below(400000000000000ull) : 1 + r.below(3000000000ull)); break;
        case 2: if (r.chance(1, 4)) { { Sut s; ht_cpu_usage_context_destroy(x.c); } x.c = nullptr; break; } /* fall through */
        default: if (r.chance(1, 2)) advance(1 + r.below(2000000000)); cpu_probe(x, nullptr); compared++; break;
        }
        if (f) { disable_faults(); armed = false; if (x.c) { x.base = false; advance(1); } }  // what the failing probe saw is not known: the next one starts over
        if (disk_open_handles()) fail("descriptor-leak", "a process file was left open");
    }
    for (auto& x : ps) if (x->c) { Sut s; ht_cpu_usage_context_destroy(x->c); }
    if (heap_live_sut_blocks() != blocks0) fail("memory-leak", "contexts left memory behind");
    if (compared) nontrivial(); note("processes=%u ops=%u probes=%u", np, ops, compared);
}
Reg r1("C19", "cpu-usage", cpu, 1);

void memory() {
    stdin_closed(); unsigned ops = (unsigned)knob("ops", 1, 20); bool faults = knob("faults", 0, 1), own = knob("own", 0, 1); int pid = own ? 0 : (int)knob("pid", 1, 4000000); lib_init(-1, false); uint64_t blocks0 = heap_live_sut_blocks(); set_stdio_buffer(pick("stdio_buf", {0, 1, 7, 4096}));
    std::string path = own ? "statm" : std::to_string(pid) + "/statm"; HT_MemoryUsageContext* c; { Sut s; c = ht_memory_usage_context_create(own ? nullptr : &pid); } if (!c) fail("create-failed", "no memory usage context"); unsigned done = 0;
    { size_t q; Sut s; if (ht_memory_usage_get_usage(nullptr, &q, &q, &q) == HT_ERR_OK) fail("no-error", "no context, but no error"); if (ht_memory_usage_get_usage(c, nullptr, nullptr, nullptr) != HT_ERR_OK) fail("spurious-error", "nothing was asked for, but there is an error"); }
    for (unsigned o = 0; o < ops; o++) {
        Rng r(1); if (!op_keep(&r)) continue; uint64_t lim = 1ull << r.below(r.chance(1, 8) ? 50 : 24), v = r.below(lim + 1), re = r.below(v + 1), sh = r.below(re + 1); bool exists = true, valid = true;
        std::string s = std::to_string(v) + " " + std::to_string(re) + " " + std::to_string(sh), tail = " " + std::to_string(r.below(lim)) + " 0 " + std::to_string(r.below(lim)) + " 0\n"; s += tail;
        switch (r.below(10)) {
        case 0: exists = false; note_fault(F_PROC_READ); break;
        case 1: valid = false; note_fault(F_PROC_READ); switch (r.below(5)) { case 0: s = ""; break; case 1: s = std::to_string(v) + " " + std::to_string(re); break; case 2: s = "unknown " + s; break; case 3: s = std::string(r.below(500), 'x'); break; default: s = std::string(r.below(300), '\0'); break; } break;
        default: break; }
        if (exists) proc_put(path, s); else proc_del(path);
        bool f = faults && r.chance(1, 3), shortr = false; if (f) { if (r.chance(1, 2)) enable_fault(F_READ_EIO, 1, 2); else if (r.chance(1, 2)) enable_fault(F_OPEN_FAIL, 1, 2); else { shortr = true; enable_fault(F_READ_SHORT, 1, 2); } }
        const size_t G = 0x5a5a5a5a5a5a5a5aull; size_t a = G, b = G, d = G; unsigned m = 1 + (unsigned)r.below(7); HT_ErrorCode e;
        { Sut su; e = ht_memory_usage_get_usage(c, m & 1 ? &a : nullptr, m & 2 ? &b : nullptr, m & 4 ? &d : nullptr); } disable_faults(); done++; fold((uint64_t)e); fold(a); fold(b); fold(d);
        if (disk_open_handles()) fail("descriptor-leak", "a process file was left open");
        if (e == HT_ERR_OK && (!exists || !valid)) fail("phantom-usage", "\"%.40s\" yields %zu %zu %zu", exists ? s.c_str() : "(no file)", a, b, d);
        if (e != HT_ERR_OK && exists && valid && (!f || shortr)) fail("no-value", "error %d for a valid file \"%.60s\"", e, s.c_str());
        if (e == HT_ERR_OK) { if ((m & 1 && a != v * 4096) || (m & 2 && b != sh * 4096) || (m & 4 && d != re * 4096)) fail("wrong-usage", "virtual %zu shared %zu resident %zu for \"%.60s\"", a, b, d, s.c_str()); probe("usage compared"); }
        if ((!(m & 1) && a != G) || (!(m & 2) && b != G) || (!(m & 4) && d != G)) fail("unasked", "a value which was not asked for was written");
    }
    { Sut s; ht_memory_usage_context_destroy(c); } if (heap_live_sut_blocks() != blocks0) fail("memory-leak", "the context left memory behind");
    if (done) nontrivial(); note("probes=%u", done);
}
Reg r2("C19", "memory-usage", memory, 1);

// many threads, each with its own context: the first use initialises shared state
void threads() {
    set_clock_step(0); unsigned nt = (unsigned)knob("threads", 2, 4), n = (unsigned)knob("probes", 1, 5); lib_init(-1, false); uint64_t tick0 = 1000; Rng g(seed());
    proc_put("stat", stat_line(g, 1, tick0, 0)); proc_put("statm", "1000 500 100 1 0 1 0\n"); std::vector<int> th; unsigned phase = 0, in = 0;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("prober", [&, i] {
        HT_CPUUsageContext* c; HT_MemoryUsageContext* m; { Sut s; c = ht_cpu_usage_context_create(nullptr); m = ht_memory_usage_context_create(nullptr); } if (!c || !m) fail("create-failed", "no context"); in++;
        for (unsigned k = 0; k < n; k++) {
            wait_until([&] { return phase > k; }, "next interval"); float v; size_t vm = 0, sh = 0, rs = 0; HT_ErrorCode e; { Sut s; v = ht_cpu_usage_get_percentage(c); e = ht_memory_usage_get_usage(m, &vm, &sh, &rs); }
            if (std::fabs(v - 50.0) > 0.01) fail("wrong-usage", "thread %u: %g%% instead of 50%%", i, v); if (e != HT_ERR_OK || vm != 4096000 || sh != 409600 || rs != 2048000) fail("wrong-usage", "thread %u: memory usage %zu %zu %zu (error %d)", i, vm, sh, rs, e); in++;
        }
        { Sut s; ht_cpu_usage_context_destroy(c); ht_memory_usage_context_destroy(m); }
    }));
    for (unsigned k = 0; k < n; k++) { wait_until([&] { return in == nt * (k + 1); }, "probers"); advance(2000000000); tick0 += 100; proc_put("stat", stat_line(g, 1, tick0 / 2, tick0 - tick0 / 2)); phase = k + 1; }
    for (int t : th) join(t); nontrivial(); note("threads=%u probes=%u", nt, n);
}
Reg r3("C19", "threads", threads, 1);
}
