// C15: the task scheduler, against a small reference model.
#include "model.h"
#include "user_trace.h"
#include <memory>
static uint64_t gcd_of(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
using namespace sim;

namespace {
struct World;
struct Task { World* w; unsigned n; HT_TaskId id = -1; bool live = false, restart = false; uint64_t period = 0, next = 0; unsigned runs_this_tick = 0, runs = 0; bool must = false, may = false, in_add = false; };
struct World { HT_TaskScheduler* s = nullptr; std::vector<std::unique_ptr<Task>> t; std::map<HT_TaskId, Task*> by; bool ticking = false; Rng* r = nullptr; unsigned depth = 0, reent = 0; bool callbacks; };
unsigned cb(void* ud);
uint64_t a_period(Rng& r) { static const uint64_t p[] = {0, 1, 2, 3, 5, 10, 12, 100, 1000, 60000000000ull, 1ull << 61}; return p[r.below(r.chance(1, 8) ? 11 : 9)]; }
void add(World& w, Rng& r) {
    if (w.t.size() >= 400) return;
    w.t.push_back(std::make_unique<Task>()); Task* k = w.t.back().get(); k->w = &w; k->n = (unsigned)w.t.size(); k->restart = r.chance(1, 2); k->period = a_period(r); k->may = w.ticking; uint64_t asked = k->period;
    if (r.chance(1, 10)) {   // a period given through the duration macros is what it says
        unsigned n = (unsigned)r.below(20), lang = (unsigned)r.below(3); { Sut s; asked = lang == 0 ? user_dur_c(n, &k->period) : lang == 1 ? user_dur_98(n, &k->period) : user_dur_11(n, &k->period); }
        probe("period from a duration macro"); if (k->period >= 1000000000ull) probe("period of seconds");
    }
    k->next = now() + k->period;
    { Sut s; k->id = ht_task_scheduler_schedule_task(w.s, k->restart ? HT_TASK_SCHEDULING_RESTART_TIMER : HT_TASK_SCHEDULING_IGNORE_DELAYS, asked, (HT_TaskCallback)cb, k); }
    if (k->id < 0) fail("no-id", "a task could not be scheduled");
    if (w.by.count(k->id)) fail("id-reused", "two tasks were given id %d", k->id);
    w.by[k->id] = k; k->live = true;
}
void remove(World& w, HT_TaskId id) {
    auto it = w.by.find(id); bool want = it != w.by.end() && it->second->live, got; { Sut s; got = ht_task_scheduler_remove_task(w.s, id); }
    if (got != want) fail("remove-result", "removing task %d, which %s, returned %d", id, want ? "is scheduled" : "is not scheduled", got);
    if (want) it->second->live = false;
}
HT_TaskId some_id(World& w, Rng& r) { if (w.t.empty() || r.chance(1, 10)) return (HT_TaskId)r.below(100) - 5; return w.t[r.below(w.t.size())]->id; }
void check_period(World& w) { uint64_t g = 0; for (auto& k : w.t) if (k->live) g = gcd_of(g, k->period); uint64_t p; { Sut s; p = ht_task_scheduler_get_optimal_tick_period(w.s); } if (p != g) fail("tick-period", "the optimal tick period is reported as %llu, the greatest common divisor is %llu", (unsigned long long)p, (unsigned long long)g); }
unsigned cb(void* ud) {
    Har h; Task* k = (Task*)ud; World& w = *k->w;
    if (!w.ticking) fail("run-outside-tick", "a task ran outside a tick");
    if (!k->live) fail("run-after-removal", "task %d ran although it had been removed", k->id);
    if (k->next > now()) fail("run-early", "task %d (period %llu) ran %llu ns early", k->id, (unsigned long long)k->period, (unsigned long long)(k->next - now()));
    if (++k->runs_this_tick > 1) fail("run-twice", "task %d ran twice in one tick", k->id);
    k->runs++; fold(mix(now(), k->n));
    bool keep = true; Rng r = *w.r; w.r->next(); r.s ^= k->n * 977; r.next();
    if (w.callbacks) switch (r.below(9)) {
        case 0: keep = false; break;
        case 1: w.reent++; remove(w, k->id); probe("task removes itself"); break;
        case 2: w.reent++; remove(w, some_id(w, r)); probe("task removes another"); break;
        case 3: w.reent++; add(w, r); probe("task adds a task"); break;
        case 4: advance(r.below(30)); probe("slow task"); break;
        case 5: w.reent++; for (unsigned n = 1 + (unsigned)r.below(20); n; n--) add(w, r); break;
        case 6: w.reent++; for (unsigned n = 1 + (unsigned)r.below(6); n; n--) remove(w, some_id(w, r)); break;
        case 7: check_period(w); break;
        default: break;
    } else if (r.chance(1, 6)) keep = false;
    k->next = k->restart ? now() + k->period : k->next + k->period;
    if (!keep) k->live = false;
    return keep ? HT_TRUE : HT_FALSE;
}
void sched() {
    unsigned ops = (unsigned)knob("ops", 2, 60), start = (unsigned)pick("tasks_at_start", {0, 1, 5, 16, 17, 40, 70, 150}); set_clock_step(0); advance(knob("epoch", 0, 1) ? 1000000007 : 5);
    World w; w.callbacks = knob("reentrant", 0, 1); HT_ErrorCode e; uint64_t per_task;
    { HT_TaskScheduler* q; { Sut s; q = ht_task_scheduler_create(&e); } uint64_t b = heap_live_sut_blocks(); for (int i = 0; i < 32; i++) { Sut s; ht_task_scheduler_schedule_task(q, HT_TASK_SCHEDULING_RESTART_TIMER, 1, (HT_TaskCallback)cb, nullptr); } per_task = (heap_live_sut_blocks() - b + 31) / 32; Sut s; ht_task_scheduler_destroy(q); }
    uint64_t base = heap_live_sut_blocks(); { Sut s; w.s = ht_task_scheduler_create(&e); } if (!w.s || e != HT_ERR_OK) fail("create-failed", "%d", e);
    unsigned ticks = 0; uint64_t ran = 0;
    { Rng r(seed() ^ 3); for (unsigned i = 0; i < start; i++) add(w, r); }
    for (unsigned o = 0; o < ops; o++) {
        Rng r(1); if (!op_keep(&r)) continue;
        switch (r.below(10)) {
        case 8: { std::vector<HT_TaskId> live; for (auto& k : w.t) if (k->live) live.push_back(k->id); bool fwd = r.chance(1, 2); size_t n = r.chance(1, 3) ? live.size() : r.below(live.size() + 1); for (size_t i = 0; i < n; i++) remove(w, fwd ? live[i] : live[live.size() - 1 - i]); if (n > 30) probe("many tasks removed"); break; }
        case 9: for (unsigned n = (unsigned)r.below(r.chance(1, 4) ? 100 : 10); n; n--) add(w, r); break;
        case 0: add(w, r); break;
        case 1: remove(w, some_id(w, r)); break;
        case 2: advance(r.below(r.chance(1, 6) ? r.chance(1, 3) ? 90000000000000ull : 200000 : 40)); if (r.chance(1, 4)) for (auto& k : w.t) if (k->live && k->next > now() && k->next - now() < (1ull << 50)) { advance(k->next - now() - r.below(2)); break; } break;
        case 3: { HT_TaskId id; { Sut s; id = ht_task_scheduler_schedule_task(w.s, HT_TASK_SCHEDULING_RESTART_TIMER, 1, nullptr, nullptr); } if (id >= 0) fail("null-callback", "a task without a callback was accepted"); break; }
        case 4: check_period(w); break;
        default:
            if (r.chance(1, 2)) advance(r.below(15));
            for (auto& k : w.t) { k->runs_this_tick = 0; k->may = false; k->must = k->live && k->next <= now(); }
            { std::vector<Task*> had; for (auto& k : w.t) had.push_back(k.get()); Rng rr = r; w.r = &rr; w.ticking = true; { Sut s; ht_task_scheduler_tick(w.s); } w.ticking = false; ticks++;
              for (Task* k : had) { if (k->must && !k->runs_this_tick && k->live) fail("not-run", "task %d (period %llu) was due and did not run at the tick", k->id, (unsigned long long)k->period); ran += k->runs_this_tick; } }
            // memory in proportion to what is scheduled: from the next tick on at the latest, a removed task needs no memory
            { uint64_t live = 0; for (auto& k : w.t) live += k->live; uint64_t blocks = heap_live_sut_blocks() - base; if (blocks > 8 + per_task * live) fail("memory-growth", "%llu tasks are scheduled, the scheduler holds %llu blocks after a tick", (unsigned long long)live, (unsigned long long)blocks); }
        }
    }
    { Sut s; ht_task_scheduler_destroy(w.s); }
    if (heap_live_sut_blocks() > base) fail("memory-leak", "%llu blocks of the scheduler were not freed", (unsigned long long)(heap_live_sut_blocks() - base));
    fold(ran * 131 + w.t.size()); if (ran) nontrivial(); note("ops=%u ticks=%u tasks=%zu runs=%llu reentrant operations=%u", ops, ticks, w.t.size(), (unsigned long long)ran, w.reent);
}
Reg r1("C15", "scheduler-history", sched, 1);
}
