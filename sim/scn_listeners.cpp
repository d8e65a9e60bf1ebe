// C02: every listener gets every event, exactly once, in order.
#include "model.h"
#include <memory>
using namespace sim;

namespace {
struct Push { uint64_t start = 0, end = 0; };
struct World {
    Ledger led; std::map<uint32_t, Push> when;
    std::vector<std::unique_ptr<Rec>> recs;
    size_t cap; bool ser, dbl; unsigned km; size_t maxstr; bool nulls;
    std::vector<HT_Timeline*> tls;
};
Rec* add_rec(World& w, HT_Timeline* t, bool full, bool slow) {
    w.recs.emplace_back(new Rec); Rec* r = w.recs.back().get();
    r->ser = w.ser; r->slow = slow; r->led = &w.led; r->dec.seed_known(w.dbl);
    r->reg_start = global_steps(); HT_ErrorCode e;
    { Sut s; e = full ? ht_timeline_register_listener_full(t, (HT_TimelineListenerCallback)rec_cb, r, rec_destroy) : ht_timeline_register_listener(t, (HT_TimelineListenerCallback)rec_cb, r); }
    if (e != HT_ERR_OK) fail("register-failed", "listener registration returned %d", e);
    r->reg_end = global_steps();
    if (!full) r->destroyed = -1000000;
    return r;
}
void push_some(World& w, HT_Timeline* t, unsigned lane, unsigned n, unsigned base, bool check_flush) {
    for (unsigned i = 0; i < n; i++) {
        Rng r(1);
        if (!op_keep(&r)) continue;
        uint32_t tag = mk_tag(lane, base + i);
        UEv& e = w.led.add(gen_ev(r, tag, w.km, w.maxstr, w.nulls));
        Push& p = w.when[tag]; p.start = global_steps();
        { Sut s; user_push(t, e); }
        w.when[tag].end = global_steps();
        if (r.chance(1, 6)) {
            uint64_t f0 = global_steps();
            { Sut s; ht_timeline_flush(t); }
            if (check_flush)
                for (auto& rc : w.recs) if (rc->reg_end && rc->reg_end < p.start && !rc->seen.count(tag))
                    fail("flush-incomplete", "flush returned and a listener has not received event %u/%u pushed before it", lane, base + i);
            (void)f0;
        }
    }
}
// every listener: per lane a suffix of what was pushed; complete for pushes begun after its registration returned
void judge(World& w, bool one_order, const std::set<uint32_t>& exempt = {}) {
    std::map<unsigned, std::vector<uint32_t>> lanes;
    for (auto& e : w.led.evs) if (!exempt.count(e.first)) lanes[tag_lane(e.first)].push_back(e.first);
    const Rec* longest = nullptr; size_t n = 0;
    for (auto& rp : w.recs) {
        Rec& r = *rp; n++;
        std::map<unsigned, std::vector<uint32_t>> got;
        for (uint32_t t : r.tags) got[tag_lane(t)].push_back(t);
        for (auto& l : lanes) {
            auto& g = got[l.first];
            if (g.size() > l.second.size() || !std::equal(g.rbegin(), g.rend(), l.second.rbegin())) {
                std::string s; for (uint32_t t : g) s += std::to_string(tag_seq(t)) + " ";
                fail("lost-or-reordered", "listener %zu of %zu got events %sof producer %u; %zu were pushed", n, w.recs.size(), s.c_str(), l.first, l.second.size());
            }
            for (size_t i = 0; i < l.second.size() - g.size(); i++)
                if (w.when[l.second[i]].start > r.reg_end) fail("lost-event", "listener %zu missed event %u/%u pushed after its registration", n, l.first, tag_seq(l.second[i]));
            for (uint32_t t : g) if (w.when[t].end && w.when[t].end < r.reg_start && w.cap == 0) fail("stale-event", "unbuffered event delivered to a listener registered after it was pushed");
        }
        for (auto& g : got) if (!lanes.count(g.first)) fail("phantom-event", "events of producer %u were never pushed", g.first);
        if (one_order) {
            if (r.overlap) fail("overlapping-calls", "a listener of one thread-safe timeline was called by two threads at once");
            if (!longest || r.tags.size() > longest->tags.size()) longest = &r;
        }
        fold(r.tags.size());
    }
    if (one_order && longest) for (auto& rp : w.recs)
        if (!std::equal(rp->tags.rbegin(), rp->tags.rend(), longest->tags.rbegin())) fail("order-differs", "two listeners of one timeline saw different orders");
}
void check_destroyed(World& w, const char* when) { for (auto& r : w.recs) if (r->destroyed == 0) fail("destroy-not-called", "destroy callback not called %s", when); }

void params(World& w) {
    w.cap = pick("tl_capacity", {0, 1, 20, 40, 64, 100, 128, 200, 512, 4096});
    w.ser = knob("serialize", 0, 1); w.dbl = true; w.km = 0x7f; w.maxstr = pick("maxstr", {10, 40, 130, 300}); w.nulls = knob("null_strings", 0, 1);
    set_clock_step(pick("clock_step", {0, 1, 1000}));
}
void fanout() {
    World w; params(w);
    int topo = (int)knob("topology", 0, 3);     // 0 one thread-safe timeline, 1 named group, 2 global, 3 private timelines
    unsigned nt = (unsigned)knob("threads", 1, 4), n = (unsigned)knob("events", 1, 20), nl = (unsigned)pick("listeners", {1, 1, 2, 3, 5, 15, 16, 17, 33, 40});
    unsigned late = (unsigned)pick("late_listeners", {0, 1, 2, 4, 18}); bool slow = knob("slow", 0, 1), full = knob("destroy_cb", 0, 1), latethread = knob("late_thread", 0, 1);
    if (large_run(1500)) { n = (unsigned)pick("many", {300, 3000, 9000}); nt = 1 + (nt > 2); nl = 1 + nl % 2; late = late % 2; w.maxstr = 10; }
    else if (knob("long_strings", 0, 799) == 799) { w.maxstr = 100000; nl = 1 + nl % 2; }
    else if (knob("crowd", 0, 599) == 599) { nl = (unsigned)knob("many_listeners", 120, 300); n = 1 + n % 3; nt = 1 + nt % 2; w.maxstr = 10; set_coarse(); if (topo == 3) topo = 0; probe("more than 100 listeners"); }
    if (topo == 2) w.ser = true;
    lib_init((long)w.cap, true);
    HT_ErrorCode err; std::vector<int> th;
    auto mk = [&](const char* nm, bool ts) { HT_Timeline* t; scarce([&] { Sut s; t = ht_timeline_create(w.cap, ts ? HT_TRUE : HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, nm, &err); return t != nullptr; }); if (!t) fail("create-failed", "%d", err); return t; };
    if (topo == 3) {
        // every thread its own timeline with its own listeners: no cross talk
        std::vector<std::unique_ptr<World>> ws;
        for (unsigned i = 0; i < nt; i++) { ws.emplace_back(new World); World* x = ws.back().get(); x->cap = w.cap; x->ser = w.ser; x->dbl = true; x->km = w.km; x->maxstr = w.maxstr; x->nulls = w.nulls;
            th.push_back(spawn("producer", [=] {
                HT_ErrorCode e2; HT_Timeline* t; { Sut s; t = ht_timeline_create(x->cap, HT_FALSE, x->ser ? HT_TRUE : HT_FALSE, nullptr, &e2); }
                if (!t) fail("create-failed", "%d", e2);
                for (unsigned k = 0; k < nl; k++) add_rec(*x, t, full, slow);
                push_some(*x, t, i + 1, n, 0, true);
                for (unsigned k = 0; k < late; k++) add_rec(*x, t, full, slow);
                push_some(*x, t, i + 1, n / 2, n, true);
                { Sut s; ht_timeline_destroy(t); }
                if (full) check_destroyed(*x, "when the timeline was destroyed");
            })); }
        for (int x : th) join(x);
        for (auto& x : ws) judge(*x, true);
    } else {
        HT_Timeline* first; { Sut s; first = topo == 2 ? ht_global_timeline_get() : nullptr; }
        if (topo == 0) first = mk(nullptr, true);
        if (topo == 1) first = mk("grp", false);
        for (unsigned k = 0; k < nl; k++) add_rec(w, first, full, slow);
        for (unsigned i = 0; i < nt; i++) th.push_back(spawn("producer", [=, &w] {
            HT_Timeline* t = first; HT_ErrorCode e2;
            if (topo == 1) { Sut s; t = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "grp", &e2); }
            if (topo == 2) { Sut s; t = ht_global_timeline_get(); }
            if (!t) fail("create-failed", "%d", e2);
            push_some(w, t, i + 1, n, 0, true);
            if (!latethread && i == 0) for (unsigned k = 0; k < late; k++) add_rec(w, t, full, slow);
            push_some(w, t, i + 1, n / 2, n, true);
            if (topo == 1) { Sut s; ht_timeline_destroy(t); }
        }));
        if (latethread) th.push_back(spawn("registrar", [=, &w] {
            HT_Timeline* t = first; HT_ErrorCode e2;
            if (topo == 1) { Sut s; t = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "grp", &e2); }
            if (topo == 2) { Sut s; t = ht_global_timeline_get(); }
            if (!t) fail("create-failed", "%d", e2);
            for (unsigned k = 0; k < late; k++) add_rec(w, t, full, slow);
            if (topo == 1) { Sut s; ht_timeline_destroy(t); }
        }));
        if (topo == 2) { push_some(w, first, 9, n / 2, 0, true); }
        for (int x : th) join(x);
        if (topo == 2) { Sut s; ht_timeline_flush(first); } else { Sut s; ht_timeline_destroy(first); }
        if (topo == 0 && full) check_destroyed(w, "when the timeline was destroyed");
        if (topo == 1 && full) { for (auto& r : w.recs) if (r->destroyed) fail("destroyed-early", "listeners of a named group were destroyed while the group exists"); }
        judge(w, topo == 0);
        if (topo == 1) { lib_deinit(); if (full) check_destroyed(w, "when the library was shut down"); }
    }
    nontrivial();
    note("topology=%d threads=%u events=%u listeners=%u+%u capacity=%zu serialize=%d", topo, nt, n, nl, late, w.cap, w.ser);
    if (nl + late > 16) probe("more than 16 listeners");
    if (latethread && late) probe("registration concurrent with pushes");
}
Reg r1("C02", "fanout", fanout, 4);

// register / push / unregister_all / register again, in sequence
void churn() {
    World w; params(w);
    lib_init(-1, true);
    bool named = knob("named", 0, 1); HT_ErrorCode err; HT_Timeline *t, *t2 = nullptr;
    { Sut s; t = ht_timeline_create(w.cap, knob("ts", 0, 1) ? HT_TRUE : HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, named ? "churn" : nullptr, &err); if (named) t2 = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "churn", &err); }
    unsigned rounds = (unsigned)knob("rounds", 1, 5), seq = 0; std::set<uint32_t> before;
    for (unsigned i = 0; i < rounds; i++) {
        unsigned nl = (unsigned)knob(("l" + std::to_string(i)).c_str(), 0, 24), n = (unsigned)knob(("n" + std::to_string(i)).c_str(), 0, 8);
        for (unsigned k = 0; k < nl; k++) add_rec(w, t2 && k % 2 ? t2 : t, true, false);
        push_some(w, t, 1, n, seq, true); if (t2) push_some(w, t2, 2, n, seq, true);
        seq += n;
        { Sut s; ht_timeline_flush(t); if (t2) ht_timeline_flush(t2); }
        judge(w, !named, before);
        for (auto& e : w.led.evs) before.insert(e.first);
        if (i + 1 < rounds) {
            { Sut s; ht_timeline_unregister_all_listeners(t); }
            check_destroyed(w, "by unregister_all");
            w.recs.clear();
        }
    }
    { Sut s; ht_timeline_destroy(t); if (t2) ht_timeline_destroy(t2); }
    lib_deinit();
    check_destroyed(w, "at shutdown");
    nontrivial(); note("rounds=%u events=%zu", rounds, w.led.evs.size());
}
Reg r2("C02", "churn", churn, 1);
}
