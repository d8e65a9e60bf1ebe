// C10: histories of ht_init / ht_deinit.
#include "realparse.h"
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
struct TL {
    HT_Timeline* t = nullptr; Ledger led; Rec rec; std::string path; bool grouped = false, file = false, listen = false, ser = true; unsigned epoch = 0, seq = 0; size_t must_meta = 0; std::set<std::string> known;
};
struct MetaBuf { std::string b; };
void raw_cb(void* p, size_t n, unsigned, void* ud) { Har h; ((MetaBuf*)ud)->b.append((char*)p, n); }

struct World {
    int count = 0; unsigned epoch = 0; bool user = false; std::set<int> regs; std::vector<std::unique_ptr<TL>> tls, graves; unsigned made = 0, cycles = 0, double_inits = 0, late_destroys = 0; std::vector<uint32_t> ids;
    std::set<std::string> registered() { std::set<std::string> s(core_names.begin(), core_names.end()); if (user) s.insert(user_names.begin(), user_names.end()); for (int r : regs) s.insert("SimReg" + std::to_string(r)); return s; }
};
void check_init(World& w) { bool b; { Sut s; b = ht_is_initialized(); } if (b != (w.count > 0)) fail("initialized-flag", "ht_is_initialized() says %d after a history with %d unmatched initialisations", b, w.count); }
void check_names(const std::vector<DEv>& ev, const std::set<std::string>& want, const char* what) {
    std::map<std::string, int> n; std::set<uint64_t> ids;
    for (auto& e : ev) if (e.name == "HT_EventKlassInfoEvent") { n[e.s("event_klass_name")]++; if (!ids.insert(e.u("info_klass_id")).second) fail("bad-metadata", "%s: two klasses are described with id %llu", what, (unsigned long long)e.u("info_klass_id")); }
    for (auto& x : want) if (n[x] != 1) fail("bad-metadata", "%s: klass %s, registered since the library was initialised, is described %d times", what, x.c_str(), n[x]);
    for (auto& x : n) if (!want.count(x.first)) fail("bad-metadata", "%s: klass %s is described but was not registered since the library was initialised", what, x.first.c_str());
}
void check_meta(World& w) {
    MetaBuf m; size_t n; { Sut s; n = ht_timeline_listener_push_metadata((HT_TimelineListenerCallback)raw_cb, &m, HT_TRUE); }
    if (n != m.b.size()) fail("bad-metadata", "push_metadata returned %zu for %zu bytes", n, m.b.size());
    Decoder d; std::vector<DEv> ev; size_t used; d.decode(m.b, ev, &used);
    if (!d.err.empty() || used != m.b.size()) fail("bad-metadata", "malformed metadata: %s", d.err.c_str());
    size_t nm; std::vector<std::string> must; for (auto& x : w.registered()) if (std::find(core_names.begin(), core_names.end(), x) == core_names.end()) must.push_back(x);
    std::string s = check_metadata(ev, d, must, &nm); if (!s.empty()) fail("bad-metadata", "%s", s.c_str());
    check_names(ev, w.registered(), "metadata");
    for (auto& e : ev) if (e.name == "HT_EventKlassInfoEvent") { std::string nme = e.s("event_klass_name"); uint32_t id = ~0u; if (nme.compare(0, 6, "SimReg") == 0) { Sut s2; id = user_reg_klass(atoi(nme.c_str() + 6))->klass_id; } else { Sut s2; id = user_core_id(nme.c_str()); for (int k = 0; k < UK_COUNT; k++) if (nme == uk_name(k)) id = user_klass_id(k); } if (id != e.u("info_klass_id")) fail("bad-metadata", "klass %s is described with id %llu, events carry %u", nme.c_str(), (unsigned long long)e.u("info_klass_id"), id); }
}
void destroy(World& w, size_t i) {
    TL& t = *w.tls[i];
    if (w.count == 0) { w.late_destroys++; probe("timeline destroyed after the library was shut down"); }
    { Sut s; ht_timeline_destroy(t.t); }
    if (t.listen) {
        int want_d = t.grouped && w.count > 0 && t.epoch == w.epoch ? 0 : 1;       // the group lives until the library is shut down
        if (t.rec.destroyed != want_d) fail("listener-not-destroyed", "the listener's destroy callback ran %d times", t.rec.destroyed);
        std::vector<uint32_t> want; for (auto& e : t.led.evs) want.push_back(e.first);
        if (t.rec.tags != want) fail("event-lost", "%zu events pushed, %zu delivered (or out of order)", want.size(), t.rec.tags.size());
    }
    if (t.file) {
        std::string b = disk_get(t.path); Decoder d; std::vector<DEv> ev; size_t used, nm = 0; d.decode(b, ev, &used);
        if (!d.err.empty() || used != b.size()) fail("malformed-stream", "dump file: %s (%zu of %zu bytes)", d.err.c_str(), used, b.size());
        std::vector<std::string> must; for (auto& x : t.known) if (std::find(core_names.begin(), core_names.end(), x) == core_names.end()) must.push_back(x);
        std::string s = check_metadata(ev, d, must, &nm); if (!s.empty()) fail("bad-metadata", "%s", s.c_str());
        check_names(ev, t.known, "dump file");
        s = check_all(ev, nm, t.led, {}); if (!s.empty()) fail("content-mismatch", "%s", s.c_str());
        if (disk_open_handles() > (int)std::count_if(w.tls.begin(), w.tls.end(), [&](auto& x) { return x->file; }) - 1) fail("handle-leak", "file still open after its timeline was destroyed");
    }
    w.graves.push_back(std::move(w.tls[i])); w.tls.erase(w.tls.begin() + (long)i);
}
void life() {
    unsigned ops = (unsigned)knob("ops", 2, 40); bool globals = knob("global_timeline", 0, 1), overlap = knob("late_thread_exit", 0, 1);
    set_stdio_buffer(pick("stdio_buf", {0, 64, 512})); set_clock_step(pick("clock_step", {0, 1, 1000}));
    World w; user_names.push_back("SimDouble"); long gsize = -1;
    static char console[65536]; setvbuf(stdout, console, _IOFBF, sizeof console);        // where the library complains about its arguments
    uint64_t base = heap_live_sut_blocks();
    check_init(w);
    auto init = [&](Rng& r) {
        // the application's arguments: the library's option anywhere among others, well formed or not
        std::vector<std::string> a; bool none = r.chance(1, 3); long size = gsize; if (!none) {
            a.push_back("app"); static const char* const other[] = {"other", "--ht-global-timeline-buffer-siz", "--ht-global-timeline-buffer-size=5", "-x", "", "17"};
            for (unsigned n = (unsigned)r.below(5); n; n--) {
                if (r.chance(1, 2)) { a.push_back(other[r.below(6)]); continue; }
                a.push_back("--ht-global-timeline-buffer-size");
                if (n == 1 && r.chance(1, 3)) break;                                                         // no value
                if (r.chance(1, 4)) { static const char* const bad[] = {"x", "", "--ht-global-timeline-buffer-size", "99999999999999999999999", "--"}; a.push_back(bad[r.below(5)]); continue; }
                size = (long[]){0, 1, 64, 100, 333, 2000, 1000000}[r.below(7)]; a.push_back((r.chance(1, 4) ? "00" : "") + std::to_string(size));
            }
        }
        std::vector<std::vector<char>> mem; for (auto& x : a) { mem.emplace_back(x.begin(), x.end()); mem.back().push_back(0); } auto copy = mem; std::vector<char*> av; for (auto& m : mem) av.push_back(m.data()); av.push_back(nullptr); auto av0 = av;
        { Sut s; ht_init((int)a.size(), none && r.chance(1, 2) ? nullptr : av.data()); }
        if (mem != copy || av != av0) fail("arguments-changed", "initialising the library changed the application's arguments");
        if (w.count == 0 && size >= 0) { gsize = size; probe("size of the global timelines given"); }
        if (w.count++ == 0) { w.epoch++; w.user = false; w.regs.clear(); w.ids.clear(); if (w.epoch > 1) probe("initialised again after a shutdown"); } else { w.double_inits++; probe("initialised twice"); }
    };
    auto deinit = [&] {
        bool was = w.count > 0; { Sut s; ht_deinit(); }
        if (was) { if (--w.count == 0) { w.cycles++; for (auto& g : w.graves) if (g->listen && g->rec.destroyed != 1) fail("listener-not-destroyed", "the library was shut down, but a listener's destroy callback ran %d times", g->rec.destroyed); } } else probe("shutdown without initialisation");
    };
    auto need_user = [&] { if (w.user) return; { Sut s; user_register_klasses(true); } w.user = true; };
    for (unsigned k = 0; k < ops; k++) {
        Rng r(1); if (!op_keep(&r)) continue;
        switch (r.below(w.count ? 12 : 3)) {
        case 0:
            // the epoch may only begin anew once timelines that hold raw events of the previous one are gone
            if (w.count == 0) for (size_t i = w.tls.size(); i-- > 0;) if (!w.tls[i]->ser) destroy(w, i);
            init(r); break;
        case 1: deinit(); break;
        case 2: if (!w.tls.empty()) destroy(w, r.below(w.tls.size())); break;
        case 3: need_user(); check_meta(w); break;
        case 4: { int n = (int)r.below(19); uint32_t id; { Sut s; id = user_register_one(n); } if (id == HT_INVALID_KLASS_ID) fail("no-id", "registration gave no id"); w.regs.insert(n); break; }
        case 5: case 6: {
            if (w.tls.size() >= 4) break;
            need_user(); auto t = std::make_unique<TL>(); t->ser = r.chance(2, 3); t->epoch = w.epoch; HT_ErrorCode e; size_t cap = (size_t[]){0, 64, 300, 2000}[r.below(4)];
            // the unshared file name and anonymous or unique group keep each timeline's record its own
            std::string g = "grp" + std::to_string(w.made); bool grouped = t->grouped = r.chance(1, 3);
            { Sut s; t->t = ht_timeline_create(cap, r.chance(1, 2) ? HT_TRUE : HT_FALSE, t->ser ? HT_TRUE : HT_FALSE, grouped ? g.c_str() : nullptr, &e); }
            if (!t->t) fail("create-failed", "timeline could not be created: %d", e);
            t->listen = r.chance(2, 3); t->file = !grouped && r.chance(1, 2);
            if (t->listen) { t->rec.ser = t->ser; t->rec.led = &t->led; t->rec.dec.seed_known(true); { Sut s; e = ht_timeline_register_listener_full(t->t, (HT_TimelineListenerCallback)rec_cb, &t->rec, (HT_DestroyCallback)rec_destroy); } if (e != HT_ERR_OK) fail("create-failed", "listener: %d", e); }
            if (t->file) { t->known = w.registered(); t->path = "/sim/life" + std::to_string(w.made) + ".htdump"; HT_FileDumpListener* f; { Sut s; f = ht_file_dump_listener_register(t->t, t->path.c_str(), 64, &e); } if (!f) fail("create-failed", "file listener: %d", e); }
            w.made++; w.tls.push_back(std::move(t)); break;
        }
        case 11: {      // a thread with its own global timeline
            if (!globals) break;
            need_user(); auto rec = std::make_shared<Rec>(); auto led = std::make_shared<Ledger>(); rec->led = led.get(); rec->dec.seed_known(true); bool late = overlap && w.count == 1 && r.chance(1, 2); unsigned n = 1 + (unsigned)r.below(5); uint64_t sd = r.next(); auto seen = std::make_shared<std::vector<size_t>>(); long gs = gsize; if (gs >= 0) n += (unsigned)r.below(12); auto go = std::make_shared<bool>(false), ready = std::make_shared<bool>(false);
            int th = spawn("user of the global timeline", [=] {
                HT_Timeline* t; { Sut s; t = ht_global_timeline_get(); } if (!t) fail("create-failed", "no global timeline");
                HT_ErrorCode e; { Sut s; e = ht_timeline_register_listener(t, (HT_TimelineListenerCallback)rec_cb, rec.get()); } if (e != HT_ERR_OK) fail("create-failed", "listener on the global timeline: %d", e);
                Rng q(sd); for (unsigned i = 0; i < n; i++) { UEv ev = gen_ev(q, mk_tag(50, i), 0x7f, 40, false); UEv& x = led->add(ev); { Sut s; user_push(t, x); } seen->push_back(rec->tags.size()); }
                *ready = true; if (late) wait_until([=] { return *go; }, "shutdown");
            });
            if (late) { wait_until([=] { return *ready; }, "pushed"); deinit(); check_init(w); *go = true; probe("thread exits after the library was shut down"); }
            join(th);
            if (rec->tags.size() != led->evs.size()) fail("event-lost", "global timeline: %zu events pushed, %zu delivered when its thread exited", led->evs.size(), rec->tags.size());
            if (gs >= 0) {        // events wait in the buffer as long as they fit into the size which was asked for, and no longer
                std::vector<size_t> end(1, 0); for (auto& d : rec->ev) end.push_back(end.back() + d.len);
                for (size_t i = 0, c0 = 0; i < seen->size(); i++) {
                    size_t c = (*seen)[i], wait = end[i + 1] - end[c]; if (wait > (size_t)gs) fail("buffer-size", "global timelines were asked to buffer %ld bytes; %zu bytes were waiting after event %zu", gs, wait, i);
                    if (c != c0 && end[i + 1] - end[c0] < (size_t)gs) fail("buffer-size", "global timelines were asked to buffer %ld bytes; the first %zu bytes were delivered at event %zu", gs, end[i + 1] - end[c0], i); c0 = c;
                }
                probe("buffering of a global timeline checked");
            }
            // later users of the group would call this listener again
            if (!late) { Sut s; HT_ErrorCode e; HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", &e); if (t) { ht_timeline_unregister_all_listeners(t); ht_timeline_destroy(t); } }
            break;
        }
        default: {
            std::vector<TL*> c; for (auto& t : w.tls) if (t->epoch == w.epoch) c.push_back(t.get());
            if (c.empty()) break;
            TL& t = *c[r.below(c.size())]; UEv ev = gen_ev(r, mk_tag(1, t.seq++), 0x7f, 40, false); UEv& x = t.led.add(ev); { Sut s; user_push(t.t, x); if (r.chance(1, 4)) ht_timeline_flush(t.t); }
        }
        }
        check_init(w);
    }
    while (!w.tls.empty()) destroy(w, 0);
    while (w.count) { deinit(); check_init(w); }
    uint64_t live = heap_live_sut_blocks();
    if (live > base) fail("memory-leak", "%llu blocks still allocated after everything was destroyed and the library shut down (%llu before the first initialisation)", (unsigned long long)live, (unsigned long long)base);
    fold(w.cycles * 100 + w.made); if (w.cycles) nontrivial();
    note("ops=%u cycles=%u timelines=%u repeated inits=%u late destroys=%u", ops, w.cycles, w.made, w.double_inits, w.late_destroys);
}
Reg r1("C10", "init-deinit-history", life, 1);
}
