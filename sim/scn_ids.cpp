// C08: event ids and thread ids.  C09: concurrent registration.
#include "model.h"
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
// ---------------------------------------------------------------- C08
struct Ids {
    std::map<uint64_t, std::string> seen;        // id -> where
    void add(uint64_t id, const std::string& w) { auto r = seen.insert({id, w}); if (!r.second) fail("duplicate-id", "event id %llu was handed out to %s and to %s", (unsigned long long)id, r.first->second.c_str(), w.c_str()); }
};
void ids() {
    unsigned nt = (unsigned)knob("threads", 1, 6), n = (unsigned)knob("ops", 1, 16), waves = (unsigned)knob("waves", 1, 2);
    if (large_run(1500)) { n = (unsigned)pick("many", {500, 5000, 40000}); nt = 1 + nt % 2; waves = 1; }
    size_t cap = pick("tl_capacity", {0, 64, 512});
    set_clock_step(pick("clock_step", {0, 1, 100}));
    lib_init((long)cap, true);
    HT_EventIdProvider* mine; HT_Timeline *shared, *g; HT_ErrorCode e;
    { Sut s; mine = ht_event_id_provider_create(); shared = ht_timeline_create(cap, HT_TRUE, HT_TRUE, nullptr, &e); g = ht_global_timeline_get(); }
    if (!mine || !shared || !g) fail("create-failed", "%d", e);
    Ledger led; Rec rs, rg; rs.led = &led; rs.dec.seed_known(true); rg.dec.seed_known(true);
    { Sut s; ht_timeline_register_listener(shared, (HT_TimelineListenerCallback)rec_cb, &rs); ht_timeline_register_listener(g, (HT_TimelineListenerCallback)rec_cb, &rg); }
    Ids def, own; std::map<uint32_t, int> alive; std::map<unsigned, uint32_t> tid_of_lane; std::map<unsigned, uint64_t> last_of_lane;
    unsigned lane0 = 1;
    for (unsigned wv = 0; wv < waves; wv++) {
        std::vector<int> th;
        for (unsigned i = 0; i < nt; i++) {
            unsigned lane = lane0++;
            th.push_back(spawn("worker", [&, lane] {
                uint32_t me; { Sut s; me = ht_thread_get_current_thread_id(); }
                if (alive.count(me)) fail("thread-id-shared", "threads %d and %u, both alive, have thread id %u", alive[me], lane, me);
                alive[me] = (int)lane; tid_of_lane[lane] = me;
                uint64_t ld = 0, lo = 0; bool fd = false, fo = false; unsigned seq = 0; std::string w = "thread " + std::to_string(lane);
                for (unsigned k = 0; k < n; k++) {
                    Rng r(1); if (!op_keep(&r)) continue;
                    switch (r.below(6)) {
                    case 0: { uint64_t id; { Sut s; id = ht_event_id_provider_next(ht_event_id_provider_get_default()); } def.add(id, w); if (fd && id <= ld) fail("id-not-increasing", "%s got id %llu after %llu", w.c_str(), (unsigned long long)id, (unsigned long long)ld); fd = true; ld = id; break; }
                    case 1: { uint64_t id; { Sut s; id = ht_event_id_provider_next(mine); } own.add(id, w); if (fo && id <= lo) fail("id-not-increasing", "%s got id %llu after %llu from its own provider", w.c_str(), (unsigned long long)id, (unsigned long long)lo); fo = true; lo = id; break; }
                    case 2: { UEv ev = gen_ev(r, mk_tag(lane, seq++), 0x3f & ~(1u << UK_BASE), 20, false); ev.auto_hdr = true; led.add(ev); Sut s; user_push(shared, led.evs[ev.tag]); break; }
                    case 3: { HT_Event ev; HT_Timeline* t; { Sut s; t = ht_global_timeline_get(); ht_timeline_init_event(t, &ev); } def.add(ev.id, w); if (fd && ev.id <= ld) fail("id-not-increasing", "%s got id %llu after %llu", w.c_str(), (unsigned long long)ev.id, (unsigned long long)ld); fd = true; ld = ev.id; break; }
                    case 4: { char lb[32]; snprintf(lb, sizeof lb, "%u", lane); Sut s; HT_Timeline* t = ht_global_timeline_get(); ht_feature_callstack_start_string(t, lb); ht_feature_callstack_stop(t); break; }
                    default: { uint32_t x; { Sut s; x = ht_thread_get_current_thread_id(); } if (x != me) fail("thread-id-changed", "a thread's id changed from %u to %u", me, x); }
                    }
                }
                { Sut s; uint32_t x = ht_thread_get_current_thread_id(); if (x != me) fail("thread-id-changed", "a thread's id changed from %u to %u", me, x); }
                alive.erase(me);
            }));
        }
        for (int t : th) join(t);
    }
    { Sut s; ht_timeline_flush(shared); ht_timeline_destroy(shared); ht_event_id_provider_destroy(mine); }
    size_t cs = 0;
    for (auto& d : rs.ev) { uint32_t t; if (!ev_tag(d, &t)) continue; unsigned l = tag_lane(t); std::string w = "an event of thread " + std::to_string(l); def.add(d.id, w); if (last_of_lane.count(l) && d.id <= last_of_lane[l]) fail("id-not-increasing", "%s got id %llu after %llu", w.c_str(), (unsigned long long)d.id, (unsigned long long)last_of_lane[l]); last_of_lane[l] = d.id; }
    for (auto& d : rg.ev) if (d.name == "HT_CallstackStringEvent") {
        cs++; def.add(d.id, "a callstack event"); unsigned lane = (unsigned)atoi(d.s("label").c_str());
        if (d.u("thread_id") != tid_of_lane[lane]) fail("wrong-thread", "the event recorded by a thread with id %u carries thread id %llu", tid_of_lane[lane], (unsigned long long)d.u("thread_id"));
    }
    if (cs) probe("callstack events checked");
    fold(def.seen.size()); nontrivial(); note("threads=%u x%u ops=%u default ids=%zu own ids=%zu", nt, waves, n, def.seen.size(), own.seen.size());
}
Reg r1("C08", "ids", ids, 1);

// id sources come and go, at reused addresses too, while threads draw from them
void id_sources() {
    unsigned nt = (unsigned)knob("threads", 1, 5), n = (unsigned)knob("ops", 1, 30), ns = (unsigned)knob("slots", 1, 3), gen = 0;
    lib_init(-1, true);
    struct Slot { HT_EventIdProvider* p = nullptr; unsigned busy = 0, gen = 0; std::vector<uint64_t> got; std::map<int, uint64_t> last; };
    std::vector<Slot> sl(ns);
    auto over = [](Slot& s) { std::sort(s.got.begin(), s.got.end()); for (size_t i = 0; i < s.got.size(); i++) if (s.got[i] != i) fail(i && s.got[i] == s.got[i - 1] ? "duplicate-id" : "id-sequence", "%zu ids were drawn from an id source; in order, #%zu is %llu", s.got.size(), i, (unsigned long long)s.got[i]); s.got.clear(); s.last.clear(); };
    std::vector<int> th; unsigned drawn = 0, reused = 0; std::set<void*> at;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("worker", [&, i] {
        for (unsigned k = 0; k < n; k++) {
            Rng r(1); if (!op_keep(&r)) continue; Slot& x = sl[r.below(ns)]; bool kill = r.chance(1, 5);
            if (!x.p && !x.busy) { x.busy++; HT_EventIdProvider* p; { Sut s; p = ht_event_id_provider_create(); } if (!p) fail("create-failed", "no id source"); x.gen = ++gen; if (!at.insert(p).second) reused++; x.p = p; x.busy--; }
            else if (!x.p) continue;
            else if (kill && !x.busy) { HT_EventIdProvider* p = x.p; over(x); x.p = nullptr; x.busy++; { Sut s; ht_event_id_provider_destroy(p); } x.busy--; }
            else for (unsigned c = 1 + (unsigned)r.below(r.chance(1, 10) ? 70 : 3); c; c--) {
                if (!x.p) break;
                x.busy++; unsigned g = x.gen; uint64_t id; { Sut s; id = ht_event_id_provider_next(x.p); } x.busy--; (void)g; drawn++;
                auto l = x.last.find((int)i); if (l != x.last.end() && id <= l->second) fail("id-not-increasing", "a thread got id %llu after %llu", (unsigned long long)id, (unsigned long long)l->second); x.last[(int)i] = id; x.got.push_back(id);
            }
        }
    }));
    for (int x : th) join(x);
    for (auto& x : sl) if (x.p) { over(x); Sut s; ht_event_id_provider_destroy(x.p); }
    if (reused) probe("id source at a reused address");
    fold(drawn * 64 + gen); nontrivial(); note("threads=%u ops=%u id sources=%u (%u at a used address) ids=%u", nt, n, gen, reused, drawn);
}
Reg r1b("C08", "id-sources", id_sources, 1);

// timelines with callstacks made by one thread and used by others, one after the other
void handed() {
    unsigned nt = (unsigned)knob("threads", 1, 4), rounds = (unsigned)knob("rounds", 1, 8), n = (unsigned)knob("timelines", 1, 3); size_t cap = pick("tl_capacity", {0, 64, 512}); set_clock_step(pick("clock_step", {0, 1}));
    lib_init(-1, true);
    struct T { HT_Timeline* t; Rec r; std::vector<std::pair<std::string, uint32_t>> want; bool busy = false; unsigned depth = 0; std::vector<std::string> open; };
    std::vector<std::unique_ptr<T>> ts; Ledger led;
    for (unsigned i = 0; i < n; i++) { ts.emplace_back(new T); T& t = *ts.back(); t.r.led = &led; t.r.dec.seed_known(true); HT_ErrorCode e; { Sut s; t.t = ht_timeline_create(cap, HT_FALSE, HT_TRUE, nullptr, &e); if (t.t) e = ht_feature_callstack_enable(t.t); if (t.t) ht_timeline_register_listener(t.t, (HT_TimelineListenerCallback)rec_cb, &t.r); } if (!t.t || e != HT_ERR_OK) fail("create-failed", "%d", e); }
    std::vector<int> th; unsigned seq = 0; std::map<uint32_t, unsigned> alive;
    auto use = [&](unsigned i) {
        uint32_t me; { Sut s; me = ht_thread_get_current_thread_id(); } if (alive.count(me)) fail("thread-id-shared", "threads %u and %u, both alive, have thread id %u", alive[me], i, me); alive[me] = i;
        for (unsigned k = 0; k < rounds; k++) {
            Rng r(1); if (!op_keep(&r)) continue; T& t = *ts[r.below(n)]; if (t.busy) { yield(); continue; } t.busy = true;
            for (unsigned c = 1 + (unsigned)r.below(4); c; c--) if (t.open.empty() || (t.open.size() < 5 && r.chance(1, 2))) { t.open.push_back(std::to_string(seq++)); Sut s; ht_feature_callstack_start_int(t.t, (HT_CallstackEventLabel)atoi(t.open.back().c_str())); } else { t.want.push_back({t.open.back(), me}); t.open.pop_back(); Sut s; ht_feature_callstack_stop(t.t); }
            while (!t.open.empty()) { t.want.push_back({t.open.back(), me}); t.open.pop_back(); Sut s; ht_feature_callstack_stop(t.t); }
            t.busy = false;
        }
        alive.erase(me);
    };
    if (knob("main_first", 0, 1)) use(99);
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("user", [&, i] { use(i); }));
    for (int x : th) join(x);
    size_t total = 0;
    for (auto& t : ts) {
        { Sut s; ht_timeline_destroy(t->t); } std::vector<const DEv*> got; for (auto& d : t->r.ev) if (d.name == "HT_CallstackIntEvent") got.push_back(&d);
        if (got.size() != t->want.size()) fail("wrong-count", "%zu tracepoints finished, %zu events", t->want.size(), got.size());
        for (size_t i = 0; i < got.size(); i++) if (got[i]->u("thread_id") != t->want[i].second || std::to_string(got[i]->u("label")) != t->want[i].first) fail("wrong-thread", "tracepoint %s recorded by the thread with id %u is delivered as %s with thread id %llu", t->want[i].first.c_str(), t->want[i].second, std::to_string(got[i]->u("label")).c_str(), (unsigned long long)got[i]->u("thread_id"));
        total += got.size();
    }
    fold(total); if (total) nontrivial(); note("threads=%u timelines=%u tracepoints=%zu", nt, n, total);
}
Reg r1c("C08", "handed-over-callstacks", handed, 1);

// ---------------------------------------------------------------- C09
struct MetaSink { Decoder d; std::vector<DEv> ev; bool ser; size_t bytes = 0; std::vector<std::pair<std::string, uint32_t>> raw; };
void meta_cb(void* p, size_t n, unsigned ser, void* ud) {
    Har h; MetaSink* m = (MetaSink*)ud; size_t used = 0; m->bytes += n;
    if (!n || !heap_addressable(p, n)) fail("bad-batch-memory", "metadata batch of %zu bytes is not addressable", n);
    if (!!ser != m->ser) fail("wrong-serialized-flag", "metadata announced as serialized=%u", ser);
    if (ser) { std::string b((char*)p, n); m->d.decode(b, m->ev, &used); if (!m->d.err.empty()) fail("bad-metadata", "%s", m->d.err.c_str()); if (used != n) fail("bad-metadata", "metadata batch ends inside an event"); }
    else {
        size_t left = n; const char* q = (const char*)p;
        while (left) { std::string nm; uint32_t id = 0; DEv d; size_t z = user_unpack_meta(q, left, d.name, d.v_s, d.v_u); if (!z || z > left) fail("bad-metadata", "unserialised metadata batch does not hold whole events"); for (auto& x : d.v_s) { Val v; v.is_str = true; v.s = x.second; d.v[x.first] = v; } for (auto& x : d.v_u) { Val v; v.u = x.second; d.v[x.first] = v; } d.klass = d.name == "HT_EventKlassInfoEvent" ? 2 : d.name == "HT_EventKlassFieldInfoEvent" ? 3 : d.name == "HT_EndiannessInfoEvent" ? 0 : 99; m->ev.push_back(d); q += z; left -= z; (void)id; }
    }
}
void klasses() {
    unsigned nt = (unsigned)knob("threads", 1, 5), ops = (unsigned)knob("ops", 1, 14), nk = (unsigned)knob("klasses", 1, 19), readers = (unsigned)knob("meta_readers", 0, 2), rounds = (unsigned)knob("meta_rounds", 1, 3);
    bool dbl = knob("double", 0, 1);
    lib_init(-1, dbl);
    bool verbose = knob("long_descriptions", 0, 1);
    std::map<int, uint32_t> id_of; std::map<int, uint64_t> done;            // klass -> id, step at which a registration had returned
    HT_ErrorCode e; HT_Timeline* t; { Sut s; t = ht_timeline_create(pick("tl_capacity", {0, 64, 512}), HT_TRUE, HT_TRUE, nullptr, &e); }
    struct Got { std::vector<std::pair<uint32_t, std::string>> v; } got;
    HT_TimelineListenerCallback cb = [](HT_Byte* p, size_t n, HT_Boolean, void* ud) { Har h; size_t i = 0; while (i + 28 <= n) { uint32_t k; memcpy(&k, p + i, 4); ((Got*)ud)->v.push_back({k, std::string((char*)p + i + 20, 8)}); i += 28; } if (i != n) fail("malformed-batch", "listener got %zu bytes of 28-byte events", n); };
    { Sut s; ht_timeline_register_listener(t, cb, &got); }
    std::vector<int> th; std::vector<std::pair<int, uint32_t>> pushed; uint32_t tag = 0; unsigned seqs = 0;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("registrar", [&] {
        for (unsigned k = 0; k < ops; k++) {
            Rng r(1); if (!op_keep(&r)) continue;
            int kl = (int)r.below(nk); if (verbose) kl = 18 - kl; uint32_t id;
            { Sut s; id = user_register_one(kl); }
            if (id == HT_INVALID_KLASS_ID) fail("no-id", "registration returned no id");
            if (id_of.count(kl) && id_of[kl] != id) fail("id-changed", "SimReg%d was given id %u, later id %u", kl, id_of[kl], id);
            for (auto& o : id_of) if (o.first != kl && o.second == id) fail("id-shared", "SimReg%d and SimReg%d both have id %u", kl, o.first, id);
            id_of[kl] = id; if (!done.count(kl)) done[kl] = global_steps();
            if (r.chance(1, 2)) { uint32_t tg = ++tag; pushed.push_back({kl, tg}); Sut s; user_push_reg(t, kl, tg, 7); }
        }
    }));
    auto check_meta = [&](MetaSink& m, uint64_t begun, bool final) {
        std::vector<std::string> must; for (auto& d : done) if (d.second < begun || final) must.push_back("SimReg" + std::to_string(d.first));
        must.insert(must.end(), user_names.begin(), user_names.end());
        size_t nm; std::string s = check_metadata(m.ev, m.d, must, &nm);
        if (!s.empty()) fail("bad-metadata", "%s", s.c_str());
        if (nm != m.ev.size()) fail("bad-metadata", "%zu events are not metadata", m.ev.size() - nm);
        for (auto& d : m.ev) if (d.klass == 2 && d.s("event_klass_name").compare(0, 6, "SimReg") == 0) { int kl = atoi(d.s("event_klass_name").c_str() + 6); if (id_of.count(kl) && id_of[kl] != d.u("info_klass_id")) fail("bad-metadata", "SimReg%d described with id %llu, it has id %u", kl, (unsigned long long)d.u("info_klass_id"), id_of[kl]); }
    };
    for (unsigned i = 0; i < readers; i++) th.push_back(spawn("meta-reader", [&, i] {
        for (unsigned k = 0; k < rounds; k++) {
            MetaSink m; m.ser = knob(("mser" + std::to_string(i)).c_str(), 0, 1); uint64_t b = global_steps(); size_t sz; seqs++;
            { Sut s; sz = ht_timeline_listener_push_metadata((HT_TimelineListenerCallback)meta_cb, &m, m.ser ? HT_TRUE : HT_FALSE); }
            if (sz != m.bytes) fail("bad-metadata", "push_metadata returned %zu, the listener got %zu bytes", sz, m.bytes);
            check_meta(m, b, false);
        }
    }));
    for (int x : th) join(x);
    MetaSink m; m.ser = true; { Sut s; ht_timeline_listener_push_metadata((HT_TimelineListenerCallback)meta_cb, &m, HT_TRUE); ht_timeline_destroy(t); }
    check_meta(m, 0, true);
    MetaSink u; u.ser = false; { Sut s; ht_timeline_listener_push_metadata((HT_TimelineListenerCallback)meta_cb, &u, HT_FALSE); }
    check_meta(u, 0, true);
    for (auto& k : id_of) { uint32_t id; { Sut s; id = user_register_one(k.first); } if (id != k.second) fail("id-changed", "re-registration of SimReg%d returned %u instead of %u", k.first, id, k.second); }
    if (got.v.size() != pushed.size()) fail("event-lost", "%zu events pushed, %zu received", pushed.size(), got.v.size());
    for (auto& p : pushed) { bool ok = false; for (auto& g : got.v) { uint32_t tg; memcpy(&tg, g.second.data(), 4); if (tg == p.second && g.first == id_of[p.first]) ok = true; } if (!ok) fail("wrong-klass-id", "an event of SimReg%d was not sent with that klass' id", p.first); }
    fold(id_of.size()); nontrivial(); note("threads=%u ops=%u klasses=%zu metadata pushes during registration=%u", nt, ops, id_of.size(), seqs);
}
Reg r2("C09", "event-klasses", klasses, 2);

// applications with more klasses than the usual dozen: ids beyond one and two bytes have to survive the registry, the metadata and the event headers
void many_klasses() {
    unsigned nt = (unsigned)knob("threads", 1, 3), nk = (unsigned)pick("klasses", {20, 60, 130, 250, 300, 700}), again = (unsigned)knob("again", 0, 20);
    if (large_run(150)) { nk = (unsigned)pick("many", {3000, 66000}); again = 3; if (nk > 60000) probe("more klasses than 16 bits count"); } else set_coarse();
    lib_init(-1, false);
    { Sut s; user_register_one(0); }
    struct K { HT_EventKlass* k; char name[24]; uint32_t id; bool reg; }; std::vector<K> ks(nk);
    for (unsigned i = 0; i < nk; i++) { snprintf(ks[i].name, sizeof ks[i].name, "SimMany%u", i); ks[i].k = user_make_klass(ks[i].name); ks[i].reg = false; ks[i].id = 0; }
    HT_ErrorCode e; HT_Timeline* t; { Sut s; t = ht_timeline_create(pick("tl_capacity", {0, 64, 512}), HT_TRUE, HT_TRUE, nullptr, &e); }
    struct Got { std::vector<std::pair<uint32_t, uint32_t>> v; } got; std::vector<std::pair<uint32_t, unsigned>> pushed;
    HT_TimelineListenerCallback cb = [](HT_Byte* p, size_t n, HT_Boolean, void* ud) { Har h; size_t i = 0; while (i + 28 <= n) { uint32_t k, tg; memcpy(&k, p + i, 4); memcpy(&tg, p + i + 20, 4); ((Got*)ud)->v.push_back({k, tg}); i += 28; } if (i != n) fail("malformed-batch", "listener got %zu bytes of 28-byte events", n); };
    { Sut s; ht_timeline_register_listener(t, cb, &got); }
    uint32_t tag = 0; std::vector<int> th;
    auto reg = [&](unsigned i) {
        uint32_t id; { Sut s; id = ht_registry_register_event_klass(ks[i].k); }
        if (id == HT_INVALID_KLASS_ID) fail("no-id", "registration of klass %u returned no id", i);
        if (ks[i].reg && ks[i].id != id) fail("id-changed", "%s was given id %u, later id %u", ks[i].name, ks[i].id, id);
        ks[i].reg = true; ks[i].id = id;
    };
    auto push = [&](unsigned i) { uint32_t tg = ++tag; pushed.push_back({tg, i}); Sut s; user_push_made(t, ks[i].k, tg, 9); };
    unsigned every = nk > 3000 ? 64 : 5;
    for (unsigned j = 0; j < nt; j++) th.push_back(spawn("registrar", [&, j] {
        for (unsigned i = j; i < nk; i += nt) { reg(i); if (i % every == 0) push(i); }
        for (unsigned a = 0; a < again; a++) { Rng r(1); if (!op_keep(&r)) continue; unsigned i = (unsigned)r.below(nk / nt) * nt + j; if (i >= nk) continue; reg(i); push(i); }
    }));
    for (int x : th) join(x);
    std::map<uint32_t, unsigned> owner;
    for (unsigned i = 0; i < nk; i++) { auto o = owner.insert({ks[i].id, i}); if (!o.second) fail("id-shared", "%s and %s both have id %u", ks[o.first->second].name, ks[i].name, ks[i].id); }
    for (unsigned i = 0; i < nk; i += 1 + nk / 400) { reg(i); push(i); }
    MetaSink m; m.ser = true; size_t sz; { Sut s; sz = ht_timeline_listener_push_metadata((HT_TimelineListenerCallback)meta_cb, &m, HT_TRUE); ht_timeline_destroy(t); }
    if (sz != m.bytes) fail("bad-metadata", "push_metadata returned %zu, the listener got %zu bytes", sz, m.bytes);
    std::map<uint32_t, unsigned> fields; size_t infos = 0;
    for (auto& d : m.ev) {
        if (d.klass == 2 && d.s("event_klass_name").compare(0, 7, "SimMany") == 0) {
            unsigned i = (unsigned)atoi(d.s("event_klass_name").c_str() + 7); infos++;
            if (i >= nk || d.u("info_klass_id") != ks[i].id) fail("bad-metadata", "%s described with id %llu, it has id %u", d.s("event_klass_name").c_str(), (unsigned long long)d.u("info_klass_id"), i < nk ? ks[i].id : 0);
            if (d.u("field_count") != 3) fail("bad-metadata", "%s announced with %llu fields", ks[i].name, (unsigned long long)d.u("field_count"));
        }
        if (d.klass == 3 && owner.count((uint32_t)d.u("info_klass_id"))) { static const char* fn[] = {"base", "tag", "r0"}; unsigned& f = fields[(uint32_t)d.u("info_klass_id")]; if (f >= 3 || d.s("field_name") != fn[f]) fail("bad-metadata", "field %u of klass id %llu is described as %s", f, (unsigned long long)d.u("info_klass_id"), d.s("field_name").c_str()); f++; }
    }
    if (infos != nk) fail("bad-metadata", "%zu of %u klasses are described in the metadata", infos, nk);
    for (auto& o : owner) if (fields[o.first] != 3) fail("bad-metadata", "%u fields of klass id %u are described", fields[o.first], o.first);
    if (got.v.size() != pushed.size()) fail("event-lost", "%zu events pushed, %zu received", pushed.size(), got.v.size());
    std::map<uint32_t, uint32_t> seen; for (auto& g : got.v) seen[g.second] = g.first;
    for (auto& p : pushed) { auto g = seen.find(p.first); if (g == seen.end()) fail("event-lost", "event %u was not received", p.first); if (g->second != ks[p.second].id) fail("wrong-klass-id", "an event of %s was sent with klass id %u, not %u", ks[p.second].name, g->second, ks[p.second].id); }
    { Sut s; ht_deinit(); }
    if (nk > 256) probe("more klasses than one byte counts");
    fold(nk); fold(pushed.size()); nontrivial(); note("threads=%u klasses=%u events=%zu", nt, nk, pushed.size());
}
Reg r2b("C09", "many-klasses", many_klasses, 1);

void features() {
    unsigned nt = (unsigned)knob("threads", 1, 5), nk = (unsigned)pick("features", {1, 2, 3, 8, 29, 30, 31, 40}), ops = (unsigned)knob("ops", 1, 20);
    lib_init(-1, false);
    std::vector<HT_FeatureKlass> fk(nk); for (auto& f : fk) { f.destroy = nullptr; f.id = HT_INVALID_FEATURE_ID; }
    std::map<unsigned, uint32_t> id_of; std::map<unsigned, int> oks; unsigned full = 0;
    std::vector<int> th;
    auto one = [&](unsigned k) {
        HT_ErrorCode e; bool was = id_of.count(k); { Sut s; e = ht_registry_register_feature(&fk[k]); }
        if (e == HT_ERR_OK) { if (++oks[k] > 1) fail("registered-twice", "feature %u was newly registered twice", k); }
        else if (e == HT_ERR_MAX_FEATURE_COUNT_REACHED) { full++; if (was) fail("id-changed", "registered feature %u reported as over the limit", k); if (id_of.size() + 2 < HT_TIMELINE_MAX_FEATURES && nk < HT_TIMELINE_MAX_FEATURES - 2) fail("limit", "limit reported with %zu features", id_of.size()); return; }
        else if (e != HT_ERR_FEATURE_ALREADY_REGISTERED) fail("register-error", "feature registration returned %d", e);
        uint32_t id = fk[k].id;
        if (id >= HT_TIMELINE_MAX_FEATURES) fail("no-id", "feature %u registered with id %u", k, id);
        if (was && id_of[k] != id) fail("id-changed", "feature %u had id %u, now %u", k, id_of[k], id);
        for (auto& o : id_of) if (o.first != k && o.second == id) fail("id-shared", "features %u and %u both have id %u", k, o.first, id);
        id_of[k] = id;
    };
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("registrar", [&] { for (unsigned k = 0; k < ops; k++) { Rng r(1); if (!op_keep(&r)) continue; one((unsigned)r.below(nk)); } }));
    for (int t : th) join(t);
    for (unsigned k = 0; k < nk; k++) one(k);
    if (nk + 2 <= HT_TIMELINE_MAX_FEATURES ? id_of.size() != nk : id_of.size() != HT_TIMELINE_MAX_FEATURES - 2) fail("limit", "%zu of %u features have an id", id_of.size(), nk);
    // the features of the library are unaffected
    HT_ErrorCode e; HT_Timeline* t; { Sut s; t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, &e); e = ht_feature_callstack_enable(t); if (e == HT_ERR_OK) e = ht_feature_cached_string_enable(t, HT_TRUE); }
    if (e != HT_ERR_OK) fail("core-feature", "enabling a core feature returned %d", e);
    // a feature sits in its own slot
    struct F { HT_Feature b; int k; }; std::vector<F> fs(nk); static int destroyed; destroyed = 0;
    for (unsigned k = 0; k < nk; k++) if (id_of.count(k)) { fs[k].b.klass = &fk[k]; fk[k].destroy = [](HT_Feature*) { destroyed++; }; { Sut s; e = ht_timeline_set_feature(t, &fs[k].b); } if (e != HT_ERR_OK) fail("id-shared", "setting feature %u returned %d", k, e); }
    for (unsigned k = 0; k < nk; k++) if (id_of.count(k)) { HT_Feature* f; { Sut s; f = ht_timeline_get_feature(t, &fk[k]); } if (f != &fs[k].b) fail("id-shared", "feature %u resolves to another feature", k); }
    { Sut s; ht_timeline_destroy(t); }
    if (destroyed != (int)id_of.size()) fail("feature-destroy", "%d of %zu features destroyed with their timeline", destroyed, id_of.size());
    if (full) probe("feature limit reached");
    nontrivial(); note("threads=%u features=%u refused=%u", nt, nk, full);
}
Reg r3("C09", "features", features, 1);

unsigned g_hostile;
std::string gname(unsigned i) { if (g_hostile) { i += 2 * g_hostile; return i < 50 ? hostile_name(i) : "past " + std::to_string(i); } static const char* n[] = {"group", "group ", "ab", "bA", "Ab", "", "HT_GlobalTimeline2", "gROUP"}; return i < 8 ? n[i] : (i % 3 ? "group number " : "") + std::to_string(i); }
void groups() {
    unsigned nt = (unsigned)knob("threads", 1, 4), ng = (unsigned)knob("groups", 1, 8), ops = (unsigned)knob("ops", 1, 8); size_t cap = pick("tl_capacity", {0, 64, 512});
    bool crowd = knob("crowd", 0, 39) == 39; if (crowd) { ng = (unsigned)knob("many_groups", 9, 44); probe("many groups"); }
    unsigned off = (unsigned)knob("offset", 0, 7); g_hostile = knob("hostile_names", 0, 3) == 3 ? (unsigned)knob("first_name", 1, 24) : 0;
    lib_init(-1, true);
    Ledger led; std::vector<std::unique_ptr<Rec>> recs(ng); std::map<uint32_t, unsigned> group_of; std::vector<int> th; unsigned made = 0;
    for (unsigned g = 0; g < ng; g++) { recs[g].reset(new Rec); recs[g]->dec.seed_known(true); recs[g]->led = &led; }
    // one timeline per group registers the listener; others join concurrently
    std::vector<HT_Timeline*> anchors(ng); HT_ErrorCode e;
    bool racing = knob("racing_anchor", 0, 1); std::vector<int> anchored(ng, 0);
    auto anchor = [&](unsigned g) { HT_ErrorCode e; HT_Timeline* t; std::string nm = gname(g + off); { Sut s; t = ht_timeline_create(cap, HT_FALSE, HT_TRUE, nm.c_str(), &e); if (t) e = ht_timeline_register_listener_full(t, (HT_TimelineListenerCallback)rec_cb, recs[g].get(), rec_destroy); } if (!t || e != HT_ERR_OK) fail("create-failed", "group timeline %d", e); anchors[g] = t; anchored[g] = 1; };
    for (unsigned g = 0; g < ng; g++) if (!racing) anchor(g); else th.push_back(spawn("anchor", [&, g] { anchor(g); }));
    std::vector<uint32_t> must;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("member", [&, i] {
        unsigned seq = 0;
        for (unsigned k = 0; k < ops; k++) {
            Rng r(1); if (!op_keep(&r)) continue;
            unsigned g = (unsigned)r.below(ng); HT_Timeline* t; HT_ErrorCode e; std::string nm = gname(g + off);
            { Sut s; t = ht_timeline_create(cap, HT_FALSE, HT_TRUE, nm.c_str(), &e); } if (!t) fail("create-failed", "%d", e);
            made++;
            unsigned c = 1 + (unsigned)r.below(3); bool sure = anchored[g];
            while (c--) { UEv& ev = led.add(gen_ev(r, mk_tag(i + 1, seq++), 0x7f, 40, false)); group_of[ev.tag] = g; if (sure) must.push_back(ev.tag); Sut s; user_push(t, ev); }
            { Sut s; ht_timeline_destroy(t); }
        }
    }));
    for (int t : th) join(t);
    for (unsigned g = 0; g < ng; g++) { Sut s; ht_timeline_destroy(anchors[g]); }
    for (unsigned g = 0; g < ng; g++) for (uint32_t t : recs[g]->tags) if (group_of[t] != g) fail("group-crosstalk", "the listener of group \"%s\" received an event pushed to group \"%s\"", gname(g + off).c_str(), gname(group_of[t] + off).c_str());
    for (uint32_t t : must) if (!recs[group_of[t]]->seen.count(t)) fail("group-lost", "an event pushed to group \"%s\" never reached the listener of that group", gname(group_of[t] + off).c_str());
    { Sut s; ht_deinit(); }
    for (unsigned g = 0; g < ng; g++) if (recs[g]->destroyed != 1) fail("destroy-not-called", "listener of group %u destroyed %d times", g, recs[g]->destroyed);
    fold(made); nontrivial(); note("threads=%u groups=%u timelines=%u events=%zu", nt, ng, made, led.evs.size());
    (void)e;
}
Reg r4("C09", "groups", groups, 1);
}
