// C16: allocation failures, injected through the library's own allocator seam (ht_allocator_set).
#include "model.h"
#include "user_trace.h"
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
struct Alloc { std::map<void*, size_t> live; uint64_t n = 0, failed = 0, fail_at = ~0ull; bool from_then_on = false, off = false; } A;
void* sim_alloc(void* p, size_t n, void* ud) {
    Har h; Alloc* a = (Alloc*)ud;
    if (p && !a->live.count(p)) fail("bad-free", "the allocator is given a block it does not own (freed twice or never allocated)");
    if (n == 0) { if (p) { a->live.erase(p); Sut s; free(p); } return nullptr; }
    a->n++;
    bool f = false;
    if (!a->off) { f = fault(F_ALLOC_FAIL); if (a->n == a->fail_at || (a->from_then_on && a->n > a->fail_at)) { f = true; note_fault(F_ALLOC_FAIL); } }
    if (f) { a->failed++; trace("allocation of %zu bytes fails", n); return nullptr; }
    void* q; { Sut s; q = realloc(p, n); }
    if (p) a->live.erase(p);
    a->live[q] = n; return q;
}
struct Did { uint64_t at; Did() : at(A.failed) {} bool failed() const { return A.failed != at; } };
struct Span { unsigned lane; std::string text; bool shaky; };
struct Extra { HT_Timeline* t; bool ok = false; int destroyed = 0; size_t bytes = 0; };
struct TL {
    HT_Timeline* t = nullptr; bool ser, cs = false, cache = false; unsigned id = 0, seq = 0; std::vector<Span> st; std::vector<std::pair<std::string, bool>> done;     // label, may be missing
    std::vector<std::pair<uint32_t, bool>> pushed; Ledger led; std::vector<uint32_t> got_tags; std::vector<std::string> got_calls; std::map<uint64_t, std::string> maps; std::map<uint64_t, std::pair<std::string, bool>> want_maps; Decoder dec; bool listening = false; int destroyed = 0;
    std::string path; HT_FileDumpListener* fl = nullptr; size_t fl_from = 0; std::vector<std::unique_ptr<std::string>> keep; std::vector<char> cells; std::vector<std::unique_ptr<Extra>> extra; std::vector<std::vector<std::string>> must_known; bool global = false;
};
void on_event(TL& t, const DEv& d) {
    if (d.name == "HT_CallstackStringEvent") { t.got_calls.push_back(d.s("label")); return; }
    if (d.name == "HT_StringMappingEvent") { t.maps[d.u("identifier")] = d.s("label"); return; }
    if (d.name == "HT_CallstackIntEvent") return;
    uint32_t tag; if (!ev_tag(d, &tag) || !t.led.evs.count(tag)) fail("phantom-event", "delivered %s, which nobody pushed", show(d).c_str());
    std::string s = check_ev(d, t.led.evs[tag]); if (!s.empty()) fail("content-mismatch", "%s", s.c_str());
    t.got_tags.push_back(tag);
}
void oom_cb(void* p, size_t n, unsigned ser, void* ud) {
    Har h; TL& t = *(TL*)ud;
    if (!!ser != t.ser) fail("wrong-serialized-flag", "serialized=%u", ser);
    if (!n || !heap_addressable(p, n)) fail("bad-batch-memory", "batch of %zu bytes is not addressable", n);
    if (ser) { std::string b((char*)p, n); size_t used; std::vector<DEv> ev; t.dec.decode(b, ev, &used); if (!t.dec.err.empty() || used != n) fail("malformed-batch", "%s (%zu of %zu)", t.dec.err.c_str(), used, n); for (auto& d : ev) on_event(t, d); }
    else for (size_t i = 0; i < n;) {
        UEv e; size_t z = n - i < sizeof(HT_Event) ? 0 : user_unpack((char*)p + i, e);
        if (z) { if (!t.led.evs.count(e.tag)) fail("phantom-event", "delivered an event nobody pushed"); t.got_tags.push_back(e.tag); }
        else { UCall u; z = user_unpack_call((char*)p + i, n - i, u); if (!z) fail("malformed-batch", "unserialised batch of %zu bytes does not hold whole events", n); if (u.name == "HT_CallstackStringEvent") t.got_calls.push_back(u.text); if (u.name == "HT_StringMappingEvent") t.maps[u.label] = u.text; }
        i += z;
    }
}
void extra_cb(void* p, size_t n, unsigned, void* ud) { Har h; Extra& x = *(Extra*)ud; if (!x.ok) fail("foreign-callback", "a listener whose registration failed was called"); if (x.destroyed) fail("callback-after-destroy", "a listener was called after its destruction"); if (!heap_addressable(p, n)) fail("bad-batch-memory", "batch of %zu bytes is not addressable", n); x.bytes += n; }
void extra_destroy(void* ud) { Har h; ((Extra*)ud)->destroyed++; }
void oom_destroy(void* ud) { Har h; ((TL*)ud)->destroyed++; }
// got must be want without some of its optional elements
template <class T> void subseq(const char* what, const std::vector<std::pair<T, bool>>& want, const std::vector<T>& got) {
    size_t j = 0;
    for (auto& w : want) { if (j < got.size() && got[j] == w.first) { j++; continue; } if (!w.second) fail("event-lost", "%s #%zu is missing or out of order although no allocation failed for it", what, (size_t)(&w - &want[0])); }
    if (j != got.size()) fail("phantom-event", "%s: %zu delivered, only %zu match what was pushed", what, got.size(), j);
}
struct World { bool init = false, klasses = false; std::vector<std::unique_ptr<TL>> tl; unsigned made = 0; HT_TaskScheduler* sch = nullptr; std::map<HT_TaskId, unsigned*> tasks; std::vector<std::unique_ptr<unsigned>> cnt; HT_EventIdProvider* prov = nullptr; HT_TCPListener* tcp = nullptr; unsigned errors = 0, focus = 15; bool tcpk; };
void expect(const Did& d, bool ok, bool reported, const char* what, int code) { if (ok && reported) fail("wrong-error", "%s succeeded but reported error %d", what, code); if (!ok && !reported) fail("no-error", "%s failed without reporting an error", what); if (!ok && !d.failed()) fail("spurious-failure", "%s failed with %d although no allocation failed", what, code); }
bool up(World& w) {
    if (!w.init) { Did d; char* av[] = {nullptr}; bool b; { Sut s; ht_init(0, av); b = ht_is_initialized(); } expect(d, b, !b, "initialisation", 0); if (!b) { w.errors++; probe("initialisation fails and is retried"); return false; } w.init = true; w.klasses = false; }
    if (!w.klasses) {
        Did d; { Sut s; user_register_klasses(false); } bool all = true;
        for (int k = 0; k < UK_COUNT; k++) if (k != UK_DOUBLE && user_klass_id(k) == HT_INVALID_KLASS_ID) all = false;
        if (!all && !d.failed()) fail("spurious-failure", "an event type got no id although no allocation failed");
        if (!all) { w.errors++; return false; }
        // an id given out must describe the klass in the metadata
        w.klasses = true;
    }
    return true;
}
void judge(TL& t) {
    if (t.listening) { subseq<uint32_t>("event", t.pushed, t.got_tags); subseq<std::string>("tracepoint", t.done, t.got_calls); for (auto& m : t.want_maps) { auto i = t.maps.find(m.first); if (i == t.maps.end()) { if (!m.second.second) fail("never-mapped", "\"%s\" was added without any allocation failing, but its mapping is not in the stream", m.second.first.c_str()); } else if (i->second != m.second.first) fail("wrong-text", "identifier of \"%s\" is mapped to \"%s\"", m.second.first.c_str(), i->second.c_str()); } }
    if (!t.path.empty()) {
        std::string b = disk_get(t.path); Decoder d; std::vector<DEv> ev; size_t used, nm; d.decode(b, ev, &used);
        if (!d.err.empty() || used != b.size()) fail("malformed-stream", "the dump file is damaged: %s (%zu of %zu)", d.err.c_str(), used, b.size());
        std::string s = check_metadata(ev, d, user_names, &nm); if (!s.empty()) fail("bad-metadata", "%s", s.c_str());
        std::vector<uint32_t> got; for (size_t i = nm; i < ev.size(); i++) { uint32_t tag; if (ev[i].name.compare(0, 3, "HT_") == 0 && ev[i].name != "HT_Event") continue; if (!ev_tag(ev[i], &tag) || !t.led.evs.count(tag)) fail("phantom-event", "the file holds %s, which nobody pushed", show(ev[i]).c_str()); s = check_ev(ev[i], t.led.evs[tag]); if (!s.empty()) fail("content-mismatch", "%s", s.c_str()); got.push_back(tag); }
        subseq<uint32_t>("event in the file", {t.pushed.begin() + (long)t.fl_from, t.pushed.end()}, got);
    }
}
void tl_destroy(World& w, size_t i, bool check) { TL& t = *w.tl[i]; Did d; { Sut s; ht_timeline_destroy(t.t); } if (d.failed() && !t.ser) for (auto& p : t.pushed) p.second = true; judge(t); if (t.listening && t.destroyed != 1) fail("listener-not-destroyed", "destroy callback ran %d times", t.destroyed);
    for (auto& x : t.extra) if (x->destroyed != x->ok) fail("listener-not-destroyed", "destroy callback ran %d times, registration %s", x->destroyed, x->ok ? "succeeded" : "failed"); (void)check; w.tl.erase(w.tl.begin() + (long)i); }
unsigned task_cb(void* ud) { Har h; ++*(unsigned*)ud; return HT_TRUE; }
void push(TL& t, Rng& r) { uint32_t tag = mk_tag(1, t.seq++); UEv ev = gen_ev(r, tag, 0x3f, 300, false); t.keep.push_back(std::make_unique<std::string>()); t.led.add(ev); UEv& e = t.led.evs[tag]; Did d; { Sut s; user_push(t.t, e); } t.pushed.push_back({tag, false}); if (d.failed()) { if (t.ser) t.pushed.back().second = true; else for (auto& p : t.pushed) p.second = true; probe("an event is dropped for lack of memory"); } }
// All mappings are pushed again: what arrives must be what the identifiers given out so far stand for.
void push_map(TL& t) {
    { Sut s; ht_timeline_flush(t.t); } auto had = t.maps; t.maps.clear(); Did d; { Sut s; ht_feature_cached_string_push_map(t.t); ht_timeline_flush(t.t); }
    if (t.listening) for (auto& m : t.want_maps) { auto i = t.maps.find(m.first); if (i != t.maps.end() ? i->second != m.second.first : !d.failed()) fail(i != t.maps.end() ? "wrong-text" : "never-mapped", "identifier of \"%s\" is pushed as %s", m.second.first.c_str(), i != t.maps.end() ? i->second.c_str() : "nothing"); }
    for (auto& m : t.maps) had[m.first] = m.second; t.maps = had; probe("mappings pushed again");
}
void op1(World& w, Rng& r, std::vector<int>& th);
// events of a timeline that does not serialise are serialised by its listeners, in whatever call flushes them
void op(World& w, Rng& r, std::vector<int>& th) { uint64_t f = A.failed; op1(w, r, th); if (f != A.failed) for (auto& t : w.tl) if (!t->ser) for (auto& p : t->pushed) p.second = true; }
void op1(World& w, Rng& r, std::vector<int>& th) {
    unsigned k = (unsigned)r.below(16); if (w.focus < 16 && r.chance(1, 2)) k = w.focus; TL* t = w.tl.empty() ? nullptr : w.tl[r.below(w.tl.size())].get(); HT_ErrorCode e = HT_ERR_OK;
    if (!up(w)) return;
    if (k == w.focus && !t) k = 0; if (k == w.focus && k == 8 && !t->cs) k = 6; if (k == w.focus && k == 9 && !t->cache) k = 7;
    switch (k) {
    case 0: case 1: {
        if (w.tl.size() >= 4) break;
        auto n = std::make_unique<TL>(); n->ser = r.chance(2, 3); n->id = ++w.made; size_t cap = (size_t[]){0, 64, 200, 2000}[r.below(4)]; std::string g = "g" + std::to_string(n->id);
        { Did d; { Sut s; n->t = ht_timeline_create(cap, r.chance(1, 2) ? HT_TRUE : HT_FALSE, n->ser ? HT_TRUE : HT_FALSE, nullptr, &e); } expect(d, n->t, e != HT_ERR_OK, "creating a timeline", e); if (!n->t) { w.errors++; break; } }
        { Did d; { Sut s; e = ht_timeline_register_listener_full(n->t, (HT_TimelineListenerCallback)oom_cb, n.get(), (HT_DestroyCallback)oom_destroy); } expect(d, e == HT_ERR_OK, e != HT_ERR_OK, "registering a listener", e); n->listening = e == HT_ERR_OK; }
        n->dec.seed_known(false); w.tl.push_back(std::move(n)); break;
    }
    case 2: if (t) tl_destroy(w, (size_t)(std::find_if(w.tl.begin(), w.tl.end(), [&](auto& x) { return x.get() == t; }) - w.tl.begin()), true); break;
    case 3: case 4: case 5: if (t) push(*t, r); break;
    case 6: if (t) { Did d; bool had = t->cs; { Sut s; e = ht_feature_callstack_enable(t->t); } if (had) { if (e == HT_ERR_OK) fail("wrong-error", "a feature was enabled twice"); } else { expect(d, e == HT_ERR_OK, e != HT_ERR_OK, "enabling callstacks", e); t->cs = e == HT_ERR_OK; } } break;
    case 7: if (t) { Did d; bool had = t->cache; { Sut s; e = ht_feature_cached_string_enable(t->t, r.chance(1, 2) ? HT_TRUE : HT_FALSE); } if (had) { if (e == HT_ERR_OK) fail("wrong-error", "a feature was enabled twice"); } else { expect(d, e == HT_ERR_OK, e != HT_ERR_OK, "enabling cached strings", e); t->cache = e == HT_ERR_OK; } } break;
    case 8: if (t && t->cs) for (bool deep = r.chance(1, 4), go = true; go; go = false) for (unsigned n = deep ? 20 + (unsigned)r.below(50) : 1 + (unsigned)r.below(r.chance(1, 4) ? 40 : 3); n; n--) {
        if (deep || r.chance(1, 2) || t->st.empty()) { t->keep.push_back(std::make_unique<std::string>(std::to_string(t->seq++) + std::string(r.below(r.chance(1, 5) ? 200 : 5), 'l'))); Did d; { Sut s; ht_feature_callstack_start_string(t->t, t->keep.back()->c_str()); } t->st.push_back({0, *t->keep.back(), d.failed() || (!t->st.empty() && t->st.back().shaky)}); if (d.failed()) probe("starting a tracepoint fails"); }
        else { Did d; { Sut s; ht_feature_callstack_stop(t->t); } t->done.push_back({t->st.back().text, t->st.back().shaky || d.failed()}); t->st.pop_back(); }
    } break;
    case 9: if (t && t->cache && r.chance(1, 5)) push_map(*t); else if (t && t->cache) for (unsigned burst = r.chance(1, 4) ? 2 + (unsigned)r.below(12) : 1; burst; burst--) {
        std::string* s1; t->keep.push_back(std::make_unique<std::string>("str" + std::to_string(r.below(40)) + std::string(r.chance(1, 4) ? 150 : 0, 'm'))); s1 = t->keep.back().get(); bool dyn = r.chance(1, 2); uint64_t id; const char* arg = s1->c_str();
        if (burst > 1) { // addresses which the map of strings keeps together
            dyn = false; if (t->cells.empty()) t->cells.assign(512 * 26, 0); char* c = t->cells.data() + (512 - (uintptr_t)t->cells.data() % 512) + 512 * r.below(24); if (!*c) memcpy(c, s1->c_str(), s1->size() + 1); *s1 = c; arg = c;
        }
        Did d; { Sut s; id = dyn ? ht_feature_cached_string_add_mapping_dynamic(t->t, arg) : ht_feature_cached_string_add_mapping(t->t, arg); }
        if (!id) { if (!d.failed()) fail("spurious-failure", "adding a string failed although no allocation failed"); w.errors++; continue; }
        auto& m = t->want_maps[id]; if (!m.first.empty() && m.first != *s1) fail("wrong-text", "two strings share an identifier"); if (m.first.empty()) m = {*s1, d.failed()};
        if (d.failed() && !t->ser) for (auto& p : t->pushed) p.second = true;
    } break;
    case 10: if (t && t->path.empty()) {
        std::string p = "/sim/oom" + std::to_string(t->id) + "_" + std::to_string(t->seq++) + ".htdump"; { Sut s; ht_timeline_flush(t->t); } Did d; { Sut s; t->fl = ht_file_dump_listener_register(t->t, p.c_str(), (size_t[]){1, 64, 256, t->ser ? 0u : 1u}[r.below(4)], &e); } expect(d, t->fl, e != HT_ERR_OK, "creating a file listener", e);
        if (t->fl) { t->path = p; t->fl_from = t->pushed.size(); } else w.errors++;
        if (disk_open_handles() != std::count_if(w.tl.begin(), w.tl.end(), [](auto& x) { return !x->path.empty(); })) fail("handle-leak", "%d files are open", disk_open_handles());
    } break;
    case 11: if (t && r.chance(1, 2)) { Did d; { Sut s; ht_timeline_flush(t->t); if (t->fl) ht_file_dump_listener_flush(t->fl, HT_FALSE); } if (d.failed() && !t->ser) for (auto& p : t->pushed) p.second = true; } else {
        if (!w.sch) { Did d; { Sut s; w.sch = ht_task_scheduler_create(&e); } expect(d, w.sch, e != HT_ERR_OK, "creating a scheduler", e); }
        else if (r.chance(1, 3)) { advance(10); for (auto& c : w.cnt) *c = 0; { Sut s; ht_task_scheduler_tick(w.sch); } for (auto& c : w.tasks) if (*c.second != 1) fail("not-run", "a due task ran %u times", *c.second); }
        else for (unsigned many = r.chance(1, 3) ? 1 + (unsigned)r.below(20) : 1; many; many--) { w.cnt.push_back(std::make_unique<unsigned>(0)); Did d; HT_TaskId id; { Sut s; id = ht_task_scheduler_schedule_task(w.sch, HT_TASK_SCHEDULING_RESTART_TIMER, 10, (HT_TaskCallback)task_cb, w.cnt.back().get()); } expect(d, id >= 0, id < 0, "scheduling a task", id); if (id >= 0) w.tasks[id] = w.cnt.back().get(); else w.cnt.pop_back(); } } break;
    case 14: if (t) for (unsigned n = 1 + (unsigned)r.below(12); n && t->extra.size() < 40; n--) {      // so many listeners that their list has to grow
        t->extra.push_back(std::make_unique<Extra>()); Extra* x = t->extra.back().get(); x->t = t->t; x->ok = true; Did d;
        { Sut s; e = ht_timeline_register_listener_full(t->t, (HT_TimelineListenerCallback)extra_cb, x, (HT_DestroyCallback)extra_destroy); } expect(d, e == HT_ERR_OK, e != HT_ERR_OK, "registering a listener", e); x->ok = e == HT_ERR_OK;
        if (t->extra.size() > 15) probe("many listeners on a timeline");
    } break;
    case 12: { Did d; HT_EventIdProvider* p; { Sut s; p = ht_event_id_provider_create(); } expect(d, p, !p, "creating an id provider", 0); if (p) { uint64_t a, b; { Sut s; a = ht_event_id_provider_next(p); b = ht_event_id_provider_next(p); ht_event_id_provider_destroy(p); } if (b <= a) fail("id-not-increasing", "ids"); }
        int n = (int)r.below(19); Did d2; uint32_t id; { Sut s; id = user_register_one(n); } expect(d2, id != HT_INVALID_KLASS_ID, id == HT_INVALID_KLASS_ID, "registering an event type", 0); break; }
    case 13: { // a thread with its own global timeline
        std::string* lab = nullptr; bool must = true; (void)lab; unsigned n = 1 + (unsigned)r.below(4);
        int x = spawn("user of the global timeline", [&, n] {
            HT_Timeline* g; Did d; { Sut s; g = ht_global_timeline_get(); } if (!g && !d.failed()) fail("spurious-failure", "no global timeline although no allocation failed"); if (!g) { must = false; probe("no global timeline"); uint64_t a, b; { Sut s; a = ht_feature_cached_string_add_mapping(nullptr, "x"); b = ht_feature_cached_string_add_mapping_dynamic(nullptr, "x"); } if (a || b) fail("no-error", "a string was mapped without a timeline"); }
            TL l; l.ser = true; l.dec.seed_known(false); l.t = g; bool listen = false; HT_ErrorCode e2;
            if (g) { Did d2; { Sut s; e2 = ht_timeline_register_listener(g, (HT_TimelineListenerCallback)oom_cb, &l); } expect(d2, e2 == HT_ERR_OK, e2 != HT_ERR_OK, "registering a listener", e2); listen = e2 == HT_ERR_OK; }
            std::vector<std::pair<std::string, bool>> want;
            for (unsigned i = 0; i < n; i++) { std::string t1 = "glob" + std::to_string(i); Did d3; { Sut s; user_scoped_cpp(ht_global_timeline_get(), 1, 0, t1.c_str(), [](void*) {}, nullptr); user_dynamic_site(ht_global_timeline_get(), t1.c_str(), [](void*) {}, nullptr); } want.push_back({t1, d3.failed()}); }
            if (g) { { Sut s; ht_timeline_flush(g); } if (listen) subseq<std::string>("global tracepoint", want, l.got_calls); { Sut s; ht_timeline_unregister_all_listeners(g); } }
        });
        join(x); break; }
    default: {
        if (!w.tcpk || !t || w.tcp) break;
        int base = net_open_sut_fds(); Did d; HT_TCPListener* l; { Sut s; l = ht_tcp_listener_create(8765, 128, &e); } expect(d, l, e != HT_ERR_OK, "creating a TCP listener", e);
        if (!l) { w.errors++; if (net_open_sut_fds() != base || net_port_listening(8765)) fail("descriptor-leak", "a TCP listener that could not be created left %d descriptors open", net_open_sut_fds() - base); break; }
        w.tcp = l; unsigned nc = 1 + (unsigned)r.below(12); std::vector<int> hs; for (unsigned i = 0; i < nc; i++) { int h = net_connect(8765); if (h >= 0) hs.push_back(h); }
        sleep_ns(1000000); { Sut s; ht_tcp_listener_destroy(l); } w.tcp = nullptr; for (int h : hs) net_close(h);
        if (net_open_sut_fds() != base) fail("descriptor-leak", "%d descriptors open after the TCP listener was destroyed", net_open_sut_fds() - base);
    }
    }
}
void oom() {
    unsigned ops = (unsigned)knob("ops", 2, 60); int mode = (int)knob("mode", 0, 6);       // 0 random rate, 1 one failure, 2 from one moment until the heal, 3 none, 4.. one of the first allocations of single operations
    A.live.clear(); World w; w.focus = (unsigned)knob("focus", 0, 25); w.tcpk = knob("tcp", 0, 2) == 0; set_clock_step(0); net_set_sndbuf(65536);
    if (mode == 0) enable_fault(F_ALLOC_FAIL, 1, (unsigned)pick("rate", {3, 8, 30, 200}));
    if (mode == 1 || mode == 2) { A.fail_at = knob("fail_at", 1, 400); A.from_then_on = mode == 2; if (knob("early", 0, 1)) A.fail_at = 1 + A.fail_at % 40; }
    { Sut s; ht_allocator_set((realloc_function)sim_alloc, &A); }
    std::vector<int> th;
    uint64_t h = 0;
    for (unsigned i = 0; i < ops; i++) { Rng r(1); if (!op_keep(&r)) continue; if (mode >= 4) A.fail_at = r.chance(1, 3) ? A.n + 1 + r.below(r.chance(1, 2) ? 2 : 6) : ~0ull; op(w, r, th); h = mix(h, A.n * 64 + A.failed); }
    disable_faults(); A.off = true;
    // memory is available again: everything works
    uint64_t f = A.failed; if (!up(w)) fail("no-recovery", "the library cannot be initialised although memory is available again");
    { Rng r(seed() ^ 12); for (unsigned i = 0; i < 30; i++) op(w, r, th); for (auto& t : w.tl) { push(*t, r); if (t->cache) push_map(*t); } }
    if (f != A.failed) fail("harness", "fault after heal");
    while (!w.tl.empty()) tl_destroy(w, 0, true);
    if (w.sch) { Sut s; ht_task_scheduler_destroy(w.sch); }
    if (w.init) { Sut s; ht_deinit(); }
    if (!A.live.empty()) { size_t n = 0; for (auto& x : A.live) n += x.second; fail("memory-leak", "%zu blocks (%zu bytes, first of %zu) were not returned to the allocator", A.live.size(), n, A.live.begin()->second); }
    fold(h); nontrivial(); note("ops=%u mode=%d allocations=%llu failed=%llu errors reported=%u", ops, mode, (unsigned long long)A.n, (unsigned long long)A.failed, w.errors);
}
Reg r1("C16", "alloc-failure-history", oom, 1);
}
