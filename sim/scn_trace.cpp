// C11: callstack tracepoints.  C12: cached strings.
#include <sys/mman.h>
#include "model.h"
#include "user_trace.h"
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
struct Sink { Decoder dec; bool ser = true; std::vector<UCall> ev; std::function<void(UCall&)> on; };
void sink_cb(void* p, size_t n, unsigned ser, void* ud) {
    Har h; Sink* k = (Sink*)ud;
    if (!!ser != k->ser) fail("wrong-serialized-flag", "listener told serialized=%u on a timeline with serialize=%d", ser, k->ser);
    if (!n || !heap_addressable(p, n)) fail("bad-batch-memory", "batch of %zu bytes is not addressable", n);
    if (ser) {
        std::string b((char*)p, n); std::vector<DEv> ev; size_t used = 0; k->dec.decode(b, ev, &used);
        if (!k->dec.err.empty() || used != n) fail("malformed-batch", "batch of %zu bytes, %zu decoded: %s", n, used, k->dec.err.c_str());
        for (auto& d : ev) {
            UCall u; u.name = d.name; u.ts = d.ts; u.id = d.id; u.dur = d.u("duration"); u.tid = (uint32_t)d.u("thread_id");
            if (d.name == "HT_CallstackIntEvent") u.label = d.u("label"); else if (d.name == "HT_CallstackStringEvent") u.text = d.s("label");
            else if (d.name == "SimCall") { u.label = d.u("tag"); u.text = d.s("note"); if (d.u("pad1") != (uint64_t)~(uint64_t)u.label || d.u("pad2") != u.label * 3) u.name = "damaged SimCall"; }
            else if (d.name == "HT_StringMappingEvent") { u.label = d.u("identifier"); u.text = d.s("label"); }
            else fail("phantom-event", "delivered %s, which nobody pushed", show(d).c_str());
            if (k->on) k->on(u);
            k->ev.push_back(u);
        }
    } else {
        const char* q = (const char*)p; size_t left = n;
        while (left) { UCall u; size_t z = user_unpack_call(q, left, u); if (!z || z > left) fail("malformed-batch", "unserialised batch of %zu bytes does not hold whole events", n); if (k->on) k->on(u); k->ev.push_back(u); q += z; left -= z; }
    }
}
void sink_known(Sink& k) { k.dec.seed_known(false); uint32_t id; { Sut s; id = user_register_call(); } KlassDef d; d.id = id; d.name = "SimCall"; d.fields = *true_klass("SimCall"); d.declared = (unsigned)d.fields.size(); d.seen = 1; k.dec.ks[id] = d; }

// ---------------------------------------------------------------- C11
struct Open { int kind; uint64_t label; std::string text; uint64_t t0, t1; };        // kind 0 int, 1 string, 2 user-defined
struct Done { Open o; uint64_t s0, s1; uint32_t tid; size_t depth; };
struct Lane {                                                                         // one timeline used by one thread
    HT_Timeline* t = nullptr; std::vector<std::unique_ptr<Open>> st; std::vector<Done> done; std::unique_ptr<Sink> own; uint32_t tid = 0; unsigned id = 0, seq = 0; size_t maxd = 0;
    std::vector<std::unique_ptr<Open>> keep;                                           // labels live until the timeline is gone
};
uint64_t lbl(Lane& l, Rng& r) { uint64_t v = (uint64_t)l.id << 48 | (uint64_t)l.seq++ << 16; return v | r.below(65536); }
Open* open_of(Lane& l, Rng& r) {
    auto o = std::make_unique<Open>(); o->kind = (int)r.below(3); o->label = lbl(l, r);
    if (o->kind == 2) o->label = l.id << 20 | (uint32_t)(o->label >> 16 & 0xfffff);
    if (o->kind) { o->text = std::to_string(l.id) + "/" + std::to_string(l.seq) + "/"; for (size_t n = r.below(r.chance(1, 6) ? 200 : 12); n; n--) o->text += (char)(r.chance(1, 3) ? 1 + r.below(255) : 'a' + r.below(26)); }
    l.st.push_back(std::move(o)); l.maxd = std::max(l.maxd, l.st.size()); return l.st.back().get();
}
void start(Lane& l, Rng& r) {
    Open* o = open_of(l, r); o->t0 = now();
    { Sut s; if (o->kind == 0) ht_feature_callstack_start_int(l.t, o->label); else if (o->kind == 1) ht_feature_callstack_start_string(l.t, o->text.c_str()); else user_start_call(l.t, (uint32_t)o->label, o->text.c_str()); }
    o->t1 = now();
}
void closed(Lane& l, uint64_t s0) { Done d; d.o = *l.st.back(); d.s0 = s0; d.s1 = now(); d.tid = l.tid; d.depth = l.st.size(); l.done.push_back(d); l.keep.push_back(std::move(l.st.back())); l.st.pop_back(); }
void stop(Lane& l) {
    uint64_t s0 = now(); { Sut s; ht_feature_callstack_stop(l.t); }
    if (!l.st.empty()) closed(l, s0);
}
struct Body { Lane* l; Rng* r; unsigned depth; Open* o; uint64_t end; };
void body(void* ud);
void scoped(Lane& l, Rng& r, unsigned depth) {
    Open* o; while ((o = open_of(l, r))->kind == 2) l.st.pop_back();
    Body b{&l, &r, depth, o, 0}; o->t0 = now();
    { Sut s; (r.chance(1, 2) ? user_scoped_c : r.chance(1, 3) ? user_scoped_cpp98 : user_scoped_cpp)(l.t, o->kind == 1, o->label, o->text.c_str(), body, &b); }
    closed(l, b.end);
}
void body(void* ud) {
    Har h; Body* b = (Body*)ud; b->o->t1 = now();
    for (unsigned i = 0, n = (unsigned)b->r->below(3); i < n && b->depth > 0; i++) {
        if (b->r->chance(1, 2)) advance(b->r->below(50));
        if (b->r->chance(1, 2)) scoped(*b->l, *b->r, b->depth - 1); else { start(*b->l, *b->r); if (b->r->chance(1, 2)) advance(b->r->below(1000)); stop(*b->l); }
    }
    b->end = now();
}
void callstack() {
    unsigned nt = (unsigned)knob("threads", 1, 4), ops = (unsigned)knob("ops", 2, 60), mode = (unsigned)knob("mode", 0, 2);     // 0 global, 1 own timelines, 2 both at once
    size_t cap = pick("tl_capacity", {0, 20, 64, 300, 2000}); bool ser = knob("serialize", 0, 1), deep = knob("deep", 0, 1), huge = large_run(800); if (huge) { nt = 1 + nt / 4; deep = true; }
    set_clock_step(pick("clock_step", {0, 0, 1, 37, 100000}));
    lib_init((long)cap, false);
    auto glob = std::make_unique<Sink>(); sink_known(*glob); std::vector<std::unique_ptr<Lane>> lanes; std::vector<int> th;
    if (mode != 1) { Sut s; ht_timeline_register_listener(ht_global_timeline_get(), (HT_TimelineListenerCallback)sink_cb, glob.get()); }
    unsigned unmatched = 0; size_t total = 0, maxd = 0;
    bool by_main = knob("made_by_main", 0, 1), handover = mode == 1 && knob("handover", 0, 2) == 2;
    auto make = [&](Lane& l) {
        HT_ErrorCode e; { Sut s; l.t = ht_timeline_create(cap, knob("thread_safe", 0, 1) ? HT_TRUE : HT_FALSE, ser ? HT_TRUE : HT_FALSE, nullptr, &e); if (l.t) e = ht_feature_callstack_enable(l.t); }
        if (!l.t || e != HT_ERR_OK) fail("create-failed", "timeline or callstack feature: %d", e);
        l.own = std::make_unique<Sink>(); l.own->ser = ser; sink_known(*l.own);
        Sut s; ht_timeline_register_listener(l.t, (HT_TimelineListenerCallback)sink_cb, l.own.get());
    };
    for (unsigned i = 0; i < nt; i++) {
        std::vector<Lane*> mine;
        for (unsigned k = 0; k < (mode == 2 ? 2u : 1u); k++) { lanes.push_back(std::make_unique<Lane>()); lanes.back()->id = (unsigned)lanes.size(); mine.push_back(lanes.back().get()); if (by_main && !(mode == 0 || (mode == 2 && k == 0))) make(*mine.back()); }
        th.push_back(spawn("traced thread", [&, i, mine] {
            auto enter = [&] { uint32_t me; { Sut s; me = ht_thread_get_current_thread_id(); } for (Lane* l : mine) l->tid = me; };
            enter();
            for (unsigned k = 0; k < mine.size(); k++) {
                Lane& l = *mine[k];
                if (mode == 0 || (mode == 2 && k == 0)) { Sut s; l.t = ht_global_timeline_get(); continue; }
                if (!by_main) make(l);
            }
            auto run = [&](unsigned n0) { for (unsigned k = 0; k < n0; k++) {
                Rng r(1); if (!op_keep(&r)) continue;
                Lane& l = *mine[r.below(mine.size())];
                switch (r.below(deep ? 10 : 7)) {
                case 0: case 1: start(l, r); break;
                case 2: case 3: if (l.st.empty()) unmatched++; stop(l); break;
                case 4: advance(r.chance(1, 5) ? r.below(1ull << 40) : r.below(1000)); break;
                case 5: scoped(l, r, 3); break;
                case 6: if (r.chance(1, 2)) { Sut s; ht_timeline_flush(l.t); } else yield(); break;
                case 7: for (unsigned n = 1 + (unsigned)r.below(huge ? 3000 : 40); n; n--) start(l, r); break;
                case 8: for (unsigned n = (unsigned)r.below(l.st.size() + 1); n; n--) stop(l); break;
                default: start(l, r); if (r.chance(1, 2)) advance(r.below(100)); break;
                }
            } };
            run(handover ? ops / 2 : ops);
            if (handover) { int h = spawn("successor", [&] { enter(); run(ops - ops / 2); }); join(h); enter(); if (ops > 5) probe("timeline handed over"); }
            if (knob("finish", 0, 1)) for (Lane* l : mine) while (!l->st.empty()) stop(*l);
            else probe("tracepoints left unfinished");
            for (Lane* l : mine) if (l->own) { Sut s; ht_timeline_destroy(l->t); }
        }));
    }
    for (int t : th) join(t);
    auto judge = [&](const std::vector<UCall>& ev, Lane& l) {
        if (ev.size() != l.done.size()) fail("wrong-count", "%zu tracepoints were finished on a timeline, %zu events were emitted", l.done.size(), ev.size());
        for (size_t i = 0; i < ev.size(); i++) {
            const UCall& e = ev[i]; const Done& d = l.done[i];
            static const char* kn[] = {"HT_CallstackIntEvent", "HT_CallstackStringEvent", "SimCall"};
            bool ok = e.name == kn[d.o.kind] && (d.o.kind == 1 || e.label == d.o.label) && (d.o.kind == 0 || e.text == d.o.text);
            if (!ok) fail("wrong-tracepoint", "stop #%zu finished %s label=%llx \"%s\", the innermost unfinished tracepoint was %s label=%llx \"%s\"", i, e.name.c_str(), (unsigned long long)e.label, e.text.c_str(), kn[d.o.kind], (unsigned long long)d.o.label, d.o.text.c_str());
            if (e.tid != d.tid) fail("wrong-thread", "tracepoint recorded by thread %u carries thread id %u", d.tid, e.tid);
            if (e.ts < d.o.t0 || e.ts > d.o.t1) fail("wrong-timestamp", "tracepoint started between %llu and %llu carries timestamp %llu", (unsigned long long)d.o.t0, (unsigned long long)d.o.t1, (unsigned long long)e.ts);
            if (e.ts + e.dur < d.s0 || e.ts + e.dur > d.s1) fail("wrong-duration", "tracepoint started at %llu and stopped between %llu and %llu has duration %llu", (unsigned long long)e.ts, (unsigned long long)d.s0, (unsigned long long)d.s1, (unsigned long long)e.dur);
            // children were finished before their parent: everything deeper since the last event of this depth
            for (size_t j = i; j-- > 0 && l.done[j].depth > d.depth;) if (ev[j].ts < e.ts || ev[j].ts + ev[j].dur > e.ts + e.dur) fail("bad-nesting", "a child's interval is not inside its parent's");
        }
        total += ev.size(); maxd = std::max(maxd, l.maxd);
    };
    std::map<uint32_t, std::vector<UCall>> by; for (auto& e : glob->ev) by[e.tid].push_back(e);
    for (auto& l : lanes) { if (l->own) judge(l->own->ev, *l); else { judge(by[l->tid], *l); by.erase(l->tid); } }
    for (auto& b : by) if (!b.second.empty()) fail("wrong-thread", "%zu events carry thread id %u, which no traced thread has", b.second.size(), b.first);
    if (unmatched) probe("unmatched stop");
    if (maxd > 30) probe("nesting deeper than 30");
    fold(total * 31 + maxd); if (total) nontrivial();
    note("threads=%u mode=%u capacity=%zu serialize=%d tracepoints=%zu max depth=%zu unmatched stops=%u", nt, mode, cap, ser, total, maxd, unmatched);
}
Reg r1("C11", "callstack-programs", callstack, 1);

// ---------------------------------------------------------------- C12
struct Pool { std::vector<char> mem; std::vector<const char*> st; std::vector<std::string> dyn; };
void make_pool(Pool& p, unsigned ns, unsigned nd, bool same_bucket, Rng& r, bool far) {
    // far: static labels in modules loaded far apart, at addresses which differ only in their upper halves
    char* seg[4]; if (far) for (uint64_t i = 0; i < 4; i++) { seg[i] = (char*)mmap((void*)(0x300000000000ull + (i << (i == 3 ? 38 : 32))), 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (seg[i] == MAP_FAILED) fail("harness", "cannot map a distant segment"); }
    p.mem.assign(512 * (ns + 40), 0); char* base = p.mem.data() + (512 - (uintptr_t)p.mem.data() % 512) % 512; size_t at = 0;
    for (unsigned i = 0; i < ns; i++) { char* q = far ? seg[i % 4] + i / 4 * 256 : base + (same_bucket ? i * 512 : at); std::string t = i % 5 == 4 ? "twin" : "static " + std::to_string(i); if (i % 7 == 3) t = ""; if (i % 6 == 5) t += std::string(150, 'x'); memcpy(q, t.c_str(), t.size() + 1); p.st.push_back(q); at += t.size() + 1; }
    static const char* fixed[] = {"ab", "bA", "", "twin", "static 0", "Ab", "cB", "aab"};
    bool hostile = r.chance(1, 4); unsigned h0 = 2 * (unsigned)r.below(25);
    for (unsigned i = 0; i < nd; i++) { std::string t; if (hostile && i < 8) t = hostile_name(h0 + i); else if (i < 8) t = fixed[i]; else { for (size_t n = r.below(r.chance(1, 30) ? 70000 : r.chance(1, 5) ? 200 : 10); n; n--) t += (char)(1 + r.below(255)); t += "#" + std::to_string(i); } p.dyn.push_back(t); }
}
struct Key { bool dyn; unsigned i; bool operator<(const Key& o) const { return dyn != o.dyn ? dyn < o.dyn : i < o.i; } };
// how many allocations enabling the feature takes
unsigned enabling_costs(bool safe) {
    static uint64_t n; static const auto count = [](void* p, size_t z, void*) -> void* { if (!z) { free(p); return nullptr; } n++; return realloc(p, z); };
    Sut s; HT_ErrorCode e; ht_allocator_set(count, nullptr); HT_Timeline* x = ht_timeline_create(64, HT_FALSE, HT_TRUE, nullptr, &e); n = 0;
    if (x) { ht_feature_cached_string_enable(x, safe ? HT_TRUE : HT_FALSE); uint64_t m = n; ht_timeline_destroy(x); n = m; }
    ht_allocator_set(nullptr, nullptr); return (unsigned)n;
}
void cached_shared() {
    unsigned nt = (unsigned)knob("threads", 1, 4), ops = (unsigned)knob("ops", 1, 14), ns = (unsigned)knob("statics", 1, 24), nd = (unsigned)knob("dynamics", 1, 20); bool maps = knob("push_map", 0, 1), ser = knob("serialize", 0, 1), same = knob("same_bucket", 0, 1), safe = nt > 1 || knob("thread_safe", 0, 1), narrow = knob("narrow", 0, 1);
    if (large_run(800)) { ns = nd = (unsigned)pick("many", {100, 600, 2500}); ops = 2 * ns; nt = 1 + nt % 2; safe = safe || nt > 1; narrow = false; maps = false; }
    size_t cap = pick("tl_capacity", {0, 64, 300, 4000}); bool far = knob("far", 0, 7) == 7 && ns < 4000; set_clock_step(1);
    lib_init(-1, false);
    HT_ErrorCode e; HT_Timeline* t = nullptr; unsigned cost = knob("short_of_memory", 0, 7) == 7 ? enabling_costs(safe) : 0;
    scarce([&] { Sut s; t = ht_timeline_create(cap, safe ? HT_TRUE : HT_FALSE, ser ? HT_TRUE : HT_FALSE, nullptr, &e); return t != nullptr; });
    if (t) scarce([&] { Sut s; e = ht_feature_cached_string_enable(t, safe ? HT_TRUE : HT_FALSE); return e == HT_ERR_OK; }, cost);
    if (!t || e != HT_ERR_OK) fail("create-failed", "%d", e);
    Sink k; k.ser = ser; sink_known(k);
    Pool pool; { Rng r(seed() ^ 0x5eed); make_pool(pool, ns, nd, same, r, far); if (far) probe("static strings at distant addresses"); }
    std::map<uint64_t, std::string> text_of; std::map<uint64_t, Key> key_of; std::map<Key, uint64_t> id_of; std::map<Key, uint64_t> added; std::map<uint64_t, unsigned> mapped; std::map<uint64_t, uint64_t> first_begin;
    std::set<uint64_t> in_stream; unsigned uses = 0, maps_done = 0; std::set<std::string> possible; for (auto c : pool.st) possible.insert(c); for (auto& d : pool.dyn) possible.insert(d);
    k.on = [&](UCall& u) {
        if (u.name == "HT_StringMappingEvent") {
            if (!possible.count(u.text)) fail("wrong-text", "identifier %llx is mapped to \"%s\", which nobody passed", (unsigned long long)u.label, u.text.c_str());
            auto it = text_of.find(u.label); if (it != text_of.end() && it->second != u.text) fail("wrong-text", "identifier %llx was mapped to \"%s\", now to \"%s\"", (unsigned long long)u.label, it->second.c_str(), u.text.c_str());
            text_of[u.label] = u.text; mapped[u.label]++; in_stream.insert(u.label);
        } else { uses++; if (!in_stream.count(u.label)) fail("used-before-mapped", "identifier %llx is used in the stream before the event mapping it to its text", (unsigned long long)u.label); }
    };
    { Sut s; ht_timeline_register_listener(t, (HT_TimelineListenerCallback)sink_cb, &k); }
    std::vector<int> th;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("user", [&] {
        for (unsigned o = 0; o < ops; o++) {
            Rng r(1); if (!op_keep(&r)) continue;
            if (maps && r.chance(1, 8)) {
                std::vector<uint64_t> must; for (auto& a : added) must.push_back(id_of[a.first]);
                std::map<uint64_t, unsigned> before; { Sut s; ht_timeline_flush(t); } before = mapped;
                { Sut s; ht_feature_cached_string_push_map(t); ht_timeline_flush(t); }
                for (uint64_t id : must) if (mapped[id] <= before[id]) fail("map-incomplete", "re-sending the map did not deliver the mapping of \"%s\"", text_of[id].c_str());
                maps_done++; continue;
            }
            Key key{r.chance(1, 2), 0}; key.i = (unsigned)r.below(narrow ? std::min<uint64_t>(2, key.dyn ? nd : ns) : key.dyn ? nd : ns); uint64_t id; std::string text = key.dyn ? pool.dyn[key.i] : pool.st[key.i];
            if (key.dyn) { std::vector<char> tmp(text.begin(), text.end()); tmp.push_back(0); { Sut s; id = ht_feature_cached_string_add_mapping_dynamic(t, tmp.data()); } std::fill(tmp.begin(), tmp.end(), 'Z'); }
            else { Sut s; id = ht_feature_cached_string_add_mapping(t, pool.st[key.i]); }
            if (!id) fail("no-identifier", "adding \"%s\" returned no identifier", text.c_str());
            if (id_of.count(key) && id_of[key] != id) fail("identifier-changed", "\"%s\" had identifier %llx, now %llx", text.c_str(), (unsigned long long)id_of[key], (unsigned long long)id);
            if (key_of.count(id) && (key_of[id] < key || key < key_of[id])) fail("identifier-shared", "\"%s\" and another string have the same identifier %llx", text.c_str(), (unsigned long long)id);
            id_of[key] = id; key_of[id] = key; if (!added.count(key)) added[key] = global_steps();
            if (r.chance(3, 4)) { Sut s; user_push_use(t, id); }
        }
    }));
    for (int x : th) join(x);
    { Sut s; ht_timeline_flush(t); }
    auto last = [&] { for (auto& i : id_of) { std::string text = i.first.dyn ? pool.dyn[i.first.i] : pool.st[i.first.i]; if (!mapped[i.second]) fail("never-mapped", "\"%s\" was never mapped", text.c_str()); if (text_of[i.second] != text) fail("wrong-text", "identifier %llx of \"%s\" is mapped to \"%s\"", (unsigned long long)i.second, text.c_str(), text_of[i.second].c_str()); } };
    last();
    if (!maps_done) for (auto& m : mapped) if (m.second != 1) fail("mapped-twice", "\"%s\" was mapped %u times", text_of[m.first].c_str(), m.second);
    for (auto& m : mapped) if (m.second > 1 + maps_done) fail("mapped-twice", "\"%s\" was mapped %u times with %u re-sent maps", text_of[m.first].c_str(), m.second, maps_done);
    auto before = mapped; { Sut s; ht_feature_cached_string_push_map(t); }
    { Sut s; ht_timeline_destroy(t); }
    last(); for (auto& i : id_of) if (mapped[i.second] != before[i.second] + 1) fail("map-incomplete", "re-sending the map delivered \"%s\" %u times", text_of[i.second].c_str(), mapped[i.second] - before[i.second]);
    if (mapped.size() != id_of.size()) fail("phantom-mapping", "%zu identifiers mapped, %zu strings added", mapped.size(), id_of.size());
    fold(mapped.size() * 100 + uses); nontrivial(); if (maps_done) probe("map re-sent while strings are added");
    note("threads=%u ops=%u strings=%zu uses=%u maps=%u", nt, ops, mapped.size(), uses, maps_done);
}
Reg r2("C12", "shared-timeline", cached_shared, 2);

// timelines with cached strings come and go, at reused addresses too, while threads trace the same labels on them
void cached_lives() {
    unsigned nt = (unsigned)knob("threads", 1, 3), ops = (unsigned)knob("ops", 1, 30), n = (unsigned)knob("timelines", 1, 3), nl = (unsigned)knob("labels", 1, 5); size_t cap = pick("tl_capacity", {64, 0, 300}); set_clock_step(1);
    lib_init(-1, false);
    static const char* const lab[] = {"one", "two", "three", "four", "five"};
    struct Life { HT_Timeline* t = nullptr; bool busy = false, ser = true; Sink k; std::map<uint64_t, std::string> text; std::vector<std::string> want, got; unsigned maps = 0; std::map<std::string, std::set<uint64_t>> ids; };
    std::vector<std::unique_ptr<Life>> sl(n), old; for (auto& x : sl) x.reset(new Life); std::set<void*> at; unsigned reused = 0, lives = 0, uses = 0;
    auto over = [&](Life& l) {
        { Sut s; ht_timeline_destroy(l.t); }
        if (l.got != l.want) { size_t i = 0; while (i < l.got.size() && i < l.want.size() && l.got[i] == l.want[i]) i++; fail("wrong-text", "%zu strings were used on a timeline, %zu uses were delivered; use #%zu resolves to \"%s\" instead of \"%s\"", l.want.size(), l.got.size(), i, i < l.got.size() ? l.got[i].c_str() : "nothing", i < l.want.size() ? l.want[i].c_str() : "nothing"); }
    };
    auto born = [&](Life& l, Rng& r) {
        HT_ErrorCode e; l.ser = r.chance(1, 2); l.k.ser = l.ser; sink_known(l.k); lives++;
        l.k.on = [&l](UCall& u) {
            if (u.name == "HT_StringMappingEvent") { auto it = l.text.find(u.label); if (it != l.text.end()) fail(it->second != u.text ? "wrong-text" : "mapped-twice", "identifier %llx was mapped to \"%s\", now to \"%s\"", (unsigned long long)u.label, it->second.c_str(), u.text.c_str()); l.text[u.label] = u.text; }
            else { if (!l.text.count(u.label)) fail("used-before-mapped", "identifier %llx is used in the stream before the event mapping it to its text", (unsigned long long)u.label); l.got.push_back(l.text[u.label]); }
        };
        { Sut s; l.t = ht_timeline_create(cap, HT_FALSE, l.ser ? HT_TRUE : HT_FALSE, nullptr, &e); if (l.t) e = ht_feature_cached_string_enable(l.t, HT_FALSE); if (l.t) ht_timeline_register_listener(l.t, (HT_TimelineListenerCallback)sink_cb, &l.k); }
        if (!l.t || e != HT_ERR_OK) fail("create-failed", "%d", e);
        if (!at.insert(l.t).second) reused++;
    };
    std::vector<int> th;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("user", [&] {
        for (unsigned o = 0; o < ops; o++) {
            Rng r(1); if (!op_keep(&r)) continue; auto& slot = sl[r.below(n)]; Life& l = *slot; if (l.busy) { yield(); continue; } l.busy = true;
            if (!l.t) born(l, r);
            else if (r.chance(1, 4)) { Life* dead = slot.release(); slot.reset(new Life); old.emplace_back(dead); over(*dead); continue; }
            else for (unsigned c = 1 + (unsigned)r.below(3); c; c--) {
                const char* x = lab[r.below(nl)]; bool dyn = r.chance(1, 2); uint64_t id; std::string k = (dyn ? "d" : "s") + std::string(x);
                { Sut s; id = dyn ? ht_feature_cached_string_add_mapping_dynamic(l.t, x) : ht_feature_cached_string_add_mapping(l.t, x); }
                if (!id) fail("no-identifier", "adding \"%s\" returned no identifier", x);
                l.ids[k].insert(id); if (l.ids[k].size() > 1) fail("identifier-changed", "\"%s\" has a second identifier %llx on the same timeline", x, (unsigned long long)id);
                l.want.push_back(x); uses++; Sut s; user_push_use(l.t, id);
            }
            l.busy = false;
        }
    }));
    for (int x : th) join(x);
    for (auto& x : sl) if (x->t) over(*x);
    if (reused) probe("timeline at a reused address");
    fold(uses * 64 + lives); if (uses) nontrivial(); note("threads=%u ops=%u timelines=%u (%u at a used address) uses=%u", nt, ops, lives, reused, uses);
}
Reg r2b("C12", "timeline-lives", cached_lives, 1);

struct Nest { Rng* r; unsigned depth; std::vector<std::string>* dyn; std::vector<std::string>* log; HT_Timeline* t; };
void nest(void* ud);
void step(Nest n) {
    if (n.r->chance(1, 2)) { int site = (int)n.r->below(18); n.log->push_back(user_site_label(site)); Sut s; user_static_site(site, n.t, nest, &n); }
    else { std::string t = (*n.dyn)[n.r->below(n.dyn->size())]; n.log->push_back(t); std::vector<char> b(t.begin(), t.end()); b.push_back(0); Sut s; user_dynamic_site(n.t, b.data(), nest, &n); }
}
void nest(void* ud) { Har h; Nest n = *(Nest*)ud; if (!n.depth) return; n.depth--; for (unsigned k = (unsigned)n.r->below(3); k; k--) step(n); }
void cached_macros() {
    unsigned nt = (unsigned)knob("threads", 1, 4), ops = (unsigned)knob("ops", 1, 10); size_t cap = pick("tl_capacity", {0, 64, 300, 4000}); set_clock_step(pick("clock_step", {0, 1}));
    lib_init((long)cap, false);
    Sink k; sink_known(k); std::map<uint64_t, std::string> text; std::map<uint64_t, unsigned> mapped; size_t uses = 0; std::map<uint32_t, std::vector<std::string>> used;
    k.on = [&](UCall& u) {
        if (u.name == "HT_StringMappingEvent") { if (text.count(u.label) && text[u.label] != u.text) fail("wrong-text", "identifier %llx was mapped to \"%s\", now to \"%s\"", (unsigned long long)u.label, text[u.label].c_str(), u.text.c_str()); text[u.label] = u.text; mapped[u.label]++; }
        else { uses++; if (!text.count(u.label)) fail("used-before-mapped", "identifier %llx is used before the event mapping it to its text", (unsigned long long)u.label); used[u.tid].push_back(text[u.label]); }
    };
    { Sut s; ht_timeline_register_listener(ht_global_timeline_get(), (HT_TimelineListenerCallback)sink_cb, &k); }
    std::vector<std::string> dyn = {"ab", "bA", "", "alpha", "long " + std::string(140, 'y'), "beta"}; std::vector<int> th; std::map<uint32_t, std::vector<std::string>> log; unsigned pmaps = 0;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("traced thread", [&] {
        uint32_t me; HT_Timeline* t; { Sut s; me = ht_thread_get_current_thread_id(); t = ht_global_timeline_get(); } auto& mine = log[me];
        for (unsigned o = 0; o < ops; o++) { Rng r(1); if (!op_keep(&r)) continue; if (r.chance(1, 12)) { pmaps++; Sut s; ht_feature_cached_string_push_map(t); continue; } step({&r, 2, &dyn, &mine, t}); if (r.chance(1, 6)) { Sut s; ht_timeline_flush(t); } }
    }));
    for (int x : th) join(x);
    for (auto& l : log) { auto a = l.second, b = used[l.first]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("wrong-text", "the labels of a thread's tracepoints (%zu) do not resolve to the texts that were passed (%zu)", b.size(), a.size()); }
    for (auto& m : mapped) if (m.second > nt + pmaps) fail("mapped-twice", "\"%s\" was mapped %u times by %u threads", text[m.first].c_str(), m.second, nt);
    fold(uses); if (uses) nontrivial(); note("threads=%u tracepoints=%zu strings=%zu", nt, uses, mapped.size());
}
Reg r3("C12", "tracepoint-macros", cached_macros, 1);
}
