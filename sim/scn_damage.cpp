// C18: damaged input, into the parser and into the command-line client.
#include "realparse.h"
#include <hawktracer/parser/debug_event_listener.hpp>
#include "user_trace.h"
#include "json.h"
#include <algorithm>
#include <iostream>
#include <memory>
using namespace sim;
using namespace HawkTracer::parser;
int htclient_main(int argc, char** argv);

namespace {
const int PORT = 8765;
struct Mem : Stream {          // contents and availability under the simulator's control
    std::string b; size_t pos = 0; bool cont = false, stopped = false, idle = false; unsigned pause = 0;
    bool more() { if (pause && pos % (pause + 1) == pause) yield(); if (pos >= b.size() && idle) wait_until([this] { return stopped; }, "idle stream"); return pos < b.size() && !stopped; }
    int read_byte() override { Har h; return more() ? (unsigned char)b[pos++] : -1; }
    bool read_data(char* p, size_t n) override { Har h; while (n) { if (!more()) return false; *p++ = b[pos++]; n--; } return true; }
    bool start() override { return true; }
    void stop() override { Har h; stopped = true; }
    bool is_continuous() override { return cont; }
};
// ------------------------------------------------------------------------------------------------ traces
void nothing(void*) { Har h; advance(1 + 7); }
struct Two { HT_Timeline* t; const char* a; uint64_t n; };
void inner(void* ud) { Har h; Two* w = (Two*)ud; advance(5); { Sut s; user_scoped_cpp(w->t, 1, 0, w->a, nothing, nullptr); } advance(3); { Sut s; user_scoped_c(w->t, 0, w->n, nullptr, nothing, nullptr); } }
std::string make_trace(const char* path, unsigned n, bool spans) {
    HT_ErrorCode e; HT_Timeline* t;
    { Sut s; t = ht_timeline_create(256, HT_FALSE, HT_TRUE, nullptr, &e); if (t) ht_feature_callstack_enable(t); if (t) ht_feature_cached_string_enable(t, HT_FALSE); if (t) ht_file_dump_listener_register(t, path, 512, &e); }
    if (!t || e != HT_ERR_OK) fail("create-failed", "%d", e);
    for (unsigned i = 0; i < n; i++) {
        Rng r(1); if (!op_keep(&r)) continue;
        if (!spans || r.chance(1, 5)) { UEv ev = gen_ev(r, mk_tag(1, i), 0x3f, 40, false); Sut s; user_push(t, ev); continue; }
        std::string w = "label" + std::to_string(r.below(5)); Two two{t, w.c_str(), r.below(20)};
        if (r.chance(1, 3)) { Sut s; user_dynamic_site(t, w.c_str(), inner, &two); }
        else if (r.chance(1, 2)) { Sut s; user_scoped_cpp(t, 1, 0, w.c_str(), inner, &two); }
        else if (r.chance(1, 2)) { Sut s; user_start_span(t, w.c_str(), "note", i); ht_feature_callstack_stop(t); }
        else { Sut s; user_push_named(t, w.c_str(), (int)i); }
    }
    { Sut s; ht_timeline_destroy(t); }
    return disk_get(path);
}
// ------------------------------------------------------------------------------------------------ damage
void put(std::string& o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) o += (char)(v >> (8 * i)); }
struct Meta { std::vector<uint32_t> ids; std::vector<std::string> types, names; };
struct Craft {
    Rng& r; const std::vector<uint32_t>& ids; const std::vector<std::string>&types, &names;
    void hdr(std::string& o, uint32_t k) { put(o, k, 4); put(o, r.chance(1, 2) ? r.next() : r.below(100), 8); put(o, r.below(100), 8); }
    uint32_t id() { return r.chance(1, 6) ? (uint32_t)pickv<uint64_t>({0, 1, 2, 3, 0xffffffff, 100, 101, 102}) : ids[r.below(ids.size())]; }
    template <class T> T pickv(std::vector<T> v) { return v[r.below(v.size())]; }
    std::string str() { std::string s; for (size_t n = r.below(r.chance(1, 8) ? 3000 : 12); n; n--) s += (char)(1 + r.below(255)); return s; }
    std::string type() { return r.chance(1, 8) ? str() : types[r.below(types.size())]; }
    std::string fname() { return r.chance(1, 8) ? str() : names[r.below(names.size())]; }
    std::string klass() { std::string o; hdr(o, 2); put(o, id(), 4); o += r.chance(1, 2) ? types[r.below(types.size())] : str(); o += '\0'; put(o, r.next(), 1); return o; }
    std::string field(uint32_t k) {
        std::string o; hdr(o, 3); put(o, k, 4); uint8_t dt = (uint8_t)(r.chance(1, 10) ? r.below(256) : pickv<uint64_t>({1, 1, 1, 2, 2, 3, 99, 99, 4, 5, 6, 0, 98})); std::string t = type();
        o += t; o += '\0'; o += fname(); o += '\0'; put(o, r.chance(1, 8) ? r.next() : pickv<uint64_t>({1, 2, 4, 8, 8, 4, 3, 16, 0}), 8); put(o, dt, 1); return o;
    }
    std::string event(uint32_t k) { std::string o; hdr(o, k); for (size_t n = r.below(60); n; n--) o += (char)(r.chance(1, 2) ? r.below(4) : r.below(256)); return o; }
    // klasses of klasses: every level contains the next several times and nothing else
    std::string nest() {
        std::string o; unsigned lv = 1 + (unsigned)r.below(70), w = 1 + (unsigned)r.below(3); bool loop = r.chance(1, 2); uint32_t b = 1000 + (uint32_t)r.below(1000);
        for (unsigned i = 0; i < lv; i++) { hdr(o, 2); put(o, b + i, 4); o += "N" + std::to_string(b + i); o += '\0'; put(o, w, 1); }
        for (unsigned i = 0; i < lv; i++) for (unsigned j = 0; j < w; j++) { if (i + 1 == lv && !loop) break; hdr(o, 3); put(o, b + i, 4); o += "N" + std::to_string(b + (i + 1) % lv); o += '\0'; o += "f" + std::to_string(j); o += '\0'; put(o, 8, 8); put(o, 1, 1); }
        for (unsigned k = 0; k < 3; k++) hdr(o, b);
        return o;
    }
    // a klass the library defines, with other or fewer fields, before the library's definition; followed by its events
    std::string hijack() {
        static const char* const kl[] = {"HT_StringMappingEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent", "HT_SystemInfoEvent", "HT_Event", "HT_CallstackBaseEvent", "Mine"};
        static const char* const fn[] = {"identifier", "label", "name", "duration", "thread_id", "timestamp", "klass_id", "id", "base", "info_klass_id", "event_klass_name"};
        struct F { int dt; unsigned z; }; std::string o; std::vector<std::vector<F>> flat; std::vector<std::string> names; uint32_t k0 = 200 + (uint32_t)r.below(5);
        for (unsigned c = 0, nc = 1 + (unsigned)r.below(3); c < nc; c++) {        // a klass may be made of the ones before it
            uint32_t k = k0 + c; std::string nm = c + 1 == nc ? kl[r.below(7)] : "Part" + std::to_string(c); hdr(o, 2); put(o, k, 4); o += nm; o += '\0'; put(o, 1, 1); std::vector<F> fs; std::set<std::string> used;
            auto field = [&](const std::string& type, const std::string& f, uint64_t z, int dt) { if (!used.insert(f).second) return false; hdr(o, 3); put(o, k, 4); o += type; o += '\0'; o += f; o += '\0'; put(o, z, 8); put(o, (uint64_t)dt, 1); return true; };
            if (r.chance(1, 2)) field("HT_Event", "base", sizeof(HT_Event), 1);
            for (size_t n = r.below(6); n; n--) {
                int dt = (int)pickv<uint64_t>({2, 3, 99, 1}); unsigned z = (unsigned)pickv<uint64_t>({1, 2, 4, 8}); std::string f = fn[r.below(11)];
                if (dt == 1 && c && r.chance(3, 4)) { unsigned q = (unsigned)r.below(c); if (field(names[q], "part" + std::to_string(n), 64, 1)) fs.insert(fs.end(), flat[q].begin(), flat[q].end()); }
                else if (dt == 1) field("HT_Event", r.chance(1, 2) ? "base" : f, sizeof(HT_Event), 1);
                else if (field(dt == 2 ? "const char*" : "int", f, dt == 2 ? 8 : z, dt)) fs.push_back({dt, z});
            }
            flat.push_back(fs); names.push_back(nm);
        }
        for (size_t n = 1 + r.below(4); n; n--) { hdr(o, k0 + (uint32_t)names.size() - 1); for (auto& f : flat.back()) if (f.dt == 2) { o += r.chance(1, 2) ? "text" : ""; o += '\0'; } else put(o, r.next(), f.z); }
        return o;
    }
};
std::string damage(const std::string& good, const std::string& other, const std::vector<DEv>& ev, unsigned n) {
    std::string b = good; Meta c{{0, 1, 2, 3}, {"HT_Event", "const char*", "uint32_t", "uint64_t", "HT_EventKlassInfoEvent", "HT_EndiannessInfoEvent"}, {"base", "label", "name", "timestamp", "klass_id", "id", "duration", "thread_id", "identifier", "tag"}};
    for (auto& e : ev) if (e.name == "HT_EventKlassInfoEvent") { c.ids.push_back((uint32_t)e.u("info_klass_id")); c.types.push_back(e.s("event_klass_name")); } else if (e.name == "HT_EventKlassFieldInfoEvent") c.names.push_back(e.s("field_name"));
    for (unsigned i = 0; i < n; i++) {
        Rng r(1); if (!op_keep(&r)) continue; Craft k{r, c.ids, c.types, c.names};
        size_t at = r.below(b.size() + 1), edge = ev.empty() ? 0 : ev[r.below(ev.size())].off; if (edge > b.size()) edge = b.size(); if (r.chance(1, 4)) at = edge;
        note_fault(F_BITFLIP);
        switch (r.below(14)) {
        case 0: b.resize(at); note_fault(F_TRUNCATE); break;
        case 1: case 2: if (at < b.size()) b[at] ^= (char)(1 << r.below(8)); break;
        case 3: if (at < b.size()) b[at] = (char)k.pickv<uint64_t>({0, 1, 2, 3, 0xff, 0x7f, 0x80, 99, 4, 5, 6}); break;
        case 4: if (at + 4 <= b.size()) { std::string x; put(x, r.chance(1, 2) ? k.id() : r.next(), 4); b.replace(at, 4, x); } break;
        case 5: { std::string x; for (size_t z = 1 + r.below(20); z; z--) x += (char)r.below(256); b.insert(at, x); break; }
        case 6: b.erase(at, 1 + r.below(r.chance(1, 3) ? 300 : 8)); break;
        case 7: { size_t z = 1 + r.below(200); std::string x = b.substr(at, z); b.insert(r.below(b.size() + 1), x); break; }
        case 8: b = b.substr(0, at) + other.substr(r.below(other.size() + 1)); break;
        case 9: b.insert(edge, k.klass()); break;
        case 10: { std::string x; uint32_t id = k.id(); for (size_t z = 1 + r.below(4); z; z--) x += k.field(id); if (r.chance(1, 2)) x += k.event(id); b.insert(edge, x); break; }
        case 11: b.insert(edge, k.event(k.id())); break;
        case 12: b.insert(edge, k.nest()); break;
        default: b.insert(r.chance(1, 2) ? 0 : edge, k.hijack()); break;
        }
        if (b.size() > 200000) b.resize(200000);
    }
    return b;
}
std::string garbage() { Rng r(seed() ^ 9); std::string b; unsigned n = (unsigned)knob("garbage_len", 0, 400), small = (unsigned)knob("small_bytes", 0, 1); while (b.size() < n) b += (char)(small ? r.below(5) : r.below(256)); return b; }
bool same_ev(const DEv& x, const DEv& y, bool hdr) {
    bool same = x.name == y.name && (!hdr || (x.ts == y.ts && x.id == y.id && x.klass == y.klass)) && x.v.size() == y.v.size();
    if (same) for (auto& f : x.v) { auto it = y.v.find(f.first); if (it == y.v.end() || it->second.is_str != f.second.is_str || it->second.u != f.second.u || it->second.s != f.second.s) same = false; }
    return same;
}
void walk(const Event& e, int d) {        // an application that looks at everything it is given
    if (!e.get_klass()) fail("bad-event", "an event without a klass was delivered"); volatile size_t n = e.get_klass()->get_name().size(); (void)n; e.get_timestamp();
    for (auto& v : e.get_values()) {
        if (!v.second.field) fail("bad-event", "value %s has no field", v.first.c_str());
        if (v.second.field->get_type_id() == FieldTypeId::STRING) { const char* s = v.second.value.f_STRING; if (!s || !heap_addressable(s, 1)) fail("bad-event", "field %s holds an invalid string", v.first.c_str()); size_t l = 0; while (s[l]) l++; if (!heap_addressable(s, l + 1)) fail("bad-event", "string of field %s is not terminated", v.first.c_str()); }
        if (v.second.field->get_type_id() == FieldTypeId::STRUCT) { if (!v.second.value.f_EVENT) fail("bad-event", "field %s holds no structure", v.first.c_str()); if (d < 200) walk(*v.second.value.f_EVENT, d + 1); }
    }
}
struct Drain : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } g_drain;     // a console nobody looks at
void parser() {
    lib_init(-1, false); { Sut s; user_register_client_klasses(); }
    unsigned n = (unsigned)knob("events", 0, 10), m = (unsigned)pick("damages", {1, 1, 1, 2, 4, 8}); bool flat = knob("flat", 0, 1), spans = knob("spans", 0, 1), wild = knob("garbage", 0, 9) == 0, file = knob("file", 0, 1); int ending = (int)knob("ending", 0, 2);
    if (large_run(400)) { n = (unsigned)pick("many", {200, 1500}); wild = false; }
    set_clock_step(0); set_stdio_buffer(pick("stdio_buf", {0, 1, 64, 512}));
    std::string good = make_trace("/sim/good", n, spans), other = make_trace("/sim/other", 2, !spans); Decoder d; std::vector<DEv> want; size_t used; d.decode(good, want, &used);
    std::string b = wild ? garbage() : damage(good, other, want, m); size_t first = 0; while (first < b.size() && first < good.size() && b[first] == good[first]) first++;
    size_t must = 0; while (must < want.size() && want[must].off + want[must].len <= first) must++;
    disk_put("/sim/bad", b); if (file) enable_fault(F_READ_SHORT, 1, 3); set_step_cap(20000000 + b.size() * 2000);
    uint64_t blocks0 = heap_live_sut_blocks(), bytes0 = heap_live_sut_bytes(), peak = 0; std::vector<DEv> got; bool eos = false;
    {
        std::unique_ptr<ProtocolReader> rd;
        std::unique_ptr<KlassRegister> rg; { Sut s; rg.reset(new KlassRegister); std::unique_ptr<Stream> st; if (file) st.reset(new FileStream("/sim/bad")); else { Mem* x = new Mem; { Har h; x->b = b; } x->pause = (unsigned)pick("pause", {0, 1, 13}); x->cont = ending == 1; x->idle = ending == 1 && knob("idle", 0, 1); st.reset(x); } rd.reset(new ProtocolReader(rg.get(), std::move(st), flat)); }
        DebugEventListener dbg; bool debug = knob("debug_listener", 0, 3) == 3; if (debug) { std::cout.rdbuf(&g_drain); Sut s; rd->register_events_listener([&](const Event& e) { dbg(e); }); }
        { Sut s; rd->register_events_listener([&](const Event& e) { uint64_t now_b = heap_live_sut_bytes(); if (now_b > peak) peak = now_b; { Event copy(e); Event moved(std::move(copy)); { Har h; walk(moved, 0); } } { Har h; walk(e, 0); got.push_back(from_event(e)); } }); }
        { Sut s; if (!rd->start()) fail("start-failed", "the reader does not start"); }
        if (ending == 1) sleep_ns(1000000000); else { Sut s; rd->wait_for_complete(); eos = true; }
        { Sut s; if (ending != 2) rd->stop(); rd.reset(); rg.reset(); if (debug) dbg.print_statistics(); }
    }
    disable_faults(); if (disk_open_handles()) fail("handle-leak", "files left open");
    if (got.size() < must) fail("events-lost", "%zu events precede the first damaged byte (offset %zu of %zu), but only %zu were delivered", must, first, b.size(), got.size());
    for (size_t k = 0; k < must; k++) if (!same_ev(want[k], got[k], flat) && !same_ev(want[k], got[k], true) && !(!flat && (want[k].klass == 0 || want[k].klass == 2 || want[k].klass == 3) && same_ev(want[k], got[k], false))) fail("wrong-event", "event %zu, before the damage, is %s, but was delivered as %s", k, show(want[k]).c_str(), show(got[k]).c_str());
    if (first == b.size() && got.size() > must) fail("phantom-event", "a truncated stream holding %zu complete events delivered %zu", must, got.size());
    if (peak > bytes0 + 4000000 + 400 * b.size()) fail("memory-use", "%llu bytes used for an input of %zu bytes", (unsigned long long)(peak - bytes0), b.size());
    if (heap_live_sut_blocks() > blocks0) fail("memory-leak", "%lld blocks left after the reader was destroyed", (long long)(heap_live_sut_blocks() - blocks0));
    if (first < good.size() || b.size() != good.size()) nontrivial(); if (got.size() > must) probe("events delivered after the damage"); if (must && got.size() == must && b.size() > first) probe("reader stopped at the damage"); (void)eos;
    fold(got.size()); fold(b.size()); note("%s %s events=%zu before damage=%zu delivered=%zu input=%zu bytes first damage=%zu", flat ? "flat" : "nested", file ? "file" : "memory", want.size(), must, got.size(), b.size(), first);
}
Reg r1("C18", "damaged-stream", parser, 3);

void client() {
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    lib_init(-1, false); { Sut s; user_register_client_klasses(); }
    unsigned n = (unsigned)knob("events", 0, 10), m = (unsigned)pick("damages", {1, 1, 2, 4, 8}); bool cgrind = knob("callgrind", 0, 1), live = knob("source_tcp", 0, 3) == 0, wild = knob("garbage", 0, 19) == 0; set_clock_step(0);
    std::string good = make_trace("/sim/good", n, true), other = make_trace("/sim/other", 2, false); Decoder d; std::vector<DEv> want; size_t used; d.decode(good, want, &used);
    std::string b = wild ? garbage() : damage(good, other, want, m); set_step_cap(20000000 + b.size() * 2000);
    std::vector<std::string> a{"conv", "--source", live ? "127.0.0.1:8765" : "/sim/bad", "--output", "/sim/out", "--format", cgrind ? "callgrind" : "chrome-tracing"};
    if (knob("map", 0, 3) == 0) { a.push_back("--map"); a.push_back("/sim/map,,/sim/bad"); disk_put("/sim/map", knob("map_kind", 0, 1) ? "native main 5 lua x" : std::string("\0\xff 99999999999999999999999 a\n", 26)); }
    std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); disk_put("/sim/bad", b); int rc, srv = -1, sv = -1, us = -1;
    enable_fault(F_READ_SHORT, 1, 4); enable_fault(F_SHORT_RECV, 1, 4);
    if (live) {
        srv = net_listen(PORT); bool resets = knob("server_resets", 0, 1);
        sv = spawn("server", [&, resets] { int h = net_accept(srv); if (h < 0) return; Rng q(seed() ^ 5); for (size_t p = 0; p < b.size();) { size_t z = std::min(b.size() - p, (size_t)(1 + q.below(900))); if (net_send(h, b.data() + p, z) < 0) break; p += z; if (q.chance(1, 4)) yield(); } if (resets) { note_fault(F_PEER_RESET); net_reset(h); } else { note_fault(F_PEER_CLOSE); net_close(h); } }, false);
        us = spawn("user", [&] { sleep_ns(20000000000ull); press_enter(); }, false);
    }
    { Sut s; rc = htclient_main((int)a.size(), v.data()); }
    disable_faults(); if (live) { join(us); join(sv); net_unlisten(srv); if (net_open_sut_fds()) fail("descriptor-leak", "the client left descriptors open"); }
    if (disk_open_handles()) fail("handle-leak", "files left open");
    if (rc != 0 && rc != 1) fail("wrong-status", "the client returned %d", rc);
    if (!cgrind && rc == 0) { std::string o = disk_has("/sim/out") ? disk_get("/sim/out") : ""; JP p(o); J j; if (!p.doc(j)) fail("invalid-json", "%s", p.err.c_str()); if (j.t != 'o' || !j.get("traceEvents") || j.get("traceEvents")->t != 'a') fail("invalid-trace", "no traceEvents array"); fold(j.get("traceEvents")->a.size()); }
    if (b != good) nontrivial(); fold(b.size()); note("%s %s input=%zu bytes rc=%d", cgrind ? "callgrind" : "chrome", live ? "tcp" : "file", b.size(), rc);
}
Reg r2("C18", "damaged-to-client", client, 2);
}
