// C13: the protocol reader's life cycle.  C14: the TCP client stream.
#include "realparse.h"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <algorithm>
#include <memory>
using namespace sim;
using namespace HawkTracer::parser;
using HawkTracer::ClientUtils::TCPClientStream;

namespace {
enum { PORT = 8765 };
// A trace written by the library itself.
std::string make_trace(unsigned n, size_t maxstr) {
    HT_ErrorCode e; HT_Timeline* t; lib_init(-1, false); bool shadow = knob("shadowing_klass", 0, 3) == 0; if (shadow) { Sut s; user_register_shadow(); }
    { Sut s; t = ht_timeline_create(256, HT_FALSE, HT_TRUE, nullptr, &e); if (t) ht_file_dump_listener_register(t, "/sim/in.htdump", 512, &e); }
    if (!t || e != HT_ERR_OK) fail("create-failed", "%d", e);
    for (unsigned i = 0; i < n; i++) { Rng r(1); if (!op_keep(&r)) continue; UEv ev = gen_ev(r, mk_tag(1, i), 0x3f, maxstr, false); bool sh = shadow && r.chance(1, 3); Sut s; if (sh) user_push_shadow(t, ev); else user_push(t, ev); }
    { Sut s; ht_timeline_destroy(t); }
    return disk_get("/sim/in.htdump");
}
// In-memory stream under the simulator's control: pauses anywhere, may stay idle at its end until stopped.
struct PacedStream : Stream {
    std::string b; size_t pos = 0, stall_at = ~(size_t)0; unsigned pause = 0; bool cont = false, idle_end = false, stopped = false; int starts = 0, stops = 0; bool busy = false, touched_after_stop = false; bool start_ok = true;
    bool wait() { if (stops && cont) {} if (busy) fail("concurrent-read", "two threads read the stream at once"); busy = true; if (pause) { if (pos % (pause + 1) == pause) yield(); } if (pos == stall_at) sleep_ns(500000); if (pos >= b.size() && idle_end) wait_until([this] { return stopped; }, "idle stream"); busy = false; return pos < b.size() && !stopped; }
    int read_byte() override { Har h; if (!wait()) return -1; return (unsigned char)b[pos++]; }
    bool read_data(char* p, size_t n) override { Har h; while (n) { if (!wait()) return false; *p++ = b[pos++]; n--; } return true; }
    bool start() override { Har h; starts++; return start_ok; }
    void stop() override { Har h; stops++; stopped = true; }
    bool is_continuous() override { return cont; }
};
struct Watch { std::vector<DEv> ev; bool closed = false; };
// A field with the name of a field of a base klass: which of the two is meant by the name is not specified.
bool ambiguous(const DEv& e, const std::string& f) { return e.name == "SimShadow" && (f == "s" || f == "id"); }
bool same_ev(const DEv& x, const DEv& y, bool hdr) {
    if (x.name == "SimShadow") hdr = false;
    bool same = x.name == y.name && (!hdr || (x.ts == y.ts && x.id == y.id && x.klass == y.klass)) && (x.v.size() == y.v.size() || x.name == "SimShadow");
    if (same) for (auto& f : x.v) { if (ambiguous(x, f.first)) continue; auto it = y.v.find(f.first); if (it == y.v.end() || it->second.is_str != f.second.is_str || it->second.u != f.second.u || it->second.s != f.second.s) same = false; }
    return same;
}
// What an application thread sees when it looks up event types while the reader is at work.
struct Seen { uint32_t id; std::string name; std::vector<std::string> fields; };
void look(KlassRegister* reg, Rng& r, const std::vector<DEv>& want, const std::vector<std::pair<uint32_t, std::string>>& known, std::vector<Seen>& seen) {
    uint32_t id = (uint32_t)r.below(12); std::string name = "HT_Event"; bool must = false; size_t nk = known.size(); if (nk) probe("lookup while reading"); 
    if (nk && r.chance(2, 3)) { auto& k = known[r.chance(1, 2) ? nk - 1 : r.below(nk)]; id = k.first; name = k.second; must = true; }
    else
    if (!want.empty()) { auto& e = want[r.below(want.size())]; id = e.klass; if (r.chance(1, 2)) name = e.name; }
    std::vector<std::shared_ptr<const EventKlass>> ks;
    switch (r.below(4)) {
    case 0: { std::shared_ptr<const EventKlass> k; { Sut s; k = reg->get_klass(id); } if (k) ks.push_back(k); break; }
    case 1: { std::shared_ptr<const EventKlass> k; { Sut s; k = reg->get_klass(name); } if (k) { std::string n; { Sut s; n = k->get_name(); } if (n != name) fail("wrong-klass", "looked up %s, got %s", name.c_str(), n.c_str()); ks.push_back(k); } break; }
    case 2: { HT_EventKlassId x; bool e = true; std::shared_ptr<const EventKlass> k; { Sut s; x = reg->get_klass_id(name); if (x != HT_INVALID_KLASS_ID) { e = reg->klass_exists(x); k = reg->get_klass(x); } } if (!e || (x != HT_INVALID_KLASS_ID && !k)) fail("wrong-klass", "%s is known under id %u, but %u is not", name.c_str(), x, x); if (k) ks.push_back(k); break; }
    default: { std::unordered_map<HT_EventKlassId, std::shared_ptr<EventKlass>> m; { Sut s; m = reg->get_klasses(); } for (auto& x : m) { uint32_t i; { Sut s; i = x.second->get_id(); } if (i != x.first) fail("wrong-klass", "klass %u is listed under %u", i, x.first); ks.push_back(x.second); } for (size_t i = 0; i < nk; i++) if (!m.count(known[i].first)) fail("klass-not-found", "event type %s (%u) was announced to the listeners, but is not listed", known[i].second.c_str(), known[i].first); }
    }
    if (must && ks.empty()) fail("klass-not-found", "event type %s (%u) was announced to the listeners, but a lookup did not find it", name.c_str(), id);
    for (auto& k : ks) {
        Seen o; std::vector<std::shared_ptr<EventKlassField>> fs; { Sut s; o.name = k->get_name(); o.id = k->get_id(); fs = k->get_fields(); }
        if (must && (o.id == id) != (o.name == name)) fail("wrong-klass", "event type %s has id %u, but a lookup found %s with id %u", name.c_str(), id, o.name.c_str(), o.id);
        for (auto& f : fs) { Sut s; o.fields.push_back(f->get_name()); }
        if (!fs.empty()) { std::shared_ptr<const EventKlassField> f; { Sut s; f = k->get_field(o.fields.back().c_str(), false); } if (f.get() != fs.back().get()) fail("wrong-field", "looking up field %s of %s gives another one", o.fields.back().c_str(), o.name.c_str()); }
        if (seen.size() < 400) seen.push_back(o);
    }
}
void reader_life(bool foreign) {
    int kind = (int)knob("stream", 0, 3);          // 0 file, 1 paced memory, 2 memory idle at the end, 3 TCP
    unsigned n = (unsigned)knob("events", 0, 12), nl = (unsigned)knob("listeners", 1, 3), nw = (unsigned)knob("waiters", 0, 3); bool flat = knob("flat", 0, 1);
    int how = (int)knob("ending", 0, 3);            // 0 wait then stop, 1 stop at some moment, 2 destroy at some moment, 3 waiters only, then stop
    bool poll = knob("poll_eos", 0, 1), large = large_run(1200), longs = large && knob("long_strings", 0, 1); if (large) { n = longs ? 8 : (unsigned)pick("many", {300, 2000}); nl = 1; nw = nw % 2; } set_clock_step(1); set_stdio_buffer(pick("stdio_buf", {0, 1, 7, 64, 512}));
    std::string native = make_trace(n, longs ? 100000 : large ? 10 : 40), b = foreign ? other_endian(native) : native; if (foreign) disk_put("/sim/in.htdump", b); size_t cut = b.size(); if (knob("truncate", 0, 3) == 0) { cut = knob("cut", 0, 100000) % (b.size() + 1); b.resize(cut); native.resize(cut); note_fault(F_TRUNCATE); disk_put("/sim/in.htdump", b); }
    bool fault_eio = false;
    if (knob("faulty", 0, 1)) { enable_fault(F_READ_SHORT, 1, 3); enable_fault(F_READ_EINTR, 0, 1); enable_fault(F_SHORT_RECV, 1, 3); enable_fault(F_RECV_EINTR, 1, 12); enable_fault(F_SPURIOUS_WAKE, 1, 10); }
    Decoder d; std::vector<DEv> want; size_t used; d.decode(native, want, &used); if (foreign && !want.empty()) want[0].v["endianness"].u ^= 1;
    bool idle = kind == 2 || (kind == 3 && knob("peer_stays", 0, 1)), missing = kind == 0 && knob("missing_file", 0, 9) == 0; (void)fault_eio;
    size_t lstop = knob("listener_stops", 0, 3) == 0 ? knob("listener_stops_at", 0, 15) : ~(size_t)0; bool stops_itself = lstop < want.size(); if (stops_itself) want.resize(lstop + 1);
    if (idle && !stops_itself && how == 0) how = 1; if (idle && !stops_itself && how == 3) how = 1;
    std::vector<std::unique_ptr<Watch>> ws; for (unsigned i = 0; i < nl; i++) ws.push_back(std::make_unique<Watch>());
    int srv = -1, peer = -1, server = -1; bool server_quit = false; std::string port_in = b;
    if (kind == 3) {
        srv = net_listen(PORT);
        server = spawn("server", [&, idle] {
            peer = net_accept(srv); if (peer < 0) return;
            size_t p = 0; Rng r(seed() ^ 77);
            while (p < b.size()) { size_t z = 1 + r.below(r.chance(1, 3) ? 4 : 200); z = std::min(z, b.size() - p); long q = net_send(peer, b.data() + p, z); if (q <= 0) { net_close(peer); return; } p += (size_t)q; if (r.chance(1, 4)) sleep_ns(r.below(5000)); }
            if (idle) wait_until([&] { return server_quit || net_peer_gone(peer) || net_peer_eof(peer); }, "client to go");
            net_close(peer);
        }, false);
    }
    auto reg = std::make_unique<KlassRegister>(); std::unique_ptr<ProtocolReader> rd; PacedStream* ps = nullptr; std::vector<std::pair<uint32_t, std::string>> known;
    {
        std::unique_ptr<Stream> st; Sut s;
        if (kind == 0) st.reset(new FileStream(missing ? "/sim/no-such-file" : "/sim/in.htdump"));
        else if (kind == 3) st.reset(new TCPClientStream("127.0.0.1", PORT, knob("wait_server", 0, 1)));
        else { ps = new PacedStream; ps->b = b; ps->pause = (unsigned)pick("pause", {0, 1, 5, 30}); ps->idle_end = kind == 2; ps->cont = kind == 2 || knob("continuous", 0, 1); if (knob("stall", 0, 1)) ps->stall_at = b.size() ? knob("stall_at", 0, 100000) % b.size() : 0; st.reset(ps); }
        rd.reset(new ProtocolReader(reg.get(), std::move(st), flat));
        ProtocolReader* rp = rd.get(); Watch* w0 = ws[0].get(); auto* kn = &known;
        for (auto& w : ws) { Watch* x = w.get(); rd->register_events_listener([x, w0, rp, kn, lstop](const Event& e) { Har h; if (x->closed) fail("callback-after-stop", "a listener was called after stop() had returned"); x->ev.push_back(from_event(e)); if (x == w0 && x->ev.back().name == "HT_EventKlassInfoEvent") kn->push_back({(uint32_t)x->ev.back().u("info_klass_id"), x->ev.back().s("event_klass_name")}); if (x->ev.size() % 3 == 0) yield(); if (x == w0 && x->ev.size() == lstop + 1) { probe("stopped by a listener"); Sut s; rp->stop(); } }); }
    }
    bool early = stops_itself;                      // the listener which stops the reader is still running, others may not have got its event yet
    auto delivered = [&](bool all, const char* when) {
        for (unsigned i = 0; i < nl; i++) {
            auto& ev = ws[i]->ev;
            if (all ? ev.size() != want.size() && !(early && ev.size() + 1 == want.size()) : ev.size() > want.size()) fail("wrong-count", "%s: the stream holds %zu events, listener %u got %zu", when, want.size(), i, ev.size());
            for (size_t k = 0; k < ev.size(); k++) if (!same_ev(want[k], ev[k], flat)) { if (foreign && !k && same_ev(want[k], ev[k], false)) continue; if (!flat && (want[k].klass == 0 || want[k].klass == 2 || want[k].klass == 3) && same_ev(want[k], ev[k], false)) continue; if (!flat && same_ev(want[k], ev[k], true)) continue; fail("wrong-event", "%s: event %zu is %s, listener %u got %s", when, k, show(want[k]).c_str(), i, show(ev[k]).c_str()); }
        }
    };
    bool ok; { Sut s; ok = rd->start(); }
    bool can_start = !missing;
    if (ok != can_start) fail("start-result", "start() returned %d", ok);
    std::vector<int> th; bool stopping = false; unsigned released = 0;
    for (unsigned i = 0; i < nw; i++) th.push_back(spawn("waiter", [&] {
        if (knob("late_wait", 0, 1)) sleep_ns(2000);
        { Sut s; rd->wait_for_complete(); }
        if (!stopping && ok) delivered(true, "when a waiter was released");
        bool e; { Sut s; e = rd->eos(); } if (!e) fail("not-eos", "a waiter was released but eos() is false");
        released++;
    }));
    unsigned nlook = knob("lookups", 0, 1) == 0 ? 0 : (unsigned)knob("lookup_threads", 1, 2); bool looked = false, rd_over = false; std::vector<int> lk; std::vector<Seen> seen;
    for (unsigned i = 0; i < nlook; i++) lk.push_back(spawn("lookup", [&, i] { Rng r(seed() ^ (31 + i)); size_t from = knob("look_from", 0, 16); if (from) wait_until([&] { return looked || known.size() >= from || rd_over; }, "event types to arrive"); for (int n = 0; n < 60 && !looked; n++) { look(reg.get(), r, want, known, seen); if (r.chance(1, 3)) yield(); if (!from && r.chance(1, 6)) sleep_ns(r.below(2000)); } }));
    if (poll && how != 2 && !idle && ok) { for (;;) { bool e; { Sut s; e = rd->eos(); } if (e) break; sleep_ns(1000); } delivered(true, "when eos() turned true"); probe("eos polled"); }
    if (how == 0) { { Sut s; rd->wait_for_complete(); } if (ok) delivered(true, "when waiting returned"); }
    if (how == 3) for (int t : th) join(t);
    if (how == 1 || how == 2) { uint64_t y = knob("stop_after", 0, 60); for (uint64_t i = 0; i < y; i++) yield(); if (knob("stop_later", 0, 1)) sleep_ns(knob("stop_ns", 0, 4000)); }
    stopping = true;
    if (how == 2 && nw == 0) { Sut s; rd.reset(); }
    else {
        { Sut s; rd->stop(); }
        for (auto& w : ws) w->closed = true;
        if (ps && ps->busy) fail("still-reading", "stop() returned while a thread still reads the stream");
        if (knob("stop_twice", 0, 1)) { Sut s; rd->stop(); }
        for (int t : th) if (!joined_done(t)) join(t);
        { bool e; { Sut s; e = rd->eos(); } if (!e) fail("not-eos", "eos() is false after stop()"); }
        { Sut s; rd->wait_for_complete(); }
        { Sut s; rd.reset(); }
    }
    rd_over = true;
    for (auto& w : ws) w->closed = true;
    early = false;
    if (how == 0 || how == 3) { if (how == 0 || nw) if (ok) delivered(true, "after stop"); }
    delivered(false, "after stop");
    looked = true; for (int t : lk) join(t);
    for (auto& o : seen) {
        std::shared_ptr<const EventKlass> k; std::vector<std::string> f; { Sut s; k = reg->get_klass(o.id); }
        if (!k) fail("klass-lost", "event type %s (%u) was known once, but isn't any more", o.name.c_str(), o.id);
        for (auto& x : k->get_fields()) f.push_back(x->get_name());
        if (k->get_name() != o.name || o.fields.size() > f.size() || !std::equal(o.fields.begin(), o.fields.end(), f.begin())) fail("wrong-klass", "a lookup of event type %u saw %s with %zu fields, at the end it is %s with %zu", o.id, o.name.c_str(), o.fields.size(), k->get_name().c_str(), f.size());
        if (o.fields.size() < f.size()) probe("event type seen while its fields arrive");
    }
    { Sut s; reg.reset(); }
    server_quit = true; sleep_ns(10000000);
    if (kind == 3) { join(server); net_unlisten(srv); if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after the reader was destroyed", net_open_sut_fds()); if (net_bad_closes()) fail("double-close", "a descriptor was closed or used after it was closed"); }
    if (disk_open_handles()) fail("handle-leak", "the input file is still open");
    size_t got = ws[0]->ev.size(); if (got < want.size()) probe("stopped before the end"); if (idle) probe("stopped while idle");
    fold(got); if (ok) nontrivial(); note("stream=%d events=%zu delivered=%zu listeners=%u waiters=%u ending=%d idle=%d", kind, want.size(), got, nl, nw, how, idle);
}
Reg r1("C13", "reader-lifecycle", [] { reader_life(false); }, 1);
Reg r3("C22", "other-byte-order-reader", [] { reader_life(true); }, 1);

// a reader which is started again after it was stopped, or after its stream had ended
void reader_again() {
    int kind = (int)knob("stream", 0, 1);          // 0 file, 1 TCP
    unsigned n = (unsigned)knob("events", 0, 8), rounds = (unsigned)knob("rounds", 1, 4); bool flat = knob("flat", 0, 1); set_clock_step(1); set_stdio_buffer(pick("stdio_buf", {0, 7, 64, 512}));
    std::string b = make_trace(n, 30); Decoder d; std::vector<DEv> want, got; size_t used; d.decode(b, want, &used);
    if (knob("faulty", 0, 1)) { enable_fault(F_READ_SHORT, 1, 3); enable_fault(F_SHORT_RECV, 1, 3); enable_fault(F_RECV_EINTR, 1, 12); enable_fault(F_SPURIOUS_WAKE, 1, 10); }
    auto reg = std::make_unique<KlassRegister>(); std::unique_ptr<ProtocolReader> rd; unsigned complete = 0; bool open = false;
    int srv = -1, server = -1;
    if (kind == 1) { srv = net_listen(PORT); server = spawn("server", [&] { for (int p; (p = net_accept(srv)) >= 0;) { size_t at = 0; while (at < b.size()) { long q = net_send(p, b.data() + at, std::min<size_t>(50, b.size() - at)); if (q <= 0) break; at += (size_t)q; } net_close(p); } }, false); }
    { Sut s; std::unique_ptr<Stream> st; if (kind == 0) st.reset(new FileStream("/sim/in.htdump")); else st.reset(new TCPClientStream("127.0.0.1", PORT, false)); rd.reset(new ProtocolReader(reg.get(), std::move(st), flat)); rd->register_events_listener([&](const Event& e) { Har h; if (!open) fail("callback-after-stop", "a listener was called while the reader was stopped"); got.push_back(from_event(e)); }); }
    for (unsigned r = 0; r < rounds; r++) {
        got.clear(); open = true; bool ok; { Sut s; ok = rd->start(); } if (!ok) fail("start-result", "start() #%u failed", r + 1);
        bool wait = knob(("wait" + std::to_string(r)).c_str(), 0, 2) > 0; if (wait) { Sut s; rd->wait_for_complete(); } else for (uint64_t y = knob("stop_after", 0, 40); y; y--) yield();
        { Sut s; rd->stop(); } open = false; bool e; { Sut s; e = rd->eos(); } if (!e) fail("not-eos", "eos() is false after stop()");
        if (wait ? got.size() != want.size() : got.size() > want.size()) fail("wrong-count", "start #%u: the stream holds %zu events, %zu were delivered", r + 1, want.size(), got.size());
        for (size_t k = 0; k < got.size(); k++) if (!same_ev(want[k], got[k], flat) && !same_ev(want[k], got[k], false)) fail("wrong-event", "start #%u: event %zu is %s, delivered %s", r + 1, k, show(want[k]).c_str(), show(got[k]).c_str());
        complete += wait;
    }
    { Sut s; rd.reset(); reg.reset(); } if (kind == 1) { sleep_ns(10000000); net_unlisten(srv); join(server); if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open", net_open_sut_fds()); }
    if (disk_open_handles()) fail("handle-leak", "the input file is still open");
    if (rounds > 1) probe("reader started again"); fold(complete); nontrivial(); note("stream=%d events=%zu rounds=%u complete=%u", kind, want.size(), rounds, complete);
}
Reg r1b("C13", "reader-started-again", reader_again, 1);

// ---------------------------------------------------------------- C24
// Events which the application keeps: copies, moves, assignments by several threads, while the reader goes on and after it has gone.
typedef std::map<std::string, std::string> Snap;
void snap(const Event& e, const std::string& pre, Snap& o) {
    o[pre + "klass"] = e.get_klass() ? e.get_klass()->get_name() : "none"; o[pre + "ts"] = std::to_string(e.get_timestamp());
    for (auto& kv : e.get_values()) {
        const Event::Value& v = kv.second; if (!v.field) fail("bad-event", "value %s has no field", kv.first.c_str());
        if (!heap_addressable(v.field, sizeof *v.field)) fail("bad-event", "the description of field %s has been freed", kv.first.c_str());
        if (v.field->get_name() != kv.first) fail("bad-event", "the value of %s belongs to a field called %s", kv.first.c_str(), v.field->get_name().c_str());
        if (v.field->get_type_id() == FieldTypeId::STRUCT) { if (v.value.f_EVENT) snap(*v.value.f_EVENT, pre + kv.first + "/", o); }
        else if (v.field->get_type_id() == FieldTypeId::STRING) { const char* t = v.value.f_STRING; if (!t || !heap_addressable(t, 1)) fail("bad-event", "field %s holds an invalid string", kv.first.c_str()); size_t l = 0; while (t[l]) l++; if (!heap_addressable(t, l + 1)) fail("bad-event", "field %s holds a string which does not end", kv.first.c_str()); o[pre + kv.first] = std::string("'") + t; }
        else { size_t z = v.field->get_sizeof(); uint64_t x = 0; memcpy(&x, &v.value, z); o[pre + kv.first] = std::to_string(x); }
    }
}
void kept_events() {
    unsigned n = (unsigned)knob("events", 1, 10), nt = (unsigned)knob("threads", 1, 3), ops = (unsigned)knob("ops", 1, 40), ns = (unsigned)knob("slots", 2, 8); bool flat = knob("flat", 0, 1), reg_first = knob("register_goes", 0, 1); set_clock_step(1);
    std::string b = make_trace(n, knob("long", 0, 7) == 7 ? 3000 : 40);
    struct Slot { std::unique_ptr<Event> e; Snap want; unsigned readers = 0; bool writer = false; };
    uint64_t blocks0 = heap_live_sut_blocks(); std::vector<Slot> sl(ns); unsigned kept = 0, copies = 0, after = 0; bool gone = false;
    auto check = [&](Slot& x) { Snap s; snap(*x.e, "", s); if (s != x.want) { for (auto& w : x.want) if (s[w.first] != w.second) fail("event-changed", "%s of a kept event was %s, now it is %s", w.first.c_str(), w.second.c_str(), s[w.first].c_str()); fail("event-changed", "a kept event has %zu values instead of %zu", s.size(), x.want.size()); } };
    auto reg = std::make_unique<KlassRegister>(); std::unique_ptr<ProtocolReader> rd; PacedStream* ps; unsigned seen = 0; Rng lr(seed() ^ 5);
    { Sut s; ps = new PacedStream; ps->b = b; ps->pause = (unsigned)pick("pause", {0, 5, 30, 200}); rd.reset(new ProtocolReader(reg.get(), std::unique_ptr<Stream>(ps), flat));
      rd->register_events_listener([&](const Event& e) {
        Har h; seen++; Slot& x = sl[lr.below(ns)]; if (x.writer || x.readers || (x.e && lr.chance(1, 2))) return;
        x.writer = true; kept++; x.want.clear(); snap(e, "", x.want);
        if (x.e && lr.chance(1, 2)) { Sut s; *x.e = e; } else { Sut s; x.e.reset(new Event(e)); }
        check(x); x.writer = false; }); }
    bool ok; { Sut s; ok = rd->start(); } if (!ok) fail("start-result", "start() failed");
    std::vector<int> th;
    auto one = [&](Rng& r) {
        Slot& x = sl[r.below(ns)]; Slot& y = sl[r.below(ns)]; if (!x.e || x.writer) return; if (gone) after++;
        switch (r.below(8)) {
        case 0: { if (x.readers) return; x.writer = true; { Sut s; x.e.reset(); } x.writer = false; break; }
        case 1: case 2: case 3: {        // y becomes a copy of x, which others may be copying too
            if (&x == &y || y.writer || y.readers) return; x.readers++; y.writer = true; Snap w = x.want; copies++;
            if (y.e && r.chance(2, 3)) { Sut s; *y.e = *x.e; } else { Sut s; y.e.reset(new Event(*x.e)); }
            y.want = w; check(y); check(x); x.readers--; y.writer = false; break; }
        case 4: {                        // x moves to y
            if (&x == &y || y.writer || y.readers || x.readers) return; x.writer = y.writer = true; copies++; bool as = y.e && r.chance(1, 2);
            if (as) { Sut s; *y.e = std::move(*x.e); x.e.reset(); } else { Sut s; std::unique_ptr<Event> q(new Event(std::move(*x.e))); x.e.reset(); y.e = std::move(q); }
            y.want = x.want; check(y); x.writer = y.writer = false; break; }
        case 5: { x.readers++; { std::vector<Event> many; unsigned c = 1 + (unsigned)r.below(6); { Sut s; for (unsigned i = 0; i < c; i++) many.push_back(*x.e); if (c > 2) many.erase(many.begin()); } for (auto& m : many) { Snap q; snap(m, "", q); if (q != x.want) fail("event-changed", "a copy of an event in a list differs from it"); } { Sut s; std::vector<Event>().swap(many); } } check(x); x.readers--; copies++; break; }
        case 6: { if (x.readers) return; x.writer = true; { Sut s; Event& same = *x.e; *x.e = same; } check(x); x.writer = false; break; }
        default: { x.readers++; for (auto& v : x.want) { if (v.first.find('/') != std::string::npos) continue; bool has; { Sut s; has = x.e->has_value(v.first); if (has) { x.e->get_raw_value(v.first); x.e->get_klass()->get_field(v.first.c_str(), true); } } if (!has && v.first != "klass" && v.first != "ts") fail("event-changed", "a kept event has lost its %s", v.first.c_str()); } check(x); x.readers--; }
        }
    };
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("application", [&] { for (unsigned k = 0; k < ops; k++) { Rng r(1); if (!op_keep(&r)) continue; one(r); if (r.chance(1, 3)) yield(); } }));
    if (knob("early_stop", 0, 3) == 0) { for (uint64_t i = knob("stop_after", 0, 60); i; i--) yield(); } else { Sut s; rd->wait_for_complete(); }
    { Sut s; rd->stop(); rd.reset(); } gone = true; if (reg_first) { Sut s; reg.reset(); }
    for (int t : th) join(t);
    { Rng r(seed() ^ 99); for (unsigned k = 0; k < 10; k++) one(r); }
    for (auto& x : sl) if (x.e) check(x);
    if (reg) { Sut s; reg.reset(); }
    for (auto& x : sl) if (x.e) { check(x); Sut s; x.e.reset(); }
    if (heap_live_sut_blocks() > blocks0) fail("memory-leak", "%lld blocks are left after every event was destroyed", (long long)(heap_live_sut_blocks() - blocks0));
    if (after) probe("events used after the reader was destroyed"); if (reg_first) probe("events outlive the register of event types");
    fold(kept * 64 + copies); if (kept) nontrivial(); note("events=%u kept=%u copies=%u threads=%u flat=%d register goes first=%d", seen, kept, copies, nt, flat, reg_first);
}
Reg r24("C24", "kept-events", kept_events, 1);


// several readers in one process, whose traces were written by machines of different byte order
void several_readers() {
    unsigned nr = (unsigned)knob("readers", 2, 3), n = (unsigned)knob("events", 1, 8); set_clock_step(1); std::string native = make_trace(n, 20); Decoder d; std::vector<DEv> want; size_t used; d.decode(native, want, &used);
    struct R { bool foreign, flat; std::unique_ptr<KlassRegister> reg; std::unique_ptr<ProtocolReader> rd; std::vector<DEv> ev; }; std::vector<std::unique_ptr<R>> rs; std::vector<int> th;
    for (unsigned i = 0; i < nr; i++) { rs.push_back(std::make_unique<R>()); rs.back()->foreign = i == 0 || (i > 1 && knob("third_foreign", 0, 1)); rs.back()->flat = knob("flat", 0, 1); }
    for (auto& x : rs) th.push_back(spawn("user of a reader", [&] {
        R* r = x.get(); r->reg = std::make_unique<KlassRegister>(); PacedStream* ps;
        { Sut s; ps = new PacedStream; ps->b = r->foreign ? other_endian(native) : native; ps->pause = (unsigned)pick("pause", {0, 5, 30, 200}); r->rd.reset(new ProtocolReader(r->reg.get(), std::unique_ptr<Stream>(ps), r->flat)); r->rd->register_events_listener([r](const Event& e) { Har h; r->ev.push_back(from_event(e)); }); }
        bool ok; { Sut s; ok = r->rd->start(); if (ok) r->rd->wait_for_complete(); r->rd->stop(); r->rd.reset(); } if (!ok) fail("start-result", "start() returned 0");
        if (r->ev.size() != want.size()) fail("wrong-count", "the stream holds %zu events, %zu were delivered", want.size(), r->ev.size());
        for (size_t k = 1; k < want.size(); k++) if (!same_ev(want[k], r->ev[k], true) && !(!r->flat && same_ev(want[k], r->ev[k], false))) fail("wrong-event", "reader of a %s trace: event %zu is %s, delivered %s", r->foreign ? "foreign" : "native", k, show(want[k]).c_str(), show(r->ev[k]).c_str());
    }));
    for (int t : th) join(t); for (auto& x : rs) { Sut s; x->reg.reset(); }
    fold(want.size()); nontrivial(); note("readers=%u events=%zu", nr, want.size());
}
Reg r4("C22", "readers-of-both-orders", several_readers, 1);

// ---------------------------------------------------------------- C14
void tcp_stream() {
    size_t n = pick("bytes", {0, 1, 2, 10, 100, 1023, 1024, 1025, 3000, 9000}); int ending = (int)knob("ending", 0, 3);      // 0 peer closes, 1 peer resets, 2 stop at some moment, 3 peer stays, stop when all is read
    stdin_closed(); bool faults = knob("faulty", 0, 1), late = knob("server_late", 0, 1), waits = knob("wait_server", 0, 1); unsigned rounds = (unsigned)knob("rounds", 1, 2); set_clock_step(1); set_step_cap(3000000);
    net_set_sndbuf(pick("sndbuf", {1, 16, 300, 65536, 65536}));
    if (faults) { enable_fault(F_SHORT_RECV, 1, 3); enable_fault(F_RECV_EINTR, 1, 12); enable_fault(F_SPURIOUS_WAKE, 1, 8); if (knob("recv_reset", 0, 2) == 0) enable_fault(F_RECV_RESET, 1, 40); }
    bool big = large_run(400), idle_reader = big && knob("idle_reader", 0, 1); if (big) { n = pick("many", {70000, 300000, 1100000}); net_set_sndbuf(65536); rounds = 1; }
    const char* host = net_host((unsigned)knob("host", 0, 4));
    std::unique_ptr<TCPClientStream> st; { Sut s; st.reset(new TCPClientStream(host, PORT, waits)); }
    size_t total = 0; unsigned refusals = 0;
    bool c; { Sut s; c = st->is_continuous(); } if (!c) fail("not-continuous", "the TCP stream claims not to be continuous");
    if (knob("connect_fails", 0, 3) == 0) {
        std::unique_ptr<TCPClientStream> x; bool ok; { Sut s; x.reset(new TCPClientStream(host, PORT, false)); ok = x->start(); } if (ok) fail("start-result", "start() succeeded without a server");
        int b; { Sut s; b = x->read_byte(); } if (b != -1) fail("wrong-byte", "a stream that is not connected returned %d", b);
        { Sut s; x.reset(); } if (net_open_sut_fds()) fail("descriptor-leak", "a failed connection left a descriptor open"); refusals++;
    }
    for (unsigned rd = 0; rd < rounds; rd++) {
        std::string data(n, 0); { Rng r(seed() ^ (91 + rd)); for (auto& ch : data) ch = (char)r.next(); if (knob("zeros", 0, 3) == 0) for (size_t i = 0; i < n; i += 2) data[i] = 0; if (knob("ff", 0, 3) == 0) for (size_t i = 0; i < n; i++) if (r.chance(1, 2)) data[i] = (char)0xff; }
        bool quit = false, sent_all = false; int srv = -1, peer = -1;
        auto serve = [&] {
            if (late && waits) sleep_ns(35000000);
            if (srv < 0) srv = net_listen(PORT);
            peer = net_accept(srv); if (peer < 0) return;
            Rng r(seed() ^ (177 + rd)); size_t p = 0; bool bad = false;
            while (p < data.size()) { size_t z = std::min<size_t>(1 + r.below(big ? 30000 : r.chance(1, 3) ? 3 : 1500), data.size() - p); long q = net_send(peer, data.data() + p, z); if (q <= 0) { bad = true; break; } p += (size_t)q; if (r.chance(1, 5)) sleep_ns(r.below(4000)); }
            sent_all = !bad;
            if (ending == 1) { note_fault(F_PEER_RESET); net_reset(peer); return; }
            if (ending >= 2) wait_until([&] { return quit || net_peer_gone(peer) || net_peer_eof(peer); }, "client to go");
            net_close(peer);
        };
        if (!(late && waits)) srv = net_listen(PORT);
        int server = spawn("server", serve, false);
        bool ok; { Sut s; ok = st->start(); } if (!ok) fail("start-result", "start() failed with a server listening");
        size_t quits_after = ending == 2 && knob("reader_quits", 0, 1) ? knob("reader_quits_after", 0, 40) : ~(size_t)0;
        std::string got; bool eos = false; bool rst = fault_enabled(F_RECV_RESET);
        int reader = spawn("reader", [&] {
            Rng r(seed() ^ (277 + rd)); if (idle_reader) sleep_ns(50000000);
            for (;;) {
                if (got.size() >= quits_after) { probe("unread data left behind"); return; }
                if (r.chance(1, 2)) { int b; { Sut s; b = st->read_byte(); } if (b == -1) break; if (b < 0 || b > 255) fail("wrong-byte", "read_byte() returned %d", b); got += (char)b; }
                else { size_t z = 1 + r.below(big ? 70000 : r.chance(1, 4) ? 2000 : 9); if (ending == 0 || ending == 3) z = std::max<size_t>(1, std::min(z, data.size() - got.size())); std::vector<char> buf(z + 8, 'q'); bool k; { Sut s; k = st->read_data(buf.data(), z); } for (size_t i = z; i < z + 8; i++) if (buf[i] != 'q') fail("overrun", "read_data wrote past the buffer"); if (!k) break; got.append(buf.data(), z); }
                if (got.size() > data.size() || memcmp(got.data(), data.data(), got.size())) fail("wrong-byte", "after %zu bytes the stream yields other bytes than the peer sent", got.size());
            }
            eos = true;
            for (int i = 0; i < 2; i++) { int b; { Sut s; b = st->read_byte(); } if (b != -1 && ending != 1 && ending != 2) fail("data-after-eos", "the stream yields data after it had reported its end"); }
        });
        if (ending == 2) { uint64_t y = knob("stop_after", 0, 80); for (uint64_t i = 0; i < y; i++) yield(); if (knob("stop_later", 0, 1)) sleep_ns(knob("stop_ns", 0, 6000)); }
        else if (ending == 3) { if (!rst) wait_until([&] { return got.size() == data.size() || eos; }, "all data read"); else wait_until([&] { return got.size() == data.size() || eos; }, "data read"); if (knob("idle_first", 0, 1)) sleep_ns(1000000); if (eos && !rst) fail("early-eos", "the stream ended after %zu of %zu bytes while the peer keeps the connection", got.size(), data.size()); }
        else join(reader);
        if (ending == 0 && !rst && got != data) fail("lost-bytes", "the peer sent %zu bytes and closed, the stream yielded %zu", data.size(), got.size());
        if (ending < 2 && rd + 1 < rounds && knob("start_again", 0, 1)) probe("started again, never stopped");   // the connection is over; start() opens another one
        else {
        { Sut s; st->stop(); }
        if (ending >= 2) join(reader);
        if (knob("stop_twice", 0, 1)) { Sut s; st->stop(); }
        }
        quit = true; join(server);
        if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after stop()", net_open_sut_fds());
        if (net_bad_closes()) fail("double-close", "a descriptor was closed or used after it was closed");
        net_unlisten(srv); total += got.size(); (void)sent_all;
    }
    { Sut s; st.reset(); }
    if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after destruction", net_open_sut_fds());
    fold(total); nontrivial(); note("bytes=%zu x%u ending=%d faulty=%d read=%zu refused=%u", n, rounds, ending, faults, total, refusals);
}
Reg r2("C14", "tcp-client-stream", tcp_stream, 1);
}
