// C03, C04, C06: the TCP listener.
#include "model.h"
#include <memory>
#include <algorithm>
using namespace sim;

namespace {
enum { PORT = 8765 };
enum Behave { B_GOOD, B_SLOW, B_CLOSE, B_RESET, B_HALF, B_STALL, B_BYE };   // BYE: connect and close at once
struct Client {
    int h = -1; std::string got; bool eof = false, rst = false, refused = false, gave_up = false, setup_done = false, nodata_ok = false;
    Behave b = B_GOOD; uint64_t quit_after = 0; uint64_t connect_at = 0; size_t chunk = 64; int tid = -1; uint64_t pause = 0; uint64_t connected_step = ~0ull; bool release = false, early = false;
};
void client_main(Client* c) {
    if (c->early) wait_until([c] { return net_port_listening(PORT) || c->release; }, "the server to listen");   // connects while the listener is still being created
    if (c->connect_at) sleep_ns(c->connect_at);
    for (uint64_t i = 0; i < c->pause % 7; i++) yield();
    c->h = net_connect(PORT);
    if (c->h < 0) { c->refused = true; return; }
    c->connected_step = global_steps();
    if (c->b == B_BYE) { note_fault(F_PEER_CLOSE); net_close(c->h); c->gave_up = true; return; }
    if (c->b == B_HALF) net_shutdown_wr(c->h);
    std::vector<char> buf(c->chunk);
    for (;;) {
        if ((c->b == B_CLOSE || c->b == B_RESET || c->b == B_STALL) && c->got.size() >= c->quit_after) {
            if (c->b == B_STALL) { note_fault(F_STALL); wait_until([c] { return c->release; }, "stalled client"); note_fault(F_PEER_RESET); net_reset(c->h); }
            else if (c->b == B_CLOSE) { note_fault(F_PEER_CLOSE); net_close(c->h); }
            else { note_fault(F_PEER_RESET); net_reset(c->h); }
            c->gave_up = true; return;
        }
        if (c->b == B_SLOW) sleep_ns(1000 + c->pause * 1000);
        size_t want = c->chunk;
        if ((c->b == B_CLOSE || c->b == B_RESET || c->b == B_STALL) && c->quit_after - c->got.size() < want) want = c->quit_after - c->got.size();
        long n = net_recv(c->h, buf.data(), want);
        if (n > 0) c->got.append(buf.data(), (size_t)n);
        else { if (n == 0) c->eof = true; else c->rst = true; net_close(c->h); return; }
    }
}
struct Net {
    Ledger led; std::map<uint32_t, uint64_t> push_start, push_end;
    std::vector<std::unique_ptr<Client>> cl;
    int topo; bool ser; size_t cap; unsigned km; size_t maxstr;
    HT_Timeline* main_tl = nullptr; HT_TCPListener* l = nullptr; bool owner_destroyed = false;
};
void produce(Net& w, HT_Timeline* t, unsigned lane, unsigned n, unsigned base, bool pace) {
    for (unsigned i = 0; i < n; i++) {
        Rng r(1);
        if (!op_keep(&r)) continue;
        uint32_t tag = mk_tag(lane, base + i);
        UEv& e = w.led.add(gen_ev(r, tag, w.km, w.maxstr, false));
        w.push_start[tag] = global_steps();
        { Sut s; user_push(t, e); }
        w.push_end[tag] = global_steps();
        if (r.chance(1, 6)) { Sut s; ht_timeline_flush(t); }
        if (pace && r.chance(1, 4)) sleep_ns(r.below(3000));
    }
}
HT_Timeline* lane_tl(Net& w) {
    HT_Timeline* t = w.main_tl; HT_ErrorCode e;
    if (w.topo == 1) { Sut s; t = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "net", &e); }
    if (w.topo == 2) { Sut s; t = ht_global_timeline_get(); }
    if (!t) fail("create-failed", "timeline");
    return t;
}
void lane_done(Net& w, HT_Timeline* t) { if (w.topo == 1) { Sut s; ht_timeline_destroy(t); } else { Sut s; ht_timeline_flush(t); } }
std::vector<int> producers(Net& w, unsigned nt, unsigned n, unsigned base, bool pace) {
    std::vector<int> th;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("producer", [=, &w] { HT_Timeline* t = lane_tl(w); produce(w, t, i + 1, n, base, pace); lane_done(w, t); }));
    return th;
}
void setup(Net& w, size_t* fb) {
    w.topo = (int)knob("topology", 0, 2);
    w.ser = w.topo == 2 ? true : knob("serialize", 0, 1);
    w.cap = pick("tl_capacity", {0, 1, 20, 48, 64, 128, 200, 512, 4096}); w.km = 0x7f; w.maxstr = pick("maxstr", {10, 40, 130, 300});
    *fb = pick("tcp_buffer", {0, 1, 7, 20, 48, 64, 128, 512, 4096});
    if (!w.ser && *fb == 0) *fb = 1;
    net_set_sndbuf(pick("sndbuf", {1, 16, 64, 300, 1000, 5000, 65536, 65536, 65536}));
    set_clock_step(pick("clock_step", {0, 1, 1000})); stdin_closed();
    set_step_cap(6000000);
    lib_init((long)w.cap, true);
    HT_ErrorCode e;
    if (w.topo == 0) scarce([&] { Sut s; w.main_tl = ht_timeline_create(w.cap, HT_TRUE, w.ser ? HT_TRUE : HT_FALSE, nullptr, &e); return w.main_tl != nullptr; });
    if (w.topo == 1) scarce([&] { Sut s; w.main_tl = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "net", &e); return w.main_tl != nullptr; });
    if (w.topo == 2) { Sut s; w.main_tl = ht_global_timeline_get(); }
    if (!w.main_tl) fail("create-failed", "timeline");
}
void start_listener(Net& w, size_t fb) {
    HT_ErrorCode e = HT_ERR_UNKNOWN;
    auto reg = [&] { Sut s; w.l = ht_tcp_listener_register(w.main_tl, PORT, fb, &e); return w.l != nullptr; };
    bool early = false; for (auto& c : w.cl) early |= c->early;     // (such a client would lose its connection to a listener which fails half-way)
    if (early) reg(); else scarce(reg);
    if (!w.l || e != HT_ERR_OK) fail("create-failed", "TCP listener could not be created: %d", e);
}
void add_client(Net& w, Behave b, uint64_t at, uint64_t quit, bool early = false) {
    unsigned i = (unsigned)w.cl.size(); std::string n = "c" + std::to_string(i);
    w.cl.emplace_back(new Client); Client* c = w.cl.back().get();
    c->b = b; c->connect_at = at; c->early = early; c->quit_after = quit; c->chunk = pick((n + "_chunk").c_str(), {1, 3, 16, 100, 5000}); c->pause = knob((n + "_pause").c_str(), 0, 20);
    c->tid = spawn("client", [c] { client_main(c); }, false);
}
// whole = the client stayed until the server ended the stream
void judge_client(Net& w, Client& c, unsigned idx, uint64_t settled, bool to_end) {
    if (c.refused) return;
    bool cut = net_refused_data(c.h);       // the stream may end where the system refused to take data, but must not go on after a gap
    if (cut) probe("the system refused data for a client");
    Decoder d; std::vector<DEv> ev; size_t used = 0, nm = 0;
    d.decode(c.got, ev, &used);
    fold(hash_bytes(c.got));
    if (!d.err.empty()) fail("malformed-stream", "client %u: %s", idx, d.err.c_str());
    if (c.gave_up || cut) { // prefix only
        if (ev.empty()) return;
        // when the whole metadata arrived it must be right, and what follows must be a run
        bool full = false; for (auto& e : ev) if (e.name == "HT_SystemInfoEvent") full = true;
        if (full) { std::string s = check_metadata(ev, d, user_names, &nm); if (!s.empty()) fail("bad-metadata", "client %u: %s", idx, s.c_str()); }
        else { for (auto& e : ev) { uint32_t t; if (e.klass != 2 && e.klass != 3 && e.klass != 0) fail("bad-metadata", "client %u got %s before the end of the metadata", idx, show(e).c_str()); (void)t; } return; }
    } else {
        if (c.got.empty() && c.rst) return;                       // never accepted
        if (!c.eof) fail("no-eof", "client %u did not see a clean end of stream (reset) after %zu bytes", idx, c.got.size());
        if (c.got.empty() && c.nodata_ok) return;
        if (used != c.got.size()) fail("torn-stream", "client %u: the stream ends inside an event (%zu of %zu bytes decoded)", idx, used, c.got.size());
        std::string s = check_metadata(ev, d, user_names, &nm);
        if (!s.empty()) fail("bad-metadata", "client %u: %s", idx, s.c_str());
    }
    std::map<unsigned, std::vector<uint32_t>> lanes, got;
    for (auto& e : w.led.evs) lanes[tag_lane(e.first)].push_back(e.first);
    for (size_t i = nm; i < ev.size(); i++) {
        uint32_t t;
        if (!ev_tag(ev[i], &t) || !w.led.evs.count(t)) fail("phantom-event", "client %u got %s, which nobody pushed", idx, show(ev[i]).c_str());
        std::string s = check_ev(ev[i], w.led.evs[t]);
        if (!s.empty()) fail("content-mismatch", "client %u: %s", idx, s.c_str());
        got[tag_lane(t)].push_back(t);
    }
    for (auto& l : lanes) {
        auto& g = got[l.first];
        auto at = g.empty() ? l.second.end() : std::find(l.second.begin(), l.second.end(), g[0]);
        bool run = g.empty() || (size_t)(l.second.end() - at) >= g.size();
        if (run) for (size_t i = 0; i < g.size(); i++) if (*(at + i) != g[i]) run = false;
        if (!run) { std::string s; for (uint32_t t : g) s += std::to_string(tag_seq(t)) + " "; fail("gap", "client %u got events %sof producer %u: not a contiguous run", idx, s.c_str(), l.first); }
        if (c.gave_up || cut || !to_end) continue;
        if (!g.empty() && g.back() != l.second.back()) fail("lost-tail", "client %u: events of producer %u stop at #%u of %u", idx, l.first, tag_seq(g.back()), tag_seq(l.second.back()));
        if (c.setup_done) for (uint32_t t : l.second) if (w.push_start[t] > settled && std::find(g.begin(), g.end(), t) == g.end())
            fail("lost-event", "client %u never got event %u/%u, pushed after its connection was set up", idx, l.first, tag_seq(t));
    }
    size_t ne = ev.size() - nm; if (ne) probe("client received events");
}
void stop_listener(Net& w, bool by_destroy) {
    if (by_destroy && w.topo == 0) { { Sut s; ht_timeline_destroy(w.main_tl); } w.main_tl = nullptr; }
    else if (by_destroy && w.topo == 1) { { Sut s; ht_timeline_destroy(w.main_tl); } w.main_tl = nullptr; lib_deinit(); }
    else { Sut s; ht_tcp_listener_stop(w.l); }
}

// ---------------------------------------------------------------- C03
void stream(bool faults) {
    Net w; size_t fb; setup(w, &fb);
    if (faults) {
        enable_fault(F_SHORT_SEND, 1, 3); enable_fault(F_ACCEPT_EINTR, 1, 10); enable_fault(F_ACCEPT_EMFILE, 1, 10);
        if (knob("eintr", 0, 1)) enable_fault(F_SEND_EINTR, 1, 12);
        if (knob("nobufs", 0, 2) == 2) enable_fault(F_SEND_NOBUFS, 1, 20);
    }
    if (knob("early_client", 0, 3) == 0) add_client(w, B_GOOD, 0, 0, true);
    start_listener(w, fb);
    unsigned nt = (unsigned)knob("threads", 1, 3), n = (unsigned)knob("events", 1, 16), nc = (unsigned)knob("clients", 1, 4), nc2 = (unsigned)knob("late_clients", 0, 2);
    bool pace = knob("pace", 0, 1);
    if (large_run(500)) { n = (unsigned)pick("many", {300, 3000}); nt = 1; nc = 1; w.maxstr = 10; net_set_sndbuf(100000); if (knob("long_strings", 0, 1)) { n = 6; w.maxstr = 100000; } }
    else if (knob("crowd", 0, 39) == 39) { nc = (unsigned)knob("many_clients", 8, 30); nc2 = nc2 * 6; n = std::min(n, 5u); nt = 1; net_set_sndbuf(65536); set_coarse(); probe("many clients"); }
    for (unsigned i = 0; i < nc; i++) { std::string k = "c" + std::to_string(i); add_client(w, knob((k + "_slow").c_str(), 0, 1) ? B_SLOW : B_GOOD, pick((k + "_at").c_str(), {0, 0, 500, 2000, 8000, 20000}), 0); }
    auto th = producers(w, nt, n, 0, pace);
    for (int t : th) join(t);
    sleep_ns(10000000000ull);                 // everybody idle: connections are set up
    uint64_t settled = global_steps();
    for (auto& c : w.cl) if (c->h >= 0) c->setup_done = true; else fail("not-served", "a client could not connect to the running server");
    for (unsigned i = 0; i < nc2; i++) add_client(w, B_GOOD, 0, 0);
    th = producers(w, nt, n / 2 + 1, n, pace);
    for (int t : th) join(t);
    { Sut s; ht_timeline_flush(w.main_tl); }
    sleep_ns(10000000000ull);
    stop_listener(w, knob("by_destroy", 0, 1));
    for (auto& c : w.cl) join(c->tid);
    unsigned i = 0;
    for (auto& c : w.cl) { judge_client(w, *c, i++, settled, true); if (!faults && c->rst) fail("no-eof", "client %u was reset", i - 1); }
    nontrivial();
    note("topology=%d threads=%u events=%u clients=%u+%u tcp_buffer=%zu capacity=%zu serialize=%d", w.topo, nt, n, nc, nc2, fb, w.cap, w.ser);
}
void s_plain() { stream(false); }
void s_faulty() { stream(true); }
Reg r1("C03", "tcp-stream", s_plain, 3);
Reg r2("C03", "tcp-stream-faulty", s_faulty, 2);

// ---------------------------------------------------------------- C04
void hostile() {
    Net w; size_t fb; setup(w, &fb);
    bool faults = knob("syscall_faults", 0, 1);
    if (faults) { enable_fault(F_SHORT_SEND, 1, 4); enable_fault(F_ACCEPT_EINTR, 1, 8); enable_fault(F_ACCEPT_ABORT, 1, 12); enable_fault(F_ACCEPT_EMFILE, 1, 8); if (knob("rst", 0, 1)) enable_fault(F_SEND_RESET, 1, 80); if (knob("nobufs", 0, 2) == 2) enable_fault(F_SEND_NOBUFS, 1, 30); }
    int appfd = app_fd_open();
    if (knob("early_client", 0, 5) == 0) add_client(w, B_BYE, 0, 0, true);
    start_listener(w, fb);
    unsigned nt = (unsigned)knob("threads", 1, 3), n = (unsigned)knob("events", 2, 16), nb = (unsigned)knob("bad_clients", 1, 4), ng = (unsigned)knob("good_clients", 0, 2);
    if (knob("crowd", 0, 39) == 39) { nb = (unsigned)knob("many_bad", 8, 24); ng *= 3; net_set_sndbuf(65536); set_coarse(); probe("many clients"); }
    bool stalled = false;
    for (unsigned i = 0; i < ng; i++) add_client(w, B_GOOD, pick(("g" + std::to_string(i)).c_str(), {0, 1000, 5000}), 0);
    for (unsigned i = 0; i < nb; i++) {
        std::string k = "b" + std::to_string(i);
        Behave b = (Behave)pick((k + "_kind").c_str(), {B_CLOSE, B_RESET, B_BYE, B_CLOSE, B_RESET, B_STALL, B_HALF});
        uint64_t q = pick((k + "_quit").c_str(), {0, 1, 20, 500, 2000, 2600, 2700, 2800, 3000, 3500});
        if (b == B_STALL) stalled = true;
        add_client(w, b, pick((k + "_at").c_str(), {0, 0, 500, 2000, 8000}), q);
    }
    auto th = producers(w, nt, n, 0, true);
    if (stalled) { sleep_ns(5000000000ull); for (auto& c : w.cl) c->release = true; }     // a stalled client eventually goes away
    for (int t : th) join(t);
    sleep_ns(10000000000ull);
    // clients are gone, faults stop: the server must work again
    disable_faults();
    for (auto& c : w.cl) c->release = true;
    sleep_ns(1000000000ull);
    for (auto& c : w.cl) if (c->h >= 0 && !c->gave_up && (c->b == B_CLOSE || c->b == B_RESET || c->b == B_STALL)) { c->gave_up = true; note_fault(c->b == B_CLOSE ? F_PEER_CLOSE : F_PEER_RESET); if (c->b == B_CLOSE) net_close(c->h); else net_reset(c->h); }
    sleep_ns(1000000000ull);
    uint64_t settled0 = global_steps();
    if (!faults) for (auto& c : w.cl) if (c->b == B_GOOD || c->b == B_HALF) { if (c->h < 0) fail("not-served", "a well-behaved client was refused"); c->setup_done = true; }
    add_client(w, B_GOOD, 0, 0); Client* late = w.cl.back().get();
    sleep_ns(10000000000ull);
    if (late->h < 0) fail("not-served", "the server no longer accepts clients");
    uint64_t settled = global_steps(); late->setup_done = true;
    th = producers(w, 1, 4, n, false);
    for (int t : th) join(t);
    { Sut s; ht_timeline_flush(w.main_tl); }
    // two more small events: a write to every dead client
    th = producers(w, 1, 2, n + 4, false);
    for (int t : th) join(t);
    sleep_ns(10000000000ull);
    if (fb <= 20 && w.cap <= 20 && w.led.evs.count(mk_tag(1, n + 5)) && w.led.evs.count(mk_tag(1, n + 4)) && w.led.evs.count(mk_tag(1, n + 3))) {     // data has certainly been written since every client left
        int live = 0; for (auto& c : w.cl) if (c->h >= 0 && !c->gave_up && !c->rst && !c->eof) live++;
        int open = net_open_sut_fds();
        if (open > live + 1) fail("descriptor-leak", "%d descriptors open with %d connected clients and one listening socket", open, live);
    }
    stop_listener(w, knob("by_destroy", 0, 1));
    for (auto& c : w.cl) join(c->tid);
    unsigned i = 0;
    for (auto& c : w.cl) { if (faults && c.get() != late && !c->gave_up && !c->eof) { c->gave_up = true; } judge_client(w, *c, i++, c.get() == late ? settled : settled0, true); }
    if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after stop", net_open_sut_fds());
    if (!app_fd_intact(appfd)) fail("foreign-descriptor", "a descriptor of the application was written to or shut down");
    if (net_bad_closes()) fail("bad-close", "a descriptor was used after close or closed twice");
    nontrivial();
    note("topology=%d threads=%u events=%u bad=%u good=%u+1", w.topo, nt, n, nb, ng);
}
Reg r3("C04", "hostile-clients", hostile, 1);

// ---------------------------------------------------------------- C06
void stopping() {
    Net w; size_t fb; setup(w, &fb);
    if (w.topo == 2 && knob("no_global", 0, 1)) w.topo = 2;
    int appfd = app_fd_open();
    bool faults = knob("faults", 0, 1);
    if (faults) { enable_fault(F_SHORT_SEND, 1, 4); enable_fault(F_ACCEPT_EINTR, 1, 8); if (knob("nobufs", 0, 2) == 2) enable_fault(F_SEND_NOBUFS, 1, 30); }
    if (knob("early_client", 0, 5) == 0) add_client(w, B_GOOD, 0, 0, true);
    start_listener(w, fb);
    unsigned nt = (unsigned)knob("threads", 0, 3), n = (unsigned)knob("events", 1, 16), nc = (unsigned)knob("clients", 0, 3), ns = (unsigned)knob("stops", 1, 3);
    uint64_t stop_at = pick("stop_at", {0, 100, 1000, 5000, 20000});
    bool again = knob("again", 0, 1), destroy = knob("destroy", 0, 1);
    for (unsigned i = 0; i < nc; i++) add_client(w, B_GOOD, pick(("c" + std::to_string(i) + "_at").c_str(), {0, 0, 500, 2000}), 0);
    auto th = producers(w, nt, n, 0, true);
    std::vector<int> st; unsigned returned = 0; uint64_t sends_at_return = 0; uint64_t stop_begin = ~0ull;
    for (unsigned i = 0; i < ns; i++) st.push_back(spawn("stopper", [&, i] {
        if (stop_at) sleep_ns(stop_at + i * (stop_at & 1 ? 100 : 0));
        if (global_steps() < stop_begin) stop_begin = global_steps();
        { Sut s; ht_tcp_listener_stop(w.l); }
        // whichever stop returns first: everything is released
        if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after stop returned", net_open_sut_fds());
        if (net_port_listening(PORT)) fail("port-open", "the port is still open after stop returned");
        if (++returned == ns) sends_at_return = net_sut_sends();
    }));
    for (int t : st) join(t);
    for (auto& c : w.cl) c->release = true;
    for (int t : th) join(t);
    if (net_sut_sends() != sends_at_return) fail("sent-after-stop", "data was sent after stop had returned");
    if (again) { Sut s; ht_tcp_listener_stop(w.l); }
    for (auto& c : w.cl) join(c->tid);
    // Everything handed over before stop began reaches clients as a contiguous run; later events may be missing
    unsigned i = 0;
    for (auto& c : w.cl) { c->nodata_ok = true; judge_client(w, *c, i++, ~0ull, false); }
    // a second listener can take over the port
    HT_TCPListener* l2 = nullptr; HT_ErrorCode e = HT_ERR_UNKNOWN; disable_faults();
    { Sut s; l2 = ht_tcp_listener_create(PORT, 64, &e); }
    if (!l2) fail("port-not-reusable", "the port cannot be reused after stop (error %d)", e);
    bool second = knob("client2", 0, 1);
    if (second) { add_client(w, B_GOOD, 0, 0); sleep_ns(1000000000); if (w.cl.back()->h < 0) fail("not-served", "second listener does not accept"); }
    { Sut s; ht_tcp_listener_destroy(l2); }
    for (auto& c : w.cl) join(c->tid);
    if (second) { Client& c = *w.cl.back(); Decoder d; std::vector<DEv> ev; size_t used, nm; d.decode(c.got, ev, &used); std::string s = d.err.empty() ? check_metadata(ev, d, user_names, &nm) : d.err; if (!s.empty() || used != c.got.size() || ev.size() != nm) fail("bad-metadata", "client of the second listener: %s", s.c_str()); }
    if (destroy) { if (w.topo == 0) { Sut s; ht_timeline_destroy(w.main_tl); } else if (w.topo == 1) { { Sut s; ht_timeline_destroy(w.main_tl); } lib_deinit(); } }
    if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open at the end", net_open_sut_fds());
    if (!app_fd_intact(appfd)) fail("foreign-descriptor", "a descriptor of the application was touched");
    if (net_bad_closes()) fail("bad-close", "a descriptor was used after close or closed twice");
    nontrivial();
    note("topology=%d threads=%u events=%u clients=%u stops=%u stop_at=%llu", w.topo, nt, n, nc, ns, (unsigned long long)stop_at);
}
Reg r4("C06", "stop-anytime", stopping, 3);

// events handed over before stop reach the settled clients, then end of stream
void graceful() {
    Net w; size_t fb; setup(w, &fb);
    start_listener(w, fb);
    unsigned nc = (unsigned)knob("clients", 1, 3), n = (unsigned)knob("events", 1, 12);
    static unsigned connected; static HT_TCPListener* told; connected = 0;
    bool cb = knob("callback", 0, 1);
    if (cb) { Sut s; ht_tcp_listener_set_on_client_connected_callback(w.l, [](int fd, void* ud) { Har h; if (ud != &connected) fail("bad-callback-data", "client-connected callback got the wrong user data"); connected++; sim::yield(); }, &connected); }
    for (unsigned i = 0; i < nc; i++) add_client(w, B_GOOD, 0, 0);
    sleep_ns(1000000000);
    if (cb && connected != nc) fail("callback-count", "client-connected callback ran %u times for %u clients", connected, nc);
    uint64_t settled = global_steps();
    for (auto& c : w.cl) { if (c->h < 0) fail("not-served", "client refused"); c->setup_done = true; }
    auto th = producers(w, 1, n, 0, false); for (int t : th) join(t);
    { Sut s; ht_timeline_flush(w.main_tl); ht_tcp_listener_stop(w.l); }
    for (auto& c : w.cl) join(c->tid);
    unsigned i = 0; for (auto& c : w.cl) judge_client(w, *c, i++, settled, true);
    th = producers(w, 1, 2, n, false); for (int t : th) join(t);      // pushing on is harmless
    { Sut s; ht_tcp_listener_stop(w.l); }
    nontrivial(); note("clients=%u events=%u tcp_buffer=%zu", nc, n, fb);
}
Reg r5("C06", "graceful-stop", graceful, 1);

// starting fails: error reported, nothing left behind, a later start works
void start_fails() {
    lib_init(-1, true); stdin_closed();
    HT_ErrorCode e; HT_Timeline* t; { Sut s; t = ht_timeline_create(64, HT_TRUE, HT_TRUE, nullptr, &e); }
    int appfd = app_fd_open();
    uint64_t b0 = heap_live_sut_blocks();
    FaultKind k = (FaultKind)pick("which", {F_SOCKET_FAIL, F_SETSOCKOPT_FAIL, F_BIND_FAIL, F_LISTEN_FAIL, F_THREAD_FAIL});
    unsigned rounds = (unsigned)knob("rounds", 1, 3); bool reg = knob("register", 0, 1), inuse = knob("port_in_use", 0, 1);
    HT_TCPListener* l0 = nullptr; if (inuse) { Sut s; l0 = ht_tcp_listener_create(PORT, 32, &e); if (!l0) fail("create-failed", "first listener"); }
    int base = net_open_sut_fds(); uint64_t b1 = heap_live_sut_blocks();
    if (!inuse) enable_fault(k, 1, 1);
    for (unsigned i = 0; i < rounds; i++) {
        e = HT_ERR_OK; HT_TCPListener* l;
        { Sut s; l = reg ? ht_tcp_listener_register(t, PORT, 32, &e) : ht_tcp_listener_create(PORT, 32, &e); }
        if (l) fail("start-not-failed", "the listener claims to be running although the socket set-up failed");
        if (e == HT_ERR_OK) fail("no-error", "start failed without an error code");
        if (net_open_sut_fds() != base) fail("descriptor-leak", "failed start left %d descriptors open", net_open_sut_fds() - base);
    }
    if (heap_live_sut_blocks() != b1) fail("memory-leak", "failed starts left %lld blocks allocated", (long long)(heap_live_sut_blocks() - b1));
    { Sut s; user_push(t, UEv()); ht_timeline_flush(t); }
    disable_faults();
    if (l0) { Sut s; ht_tcp_listener_destroy(l0); }
    HT_TCPListener* l; { Sut s; l = ht_tcp_listener_create(PORT, 32, &e); }
    if (!l) fail("no-recovery", "a later start fails too (error %d)", e);
    { Sut s; ht_tcp_listener_destroy(l); ht_timeline_destroy(t); }
    if (net_open_sut_fds()) fail("descriptor-leak", "descriptors left");
    if (!app_fd_intact(appfd) || net_bad_closes()) fail("bad-close", "a descriptor that is not the listener's was closed or used");
    (void)b0;
    nontrivial(); note("failing=%d rounds=%u", (int)k, rounds);
}
Reg r6("C06", "start-fails", start_fails, 1);
}
