// C05: stop/flush/destroy of the file listener at any time.  C07: crash and disk failure.
#include "realparse.h"
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
const char* PATH = "/sim/trace.htdump";
struct W {
    Ledger led; std::map<uint32_t, uint64_t> handed;       // tag -> step at which it was certainly handed to the listener
    int topo; bool ser; size_t cap; unsigned km; size_t maxstr; unsigned nt, n;
    HT_Timeline* main_tl = nullptr; HT_FileDumpListener* fl = nullptr;
    size_t fb; bool dbl = true;
};
void mark(W& w, unsigned lane, unsigned upto, uint64_t step) { for (unsigned i = 0; i <= upto; i++) { uint32_t t = mk_tag(lane, i); if (w.led.evs.count(t) && !w.handed.count(t)) w.handed[t] = step; } }
struct Decoded { Decoder d; std::vector<DEv> ev; size_t used = 0, nm = 0; std::set<uint32_t> tags; bool meta = false; };
// decodes the file: well-formed, metadata first, per producer a gapless run from its first event.
void decode_prefix(W& w, const std::string& b, Decoded& o, bool must_be_whole, const char* when) {
    o.d.decode(b, o.ev, &o.used);
    if (!o.d.err.empty()) fail("malformed-file", "%s: %s", when, o.d.err.c_str());
    if (must_be_whole && o.used != b.size()) fail("torn-file", "%s: the file ends inside an event (%zu of %zu bytes decoded)", when, o.used, b.size());
    for (auto& e : o.ev) if (e.name == "HT_SystemInfoEvent") o.meta = true;
    if (!o.meta) {
        if (must_be_whole) fail("bad-metadata", "%s: metadata incomplete", when);
        for (auto& e : o.ev) if (e.klass != 0 && e.klass != 2 && e.klass != 3) fail("bad-metadata", "%s: %s before the end of the metadata", when, show(e).c_str());
        return;
    }
    std::string s = check_metadata(o.ev, o.d, user_names, &o.nm);
    if (!s.empty()) fail("bad-metadata", "%s: %s", when, s.c_str());
    s = check_all(o.ev, o.nm, w.led, {}, true);
    if (!s.empty()) fail("not-a-prefix", "%s: %s", when, s.c_str());
    for (size_t i = o.nm; i < o.ev.size(); i++) { uint32_t t; if (ev_tag(o.ev[i], &t)) o.tags.insert(t); }
}
void must_hold(W& w, const Decoded& d, uint64_t before, const char* cls, const char* when) {
    for (auto& h : w.handed) if (h.second < before && !d.tags.count(h.first)) fail(cls, "%s: event %u/%u was handed over before, but is not in the file", when, tag_lane(h.first), tag_seq(h.first));
}
void producer(W& w, HT_Timeline* t, unsigned lane) {
    for (unsigned i = 0; i < w.n; i++) {
        Rng r(1);
        if (!op_keep(&r)) continue;
        UEv& e = w.led.add(gen_ev(r, mk_tag(lane, i), w.km, w.maxstr, false));
        { Sut s; user_push(t, e); }
        if (w.cap == 0) mark(w, lane, i, global_steps());
        if (r.chance(1, 4)) { { Sut s; ht_timeline_flush(t); } mark(w, lane, i, global_steps()); }
        if (r.chance(1, 5)) sleep_ns(r.below(2000));
    }
}
void setup(W& w) {
    set_stdio_buffer(pick("stdio_buf", {0, 1, 2, 16, 64, 512}));
    set_clock_step(pick("clock_step", {0, 1, 1000}));
    w.topo = (int)knob("topology", 0, 2); w.ser = w.topo == 2 ? true : knob("serialize", 0, 1);
    w.cap = pick("tl_capacity", {0, 0, 0, 20, 64, 128, 512, 4096}); w.fb = pick("file_buffer", {0, 1, 20, 64, 128, 1024, 4096, 65536});
    if (!w.ser && w.fb == 0) w.fb = 1;
    w.km = w.dbl ? 0x7f : 0x3f; w.maxstr = pick("maxstr", {10, 40, 130, 300}); w.nt = (unsigned)knob("threads", 1, 3); w.n = (unsigned)knob("events", 1, 16);
    if (large_run(800)) { w.n = (unsigned)pick("many", {300, 3000}); w.nt = 1 + w.nt % 2; if (knob("long_strings", 0, 1)) { w.n = 8; w.maxstr = 100000; } }
    lib_init((long)w.cap, w.dbl);
    HT_ErrorCode e = HT_ERR_OK;
    if (w.topo == 0) scarce([&] { Sut s; w.main_tl = ht_timeline_create(w.cap, HT_TRUE, w.ser ? HT_TRUE : HT_FALSE, nullptr, &e); return w.main_tl != nullptr; });
    if (w.topo == 1) scarce([&] { Sut s; w.main_tl = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "f", &e); return w.main_tl != nullptr; });
    if (w.topo == 2) { Sut s; w.main_tl = ht_global_timeline_get(); }
    if (!w.main_tl) fail("create-failed", "timeline");
}
std::vector<int> producers(W& w) {
    std::vector<int> th;
    for (unsigned i = 0; i < w.nt; i++) th.push_back(spawn("producer", [=, &w] {
        HT_Timeline* t = w.main_tl; HT_ErrorCode e;
        if (w.topo == 1) { Sut s; t = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, "f", &e); }
        if (w.topo == 2) { Sut s; t = ht_global_timeline_get(); }
        producer(w, t, i + 1);
        if (w.topo == 1) { Sut s; ht_timeline_destroy(t); } else { Sut s; ht_timeline_flush(t); }
        if (w.n) mark(w, i + 1, w.n - 1, global_steps());
    }));
    return th;
}

// ---------------------------------------------------------------- C05
void stop_anytime(bool short_io) {
    W w; setup(w);
    if (short_io) enable_fault(F_WRITE_SHORT, 1, 4);
    HT_ErrorCode e; scarce([&] { Sut s; w.fl = ht_file_dump_listener_register(w.main_tl, PATH, w.fb, &e); return w.fl != nullptr; });
    if (!w.fl) fail("create-failed", "file listener %d", e);
    unsigned ns = (unsigned)knob("stops", 1, 3), nf = (unsigned)knob("flushers", 0, 2), fk = (unsigned)knob("flushes", 1, 4);
    uint64_t stop_at = pick("stop_at", {0, 0, 100, 500, 2000, 10000}), writes_at_stop = ~0ull, first_stop = ~0ull; bool stopped = false; std::string final_bytes;
    auto th = producers(w);
    for (unsigned i = 0; i < nf; i++) th.push_back(spawn("flusher", [&, i] {
        for (unsigned k = 0; k < fk; k++) {
            bool hard = knob(("hard" + std::to_string(i) + std::to_string(k)).c_str(), 0, 1);
            uint64_t b = global_steps(); HT_ErrorCode r; bool was = stopped;
            { Sut s; r = ht_file_dump_listener_flush(w.fl, hard ? HT_TRUE : HT_FALSE); }
            if (r != HT_ERR_OK) fail("flush-error", "flush returned %d on a healthy disk", r);
            if (hard && !was) { Decoded d; decode_prefix(w, disk_get(PATH), d, false, "after a blocking flush"); if (first_stop == ~0ull) must_hold(w, d, b, "flush-lost", "after a blocking flush"); }
            sleep_ns(knob(("fs" + std::to_string(i) + std::to_string(k)).c_str(), 0, 1500));
        }
    }));
    std::vector<int> st;
    for (unsigned i = 0; i < ns; i++) st.push_back(spawn("stopper", [&, i] {
        if (stop_at) sleep_ns(stop_at);
        if (first_stop == ~0ull) first_stop = global_steps();
        { Sut s; ht_file_dump_listener_stop(w.fl); }
        std::string now_bytes = disk_get(PATH);
        if (disk_open_handles()) fail("not-closed", "the file is still open after stop returned");
        if (stopped && now_bytes != final_bytes) fail("written-after-stop", "the file changed after a stop had returned");
        Decoded d; decode_prefix(w, now_bytes, d, true, "after stop");
        must_hold(w, d, first_stop, "stop-lost", "after stop");
        if (!stopped) { stopped = true; final_bytes = now_bytes; writes_at_stop = disk_writes(PATH); }
    }));
    for (int t : st) join(t);
    for (int t : th) join(t);
    if (knob("again", 0, 1)) { Sut s; ht_file_dump_listener_stop(w.fl); ht_file_dump_listener_flush(w.fl, HT_TRUE); }
    if (w.topo == 0) { Sut s; ht_timeline_destroy(w.main_tl); } else if (w.topo == 1) { { Sut s; ht_timeline_destroy(w.main_tl); } lib_deinit(); }
    if (disk_get(PATH) != final_bytes || disk_writes(PATH) != writes_at_stop) fail("written-after-stop", "the file changed after stop had returned");
    if (disk_open_handles()) fail("not-closed", "file handles left open");
    fold(hash_bytes(final_bytes));
    nontrivial(); note("topology=%d threads=%u events=%u stops=%u flushers=%u stop_at=%llu file=%zu bytes", w.topo, w.nt, w.n, ns, nf, (unsigned long long)stop_at, final_bytes.size());
}
void st_plain() { stop_anytime(false); }
void st_short() { stop_anytime(true); }
Reg r1("C05", "stop-anytime", st_plain, 3);
Reg r2("C05", "stop-anytime-short-io", st_short, 1);

// several listeners; some stopped early, some closed by destroying the timeline; the listener object used directly
void lifecycles() {
    W w; setup(w); if (w.topo == 2) w.topo = 0, w.ser = true;
    HT_ErrorCode e; HT_Timeline* t; { Sut s; t = ht_timeline_create(w.cap, HT_FALSE, w.ser ? HT_TRUE : HT_FALSE, nullptr, &e); }
    unsigned nl = (unsigned)knob("listeners", 1, 4), seq = 0, steps = (unsigned)knob("steps", 1, 12);
    struct L { HT_FileDumpListener* l; std::string p; unsigned from, to; bool stopped, manual; std::string fin; };
    std::vector<L> ls;
    auto fold_all = [&] { { Sut s; ht_timeline_flush(t); } };
    for (unsigned i = 0; i < nl; i++) {
        L l; l.p = "/sim/l" + std::to_string(i); l.from = 0; l.to = ~0u; l.stopped = false; l.manual = knob(("man" + std::to_string(i)).c_str(), 0, 1);
        size_t fb = pick(("fb" + std::to_string(i)).c_str(), {1, 20, 64, 512, 4096});
        if (l.manual) { Sut s; l.l = ht_file_dump_listener_create(l.p.c_str(), fb, &e); if (l.l && ht_timeline_register_listener(t, ht_file_dump_listener_callback, l.l) != HT_ERR_OK) fail("register-failed", "listener"); }
        else { Sut s; l.l = ht_file_dump_listener_register(t, l.p.c_str(), fb, &e); }
        if (!l.l) fail("create-failed", "file listener %d", e);
        ls.push_back(l);
    }
    for (unsigned k = 0; k < steps; k++) {
        Rng r(1); if (!op_keep(&r)) continue;
        switch (r.below(5)) {
        case 0: case 1: case 2: { unsigned c = 1 + (unsigned)r.below(4); while (c--) { UEv& ev = w.led.add(gen_ev(r, mk_tag(1, seq++), w.km, w.maxstr, false)); Sut s; user_push(t, ev); } break; }
        case 3: { L& l = ls[r.below(nl)]; bool hard = r.chance(1, 2); HT_ErrorCode q; { Sut s; q = ht_file_dump_listener_flush(l.l, hard ? HT_TRUE : HT_FALSE); } if (q != HT_ERR_OK) fail("flush-error", "flush returned %d", q); break; }
        default: { L& l = ls[r.below(nl)]; fold_all(); { Sut s; ht_file_dump_listener_stop(l.l); } if (!l.stopped) { l.stopped = true; l.to = seq; l.fin = disk_get(l.p); } break; }
        }
    }
    bool flush_first = knob("flush_first", 0, 1);
    if (flush_first) fold_all();
    for (auto& l : ls) if (l.manual && flush_first) { /* stays registered: stop, never destroy before the timeline */ { Sut s; ht_file_dump_listener_stop(l.l); } if (!l.stopped) { l.stopped = true; l.to = seq; l.fin = disk_get(l.p); } }
    { Sut s; ht_timeline_destroy(t); }
    for (auto& l : ls) if (l.manual) { Sut s; ht_file_dump_listener_destroy(l.l); }
    if (disk_open_handles()) fail("not-closed", "%d file handles left open", disk_open_handles());
    for (auto& l : ls) {
        std::string b = disk_get(l.p);
        if (l.stopped && b != l.fin) fail("written-after-stop", "%s changed after its stop", l.p.c_str());
        Decoded d; decode_prefix(w, b, d, true, l.p.c_str());
        unsigned want = l.to == ~0u ? seq : l.to;
        for (unsigned i = 0; i < want; i++) if (w.led.evs.count(mk_tag(1, i)) && !d.tags.count(mk_tag(1, i))) fail("stop-lost", "%s: event %u of %u missing", l.p.c_str(), i, want);
        if (d.tags.size() > want) fail("written-after-stop", "%s has %zu events, it was stopped after %u", l.p.c_str(), d.tags.size(), want);
    }
    nontrivial(); note("listeners=%u steps=%u events=%u", nl, steps, seq);
}
Reg r3("C05", "lifecycles", lifecycles, 1);

// ---------------------------------------------------------------- C07
void recover(W& w, const std::string& b, Decoded& d) {
    disk_put("/sim/copy.htdump", b);
    for (int flat = 0; flat < 2; flat++) {
        std::vector<DEv> pv;
        if (!parse_file("/sim/copy.htdump", flat, pv)) fail("parser-open", "the parser cannot open the dump");
        if (pv.size() != d.ev.size()) fail("parser-recovery", "the file holds %zu whole events, the parser (flat=%d) recovered %zu", d.ev.size(), flat, pv.size());
        for (size_t i = 0; i < pv.size(); i++) {
            bool same = pv[i].name == d.ev[i].name && pv[i].v.size() == d.ev[i].v.size();
            if (same) for (auto& f : d.ev[i].v) { auto it = pv[i].v.find(f.first); if (it == pv[i].v.end() || it->second.u != f.second.u || it->second.s != f.second.s) same = false; }
            if (!same) fail("parser-recovery", "event %zu is %s in the file, the parser says %s", i, show(d.ev[i]).c_str(), show(pv[i]).c_str());
        }
    }
}
struct Dur { uint64_t begin; bool ok; };
void crash_run(bool disk_faults, bool with_crash) {
    W w;
    bool real = knob("real_parser", 0, 1);
    if (disk_faults) {
        int kind = (int)knob("disk", 0, 3);
        if (kind == 0) enable_fault(F_WRITE_EIO, 1, (unsigned)pick("rate", {6, 20, 60}));
        if (kind == 1) enable_fault(F_WRITE_ENOSPC, 1, (unsigned)pick("rate", {6, 20, 60}));
        if (kind == 2) disk_capacity(knob("space", 0, 6000));
        if (kind == 3) { enable_fault(F_WRITE_EIO, 1, 30); enable_fault(F_WRITE_SHORT, 1, 3); }
    } else enable_fault(F_WRITE_SHORT, knob("shorts", 0, 1) ? 1 : 0, 3);
    std::vector<Dur> durs; int dead = 0;
    auto body = [&] {
        w.dbl = !real; setup(w);
        HT_ErrorCode e; { Sut s; w.fl = ht_file_dump_listener_register(w.main_tl, PATH, w.fb, &e); }
        if (!w.fl) fail("create-failed", "file listener %d", e);
        unsigned nf = (unsigned)knob("flushes", 0, 5);
        auto th = producers(w);
        th.push_back(spawn("flusher", [&, nf] {
            for (unsigned k = 0; k < nf; k++) {
                sleep_ns(knob(("fs" + std::to_string(k)).c_str(), 0, 2500));
                uint64_t b = global_steps(); HT_ErrorCode r;
                { Sut s; r = ht_file_dump_listener_flush(w.fl, HT_TRUE); }
                if (r == HT_ERR_OK) {
                    durs.push_back({b, true});
                    Decoded d; decode_prefix(w, disk_get(PATH), d, false, "after a blocking flush"); must_hold(w, d, b, "flush-lied", "after a blocking flush that reported success");
                } else { probe("flush reported failure"); if (!disk_faults) fail("flush-error", "flush returned %d on a healthy disk", r); }
            }
        }));
        for (int t : th) join(t);
        { Sut s; ht_timeline_flush(w.main_tl); }
        if (knob("stop", 0, 1)) { Sut s; ht_file_dump_listener_stop(w.fl); probe("reached stop"); }
        dead = 1;
    };
    if (with_crash) {
        arm_crash(pick("crash_scale", {3000, 10000, 20000, 40000, 100000}) * knob("crash_pos", 0, 1000) / 1000);
        spawn("app", body, true);
        wait_until([&] { return crashed() || dead; }, "crash");
        if (crashed()) { probe("crashed"); }
    } else body();
    disable_faults();
    if (!disk_has(PATH)) { nontrivial(); return; }
    std::string b = disk_get(PATH);
    fold(hash_bytes(b));
    Decoded d; decode_prefix(w, b, d, false, with_crash ? "after the crash" : "after the disk failure");
    for (auto& x : durs) must_hold(w, d, x.begin, "durability", "after a blocking flush that reported success");
    if (real) recover(w, b, d);
    nontrivial(); note("file %zu bytes, %zu whole events, %zu trailing bytes, crashed=%d", b.size(), d.ev.size(), b.size() - d.used, (int)crashed());
    if (b.size() != d.used) probe("file ends inside an event");
}
void c_crash() { crash_run(false, true); }
void c_disk() { crash_run(true, false); }
void c_both() { crash_run(true, true); }
Reg r4("C07", "crash", c_crash, 2);
Reg r5("C07", "disk-failure", c_disk, 2);
Reg r6("C07", "disk-failure-and-crash", c_both, 1);
}
