// C01: what the application pushes is what the dump file contains.
#include "realparse.h"
#include <deque>
using namespace sim;

namespace {
struct Prod { HT_Timeline* tl; Ledger* led; unsigned lane, n; unsigned kmask; size_t maxstr; bool nulls; HT_FileDumpListener* fl; };

void produce(Prod p) {
    for (unsigned i = 0; i < p.n; i++) {
        Rng r(1);
        if (!op_keep(&r)) continue;
        UEv& e = p.led->add(gen_ev(r, mk_tag(p.lane, i), p.kmask, p.maxstr, p.nulls));
        { Sut s; user_push(p.tl, e); }
        if (r.chance(1, 9)) { Sut s; ht_timeline_flush(p.tl); }
        if (p.fl && r.chance(1, 11)) { Sut s; ht_file_dump_listener_flush(p.fl, r.chance(1, 2) ? HT_TRUE : HT_FALSE); }
    }
}
void judge(const std::string& path, const Ledger& led, bool real) {
    if (!disk_has(path)) fail("file-missing", "the dump file does not exist");
    std::string b = disk_get(path);
    fold(hash_bytes(b));
    Decoder d; std::vector<DEv> ev; size_t used = 0, nm = 0;
    d.decode(b, ev, &used);
    if (!d.err.empty()) fail("malformed-stream", "%s", d.err.c_str());
    if (used != b.size()) fail("truncated-stream", "the closed file ends inside an event (%zu of %zu bytes decoded)", used, b.size());
    std::string s = check_metadata(ev, d, user_names, &nm);
    if (!s.empty()) fail("bad-metadata", "%s", s.c_str());
    s = check_all(ev, nm, led, {});
    if (!s.empty()) fail("content-mismatch", "%s", s.c_str());
    note("file %zu bytes, %zu metadata events, %zu user events; ", b.size(), nm, ev.size() - nm);
    if (!real) return;
    for (int flat = 0; flat < 2; flat++) {
        std::vector<DEv> pv;
        if (!parse_file(path, flat, pv)) fail("parser-open", "the parser cannot open the dump");
        size_t m2 = 0;
        if (pv.size() != ev.size()) fail("parser-mismatch", "stream has %zu events, the parser (flat=%d) delivered %zu", ev.size(), flat, pv.size());
        for (size_t i = 0; i < ev.size(); i++) {
            const DEv &x = ev[i], &y = pv[i];
            bool hdr = flat || i >= nm;        // the nested form of metadata events carries no header
            bool same = x.name == y.name && (!hdr || (x.ts == y.ts && x.id == y.id && x.klass == y.klass)) && x.v.size() == y.v.size();
            if (same) for (auto& f : x.v) { auto it = y.v.find(f.first); if (it == y.v.end() || it->second.is_str != f.second.is_str || it->second.u != f.second.u || it->second.s != f.second.s) same = false; }
            if (!same) fail("parser-mismatch", "event %zu: stream holds %s, parser (flat=%d) says %s", i, show(x).c_str(), flat, show(y).c_str());
        }
        (void)m2;
    }
}

void setup_io(bool faults) {
    set_stdio_buffer(pick("stdio_buf", {0, 1, 2, 16, 64, 512}));
    if (faults) { enable_fault(F_WRITE_SHORT, 1, 4); enable_fault(F_WRITE_EINTR, 0, 1); enable_fault(F_READ_SHORT, 1, 4); }
    set_clock_step(pick("clock_step", {0, 1, 50, 1000, 1000000})); stdin_closed();
}

void run_file(bool faults) {
    setup_io(faults);
    unsigned nt = (unsigned)knob("threads", 1, 4);
    int topo = (int)knob("topology", 0, 3);       // 0 shared timeline, 1 own timelines in a named group, 2 global timeline, 3 own timeline + own file
    bool ser = topo == 2 ? true : knob("serialize", 0, 1);
    size_t cap = pick("tl_capacity", {0, 1, 19, 20, 24, 40, 47, 64, 100, 127, 128, 129, 200, 256, 1024, 4096});
    size_t fb = pick("file_buffer", {0, 1, 7, 20, 48, 64, 128, 200, 1024, 4096});
    if (!ser && fb == 0) fb = 1;
    unsigned n = (unsigned)knob("events", 1, 24);
    bool real = knob("real_parser", 0, 1);
    int large = (int)knob("large", 0, 999) - 997; if (large == 0) large = 2;   // rarely: a long trace, long strings
    unsigned km = real ? 0x3f : 0x7f; size_t maxstr = pick("maxstr", {10, 40, 130, 300});
    if (large == 1) { n = (unsigned)pick("many", {300, 300, 2000, 9000, 34000}); if (n > 9000) nt = 1 + (nt > 2); maxstr = 10; set_coarse(); probe("long trace"); }
    if (large == 2) { maxstr = pick("longstr", {5000, 40000, 140000}); if (fb < 128) fb = 128; set_stdio_buffer(64); set_coarse(); probe("long strings"); }
    bool nulls = knob("null_strings", 0, 1);
    lib_init((long)cap, !real);
    std::string path = "/sim/out.htdump";
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    std::vector<int> th; std::vector<HT_Timeline*> tls; Ledger led[8];
    HT_FileDumpListener* fl = nullptr; std::vector<std::string> paths;
    if (knob("old_file", 0, 3) == 1) {               // an older file of the same name is replaced
        std::string junk(knob("old_size", 1, 9000), 'J'); disk_put(path, junk); for (unsigned i = 0; i < nt; i++) disk_put("/sim/out" + std::to_string(i) + ".htdump", junk); probe("older file of the same name");
    }
    if (topo == 0) {
        HT_Timeline* t; bool ts = nt > 1 || knob("thread_safe", 0, 1); scarce([&] { Sut s; t = ht_timeline_create(cap, ts ? HT_TRUE : HT_FALSE, ser, nullptr, &err); return t != nullptr; });
        if (!t) fail("create-failed", "timeline could not be created: %d", err);
        scarce([&] { Sut s; fl = ht_file_dump_listener_register(t, path.c_str(), fb, &err); return fl != nullptr; });
        if (!fl || err != HT_ERR_OK) fail("create-failed", "file listener could not be created: %d", err);
        tls.push_back(t);
        for (unsigned i = 0; i < nt; i++) th.push_back(spawn("producer", [=, &led] { produce({t, &led[0], i + 1, n, km, maxstr, nulls, fl}); }));
        for (int x : th) join(x);
        { Sut s; ht_timeline_destroy(t); }
        judge(path, led[0], real);
    } else if (topo == 1) {
        bool viadeinit = knob("close_by_deinit", 0, 1);
        for (unsigned i = 0; i < nt; i++) { Sut s; HT_Timeline* t = ht_timeline_create(cap, HT_FALSE, ser, "group", &err); if (!t) fail("create-failed", "timeline %d", err); tls.push_back(t); }
        scarce([&] { Sut s; fl = ht_file_dump_listener_register(tls[0], path.c_str(), fb, &err); return fl != nullptr; });
        if (!fl || err != HT_ERR_OK) fail("create-failed", "file listener could not be created: %d", err);
        for (unsigned i = 0; i < nt; i++) { HT_Timeline* t = tls[i]; th.push_back(spawn("producer", [=, &led] { produce({t, &led[0], i + 1, n, km, maxstr, nulls, fl}); Sut s; ht_timeline_destroy(t); })); }
        for (int x : th) join(x);
        if (viadeinit) lib_deinit(); else { Sut s; ht_file_dump_listener_stop(fl); }
        judge(path, led[0], real);
    } else if (topo == 2) {
        { Sut s; fl = ht_file_dump_listener_register(ht_global_timeline_get(), path.c_str(), fb, &err); }
        if (!fl || err != HT_ERR_OK) fail("create-failed", "file listener could not be created: %d", err);
        for (unsigned i = 0; i < nt; i++) th.push_back(spawn("producer", [=, &led] { HT_Timeline* t; { Sut s; t = ht_global_timeline_get(); } produce({t, &led[0], i + 1, n, km, maxstr, nulls, fl}); }));
        produce({ht_global_timeline_get(), &led[0], 9, n / 2, km, maxstr, nulls, fl});
        { Sut s; ht_timeline_flush(ht_global_timeline_get()); }
        for (int x : th) join(x);
        { Sut s; ht_file_dump_listener_stop(fl); }
        judge(path, led[0], real);
    } else {
        for (unsigned i = 0; i < nt; i++) {
            paths.push_back("/sim/out" + std::to_string(i) + ".htdump");
            std::string p = paths[i];
            th.push_back(spawn("producer", [=, &led] {
                HT_ErrorCode e2; HT_Timeline* t; HT_FileDumpListener* f;
                { Sut s; t = ht_timeline_create(cap, HT_FALSE, ser, nullptr, &e2); }
                if (!t) fail("create-failed", "timeline %d", e2);
                { Sut s; f = ht_file_dump_listener_register(t, p.c_str(), fb, &e2); }
                if (!f) fail("create-failed", "file listener %d", e2);
                produce({t, &led[i], i + 1, n, km, maxstr, nulls, f});
                Sut s; ht_timeline_destroy(t);
            }));
        }
        for (int x : th) join(x);
        for (unsigned i = 0; i < nt; i++) judge(paths[i], led[i], real);
    }
    if (disk_open_handles()) fail("handle-leak", "%d file handles still open after the listeners were stopped", disk_open_handles());
    nontrivial();
    note("threads=%u topology=%d serialize=%d capacity=%zu file_buffer=%zu events=%u", nt, topo, ser, cap, fb, n);
    if (cap == 0) probe("timeline capacity 0");
    if (!ser && fb < 48) probe("unserialised event larger than the file buffer");
}
void run_plain() { run_file(false); }
void run_faulty() { run_file(true); }
Reg r1("C01", "file-roundtrip", run_plain, 3);
Reg r2("C01", "file-roundtrip-short-io", run_faulty, 2);

// Event klasses of every size the product's macros take (1 to 24 own fields) through the writer, the metadata and the parser.
void wide() {
    setup_io(knob("short_io", 0, 1) == 1);
    lib_init((long)pick("tl_capacity", {0, 20, 64, 200, 1024}), false);
    size_t fb = pick("file_buffer", {1, 64, 512, 4096}); HT_ErrorCode err = HT_ERR_UNKNOWN; const std::string path = "/sim/wide.htdump";
    bool ser = knob("serialize", 0, 1); HT_Timeline* t; HT_FileDumpListener* fl;
    std::vector<int> kl; std::map<int, uint32_t> ids;
    for (unsigned i = 0, n = (unsigned)knob("klasses", 1, 4); i < n; i++) { int k = (int)knob("fields", 1, 24); kl.push_back(k); uint32_t id; { Sut s; id = user_wide_register(k); } if (ids.count(k) && ids[k] != id) fail("id-changed", "SimW%d registered again got id %u instead of %u", k, id, ids[k]); ids[k] = id; }
    { Sut s; t = ht_timeline_create(pick("own_capacity", {0, 24, 100, 300, 2000}), HT_FALSE, ser ? HT_TRUE : HT_FALSE, nullptr, &err); }
    if (!t) fail("create-failed", "timeline %d", err);
    { Sut s; fl = ht_file_dump_listener_register(t, path.c_str(), fb, &err); }
    if (!fl) fail("create-failed", "file listener %d", err);
    struct W { int k; std::vector<uint64_t> v; std::vector<std::string> s; };
    std::deque<W> led;                   // (the texts stay valid until the timeline has written them)
    for (unsigned i = 0, n = (unsigned)knob("events", 1, 12); i < n; i++) {
        Rng r(1); if (!op_keep(&r)) continue;
        led.emplace_back(); W& w = led.back(); w.k = kl[r.below((unsigned)kl.size())]; std::vector<UWField> f; user_wide_fields(w.k, f);
        w.v.resize(f.size()); w.s.resize(f.size()); std::vector<const char*> sp(f.size());
        for (size_t j = 0; j < f.size(); j++) { if (f[j].is_str) { w.s[j] = std::string(r.below(20), (char)('a' + j)); sp[j] = w.s[j].c_str(); } else { w.v[j] = r.chance(1, 4) ? ~0ull : r.next(); } }
        w.v[0] = i;
        { Sut s; if (r.chance(1, 2)) user_wide_push_macro(t, w.k, w.v.data(), sp.data()); else user_wide_push_fill(t, w.k, w.v.data(), sp.data()); }
    }
    { Sut s; ht_timeline_destroy(t); }
    std::string b = disk_get(path); Decoder d; std::vector<DEv> ev; size_t used = 0; d.decode(b, ev, &used);
    if (!d.err.empty() || used != b.size()) fail("malformed-stream", "%s after %zu of %zu bytes", d.err.c_str(), used, b.size());
    std::map<uint32_t, std::vector<FieldDef>> fd; std::map<uint32_t, unsigned> cnt;
    for (int way = 0; way < 3; way++) {               // the stream; the parser, flat and nested
        std::vector<DEv> pv;
        if (way == 0) pv = ev; else if (!parse_file(path, way == 1, pv)) fail("parser-open", "the parser cannot open the dump");
        size_t at = 0;
        for (auto& e : pv) {
            if (!way && e.klass == 2) cnt[(uint32_t)e.u("info_klass_id")] = (unsigned)e.u("field_count");
            if (!way && e.klass == 3) fd[(uint32_t)e.u("info_klass_id")].push_back({e.s("field_type"), e.s("field_name"), e.u("size"), (uint8_t)e.u("data_type")});
            if (e.name.compare(0, 4, "SimW")) continue;
            if (at >= led.size()) fail("content-mismatch", "more events than were pushed");
            const W& w = led[at]; std::vector<UWField> f; user_wide_fields(w.k, f);
            if (e.name != "SimW" + std::to_string(w.k)) fail("content-mismatch", "event %zu is %s instead of SimW%d", at, e.name.c_str(), w.k);
            for (size_t j = 0; j < f.size(); j++) {
                auto it = e.v.find(f[j].name);
                if (it == e.v.end()) fail("content-mismatch", "event %zu (%s) has no field %s", at, e.name.c_str(), f[j].name);
                uint64_t m = f[j].size == 8 ? ~0ull : (1ull << (8 * f[j].size)) - 1;
                if (f[j].is_str ? it->second.s != w.s[j] : (it->second.u & m) != (w.v[j] & m)) fail("content-mismatch", "event %zu (%s): field %s is %s", at, e.name.c_str(), f[j].name, show(e).c_str());
            }
            at++;
        }
        if (at != led.size()) fail("content-mismatch", "%zu of %zu events arrived (way %d)", at, led.size(), way);
    }
    for (auto& k : ids) {
        std::vector<UWField> f; user_wide_fields(k.first, f); auto& g = fd[k.second];
        if (cnt[k.second] != f.size() + 1 || g.size() != f.size() + 1) fail("bad-metadata", "SimW%d: %u fields announced, %zu listed, it has %zu", k.first, cnt[k.second], g.size(), f.size() + 1);
        for (size_t j = 0; j < f.size(); j++) if (g[j + 1].name != f[j].name || g[j + 1].type != f[j].type || g[j + 1].size != f[j].size || (g[j + 1].dt == 2) != f[j].is_str) fail("bad-metadata", "SimW%d field %zu described as %s %s (%llu bytes)", k.first, j, g[j + 1].type.c_str(), g[j + 1].name.c_str(), (unsigned long long)g[j + 1].size);
    }
    for (int k : kl) if (k == 24) probe("klass with the most fields");
    fold(hash_bytes(b)); nontrivial();
}
Reg r3("C01", "wide-klasses", wide, 1);
}
