// C17: the command-line client converts traces (file or live) to Chrome JSON and Callgrind.
#include "model.h"
#include "user_trace.h"
#include "json.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <set>
using namespace sim;
int htclient_main(int argc, char** argv);

namespace {
const int PORT = 8765;
int client(std::vector<std::string> a) { a.insert(a.begin(), "hawktracer-converter"); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); int rc; { Sut s; rc = htclient_main((int)a.size(), v.data()); } return rc; }

// ------------------------------------------------------------------------------------------------ what must come out
struct Span { std::string name; uint64_t ts = 0, dur = 0, id = 0; uint64_t tid = 0; std::map<std::string, std::string> args; size_t pos = 0; };
std::string num(const Val& v) { if (v.dt == 3) { uint64_t m = v.size >= 8 ? v.u : v.u & ((1ull << 8 * v.size) - 1); int64_t x = v.size >= 8 ? (int64_t)m : (int64_t)(m << (64 - 8 * v.size)) >> (64 - 8 * v.size); return std::to_string(x); } return std::to_string(v.u); }
std::vector<Span> expected(const std::string& bytes, const std::map<uint64_t, std::string>& mapfile, size_t* n_events = nullptr) {
    Decoder d; std::vector<DEv> ev; size_t used; d.decode(bytes, ev, &used); if (!d.err.empty()) fail("harness", "the input does not decode: %s", d.err.c_str());
    std::map<uint64_t, std::string> map = mapfile; bool known = false; std::vector<Span> out; if (n_events) *n_events = ev.size();
    for (size_t i = 0; i < ev.size(); i++) {
        auto& e = ev[i];
        if (e.name == "HT_EventKlassInfoEvent" && e.s("event_klass_name") == "HT_StringMappingEvent") { known = true; continue; }
        if (!known) continue;
        if (e.name == "HT_StringMappingEvent") { map[e.u("identifier")] = e.s("label"); continue; }
        auto l = e.v.find("label"), n = e.v.find("name"); if (l == e.v.end() && n == e.v.end()) continue;
        Span s; s.pos = i; s.ts = e.ts; s.id = e.id;
        if (l != e.v.end()) { if (l->second.is_str) s.name = l->second.s; else { auto m = map.find(l->second.u); s.name = m == map.end() ? std::to_string(l->second.u) : m->second; } } else s.name = n->second.s;
        if (e.v.count("duration")) s.dur = e.u("duration"); if (e.v.count("thread_id")) s.tid = e.u("thread_id");
        for (auto& f : e.v) if (f.first != "thread_id" && f.first != "label" && f.first != "duration") s.args[f.first] = f.second.is_str ? "s" + f.second.s : "n" + num(f.second);
        out.push_back(s);
    }
    return out;
}
bool us_ok(const std::string& text, uint64_t ns) { size_t dot = text.find('.'); std::string ip = text.substr(0, dot); if (ip.empty() || ip[0] == '-' || ip.size() > 20) return false; uint64_t u = strtoull(ip.c_str(), nullptr, 10), fr = 0; if (dot != std::string::npos) { std::string f = (text.substr(dot + 1) + "000").substr(0, 3); fr = strtoull(f.c_str(), nullptr, 10); } return u == ns / 1000 && (dot == std::string::npos || fr == ns % 1000); }
std::string key(const Span& s) { std::string k = s.name + '\1' + std::to_string(s.ts / 1000) + '\1' + std::to_string(s.dur / 1000) + '\1' + std::to_string(s.tid); for (auto& a : s.args) k += '\1' + a.first + '=' + a.second; return k; }
// exact: all of want; otherwise some prefix of it
size_t judge_chrome(const std::string& path, const std::vector<Span>& want, bool exact) {
    if (!disk_has(path)) fail("no-output", "the client left no output file");
    std::string b = disk_get(path); JP p(b); J j; if (!p.doc(j)) fail("invalid-json", "%s", p.err.c_str());
    const J* te = j.t == 'o' ? j.get("traceEvents") : nullptr; if (!te || te->t != 'a') fail("invalid-trace", "no traceEvents array");
    if (exact ? te->a.size() != want.size() : te->a.size() > want.size()) fail("wrong-count", "the input holds %zu tracepoints, the output %zu", want.size(), te->a.size());
    std::multiset<std::string> w; for (size_t i = 0; i < te->a.size(); i++) w.insert(key(want[i]));
    std::multimap<std::string, const Span*> by; for (auto& x : want) by.emplace(key(x), &x);
    for (size_t i = 0; i < te->a.size(); i++) {
        auto& e = te->a[i]; if (e.t != 'o') fail("invalid-trace", "entry %zu is not an object", i);
        const J *n = e.get("name"), *ph = e.get("ph"), *ts = e.get("ts"), *du = e.get("dur"), *ti = e.get("tid"), *pi = e.get("pid"), *ar = e.get("args");
        if (!n || n->t != 's' || !ph || ph->s != "X" || !ts || ts->t != 'n' || !du || du->t != 'n' || !ti || ti->t != 'n' || !pi || !ar || ar->t != 'o') fail("invalid-trace", "entry %zu lacks a field", i);
        Span s; s.name = n->s; s.tid = strtoull(ti->s.c_str(), nullptr, 10);
        for (auto& a : ar->o) { if (s.args.count(a.first)) fail("invalid-trace", "argument %s appears twice", a.first.c_str()); s.args[a.first] = (a.second.t == 's' ? "s" : "n") + a.second.s; }
        s.ts = strtoull(ts->s.c_str(), nullptr, 10) * 1000; s.dur = strtoull(du->s.c_str(), nullptr, 10) * 1000;
        auto it = w.find(key(s)); if (it == w.end()) fail("wrong-entry", "entry %zu (\"%.60s\" ts=%s dur=%s tid=%s, %zu args) corresponds to no tracepoint of the input", i, n->s.c_str(), ts->s.c_str(), du->s.c_str(), ti->s.c_str(), s.args.size());
        bool ok = false; for (auto x = by.lower_bound(*it); x != by.end() && x->first == *it; ++x) if (us_ok(ts->s, x->second->ts) && us_ok(du->s, x->second->dur)) ok = true; if (!ok) fail("wrong-time", "entry %zu: ts=%s dur=%s", i, ts->s.c_str(), du->s.c_str());
        w.erase(it);
    }
    return te->a.size();
}
struct Fn { uint64_t self = 0, incl = 0, calls = 0; std::map<std::string, std::pair<uint64_t, uint64_t>> kids; };
std::string cg(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
void judge_callgrind(const std::string& base, const std::vector<Span>& want) {
    std::map<uint64_t, std::vector<const Span*>> per; for (auto& s : want) per[s.tid].push_back(&s);
    for (auto& f : disk_list()) if (f.compare(0, base.size() + 1, base + ".") == 0 && !per.count(strtoull(f.c_str() + base.size() + 1, nullptr, 10))) fail("phantom-thread", "file %s belongs to no thread of the trace", f.c_str());
    for (auto& t : per) {
        // true caller: the innermost span that started earlier (smaller id) and completed later
        std::map<std::string, Fn> w; std::map<const Span*, std::string> path; auto v = t.second;
        std::sort(v.begin(), v.end(), [](const Span* a, const Span* b) { return a->id < b->id; });
        std::vector<const Span*> st; unsigned roots = 0;
        for (auto s : v) {
            while (!st.empty() && st.back()->pos < s->pos) st.pop_back();
            std::string pth = st.empty() ? cg(s->name) + "()" : cg(s->name) + "()'" + path[st.back()]; path[s] = pth; roots += st.empty();
            Fn& f = w[pth]; f.self += s->dur; f.incl += s->dur; f.calls++;
            if (!st.empty()) { Fn& p = w[path[st.back()]]; p.self -= s->dur; auto& k = p.kids[pth]; k.first++; k.second += s->dur; }
            st.push_back(s);
        }
        std::string file = base + "." + std::to_string(t.first); if (!disk_has(file)) fail("no-output", "no output for thread %llu", (unsigned long long)t.first);
        std::string b = disk_get(file); std::map<std::string, Fn> g; std::string cur, callee; uint64_t calls = 0; int state = 0; bool head = false, ev = false; size_t p = 0;
        while (p < b.size()) {
            size_t e = b.find('\n', p); if (e == std::string::npos) fail("truncated-output", "the last line is incomplete"); std::string l = b.substr(p, e - p); p = e + 1;
            unsigned long long x, y; int n = 0;
            if (state == 0 && l == "# callgrind format") { head = true; continue; }
            if (state == 0 && l.compare(0, 8, "events: ") == 0) { ev = true; continue; }
            if (state == 0 && l.compare(0, 8, "thread: ") == 0) { if (l.substr(8) != std::to_string(t.first)) fail("wrong-thread", "%s in the file of thread %llu", l.c_str(), (unsigned long long)t.first); continue; }
            if (l.empty() && state != 3 && state != 4) continue;
            if (l.compare(0, 3, "fn=") == 0 && (state == 0 || state == 2)) { cur = l.substr(3); if (g.count(cur)) fail("duplicate-function", "function %s is listed twice", cur.c_str()); g[cur]; state = 1; continue; }
            if (state == 1 && sscanf(l.c_str(), "1 %llu%n", &x, &n) == 1 && n == (int)l.size()) { g[cur].self = x; state = 2; continue; }
            if (state == 2 && l.compare(0, 4, "cfn=") == 0) { callee = l.substr(4); state = 3; continue; }
            if (state == 3 && sscanf(l.c_str(), "calls=%llu %llu%n", &x, &y, &n) == 2 && n == (int)l.size()) { calls = x; state = 4; continue; }
            if (state == 4 && sscanf(l.c_str(), "1 %llu%n", &x, &n) == 1 && n == (int)l.size()) { if (g[cur].kids.count(callee)) fail("duplicate-call", "%s is called twice by %s", callee.c_str(), cur.c_str()); g[cur].kids[callee] = {calls, x}; state = 2; continue; }
            fail("malformed-callgrind", "unexpected line \"%.80s\"", l.c_str());
        }
        if (!head || !ev || state != 2) fail("malformed-callgrind", "incomplete file");
        for (auto& f : w) {
            auto i = g.find(f.first); if (i == g.end()) fail("wrong-caller", "thread %llu: no function \"%.100s\" (%llu calls)", (unsigned long long)t.first, f.first.c_str(), (unsigned long long)f.second.calls);
            if (i->second.self != f.second.self) fail("wrong-cost", "\"%.100s\" has self time %llu, must be %llu", f.first.c_str(), (unsigned long long)i->second.self, (unsigned long long)f.second.self);
            for (auto& k : f.second.kids) { auto q = i->second.kids.find(k.first); if (q == i->second.kids.end()) fail("wrong-caller", "no call from \"%.100s\" to \"%.100s\"", f.first.c_str(), k.first.c_str()); if (q->second.first != k.second.first) fail("wrong-calls", "%llu calls of \"%.100s\", must be %llu", (unsigned long long)q->second.first, k.first.c_str(), (unsigned long long)k.second.first); if (q->second.second != k.second.second) fail("wrong-cost", "inclusive time of \"%.100s\" is %llu, must be %llu", k.first.c_str(), (unsigned long long)q->second.second, (unsigned long long)k.second.second); }
            if (i->second.kids.size() != f.second.kids.size()) fail("wrong-caller", "\"%.100s\" has %zu callees, must have %zu", f.first.c_str(), i->second.kids.size(), f.second.kids.size());
        }
        if (g.size() != w.size()) fail("phantom-function", "%zu functions, must be %zu", g.size(), w.size());
    }
}
// ------------------------------------------------------------------------------------------------ the traced program
const char* const words[] = {"main", "draw", "say \"hi\"", "C:\\path\\new", "tab\there", "two\nlines", "caf\xc3\xa9 \xe2\x82\xac", "operator\\", "ctl\x01\x1f", "{\"a\": [1]}", "", "a", "main", "\r", "/slash", "del\x7f",
    "a label which is longer than one hundred and twenty-eight bytes, because there are two ways of putting an event in the stream and both matter here",
    "a label which is longer than one hundred and twenty-eight bytes, because there are two ways of putting an event in the stream and both matter herE", "draW"};
uint64_t label_id(uint64_t k) { static const uint64_t v[] = {1000, 1000 + (1ull << 32), 0, ~0ull, 1ull << 63, 1004 + (7ull << 32)}; return k < 6 ? v[k] : 998 + k; }
struct Prog { Rng* r; HT_Timeline* t; unsigned depth; bool cgrind, ties; std::vector<std::unique_ptr<std::string>>* keep; unsigned* n; bool uniq; std::vector<std::string>* log; };
void body(void* ud);
void pause(Prog& p) { if (!p.ties || p.r->chance(1, 3)) advance(1 + p.r->below(!p.r->chance(1, 8) ? 3000ull : p.r->chance(1, 10) ? 20000000000000ull : 5000000000ull)); }
bool g_long;
const char* word(Prog& p) { const char* w = words[p.r->below(sizeof words / sizeof *words)]; p.keep->push_back(std::make_unique<std::string>(p.uniq ? std::to_string((*p.n)++) + w : w)); if (g_long && p.r->chance(1, p.uniq ? 200 : 60)) { std::string& s = *p.keep->back(); size_t n = p.uniq ? 520 : 300 + p.r->below(p.r->chance(1, 8) ? 20000 : 1200); while (s.size() < n) s += s.size() % 3 ? "long\"" : "\xc3\xa9tat "; probe("very long label"); } return p.keep->back()->c_str(); }
void span(Prog p) {
    pause(p); const char* w = word(p); int how = (int)p.r->below(7); std::string lg = w; uint64_t num = label_id(p.r->below(12)); if (p.uniq) num = 100000 + (*p.n)++;
    switch (how) {
    case 0: { Sut s; user_scoped_cpp(p.t, 1, 0, w, body, &p); break; }
    case 1: { lg = std::to_string(num); Sut s; user_scoped_cpp(p.t, 0, num, nullptr, body, &p); break; }
    case 2: if (!p.uniq) { Sut s; user_static_site((int)p.r->below(16), p.t, body, &p); break; } /* fall through */
    case 3: { Sut s; user_dynamic_site(p.t, w, body, &p); break; }
    case 4: { Sut s; user_scoped_c(p.t, 1, 0, w, body, &p); break; }
    case 5: { const char* note = word(p); uint64_t v = p.r->next(); { Sut s; user_start_span(p.t, w, note, v); } body(&p); { Sut s; ht_feature_callstack_stop(p.t); } break; }
    default: { { Sut s; ht_feature_callstack_start_string(p.t, w); } body(&p); { Sut s; ht_feature_callstack_stop(p.t); } break; }
    }
    p.log->push_back(lg);
}
void body(void* ud) {
    Har h; Prog p = *(Prog*)ud; bool kids = false; if (p.depth) { p.depth--; for (unsigned k = (unsigned)p.r->below(3); k; k--) { kids = true; span(p); } }
    if (!kids) advance(1 + p.r->below(2000)); else pause(p);
    if (!p.uniq && p.r->chance(1, 10)) { const char* w = word(p); uint64_t id = label_id(p.r->below(14)); { Sut s; user_push_mapping(p.t, id, w); } probe("names announced by the program itself"); }
    if (!p.uniq && p.r->chance(1, 6)) { if (p.cgrind || p.r->chance(1, 2)) { Sut s; user_push_noise(p.t, p.r->below(100), "noise"); } else { const char* w = word(p); int32_t v = (int32_t)p.r->next(); { Sut s; user_push_named(p.t, w, v); } } }
}
unsigned name_no;
void run_program(unsigned nt, unsigned ops, bool cgrind, bool ties, std::vector<std::unique_ptr<std::string>>& keep, bool uniq, std::vector<std::string>& log) {
    std::vector<int> th; unsigned& n = name_no;
    for (unsigned i = 0; i < nt; i++) th.push_back(spawn("traced thread", [&] {
        HT_Timeline* t; { Sut s; t = ht_global_timeline_get(); }
        for (unsigned o = 0; o < ops; o++) { Rng r(1); if (!op_keep(&r)) continue; Prog p{&r, t, 4, cgrind, ties, &keep, &n, uniq, &log}; span(p); if (r.chance(1, 8)) { Sut s; ht_timeline_flush(t); } }
    }));
    for (int x : th) join(x);
}
std::string map_file(Rng& r, std::map<uint64_t, std::string>& m) { std::string o; for (unsigned i = 0; i < 8; i++) { uint64_t id = label_id(r.below(14)); std::string l = "mapped" + std::to_string(r.below(100)); m[id] = l; o += (r.chance(1, 2) ? "native " : "lua ") + l + " " + std::to_string(id) + (r.chance(1, 2) ? "\n" : " "); } return o; }
void quiet() { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }

void convert(bool foreign) {
    quiet(); unsigned nt = (unsigned)knob("threads", 1, 3), ops = (unsigned)knob("ops", 1, 8); bool cgrind = knob("callgrind", 0, 1), ties = knob("ties", 0, 1), live = knob("source_tcp", 0, 2) == 0, longpath = knob("long_path", 0, 3) == 0; g_long = true; if (large_run(600)) { ops = (unsigned)pick("many", {40, 150}); nt = 1 + nt % 2; g_long = false; }
    set_clock_step(0); if (knob("late", 0, 1)) advance(1ull << knob("epoch", 1, 60));
    lib_init((long)pick("tl_capacity", {0, 100, 2000}), false); { Sut s; user_register_client_klasses(); }
    std::vector<std::unique_ptr<std::string>> keep; std::vector<std::string> log;
    { HT_ErrorCode e; HT_FileDumpListener* l; { Sut s; l = ht_file_dump_listener_register(ht_global_timeline_get(), "/sim/in.htdump", (size_t)pick("buf", {1, 128, 4096}), &e); } if (!l) fail("create-failed", "%d", e);
      run_program(nt, ops, cgrind, ties, keep, false, log);
      { Sut s; ht_timeline_flush(ht_global_timeline_get()); ht_file_dump_listener_stop(l); } }
    std::string in = disk_get("/sim/in.htdump"), feed = foreign ? other_endian(in) : in; std::map<uint64_t, std::string> mf; Rng r(seed() ^ 77);
    size_t full = in.size(); if (knob("truncate", 0, 2) == 0 && full) { in.resize(knob("cut", 0, 1000000) % (full + 1)); note_fault(F_TRUNCATE); }
    feed.resize(in.size());
    bool maps = knob("map", 0, 2) == 0; if (maps) disk_put("/sim/a.map", map_file(r, mf));
    size_t nev; auto want = expected(in, mf, &nev); std::string out = longpath ? "/sim/" + std::string(knob("path_len", 100, 300), 'p') + ".json" : "/sim/out.json";
    std::vector<std::string> a; unsigned order = (unsigned)knob("arg_order", 0, 1); auto opt = [&](const char* k, const std::string& v) { a.push_back(k); a.push_back(v); };
    if (!order) opt("--source", live ? "127.0.0.1:8765" : "/sim/src.htdump");
    if (cgrind || knob("explicit", 0, 1)) opt("--format", cgrind ? "callgrind" : "chrome-tracing");
    bool named = true; std::string pattern = out;
    if (knob("dated_name", 0, 3) == 0) {      // the date and time of the start are filled in
        static const char* const pats[] = {"/sim/%Y/%m/%d.json", "/sim/100%%.json", "/sim/t-%H%M%S", "/sim/%d-%m-%Y-%H_%M_%S%%%Y.json", "/sim/%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T+%F_%T", nullptr}; const char* p = pats[knob("pattern", 0, 5)]; if (!p) named = false; else pattern = p;
        std::string pat = p ? p : "hawktracer-trace-%d-%m-%Y-%H_%M_%S.httrace"; time_t tt = (time_t)(now() / 1000000000ull); struct tm* tm = localtime(&tt); char buf[1000]; out = std::string(buf, strftime(buf, sizeof buf, pat.c_str(), tm)); probe("dated output name");
    }
    if (named) opt("--output", pattern); if (maps) opt("--map", knob("missing_map", 0, 1) ? "/sim/none.map,/sim/a.map" : "/sim/a.map");
    if (order) opt("--source", live ? "127.0.0.1:8765" : "/sim/src.htdump");
    enable_fault(F_READ_SHORT, 1, 4); enable_fault(F_SHORT_RECV, 1, 4); enable_fault(F_RECV_EINTR, 1, 8); enable_fault(F_WRITE_SHORT, 1, 6);
    int rc; bool early = false;
    if (!live) { disk_put("/sim/src.htdump", feed); rc = client(a); }
    else {
        int srv = net_listen(PORT); early = knob("early_enter", 0, 2) == 0; bool closes = knob("server_closes", 0, 1), resets = !closes && knob("server_resets", 0, 2) == 0; size_t chunk = pick("chunk", {1, 7, 100, 5000}); bool gone = false;
        int sv = spawn("server", [&] { int h = net_accept(srv); if (h < 0) return; Rng q(seed() ^ 5); for (size_t p = 0; p < in.size();) { size_t n = std::min(in.size() - p, (size_t)(1 + q.below(chunk))); if (net_send(h, feed.data() + p, n) < 0) break; p += n; if (q.chance(1, 4)) yield(); if (q.chance(1, 20)) sleep_ns(q.below(3000000)); } if (resets) { note_fault(F_PEER_RESET); net_reset(h); } else if (closes) { note_fault(F_PEER_CLOSE); net_close(h); } else { wait_until([&] { return gone || net_peer_eof(h) || net_peer_gone(h); }, "the client to leave"); net_close(h); } }, false);
        int us = spawn("user", [&] { if (early) { uint64_t y = knob("enter_after", 0, 200); for (uint64_t i = 0; i < y; i++) yield(); sleep_ns(knob("enter_ns", 0, 2000000)); } else { for (int k = 0; k < 60 && !joined_done(sv); k++) sleep_ns(200000000); sleep_ns(10000000000ull); } press_enter(); }, false);
        rc = client(a); gone = true; join(us); join(sv); net_unlisten(srv);
        if (resets) early = true;
        if (!joined_done(sv)) fail("harness", "server still running");
        if (net_open_sut_fds()) fail("descriptor-leak", "the client left %d descriptors open", net_open_sut_fds());
    }
    disable_faults();
    if (rc) fail("client-failed", "the client exited with %d", rc);
    if (disk_open_handles()) fail("handle-leak", "files left open");
    size_t got = want.size();
    if (!cgrind) got = judge_chrome(out, want, !early);
    else if (!early) judge_callgrind(out, want);
    if (early && !cgrind && got < want.size()) probe("finished before everything arrived");
    fold(got); fold(want.size()); if (!want.empty()) nontrivial(); note("threads=%u %s %s tracepoints=%zu of %zu input=%zu of %zu bytes", nt, cgrind ? "callgrind" : "chrome", live ? "tcp" : "file", got, want.size(), in.size(), full);
}
Reg r1("C17", "convert", [] { convert(false); }, 3);
Reg r4("C22", "other-byte-order-convert", [] { convert(true); }, 1);

// success is claimed only if the output is complete
void failing_output() {
    quiet(); bool cgrind = knob("callgrind", 0, 1); set_clock_step(0); lib_init(-1, false); { Sut s; user_register_client_klasses(); }
    std::vector<std::unique_ptr<std::string>> keep; std::vector<std::string> log;
    { HT_ErrorCode e; HT_FileDumpListener* l; { Sut s; l = ht_file_dump_listener_register(ht_global_timeline_get(), "/sim/src.htdump", 4096, &e); } if (!l) fail("create-failed", "%d", e);
      run_program((unsigned)knob("threads", 1, 2), (unsigned)knob("ops", 1, 6), cgrind, false, keep, false, log);
      { Sut s; ht_timeline_flush(ht_global_timeline_get()); ht_file_dump_listener_stop(l); } }
    auto want = expected(disk_get("/sim/src.htdump"), {});
    std::vector<std::string> a{"--source", "/sim/src.htdump", "--output", "/sim/out", "--format", cgrind ? "callgrind" : "chrome-tracing"}; bool must_fail = false;
    switch (knob("kind", 0, 8)) {
    case 0: a[5] = "json"; must_fail = true; break;
    case 1: a[1] = "/sim/none.htdump"; must_fail = true; break;
    case 2: a.erase(a.begin(), a.begin() + 2); must_fail = true; break;
    case 3: a.push_back("--bogus"); a.push_back("1"); must_fail = true; break;
    case 4: enable_fault(F_OPEN_FAIL, 1, 2); break;
    case 5: enable_fault(F_WRITE_EIO, 1, (unsigned)pick("rate", {1, 3, 10})); enable_fault(F_WRITE_SHORT, 1, 3); break;
    case 6: enable_fault(F_WRITE_ENOSPC, 1, (unsigned)pick("rate", {1, 3, 10})); break;
    case 7: { uint64_t used = 0; for (auto& p : disk_list()) used += disk_get(p).size(); disk_capacity(used + knob("space", 0, 3000)); break; }
    default: enable_fault(F_CLOSE_EIO, 1, 2); break;
    }
    int rc = client(a); disable_faults();
    if (must_fail && !rc) fail("wrong-success", "a wrong command line is accepted");
    if (disk_open_handles()) fail("handle-leak", "files left open");
    if (!rc) { if (cgrind) judge_callgrind("/sim/out", want); else judge_chrome("/sim/out", want, true); } else probe("client reported failure");
    if (!want.empty()) nontrivial(); fold((uint64_t)rc); note("%s rc=%d tracepoints=%zu", cgrind ? "callgrind" : "chrome", rc, want.size());
}
Reg r3("C17", "failing-output", failing_output, 1);

// any command line: what it asks for is done, exactly, or it is refused and nothing is left behind
void command_line() {
    quiet(); set_clock_step(0); lib_init(-1, false); { Sut s; user_register_client_klasses(); }
    std::vector<std::unique_ptr<std::string>> keep; std::vector<std::string> log;
    for (const char* f : {"/sim/a.htdump", "127.0.0.1", "127.0.0.1:7777", "--source"}) {   // traces in files with all sorts of names
        HT_ErrorCode e; HT_FileDumpListener* l; { Sut s; l = ht_file_dump_listener_register(ht_global_timeline_get(), f, 4096, &e); } if (!l) fail("create-failed", "%d", e);
        run_program(1, 2, false, false, keep, false, log); { Sut s; ht_timeline_flush(ht_global_timeline_get()); ht_file_dump_listener_stop(l); ht_timeline_unregister_all_listeners(ht_global_timeline_get()); }
    }
    std::map<uint64_t, std::string> mf; Rng g(seed() ^ 7); disk_put("/sim/m.map", map_file(g, mf));
    // the server: it may listen anywhere, and what it sends differs from what the files hold
    std::string sent = disk_get("/sim/a.htdump"); int port = (int)pick("port", {8765, 80, 1, 65535, 7777, 12345}); uint64_t late = pick("server_late", {0, 0, 3000000000ull}); unsigned hits = 0; int srv = late ? -1 : net_listen(port); bool gone = false;
    int sv = spawn("server", [&] { if (late) { sleep_ns(late); srv = net_listen(port); } int h = net_accept(srv); if (h < 0) return; hits++; net_send(h, sent.data(), sent.size()); wait_until([&] { return gone || net_peer_eof(h) || net_peer_gone(h); }, "the client to leave"); net_close(h); }, false);
    // the command line
    Rng r(1); std::vector<std::string> a; std::string src, fmt = "chrome-tracing", out; bool has_src = false, has_out = false, has_fmt = false, has_map = false, help = false, bad = false, bad_map = false;
    for (unsigned n = 0; n < 9; n++) {
        if (!op_keep(&r)) continue; Rng q = r;
        switch (q.below(9)) {
        case 0: case 1: case 2: if (has_src) break; { has_src = true; static const char* const v[] = {"/sim/a.htdump", "127.0.0.1", "127.0.0.1:7777", "--source", "/sim/none", "127.0.0.1:12345", "127.0.0.1:1", "127.0.0.1:65535", "127.0.0.1:80", "127.0.0.1:8765", "", "127.0.0:8765", "1.2.3", "--help"}; src = v[q.below(14)]; a.push_back("--source"); a.push_back(src); } break;
        case 3: if (has_out) break; { has_out = true; static const char* const v[] = {"/sim/o.json", "--output", "o", "x y%%z", "127.0.0.1:8765.json"}; out = v[q.below(5)]; a.push_back("--output"); a.push_back(out); } break;
        case 4: if (has_fmt) break; { has_fmt = true; static const char* const v[] = {"chrome-tracing", "callgrind", "Chrome-Tracing", "", "chrome-tracing "}; fmt = v[q.below(q.chance(1, 2) ? 2 : 5)]; a.push_back("--format"); a.push_back(fmt); } break;
        case 5: if (has_map) break; { has_map = true; bad_map = q.chance(1, 3); a.push_back("--map"); a.push_back(bad_map ? "/sim/none.map" : q.chance(1, 2) ? "/sim/m.map" : "/sim/m.map,/sim/m.map"); } break;
        case 6: if (q.chance(1, 6)) { help = true; a.push_back("--help"); } break;
        case 7: if (q.chance(1, 4)) { bad = true; static const char* const v[] = {"--bogus", "source", "-", "--", "-source", "", "--sourc", "--sources", "/sim/a.htdump", "--source=/sim/a.htdump", "---source", "%s%n"}; a.push_back(v[q.below(12)]); } break;
        default: break;
        }
    }
    if (!has_src && r.chance(2, 3)) { has_src = true; src = "/sim/a.htdump"; a.push_back("--source"); a.push_back(src); }
    if (r.chance(1, 12)) { bad = true; a.push_back(r.chance(1, 2) ? "--map" : "--format"); if (r.chance(1, 4) && !has_out) a.back() = "--output"; }   // the value is missing
    bool file = has_src && disk_has(src), addr = false; int to = 0;
    if (has_src && !file) { unsigned p[4], po = 8765; int n = sscanf(src.c_str(), "%u.%u.%u.%u:%u", p, p + 1, p + 2, p + 3, &po); addr = n >= 4; to = addr ? (int)po : 0;
        if (addr && to != port) { char b[40]; snprintf(b, sizeof b, port == 8765 ? "127.0.0.1" : "127.0.0.1:%d", port); for (auto& x : a) if (&x != &a[0] && *(&x - 1) == "--source" && x == src) x = disk_has(b) ? "127.0.0.1:" + std::to_string(port) : b; for (size_t i = 1; i < a.size(); i++) if (a[i - 1] == "--source") { src = a[i]; break; } file = disk_has(src); to = port; addr = !file; } }   // nobody is there: the client would wait
    if (const char* host = net_host((unsigned)knob("host", 0, 4))) if (addr && strcmp(host, "127.0.0.1")) { probe("command line: another host"); for (size_t i = 1; i < a.size(); i++) if (a[i - 1] == "--source" && a[i] == src) { a[i].replace(0, 9, host); src = a[i]; break; } }
    bool accept = !bad && !help && has_src && (fmt == "chrome-tracing" || fmt == "callgrind") && (file || addr);
    if (!has_out) { time_t tt = (time_t)(now() / 1000000000ull); struct tm* tm = localtime(&tt); char buf[200]; out = std::string(buf, strftime(buf, sizeof buf, "hawktracer-trace-%d-%m-%Y-%H_%M_%S.httrace", tm)); } else if (out == "x y%%z") out = "x y%z";
    std::set<std::string> before; for (auto& p : disk_list()) before.insert(p);
    std::string in = file ? disk_get(src) : sent; size_t nev; auto want = expected(in, has_map && !bad_map ? mf : std::map<uint64_t, std::string>{}, &nev);
    int us = spawn("user", [&] { sleep_ns(10000000000ull); press_enter(); }, false);
    int rc = client(a); gone = true; join(us); std::string text; for (auto& x : a) text += x + "|";
    bool met = hits; if (late && srv < 0) sleep_ns(late); net_unlisten(srv); join(sv);
    if (rc != 0 && rc != 1) fail("exit-code", "the client exited with %d", rc);
    if (accept && rc) fail("client-failed", "%s: exited with %d", text.c_str(), rc);
    if (!accept && !rc) fail("wrong-success", "%s: accepted", text.c_str());
    if (net_open_sut_fds()) fail("descriptor-leak", "the client left descriptors open");
    if (met && !addr) fail("wrong-source", "%s: connected to port %d", text.c_str(), port);
    for (auto& p : disk_list()) if (!before.count(p) && p != out && !(fmt == "callgrind" && p.compare(0, out.size() + 1, out + ".") == 0)) fail("stray-file", "%s: wrote %s", text.c_str(), p.c_str());
    if ((bad || help || !has_src) && disk_has(out) && !before.count(out)) fail("stray-file", "%s: refused, but wrote %s", text.c_str(), out.c_str());
    if (accept) { probe(file ? "command line: file" : "command line: address"); if (fmt == "callgrind") probe("command line: callgrind"); else judge_chrome(out, want, true); } else probe("command line refused");
    if (help && !bad) probe("help"); nontrivial(); fold((uint64_t)rc * 7 + a.size()); note("%s rc=%d", text.c_str(), rc);
}
Reg r5("C17", "command-line", command_line, 1);

// the whole system: application, TCP listener, client, user
void live_system() {
    quiet(); name_no = 0; unsigned nt = (unsigned)knob("threads", 1, 3), ops = (unsigned)knob("ops", 1, 5); set_clock_step(0); net_set_sndbuf(pick("sndbuf", {64, 1000, 65536}));
    lib_init((long)pick("tl_capacity", {0, 100, 2000}), false); { Sut s; user_register_client_klasses(); }
    bool srv_stop = knob("app_ends_first", 0, 1); // else nothing may stay in the buffer of the listener, which can be flushed by stopping it only
    std::vector<std::unique_ptr<std::string>> keep; std::vector<std::string> log; HT_ErrorCode e; HT_TCPListener* l; { Sut s; l = ht_tcp_listener_register(ht_global_timeline_get(), PORT, srv_stop ? (size_t)pick("buf", {1, 128, 4096}) : 1, &e); } if (!l) fail("create-failed", "%d", e);
    enable_fault(F_SHORT_RECV, 1, 4); enable_fault(F_RECV_EINTR, 1, 8); enable_fault(F_SHORT_SEND, 1, 4); enable_fault(F_SEND_EINTR, 1, 8); enable_fault(F_WRITE_SHORT, 1, 6);
    bool before = knob("traced_before", 0, 1); std::vector<std::string> lost; if (before) { run_program(1, 2, false, false, keep, true, lost); { Sut s; ht_timeline_flush(ht_global_timeline_get()); } }
    int rc = -1; int c = spawn("client", [&] { rc = client({"--source", "127.0.0.1:8765", "--output", "/sim/live.json"}); }, false);
    sleep_ns(10000000000ull);
    run_program(nt, ops, false, false, keep, true, log); size_t mine = log.size();
    { Sut s; ht_timeline_flush(ht_global_timeline_get()); }
    sleep_ns(10000000000ull);
    if (srv_stop) { { Sut s; ht_tcp_listener_stop(l); } sleep_ns(10000000000ull); }
    press_enter(); join(c); disable_faults();
    if (rc) fail("client-failed", "the client exited with %d", rc);
    std::string b = disk_get("/sim/live.json"); JP p(b); J j; if (!p.doc(j)) fail("invalid-json", "%s", p.err.c_str());
    const J* te = j.get("traceEvents"); if (!te || te->t != 'a') fail("invalid-trace", "no traceEvents array");
    // labels are unique: exactly the spans of the program, once each (events completed but not yet sent before the client came may be there too)
    std::multiset<std::string> got; for (auto& x : te->a) { const J* n = x.get("name"); if (!n) fail("invalid-trace", "an entry without a name"); got.insert(n->s); }
    for (auto& w : log) { if (!got.count(w)) fail("span-lost", "\"%.60s\" was traced while the client was connected, but is not in its output", w.c_str()); if (got.count(w) > 1) fail("span-duplicated", "\"%.60s\" appears %zu times", w.c_str(), got.count(w)); got.erase(w); }
    for (auto& w : lost) got.erase(w);
    // what was still buffered when the client came may refer to labels announced before
    size_t old = 0; for (auto i = got.begin(); before && i != got.end() && old < lost.size();) { if (!i->empty() && i->find_first_not_of("0123456789") == std::string::npos) { i = got.erase(i); old++; } else ++i; }
    if (!got.empty()) fail("phantom-span", "\"%.60s\" was never traced", got.begin()->c_str());
    if (!srv_stop) { Sut s; ht_tcp_listener_stop(l); }
    fold(mine); if (mine) nontrivial(); note("threads=%u spans=%zu", nt, mine);
}
Reg r2("C17", "live-system", live_system, 1);
}
