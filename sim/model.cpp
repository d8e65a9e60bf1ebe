#include "model.h"
#include <algorithm>
#include <cstring>
#include <cstdio>
using namespace sim;

enum { DT_STRUCT = 1, DT_STRING = 2, DT_INT = 3, DT_FLOAT = 4, DT_DOUBLE = 5, DT_PTR = 6, DT_UINT = 99 };
const std::vector<std::string> core_names = {"HT_EndiannessInfoEvent", "HT_Event", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent",
    "HT_CallstackBaseEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent", "HT_StringMappingEvent", "HT_SystemInfoEvent"};
std::vector<std::string> user_names = {"SimInts", "SimStr", "SimMix", "SimDerived", "SimDeep"};

static const std::map<std::string, std::vector<FieldDef>>& truth() {
    static std::map<std::string, std::vector<FieldDef>> m;
    if (m.empty()) {
        FieldDef base = {"HT_Event", "base", 24, DT_STRUCT}, tag = {"uint32_t", "tag", 4, DT_UINT};
        auto S = [](const char* n) { return FieldDef{"const char*", n, 8, DT_STRING}; };
        auto U = [](const char* t, const char* n, uint64_t z) { return FieldDef{t, n, z, DT_UINT}; };
        auto I = [](const char* t, const char* n, uint64_t z) { return FieldDef{t, n, z, DT_INT}; };
        m["HT_Event"] = {{"HT_EventKlass*", "klass", 8, DT_PTR}, U("HT_TimestampNs", "timestamp", 8), U("HT_EventId", "id", 8)};
        m["HT_EndiannessInfoEvent"] = {base, U("uint8_t", "endianness", 1)};
        m["HT_EventKlassInfoEvent"] = {base, U("HT_EventKlassId", "info_klass_id", 4), S("event_klass_name"), U("uint8_t", "field_count", 1)};
        m["HT_EventKlassFieldInfoEvent"] = {base, U("HT_EventKlassId", "info_klass_id", 4), S("field_type"), S("field_name"), U("uint64_t", "size", 8), U("uint8_t", "data_type", 1)};
        m["HT_CallstackBaseEvent"] = {base, U("HT_DurationNs", "duration", 8), U("HT_ThreadId", "thread_id", 4)};
        m["HT_CallstackIntEvent"] = {{"HT_CallstackBaseEvent", "base", 40, DT_STRUCT}, U("HT_CallstackEventLabel", "label", 8)};
        m["HT_CallstackStringEvent"] = {{"HT_CallstackBaseEvent", "base", 40, DT_STRUCT}, S("label")};
        m["HT_StringMappingEvent"] = {base, U("uint64_t", "identifier", 8), S("label")};
        m["HT_SystemInfoEvent"] = {base, U("uint8_t", "version_major", 1), U("uint8_t", "version_minor", 1), U("uint8_t", "version_patch", 1)};
        m["SimInts"] = {base, tag, I("int8_t", "a", 1), U("uint8_t", "b", 1), I("int16_t", "c", 2), U("uint16_t", "d", 2), I("int32_t", "e", 4), U("uint64_t", "f", 8), I("int64_t", "g", 8)};
        m["SimStr"] = {base, tag, S("s")};
        m["SimMix"] = {base, tag, S("s1"), I("int32_t", "n", 4), S("s2"), U("uint8_t", "last", 1)};
        m["SimDerived"] = {{"SimStr", "base", 40, DT_STRUCT}, U("uint16_t", "extra", 2)};
        m["SimDeep"] = {{"SimDerived", "base", 48, DT_STRUCT}, S("tail")};
        m["SimDouble"] = {base, tag, {"double", "x", 8, DT_DOUBLE}, U("uint16_t", "y", 2)};
        m["SimCall"] = {{"HT_CallstackBaseEvent", "base", 40, DT_STRUCT}, tag, S("note"), U("uint64_t", "pad1", 8), U("uint64_t", "pad2", 8)};
        for (int i = 0; i < 19; i++) { std::string n = std::to_string(i), f = "r" + n; static const size_t len[] = {150, 300, 620}; const std::string w = "_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds"; if (i > 15) for (size_t k = 0; k < len[i - 16]; k++) f += w[k % w.size()]; m["SimReg" + n] = {base, tag, {"uint32_t", f, 4, DT_UINT}}; }
    }
    return m;
}
const std::vector<FieldDef>* true_klass(const std::string& n) { auto i = truth().find(n); return i == truth().end() ? nullptr : &i->second; }

Decoder::Decoder() {
    const char* n[4] = {"HT_EndiannessInfoEvent", "HT_Event", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent"};
    for (unsigned i = 0; i < 4; i++) { KlassDef k; k.id = i; k.name = n[i]; k.builtin = true; k.declared = 0; if (i != 1) k.fields = truth().at(n[i]); ks[i] = k; }
}
bool Decoder::num(const std::string& b, size_t& p, unsigned n, uint64_t& v) {
    if (p + n > b.size()) { truncated = true; return false; }
    v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)(unsigned char)b[p + i] << (8 * i);
    if (nums) nums->push_back({p, n});
    p += n; return true;
}
bool Decoder::str(const std::string& b, size_t& p, std::string& s) {
    size_t z = b.find('\0', p);
    if (z == std::string::npos) { truncated = true; return false; }
    s = b.substr(p, z - p); p = z + 1; return true;
}
bool Decoder::fields(const std::string& b, size_t& p, const KlassDef& k, DEv& e, int depth) {
    if (depth > 8) { err = "klass nesting too deep"; return false; }
    for (auto& f : k.fields) {
        if (f.dt == DT_STRUCT) {
            if (f.type == "HT_Event" && f.name == "base") continue;
            const KlassDef* sk = nullptr;
            for (auto& x : ks) if (x.second.name == f.type) sk = &x.second;
            if (!sk) { err = "klass " + k.name + " refers to undescribed klass " + f.type; return false; }
            if (!fields(b, p, *sk, e, depth + 1)) return false;
            continue;
        }
        Val v; v.dt = f.dt; v.size = f.size;
        if (f.dt == DT_STRING) { v.is_str = true; if (!str(b, p, v.s)) return false; }
        else { if (f.size > 8 || f.size == 0) { err = "field " + f.name + " has size " + std::to_string(f.size); return false; } if (!num(b, p, (unsigned)f.size, v.u)) return false; }
        e.v[f.name] = v;
    }
    return true;
}
bool Decoder::one(const std::string& b, size_t pos, DEv& e) {
    size_t p = pos; uint64_t x;
    e.off = pos;
    if (!num(b, p, 4, x)) return false; e.klass = (uint32_t)x;
    auto it = ks.find(e.klass);
    if (it == ks.end()) { err = "event of undescribed klass id " + std::to_string(e.klass) + " at byte " + std::to_string(pos); return false; }
    if (!num(b, p, 8, e.ts) || !num(b, p, 8, e.id)) return false;
    e.name = it->second.name;
    if (!it->second.builtin && it->second.seen && it->second.fields.size() != it->second.declared) { err = "klass " + e.name + " used before all its fields were described"; return false; }
    if (!fields(b, p, it->second, e, 0)) return false;
    e.len = p - pos;
    return true;
}
void Decoder::learn(const DEv& e) {
    if (e.klass == 2) {
        uint32_t id = (uint32_t)e.u("info_klass_id");
        KlassDef& k = ks[id];
        if (k.seen) { err = "klass id " + std::to_string(id) + " (" + e.s("event_klass_name") + ") described twice; first as " + k.name; return; }
        if (k.builtin && k.name != e.s("event_klass_name")) { err = "well-known klass id " + std::to_string(id) + " described as " + e.s("event_klass_name"); return; }
        k.id = id; k.name = e.s("event_klass_name"); k.declared = (unsigned)e.u("field_count"); k.seen = 1;
        if (id != 1 || true) { if (!k.builtin) k.fields.clear(); else k.fields = id == 1 ? std::vector<FieldDef>() : truth().at(k.name); }
    } else if (e.klass == 3) {
        uint32_t id = (uint32_t)e.u("info_klass_id");
        auto it = ks.find(id);
        if (it == ks.end() || !it->second.seen) { err = "field " + e.s("field_name") + " of undescribed klass id " + std::to_string(id); return; }
        FieldDef f = {e.s("field_type"), e.s("field_name"), e.u("size"), (uint8_t)e.u("data_type")};
        const std::vector<FieldDef>* t = true_klass(it->second.name);
        if (it->second.builtin) return;
        it->second.fields.push_back(f);
        if (t && it->second.fields.size() > t->size()) err = "klass " + it->second.name + " has too many field descriptions";
    }
}
void Decoder::decode(const std::string& b, std::vector<DEv>& out, size_t* consumed) {
    size_t p = 0;
    while (p < b.size() && err.empty()) {
        DEv e;
        if (!one(b, p, e)) break;
        learn(e);
        p += e.len;
        out.push_back(e);
    }
    if (consumed) *consumed = p;
}

std::string other_endian(const std::string& b) {
    std::vector<std::pair<size_t, unsigned>> nums; Decoder d; d.nums = &nums; std::vector<DEv> ev; size_t used; d.decode(b, ev, &used);
    if (!d.err.empty() || used != b.size() || ev.empty() || ev[0].klass != 0) fail("harness", "cannot convert a trace to the other byte order: %s", d.err.c_str());
    std::string o = b; for (auto& n : nums) std::reverse(o.begin() + (long)n.first, o.begin() + (long)(n.first + n.second));
    o[ev[0].len - 1] = (char)(b[ev[0].len - 1] ^ 1); return o;
}

std::string check_metadata(const std::vector<DEv>& ev, const Decoder& d, const std::vector<std::string>& un, size_t* n_meta) {
    if (ev.empty()) return "stream has no events at all";
    if (ev[0].name != "HT_EndiannessInfoEvent") return "first event is " + ev[0].name + ", not the endianness event";
    if (ev[0].u("endianness") != 0) return "endianness event says big endian";
    std::map<std::string, unsigned> described; std::map<uint32_t, std::vector<FieldDef>> fd; std::map<uint32_t, unsigned> cnt; std::map<uint32_t, std::string> nm; std::set<std::string> names;
    bool sys = false; size_t i = 1;
    for (; i < ev.size(); i++) {
        const DEv& e = ev[i];
        if (e.klass == 2) { described[e.s("event_klass_name")]++; cnt[(uint32_t)e.u("info_klass_id")] = (unsigned)e.u("field_count"); nm[(uint32_t)e.u("info_klass_id")] = e.s("event_klass_name"); }
        else if (e.klass == 3) fd[(uint32_t)e.u("info_klass_id")].push_back({e.s("field_type"), e.s("field_name"), e.u("size"), (uint8_t)e.u("data_type")});
        else if (e.name == "HT_SystemInfoEvent") { if (sys) return "system info sent twice"; sys = true; }
        else if (e.klass == 0) return "endianness event repeated";
        else break;
    }
    *n_meta = i;
    std::vector<std::string> want = core_names; want.insert(want.end(), un.begin(), un.end());
    for (auto& w : want) if (described[w] != 1) return "klass " + w + " described " + std::to_string(described[w]) + " times in the metadata";
    for (auto& n : nm) {
        const std::vector<FieldDef>* t = true_klass(n.second);
        if (!t) return "unknown klass " + n.second + " in metadata";
        auto& f = fd[n.first];
        if (cnt[n.first] != t->size() || f.size() != t->size()) return "klass " + n.second + " announces " + std::to_string(cnt[n.first]) + " fields and lists " + std::to_string(f.size()) + ", it has " + std::to_string(t->size());
        for (size_t k = 0; k < f.size(); k++)
            if (f[k].name != (*t)[k].name || f[k].type != (*t)[k].type || f[k].size != (*t)[k].size || f[k].dt != (*t)[k].dt)
                return "klass " + n.second + " field " + std::to_string(k) + " described as " + f[k].type + " " + f[k].name + " size " + std::to_string(f[k].size) + " type " + std::to_string(f[k].dt);
    }
    if (!sys) return "system info missing";
    return "";
}

const char* uk_name(int k) { static const char* n[] = {"SimInts", "SimStr", "SimMix", "SimDerived", "SimDeep", "HT_Event", "SimDouble"}; return n[k]; }

static std::string gen_str(Rng& r, size_t maxstr) {
    size_t n = 0;
    switch (r.below(6)) { case 0: n = 0; break; case 1: n = r.below(4); break; case 2: n = r.below(34); break; case 3: n = 30 + r.below(5); break; case 4: n = r.below(maxstr + 1); break; default: n = r.below(12); }
    if (n > maxstr) n = maxstr;
    std::string s(n, 0);
    for (auto& c : s) c = (char)(r.chance(1, 3) ? 1 + r.below(255) : 'a' + r.below(26));
    return s;
}
static int64_t gen_int(Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return -1; case 2: return (int64_t)r.next(); case 3: return (int64_t)1 << r.below(64); default: return (int64_t)r.below(300) - 150; } }
UEv gen_ev(Rng& r, uint32_t tag, unsigned kmask, size_t maxstr, bool nulls) {
    UEv e; e.tag = tag;
    do e.k = (int)r.below(UK_COUNT); while (!(kmask >> e.k & 1));
    for (auto& v : e.i) v = gen_int(r);
    e.s1 = gen_str(r, maxstr); e.s2 = gen_str(r, maxstr / 2);
    if (nulls && r.chance(1, 8)) { e.null1 = true; e.s1.clear(); }
    if (nulls && r.chance(1, 8)) { e.null2 = true; e.s2.clear(); }
    e.x = (double)(int64_t)r.next() / 3.0;
    e.auto_hdr = e.k != UK_BASE && r.chance(1, 2);
    e.ts = r.chance(1, 3) ? (uint64_t)gen_int(r) : r.below(1000000);
    e.id = e.k == UK_BASE ? 0xE000000000000000ull | tag : r.next() & 0x7fffffffffffffffull;
    return e;
}
bool ev_tag(const DEv& d, uint32_t* tag) {
    if (d.name == "HT_Event") { *tag = (uint32_t)d.id; return true; }
    auto i = d.v.find("tag");
    if (i == d.v.end()) return false;
    *tag = (uint32_t)i->second.u; return true;
}
static std::string hexs(const std::string& s) {
    std::string o; for (unsigned char c : s.substr(0, 60)) { if (c >= 0x20 && c < 0x7f) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    if (s.size() > 60) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}
std::string show(const DEv& d) {
    std::string o = d.name + "{id=" + std::to_string(d.id) + " ts=" + std::to_string(d.ts);
    for (auto& f : d.v) o += " " + f.first + "=" + (f.second.is_str ? "\"" + hexs(f.second.s) + "\"" : std::to_string(f.second.u));
    return o + "}";
}
std::string check_ev(const DEv& d, const UEv& e) {
    if (d.name != uk_name(e.k)) return std::string("pushed as ") + uk_name(e.k) + ", read back as " + show(d);
    if (!e.auto_hdr) {
        if (d.ts != e.ts) return "timestamp " + std::to_string(e.ts) + " read back in " + show(d);
        if (d.id != e.id) return "id " + std::to_string(e.id) + " read back in " + show(d);
    }
    std::string bad;
    auto U = [&](const char* n, uint64_t v, unsigned sz) {
        uint64_t m = sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1;
        auto it = d.v.find(n);
        if (bad.empty() && (it == d.v.end() || it->second.u != (v & m))) bad = std::string("field ") + n + " pushed " + std::to_string(v & m) + ", read back " + show(d);
    };
    auto S = [&](const char* n, const std::string& s) {
        auto it = d.v.find(n);
        if (bad.empty() && (it == d.v.end() || it->second.s != s)) bad = std::string("field ") + n + " pushed \"" + hexs(s) + "\", read back " + show(d);
    };
    if (e.k != UK_BASE) U("tag", e.tag, 4);
    switch (e.k) {
    case UK_INTS: U("a", e.i[0], 1); U("b", e.i[1], 1); U("c", e.i[2], 2); U("d", e.i[3], 2); U("e", e.i[4], 4); U("f", e.i[5], 8); U("g", e.i[6], 8); break;
    case UK_STR: S("s", e.s1); break;
    case UK_MIX: S("s1", e.s1); U("n", e.i[4], 4); S("s2", e.s2); U("last", e.i[1], 1); break;
    case UK_DERIVED: S("s", e.s1); U("extra", e.i[3], 2); break;
    case UK_DEEP: S("s", e.s1); U("extra", e.i[3], 2); S("tail", e.s2); break;
    case UK_DOUBLE: { uint64_t b; memcpy(&b, &e.x, 8); U("x", b, 8); U("y", e.i[3], 2); break; }
    default: break;
    }
    return bad;
}
std::string check_all(const std::vector<DEv>& ev, size_t from, const Ledger& l, const std::set<std::string>& ignore, bool allow_missing_suffix) {
    std::map<unsigned, uint64_t> next; std::set<uint32_t> seen; std::map<unsigned, std::vector<uint32_t>> lanes;
    for (auto& e : l.evs) lanes[tag_lane(e.first)].push_back(e.first);     // sorted by tag
    for (size_t i = from; i < ev.size(); i++) {
        if (ignore.count(ev[i].name)) continue;
        uint32_t tag;
        if (!ev_tag(ev[i], &tag)) return "unexpected event " + show(ev[i]);
        auto it = l.evs.find(tag);
        if (it == l.evs.end()) return "event nobody pushed: " + show(ev[i]);
        if (!seen.insert(tag).second) return "event delivered twice: " + show(ev[i]);
        std::string s = check_ev(ev[i], it->second);
        if (!s.empty()) return s;
        auto& ln = lanes[tag_lane(tag)]; uint64_t& n = next[tag_lane(tag)];
        if (n >= ln.size() || ln[n] != tag) return "lane " + std::to_string(tag_lane(tag)) + ": event #" + std::to_string(tag_seq(tag)) + " arrived where #" + (n < ln.size() ? std::to_string(tag_seq(ln[n])) : "end") + " was expected (lost or out of order)";
        n++;
    }
    if (!allow_missing_suffix)
        for (auto& x : lanes) if (next[x.first] != x.second.size()) return "lane " + std::to_string(x.first) + ": only " + std::to_string(next[x.first]) + " of " + std::to_string(x.second.size()) + " pushed events were delivered";
    return "";
}
uint64_t hash_bytes(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

void lib_init(long gb, bool dbl) {
    if (dbl) user_names.push_back("SimDouble");
    bool back = knob("registered_backwards", 0, 3) == 3; if (back) probe("derived event types registered first");
    Sut s; static char a0[] = "app", a1[] = "--ht-global-timeline-buffer-size", a2[32]; char* av[] = {a0, a1, a2, nullptr};
    snprintf(a2, sizeof a2, "%ld", gb);
    ht_init(gb >= 0 ? 3 : 1, av); user_register_klasses(dbl, back);
}
static uint64_t oom_count, oom_at;
static void* oom_realloc(void* p, size_t n, void*) {
    if (!n) { free(p); return nullptr; }
    { Har h; if (++oom_count == oom_at) { note_fault(F_ALLOC_FAIL); return nullptr; } }
    return realloc(p, n);
}
bool scarce(const std::function<bool()>& make, unsigned first) {
    static unsigned calls; unsigned k = calls++;
    if (knob("short_of_memory", 0, 7) != 7) return make();
    Rng r(seed() ^ (0xa110c + k));
    { Sut s; ht_allocator_set(oom_realloc, nullptr); }
    oom_count = 0; oom_at = first && r.chance(1, 2) ? first - r.below(std::min(first, 3u)) : first ? 1 + r.below(first) : 1 + r.below(1 + r.below(9));
    bool ok = make(), hit = oom_count >= oom_at; oom_at = 0;
    if (hit) probe(ok ? "created although memory was short" : "creation failed for lack of memory");
    return ok || make();
}
void lib_deinit() { Sut s; ht_deinit(); }

void Decoder::seed_known(bool dbl) {
    for (int k = 0; k < UK_COUNT; k++) {
        if (k == UK_DOUBLE && !dbl) continue;
        if (k == UK_BASE) continue;
        KlassDef d; d.id = user_klass_id(k); d.name = uk_name(k); d.fields = *true_klass(d.name); d.declared = (unsigned)d.fields.size(); d.seen = 1;
        ks[d.id] = d;
    }
    for (auto& n : core_names) {
        uint32_t id = user_core_id(n.c_str());
        if (id < 4) continue;
        KlassDef d; d.id = id; d.name = n; d.fields = *true_klass(n); d.declared = (unsigned)d.fields.size(); d.seen = 1; ks[id] = d;
    }
}
void rec_cb(void* events, size_t size, unsigned ser, void* ud) {
    Har h; Rec* r = (Rec*)ud;
    if (r->destroyed > 0) fail("callback-after-destroy", "a listener was called after its destroy callback");
    if (r->in_call) r->overlap = true;
    r->in_call = true;
    r->calls++;
    if (!!ser != r->ser) fail("wrong-serialized-flag", "listener told serialized=%u on a timeline with serialize=%d", ser, r->ser);
    if (!size) fail("empty-batch", "listener called with no data");
    if (!heap_addressable(events, size)) fail("bad-batch-memory", "batch of %zu bytes is not addressable memory", size);
    if (r->slow) yield();
    std::vector<UEv> raw;
    if (ser) {
        std::string b((const char*)events, size); size_t used = 0, n0 = r->ev.size();
        r->dec.decode(b, r->ev, &used);
        if (!r->dec.err.empty()) fail("malformed-batch", "%s", r->dec.err.c_str());
        if (used != size) fail("malformed-batch", "batch of %zu bytes ends inside an event (%zu decoded)", size, used);
        for (size_t i = n0; i < r->ev.size(); i++) {
            uint32_t t; if (!ev_tag(r->ev[i], &t)) continue;
            if (r->led) { auto it = r->led->evs.find(t); if (it == r->led->evs.end()) fail("phantom-event", "delivered %s, which nobody pushed", show(r->ev[i]).c_str()); std::string s = check_ev(r->ev[i], it->second); if (!s.empty()) fail("content-mismatch", "%s", s.c_str()); }
            r->tags.push_back(t);
            if (!r->seen.insert(t).second) fail("delivered-twice", "one listener received event %u/%u twice", tag_lane(t), tag_seq(t));
        }
    } else {
        const char* p = (const char*)events; size_t left = size;
        while (left) {
            UEv e; size_t n = left < sizeof(HT_Event) ? 0 : user_unpack(p, e);
            if (!n || n > left) fail("malformed-batch", "unserialised batch of %zu bytes does not hold whole events", size);
            if (r->led) {
                auto it = r->led->evs.find(e.tag); if (it == r->led->evs.end()) fail("phantom-event", "delivered event %u/%u, which nobody pushed", tag_lane(e.tag), tag_seq(e.tag));
                const UEv& w = it->second;
                bool same = w.k == e.k && w.null1 == e.null1;
                if (w.k == UK_STR || w.k == UK_MIX || w.k == UK_DERIVED || w.k == UK_DEEP) same = w.k == e.k && w.s1 == e.s1; else same = w.k == e.k;
                if (!w.auto_hdr && (w.ts != e.ts || w.id != e.id)) same = false;
                if (w.k == UK_INTS && (w.i[5] != e.i[5] || w.i[6] != e.i[6] || (int8_t)w.i[0] != e.i[0])) same = false;
                if (!same) fail("content-mismatch", "event %u/%u reached a listener with other content", tag_lane(e.tag), tag_seq(e.tag));
            }
            r->tags.push_back(e.tag);
            if (!r->seen.insert(e.tag).second) fail("delivered-twice", "one listener received event %u/%u twice", tag_lane(e.tag), tag_seq(e.tag));
            p += n; left -= n;
        }
    }
    if (r->slow) yield();
    r->in_call = false;
}
void rec_destroy(void* ud) {
    Har h; Rec* r = (Rec*)ud;
    if (r->in_call) fail("destroy-during-call", "destroy callback ran while the listener's own callback was running");
    if (++r->destroyed > 1) fail("destroyed-twice", "a listener's destroy callback ran twice");
}
