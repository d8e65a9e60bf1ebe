// Reference model of the HTDUMP stream: written from docs/design/htdump_format.md and the headers, shares no code
// with the product.
#pragma once
#include "rt.h"
#include "user_code.h"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Val { bool is_str = false; uint64_t u = 0; std::string s; uint8_t dt = 0; uint64_t size = 0; };
struct DEv {
    uint32_t klass = 0; uint64_t ts = 0, id = 0;
    std::string name;                       // name of the klass, from the stream's own metadata
    std::map<std::string, Val> v;           // flattened fields
    size_t off = 0, len = 0;
    std::map<std::string, std::string> v_s; std::map<std::string, uint64_t> v_u;      // scratch for unserialised metadata
    uint64_t u(const char* k) const { auto i = v.find(k); return i == v.end() ? ~0ull : i->second.u; }
    std::string s(const char* k) const { auto i = v.find(k); return i == v.end() ? std::string("<missing>") : i->second.s; }
};
struct FieldDef { std::string type, name; uint64_t size; uint8_t dt; };
struct KlassDef { uint32_t id = 0; std::string name; unsigned declared = 0; std::vector<FieldDef> fields; bool builtin = false; unsigned seen = 0; };
struct Decoder {
    std::map<uint32_t, KlassDef> ks;
    std::vector<std::pair<size_t, unsigned>>* nums = nullptr;   // where the integers of the stream are
    std::string err;            // malformed stream
    bool truncated = false;     // bytes ended inside an event
    Decoder();
    // Decodes events from b starting at pos; appends to out.  Stops at the end, at a truncated event or at an error.
    void decode(const std::string& b, std::vector<DEv>& out, size_t* consumed = nullptr);
    void seed_known(bool with_double);      // learn the klasses the application registered, without reading metadata
    bool one(const std::string& b, size_t pos, DEv& e);
private:
    bool fields(const std::string& b, size_t& p, const KlassDef& k, DEv& e, int depth);
    bool num(const std::string& b, size_t& p, unsigned n, uint64_t& v);
    bool str(const std::string& b, size_t& p, std::string& s);
    void learn(const DEv& e);
};
// the bytes a machine of the other byte order would have written
std::string other_endian(const std::string& b);
// true description of every klass the harness uses
const std::vector<FieldDef>* true_klass(const std::string& name);
// "" when the metadata prefix is exactly right: endianness event first, each klass of `names` (plus core) described
// exactly once with the true fields before the first other event, system info present.  n_meta = events in it.
std::string check_metadata(const std::vector<DEv>& ev, const Decoder& d, const std::vector<std::string>& user_names, size_t* n_meta);
extern const std::vector<std::string> core_names; extern std::vector<std::string> user_names;
const char* uk_name(int k);
UEv gen_ev(sim::Rng& r, uint32_t tag, unsigned kmask, size_t maxstr, bool nulls);
std::string check_ev(const DEv& d, const UEv& e);     // "" when equal
bool ev_tag(const DEv& d, uint32_t* tag);             // tag of a Sim*/raw event
std::string show(const DEv& d);
uint64_t hash_bytes(const std::string& s);
std::string hostile_name(unsigned i);       // names 2k and 2k+1 differ in ways a weak hash does not see

// library setup shared by the scenarios
void lib_init(long global_buf = -1, bool with_double = false);          // ht_init + user klasses, inside a Sut section
void lib_deinit();
// make() creates something and says whether it could.  In one run of eight an allocation of the library fails meanwhile; the
// application carries on and tries again: what it gets, at either attempt, must be as good as any other.
bool scarce(const std::function<bool()>& make, unsigned first = 0);

// Ledger of what the application pushed, for one logical destination.
struct Ledger {
    std::map<uint32_t, UEv> evs;               // by tag
    std::map<uint32_t, uint64_t> seq;          // tag -> position in its stream
    UEv& add(const UEv& e) { return evs[e.tag] = e; }
};
// tag = lane << 20 | seq ; lane = producer; in-order per lane
inline uint32_t mk_tag(unsigned lane, unsigned seq) { return lane << 20 | seq; }
inline unsigned tag_lane(uint32_t t) { return t >> 20; }
inline unsigned tag_seq(uint32_t t) { return t & 0xfffff; }
// Checks that `ev[from..]` holds every ledger event exactly once, equal, in lane order, and nothing else
// (events of klasses named in `ignore` are skipped).
std::string check_all(const std::vector<DEv>& ev, size_t from, const Ledger& l, const std::set<std::string>& ignore, bool allow_missing_suffix = false);

// A listener the "application" registers itself: records what it is told.
struct Rec {
    std::vector<DEv> ev; Decoder dec; int destroyed = 0; bool ser = true; uint64_t calls = 0, reg_start = 0, reg_end = 0; bool slow = false; bool in_call = false, overlap = false;
    std::vector<uint32_t> tags;
    const Ledger* led = nullptr;
    std::set<uint32_t> seen;
};
void rec_cb(void* events, size_t size, unsigned ser, void* ud);
void rec_destroy(void* ud);
