#include "user_code.h"
#include "user_klasses.h"

void user_register_klasses(bool with_double, bool backwards) {
    if (backwards) {     // derived event types are registered (and described in the stream) before the ones they extend
        HT_REGISTER_EVENT_KLASS(SimDeep); HT_REGISTER_EVENT_KLASS(SimDerived); if (with_double) HT_REGISTER_EVENT_KLASS(SimDouble);
        HT_REGISTER_EVENT_KLASS(SimMix); HT_REGISTER_EVENT_KLASS(SimStr); HT_REGISTER_EVENT_KLASS(SimInts); return;
    }
    HT_REGISTER_EVENT_KLASS(SimInts); HT_REGISTER_EVENT_KLASS(SimStr); HT_REGISTER_EVENT_KLASS(SimMix);
    HT_REGISTER_EVENT_KLASS(SimDerived); HT_REGISTER_EVENT_KLASS(SimDeep);
    if (with_double) HT_REGISTER_EVENT_KLASS(SimDouble);
}
void user_register_shadow() { HT_REGISTER_EVENT_KLASS(SimShadow); }
void user_push_shadow(HT_Timeline* t, const UEv& e) {
    HT_DECL_EVENT(SimShadow, ev); ev.base.tag = e.tag; ev.base.s = e.s1.c_str(); ev.id = (uint16_t)e.i[3]; ev.s = (uint64_t)e.i[5]; ev.end = (uint8_t)e.i[1];
    ht_timeline_push_event(t, (HT_Event*)&ev);
}
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18)
uint32_t user_register_one(int n) {
    switch (n) {
#define R(N) case N: return HT_REGISTER_EVENT_KLASS(SimReg##N);
    ALL(R)
    }
    return 0;
}
HT_EventKlass* user_reg_klass(int n) {
    switch (n) {
#define G(N) case N: return HT_EVENT_KLASS_GET(SimReg##N);
    ALL(G)
    }
    return nullptr;
}
void user_push_reg(HT_Timeline* t, int n, uint32_t tag, uint32_t v) {
    switch (n) {
#define P(N) case N: { HT_TIMELINE_PUSH_EVENT(t, SimReg##N, tag, v); break; }
    ALL(P)
    }
}
HT_EventKlass* user_make_klass(const char* name) {
    struct M { HT_EventKlass k; MKCREFLECT_TypeInfo i; };
    M* m = new M; m->k = *HT_EVENT_KLASS_GET(SimReg0); m->i = *m->k.type_info; m->i.name = name; m->k.type_info = &m->i; m->k.klass_id = HT_INVALID_KLASS_ID;
    return &m->k;
}
void user_push_made(HT_Timeline* t, HT_EventKlass* k, uint32_t tag, uint32_t v) {
    HT_DECL_EVENT(SimReg0, ev); HT_EVENT(&ev)->klass = k; ht_timeline_init_event(t, HT_EVENT(&ev)); ev.tag = tag; ev.r0 = v; ht_timeline_push_event(t, HT_EVENT(&ev));
}
HT_EventKlassId user_klass_id(int k) {
    switch (k) {
    case UK_INTS: return HT_EVENT_KLASS_GET(SimInts)->klass_id;
    case UK_STR: return HT_EVENT_KLASS_GET(SimStr)->klass_id;
    case UK_MIX: return HT_EVENT_KLASS_GET(SimMix)->klass_id;
    case UK_DERIVED: return HT_EVENT_KLASS_GET(SimDerived)->klass_id;
    case UK_DEEP: return HT_EVENT_KLASS_GET(SimDeep)->klass_id;
    case UK_BASE: return HT_EVENT_KLASS_GET(HT_Event)->klass_id;
    default: return HT_EVENT_KLASS_GET(SimDouble)->klass_id;
    }
}
size_t user_struct_size(int k) {
    static const size_t s[] = {sizeof(SimInts), sizeof(SimStr), sizeof(SimMix), sizeof(SimDerived), sizeof(SimDeep), sizeof(HT_Event), sizeof(SimDouble)};
    return s[k];
}
size_t user_wire_size(const UEv& e) {
    size_t a = (e.null1 ? 0 : e.s1.size()) + 1, b = (e.null2 ? 0 : e.s2.size()) + 1;
    switch (e.k) {
    case UK_INTS: return 20 + 4 + 1 + 1 + 2 + 2 + 4 + 8 + 8;
    case UK_STR: return 20 + 4 + a;
    case UK_MIX: return 20 + 4 + a + 4 + b + 1;
    case UK_DERIVED: return 20 + 4 + a + 2;
    case UK_DEEP: return 20 + 4 + a + 2 + b;
    case UK_BASE: return 20;
    default: return 20 + 4 + 8 + 2;
    }
}
template <class T> static void put(HT_Timeline* t, T& ev, const UEv& e) {
    HT_Event* b = HT_EVENT(&ev);
    if (e.auto_hdr) ht_timeline_init_event(t, b);
    else { b->timestamp = e.ts; b->id = e.id; }
    ht_timeline_push_event(t, b);
}
void user_push(HT_Timeline* t, const UEv& e) {
    const char* s1 = e.null1 ? nullptr : e.s1.c_str();
    const char* s2 = e.null2 ? nullptr : e.s2.c_str();
    switch (e.k) {
    case UK_INTS: {
        if (e.auto_hdr && (e.tag & 1)) {
            HT_TIMELINE_PUSH_EVENT(t, SimInts, e.tag, (int8_t)e.i[0], (uint8_t)e.i[1], (int16_t)e.i[2], (uint16_t)e.i[3], (int32_t)e.i[4], (uint64_t)e.i[5], e.i[6]);
            break;
        }
        HT_DECL_EVENT(SimInts, ev);
        ev.tag = e.tag; ev.a = (int8_t)e.i[0]; ev.b = (uint8_t)e.i[1]; ev.c = (int16_t)e.i[2]; ev.d = (uint16_t)e.i[3]; ev.e = (int32_t)e.i[4]; ev.f = (uint64_t)e.i[5]; ev.g = e.i[6];
        put(t, ev, e); break;
    }
    case UK_STR: { HT_DECL_EVENT(SimStr, ev); ev.tag = e.tag; ev.s = s1; put(t, ev, e); break; }
    case UK_MIX: { HT_DECL_EVENT(SimMix, ev); ev.tag = e.tag; ev.s1 = s1; ev.n = (int32_t)e.i[4]; ev.s2 = s2; ev.last = (uint8_t)e.i[1]; put(t, ev, e); break; }
    case UK_DERIVED: { HT_DECL_EVENT(SimDerived, ev); ev.base.tag = e.tag; ev.base.s = s1; ev.extra = (uint16_t)e.i[3]; put(t, ev, e); break; }
    case UK_DEEP: { HT_DECL_EVENT(SimDeep, ev); ev.base.base.tag = e.tag; ev.base.base.s = s1; ev.base.extra = (uint16_t)e.i[3]; ev.tail = s2; put(t, ev, e); break; }
    case UK_BASE: { HT_DECL_EVENT(HT_Event, ev); put(t, ev, e); break; }
    default: { HT_DECL_EVENT(SimDouble, ev); ev.tag = e.tag; ev.x = e.x; ev.y = (uint16_t)e.i[3]; put(t, ev, e); break; }
    }
}
size_t user_unpack(const void* p, UEv& o) {
    const HT_Event* b = (const HT_Event*)p;
    HT_EventKlass* k = b->klass;
    o.ts = b->timestamp; o.id = b->id;
    auto str = [](const char* s, std::string& d, bool& null) { null = !s; d = s ? s : ""; };
    if (k == HT_EVENT_KLASS_GET(SimInts)) { const SimInts* e = (const SimInts*)p; o.k = UK_INTS; o.tag = e->tag; o.i[0] = e->a; o.i[1] = e->b; o.i[2] = e->c; o.i[3] = e->d; o.i[4] = e->e; o.i[5] = (int64_t)e->f; o.i[6] = e->g; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(SimStr)) { const SimStr* e = (const SimStr*)p; o.k = UK_STR; o.tag = e->tag; str(e->s, o.s1, o.null1); return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(SimMix)) { const SimMix* e = (const SimMix*)p; o.k = UK_MIX; o.tag = e->tag; str(e->s1, o.s1, o.null1); o.i[4] = e->n; str(e->s2, o.s2, o.null2); o.i[1] = e->last; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(SimDerived)) { const SimDerived* e = (const SimDerived*)p; o.k = UK_DERIVED; o.tag = e->base.tag; str(e->base.s, o.s1, o.null1); o.i[3] = e->extra; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(SimDeep)) { const SimDeep* e = (const SimDeep*)p; o.k = UK_DEEP; o.tag = e->base.base.tag; str(e->base.base.s, o.s1, o.null1); o.i[3] = e->base.extra; str(e->tail, o.s2, o.null2); return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(SimDouble)) { const SimDouble* e = (const SimDouble*)p; o.k = UK_DOUBLE; o.tag = e->tag; o.x = e->x; o.i[3] = e->y; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(HT_Event)) { o.k = UK_BASE; o.tag = (uint32_t)b->id; return sizeof *b; }
    return 0;
}

#include <cstring>
uint32_t user_core_id(const char* n) {
#define C(K) if (!strcmp(n, #K)) return HT_EVENT_KLASS_GET(K)->klass_id;
    C(HT_EndiannessInfoEvent) C(HT_Event) C(HT_EventKlassInfoEvent) C(HT_EventKlassFieldInfoEvent) C(HT_CallstackBaseEvent)
    C(HT_CallstackIntEvent) C(HT_CallstackStringEvent) C(HT_StringMappingEvent) C(HT_SystemInfoEvent)
    return ~0u;
}

size_t user_unpack_meta(const void* p, size_t left, std::string& name, std::map<std::string, std::string>& ss, std::map<std::string, uint64_t>& us) {
    if (left < sizeof(HT_Event)) return 0;
    HT_EventKlass* k = ((const HT_Event*)p)->klass;
    if (k == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent) && left >= sizeof(HT_EndiannessInfoEvent)) { auto* e = (const HT_EndiannessInfoEvent*)p; name = "HT_EndiannessInfoEvent"; us["endianness"] = e->endianness; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent) && left >= sizeof(HT_EventKlassInfoEvent)) { auto* e = (const HT_EventKlassInfoEvent*)p; name = "HT_EventKlassInfoEvent"; us["info_klass_id"] = e->info_klass_id; us["field_count"] = e->field_count; ss["event_klass_name"] = e->event_klass_name; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent) && left >= sizeof(HT_EventKlassFieldInfoEvent)) { auto* e = (const HT_EventKlassFieldInfoEvent*)p; name = "HT_EventKlassFieldInfoEvent"; us["info_klass_id"] = e->info_klass_id; us["size"] = e->size; us["data_type"] = e->data_type; ss["field_type"] = e->field_type; ss["field_name"] = e->field_name; return sizeof *e; }
    if (k == HT_EVENT_KLASS_GET(HT_SystemInfoEvent) && left >= sizeof(HT_SystemInfoEvent)) { auto* e = (const HT_SystemInfoEvent*)p; name = "HT_SystemInfoEvent"; us["version_major"] = e->version_major; return sizeof *e; }
    return 0;
}
