#include "user_trace.h"
#include "user_klasses.h"
#include <hawktracer/tracepoint.h>
#include <hawktracer/duration_conversion.h>
#include <hawktracer/global_timeline.h>
#define USER_DURS 20
void user_scoped_cpp(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud) {
    bool global = t && t == ht_global_timeline_get();
    if (string && global && s[0] & 1) { HT_G_TRACE(s); body(ud); }
    else if (string && global && s[0] & 2) { HT_TP_GLOBAL_SCOPED_STRING(s); body(ud); }
    else if (global && !string && label & 1) { HT_TP_GLOBAL_SCOPED_INT(label); body(ud); }
    else if (string) { HT_TRACE(t, s); body(ud); }
    else { HT_TP_SCOPED_INT(t, label); body(ud); }
}
uint32_t user_register_call() { return HT_REGISTER_EVENT_KLASS(SimCall); }
void user_start_call(HT_Timeline* t, uint32_t tag, const char* note) {
    HT_DECL_EVENT(SimCall, e); e.tag = tag; e.note = note; e.pad1 = ~(uint64_t)tag; e.pad2 = tag * 3ull;
    ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e);
}
size_t user_unpack_call(const void* p, size_t left, UCall& o) {
    if (left < sizeof(HT_Event)) return 0;
    const HT_Event* b = (const HT_Event*)p; HT_EventKlass* k = b->klass; o.ts = b->timestamp; o.id = b->id;
#define BASE const HT_CallstackBaseEvent* c = (const HT_CallstackBaseEvent*)p; o.dur = c->duration; o.tid = c->thread_id;
    if (k == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) { if (left < sizeof(HT_CallstackIntEvent)) return 0; BASE o.name = "HT_CallstackIntEvent"; o.label = ((const HT_CallstackIntEvent*)p)->label; return sizeof(HT_CallstackIntEvent); }
    if (k == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)) { if (left < sizeof(HT_CallstackStringEvent)) return 0; BASE o.name = "HT_CallstackStringEvent"; o.text = ((const HT_CallstackStringEvent*)p)->label; return sizeof(HT_CallstackStringEvent); }
    if (k == HT_EVENT_KLASS_GET(SimCall)) { if (left < sizeof(SimCall)) return 0; BASE const SimCall* s = (const SimCall*)p; o.name = "SimCall"; o.text = s->note; o.label = s->tag; if (s->pad1 != ~(uint64_t)s->tag || s->pad2 != s->tag * 3ull) o.name = "damaged SimCall"; return sizeof(SimCall); }
    if (k == HT_EVENT_KLASS_GET(HT_StringMappingEvent)) { if (left < sizeof(HT_StringMappingEvent)) return 0; o.name = "HT_StringMappingEvent"; o.label = ((const HT_StringMappingEvent*)p)->identifier; o.text = ((const HT_StringMappingEvent*)p)->label; return sizeof(HT_StringMappingEvent); }
    return 0;
}
static const char* const user_site_text[8] = {"alpha", "beta", "gamma \"quoted\"", "", "d\xc3\xa9lta", "epsilon with a much longer label than the others, longer than one hundred and twenty-eight bytes, so that it takes the other path of pushing", "same", "same"};
void user_static_site(int n, HT_Timeline* t, user_body body, void* ud) {
    if (n == 17) n = 16; else if (n >= 8) { user_static_site_c(n - 8, t, body, ud); return; }
    if (t == ht_global_timeline_get()) switch (n) {
    case 0: { HT_G_TRACE_OPT_STATIC(user_site_text[0]); body(ud); return; }
    case 1: { HT_TP_G_STRACEPOINT(user_site_text[1]); body(ud); return; }
    case 6: { HT_G_TRACE_OPT_STATIC(user_site_text[6]); body(ud); return; }
    case 7: { HT_TP_G_FUNCTION(); body(ud); return; }
    case 16: { HT_G_TRACE_FUNCTION(); body(ud); return; }
    }
    switch (n) {
    case 0: { HT_TRACE_OPT_STATIC(t, user_site_text[0]); body(ud); break; }
    case 1: { HT_TRACE_OPT_STATIC(t, user_site_text[1]); body(ud); break; }
    case 2: { HT_TRACE_OPT_STATIC(t, user_site_text[2]); body(ud); break; }
    case 3: { HT_TRACE_OPT_STATIC(t, user_site_text[3]); body(ud); break; }
    case 4: { HT_TRACE_OPT_STATIC(t, user_site_text[4]); body(ud); break; }
    case 5: { HT_TRACE_OPT_STATIC(t, user_site_text[5]); body(ud); break; }
    case 6: { HT_TRACE_OPT_STATIC(t, user_site_text[6]); body(ud); break; }
    default: { HT_TRACE_FUNCTION_OPT(t); body(ud); }
    }
}
const char* user_site_label(int n) { return n == 7 || n == 17 ? "user_static_site" : n == 15 || n == 16 ? "user_static_site_c" : n < 8 ? user_site_text[n] : user_site_text_c[n - 8]; }
void user_dynamic_site(HT_Timeline* t, const char* text, user_body body, void* ud) { if (t == ht_global_timeline_get() && text[0] & 1) { HT_G_TRACE_OPT_DYNAMIC(text); body(ud); } else { HT_TRACE_OPT_DYNAMIC(t, text); body(ud); } }
void user_push_use(HT_Timeline* t, uint64_t label) { HT_DECL_EVENT(HT_CallstackIntEvent, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.base.duration = 1; e.base.thread_id = 1; e.label = label; ht_timeline_push_event(t, HT_EVENT(&e)); }
void user_register_client_klasses() { HT_REGISTER_EVENT_KLASS(SimSpan); HT_REGISTER_EVENT_KLASS(SimNamed); }
void user_start_span(HT_Timeline* t, const char* label, const char* note, uint64_t v) {
    HT_DECL_EVENT(SimSpan, e); e.label = label; e.note = note; e.s8 = (int8_t)v; e.u8 = (uint8_t)(v >> 8); e.s16 = (int16_t)(v >> 16); e.u32 = (uint32_t)(v >> 24); e.s64 = (int64_t)v;
    ht_feature_callstack_start(t, (HT_CallstackBaseEvent*)&e);
}
void user_push_named(HT_Timeline* t, const char* name, int32_t v) { HT_TIMELINE_PUSH_EVENT(t, SimNamed, name, v); }
void user_push_mapping(HT_Timeline* t, uint64_t id, const char* label) { HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, (uintptr_t)id, label); }
void user_push_noise(HT_Timeline* t, uint64_t v, const char* s) { HT_TIMELINE_PUSH_EVENT(t, SimStr, (uint32_t)v, s); }
uint64_t user_dur_11(unsigned n, uint64_t* want)
#include "user_dur.inc"
