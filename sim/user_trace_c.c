/* the macros for C convert between pointers and integers implicitly */
#pragma clang diagnostic ignored "-Wint-conversion"
#include <pthread.h>
#include "user_trace.h"
#include <hawktracer/duration_conversion.h>
#include <hawktracer/global_timeline.h>
#define USER_DURS 20
void user_scoped_c(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud)
{
    int global = t != NULL && t == ht_global_timeline_get();
    if (string && global && s[0] & 1) { HT_G_TRACE(s); body(ud); }
    else if (string && global && s[0] & 2) { HT_TP_GLOBAL_SCOPED_STRING(s); body(ud); }
    else if (global && !string && label & 1) { HT_TP_GLOBAL_SCOPED_INT(label); body(ud); }
    else if (string) { HT_TP_SCOPED_STRING(t, s); body(ud); }
    else { HT_TP_SCOPED_INT(t, label); body(ud); }
}
uint64_t user_dur_c(unsigned n, uint64_t* want)
#include "user_dur.inc"
const char* const user_site_text_c[8] = {"c alpha", "c beta", "c gamma \"quoted\"", " ", "c d\xc3\xa9lta", "c epsilon with a much longer label than the others, longer than one hundred and twenty-eight bytes, so that it takes the other path of pushing", "c same", "c same"};
void user_static_site_c(int n, HT_Timeline* t, user_body body, void* ud)
{
    if (t == ht_global_timeline_get()) switch (n) {
    case 0: { HT_G_TRACE_OPT_STATIC("c alpha"); body(ud); return; }
    case 1: { HT_TP_G_STRACEPOINT("c beta"); body(ud); return; }
    case 6: { HT_G_TRACE_OPT_STATIC("c same"); body(ud); return; }
    case 7: { HT_TP_G_FUNCTION(); body(ud); return; }
    case 8: { HT_G_TRACE_FUNCTION(); body(ud); return; }
    }
    switch (n) {
    case 0: { HT_TRACE_OPT_STATIC(t, "c alpha"); body(ud); break; }
    case 1: { HT_TRACE_OPT_STATIC(t, "c beta"); body(ud); break; }
    case 2: { HT_TRACE_OPT_STATIC(t, "c gamma \"quoted\""); body(ud); break; }
    case 3: { HT_TRACE_OPT_STATIC(t, " "); body(ud); break; }
    case 4: { HT_TRACE_OPT_STATIC(t, "c d\xc3\xa9lta"); body(ud); break; }
    case 5: { HT_TRACE_OPT_STATIC(t, "c epsilon with a much longer label than the others, longer than one hundred and twenty-eight bytes, so that it takes the other path of pushing"); body(ud); break; }
    case 6: { HT_TRACE_OPT_STATIC(t, "c same"); body(ud); break; }
    default: { HT_TRACE_FUNCTION_OPT(t); body(ud); }
    }
}
