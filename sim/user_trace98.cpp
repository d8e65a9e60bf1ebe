// An application written in C++98: the headers of the product take other paths there.
#include <hawktracer.h>
#include <hawktracer/duration_conversion.h>
#include <hawktracer/global_timeline.h>
#define USER_DURS 20
#include <hawktracer/tracepoint.h>
extern "C" { typedef void (*user_body)(void* ud); }
void user_scoped_cpp98(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud) {
    bool global = t && t == ht_global_timeline_get();
    if (string && global && s[0] & 1) { HT_G_TRACE(s); body(ud); }
    else if (global && !string && label & 1) { HT_TP_GLOBAL_SCOPED_INT(label); body(ud); }
    else if (string) { HT_TRACE(t, s); body(ud); }
    else { HT_TP_SCOPED_INT(t, label); body(ud); }
}
HT_DurationNs user_dur_98(unsigned n, HT_DurationNs* want)
#include "user_dur.inc"
