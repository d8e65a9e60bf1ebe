// Tracepoint users: C and C++ macros of the product.
#pragma once
#ifdef __cplusplus
#include <hawktracer.h>
extern "C" {
#else
#include <hawktracer/tracepoint.h>
#include <hawktracer/scoped_tracepoint.h>
#endif
typedef void (*user_body)(void* ud);
void user_static_site_c(int n, HT_Timeline* t, user_body body, void* ud);
extern const char* const user_site_text_c[8];
void user_scoped_c(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud);
uint64_t user_dur_c(unsigned n, uint64_t* want);
#ifdef __cplusplus
}
HT_DurationNs user_dur_98(unsigned n, HT_DurationNs* want);
uint64_t user_dur_11(unsigned n, uint64_t* want);
#include <string>
void user_scoped_cpp98(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud);   // compiled as C++98
void user_scoped_cpp(HT_Timeline* t, int string, uint64_t label, const char* s, user_body body, void* ud);
void user_register_client_klasses();
void user_start_span(HT_Timeline* t, const char* label, const char* note, uint64_t v);
void user_push_named(HT_Timeline* t, const char* name, int32_t v);
void user_push_mapping(HT_Timeline* t, uint64_t id, const char* label);
void user_push_noise(HT_Timeline* t, uint64_t v, const char* s);
void user_start_call(HT_Timeline* t, uint32_t tag, const char* note);
uint32_t user_register_call();
struct UCall { std::string name, text; uint64_t ts = 0, id = 0, dur = 0, label = 0; uint32_t tid = 0; };
size_t user_unpack_call(const void* p, size_t left, UCall& o);
// static-label tracepoints: site n in 0..17 has its own static label (sites 6 and 7 have the same text); 8..16 are written in C
void user_static_site(int n, HT_Timeline* t, user_body body, void* ud);
void user_dynamic_site(HT_Timeline* t, const char* text, user_body body, void* ud);
void user_push_use(HT_Timeline* t, uint64_t label);
const char* user_site_label(int n);
#endif
