// "Application" code that calls the product's public API and macros.  Compiled with the product's flags so that
// its memory accesses are scheduling points too.
#pragma once
#include <hawktracer.h>
#include <cstdint>
#include <string>
#include <vector>

enum UK { UK_INTS, UK_STR, UK_MIX, UK_DERIVED, UK_DEEP, UK_BASE, UK_DOUBLE, UK_COUNT };
struct UEv {
    int k = 0; uint32_t tag = 0;
    int64_t i[7] = {0};
    std::string s1, s2; bool null1 = false, null2 = false;
    double x = 0;
    bool auto_hdr = false; uint64_t ts = 0, id = 0;
};
void user_register_klasses(bool with_double, bool backwards = false);
uint32_t user_register_one(int n);            // SimReg<n>
HT_EventKlass* user_reg_klass(int n);
HT_EventKlassId user_klass_id(int k);
void user_register_shadow();
void user_push_shadow(HT_Timeline* t, const UEv& e);   // SimShadow
void user_push(HT_Timeline* t, const UEv& e);
void user_push_reg(HT_Timeline* t, int n, uint32_t tag, uint32_t v);
HT_EventKlass* user_make_klass(const char* name);       // a klass laid out like SimReg0, made at run time
void user_push_made(HT_Timeline* t, HT_EventKlass* k, uint32_t tag, uint32_t v);
size_t user_struct_size(int k);
size_t user_wire_size(const UEv& e);
// Reads an unserialised event back (its klass is known from the address of the klass object).  Returns its size, 0 when unknown.
size_t user_unpack(const void* p, UEv& out);
#include <map>
size_t user_unpack_meta(const void* p, size_t left, std::string& name, std::map<std::string, std::string>& ss, std::map<std::string, uint64_t>& us);
uint32_t user_core_id(const char* name);
// klasses SimW1..SimW24 with that many fields of their own (user_wide.cpp)
struct UWField { const char *type, *name; bool is_str; size_t size; };
uint32_t user_wide_register(int n);
size_t user_wide_sizeof(int n);
void user_wide_fields(int n, std::vector<UWField>& out);
void user_wide_push_macro(HT_Timeline* t, int n, const uint64_t* v, const char* const* s);
void user_wide_push_fill(HT_Timeline* t, int n, const uint64_t* v, const char* const* s);
