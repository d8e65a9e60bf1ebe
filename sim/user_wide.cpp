// generated by tools/gen_wide.py
#include "user_code.h"
#include "user_wide.h"
uint32_t user_wide_register(int n) {
    switch (n) {
    case 1: return HT_REGISTER_EVENT_KLASS(SimW1);
    case 2: return HT_REGISTER_EVENT_KLASS(SimW2);
    case 3: return HT_REGISTER_EVENT_KLASS(SimW3);
    case 4: return HT_REGISTER_EVENT_KLASS(SimW4);
    case 5: return HT_REGISTER_EVENT_KLASS(SimW5);
    case 6: return HT_REGISTER_EVENT_KLASS(SimW6);
    case 7: return HT_REGISTER_EVENT_KLASS(SimW7);
    case 8: return HT_REGISTER_EVENT_KLASS(SimW8);
    case 9: return HT_REGISTER_EVENT_KLASS(SimW9);
    case 10: return HT_REGISTER_EVENT_KLASS(SimW10);
    case 11: return HT_REGISTER_EVENT_KLASS(SimW11);
    case 12: return HT_REGISTER_EVENT_KLASS(SimW12);
    case 13: return HT_REGISTER_EVENT_KLASS(SimW13);
    case 14: return HT_REGISTER_EVENT_KLASS(SimW14);
    case 15: return HT_REGISTER_EVENT_KLASS(SimW15);
    case 16: return HT_REGISTER_EVENT_KLASS(SimW16);
    case 17: return HT_REGISTER_EVENT_KLASS(SimW17);
    case 18: return HT_REGISTER_EVENT_KLASS(SimW18);
    case 19: return HT_REGISTER_EVENT_KLASS(SimW19);
    case 20: return HT_REGISTER_EVENT_KLASS(SimW20);
    case 21: return HT_REGISTER_EVENT_KLASS(SimW21);
    case 22: return HT_REGISTER_EVENT_KLASS(SimW22);
    case 23: return HT_REGISTER_EVENT_KLASS(SimW23);
    case 24: return HT_REGISTER_EVENT_KLASS(SimW24);
    }
    return 0;
}
size_t user_wide_sizeof(int n) {
    switch (n) {
    case 1: return sizeof(SimW1);
    case 2: return sizeof(SimW2);
    case 3: return sizeof(SimW3);
    case 4: return sizeof(SimW4);
    case 5: return sizeof(SimW5);
    case 6: return sizeof(SimW6);
    case 7: return sizeof(SimW7);
    case 8: return sizeof(SimW8);
    case 9: return sizeof(SimW9);
    case 10: return sizeof(SimW10);
    case 11: return sizeof(SimW11);
    case 12: return sizeof(SimW12);
    case 13: return sizeof(SimW13);
    case 14: return sizeof(SimW14);
    case 15: return sizeof(SimW15);
    case 16: return sizeof(SimW16);
    case 17: return sizeof(SimW17);
    case 18: return sizeof(SimW18);
    case 19: return sizeof(SimW19);
    case 20: return sizeof(SimW20);
    case 21: return sizeof(SimW21);
    case 22: return sizeof(SimW22);
    case 23: return sizeof(SimW23);
    case 24: return sizeof(SimW24);
    }
    return 0;
}
void user_wide_fields(int n, std::vector<UWField>& o) {
    switch (n) {
    case 1: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}}; break;
    case 2: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int32_t", "f1", false, sizeof(int32_t)}}; break;
    case 3: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint64_t", "f1", false, sizeof(uint64_t)}, {"int8_t", "f2", false, sizeof(int8_t)}}; break;
    case 4: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int8_t", "f1", false, sizeof(int8_t)}, {"uint32_t", "f2", false, sizeof(uint32_t)}, {"const char*", "f3", true, sizeof(const char*)}}; break;
    case 5: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint32_t", "f1", false, sizeof(uint32_t)}, {"const char*", "f2", true, sizeof(const char*)}, {"uint16_t", "f3", false, sizeof(uint16_t)}, {"int64_t", "f4", false, sizeof(int64_t)}}; break;
    case 6: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"const char*", "f1", true, sizeof(const char*)}, {"uint16_t", "f2", false, sizeof(uint16_t)}, {"int64_t", "f3", false, sizeof(int64_t)}, {"uint8_t", "f4", false, sizeof(uint8_t)}, {"int16_t", "f5", false, sizeof(int16_t)}}; break;
    case 7: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint16_t", "f1", false, sizeof(uint16_t)}, {"int64_t", "f2", false, sizeof(int64_t)}, {"uint8_t", "f3", false, sizeof(uint8_t)}, {"int16_t", "f4", false, sizeof(int16_t)}, {"const char*", "f5", true, sizeof(const char*)}, {"int32_t", "f6", false, sizeof(int32_t)}}; break;
    case 8: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int64_t", "f1", false, sizeof(int64_t)}, {"uint8_t", "f2", false, sizeof(uint8_t)}, {"int16_t", "f3", false, sizeof(int16_t)}, {"const char*", "f4", true, sizeof(const char*)}, {"int32_t", "f5", false, sizeof(int32_t)}, {"uint64_t", "f6", false, sizeof(uint64_t)}, {"int8_t", "f7", false, sizeof(int8_t)}}; break;
    case 9: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint8_t", "f1", false, sizeof(uint8_t)}, {"int16_t", "f2", false, sizeof(int16_t)}, {"const char*", "f3", true, sizeof(const char*)}, {"int32_t", "f4", false, sizeof(int32_t)}, {"uint64_t", "f5", false, sizeof(uint64_t)}, {"int8_t", "f6", false, sizeof(int8_t)}, {"uint32_t", "f7", false, sizeof(uint32_t)}, {"const char*", "f8", true, sizeof(const char*)}}; break;
    case 10: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int16_t", "f1", false, sizeof(int16_t)}, {"const char*", "f2", true, sizeof(const char*)}, {"int32_t", "f3", false, sizeof(int32_t)}, {"uint64_t", "f4", false, sizeof(uint64_t)}, {"int8_t", "f5", false, sizeof(int8_t)}, {"uint32_t", "f6", false, sizeof(uint32_t)}, {"const char*", "f7", true, sizeof(const char*)}, {"uint16_t", "f8", false, sizeof(uint16_t)}, {"int64_t", "f9", false, sizeof(int64_t)}}; break;
    case 11: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"const char*", "f1", true, sizeof(const char*)}, {"int32_t", "f2", false, sizeof(int32_t)}, {"uint64_t", "f3", false, sizeof(uint64_t)}, {"int8_t", "f4", false, sizeof(int8_t)}, {"uint32_t", "f5", false, sizeof(uint32_t)}, {"const char*", "f6", true, sizeof(const char*)}, {"uint16_t", "f7", false, sizeof(uint16_t)}, {"int64_t", "f8", false, sizeof(int64_t)}, {"uint8_t", "f9", false, sizeof(uint8_t)}, {"int16_t", "f10", false, sizeof(int16_t)}}; break;
    case 12: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int32_t", "f1", false, sizeof(int32_t)}, {"uint64_t", "f2", false, sizeof(uint64_t)}, {"int8_t", "f3", false, sizeof(int8_t)}, {"uint32_t", "f4", false, sizeof(uint32_t)}, {"const char*", "f5", true, sizeof(const char*)}, {"uint16_t", "f6", false, sizeof(uint16_t)}, {"int64_t", "f7", false, sizeof(int64_t)}, {"uint8_t", "f8", false, sizeof(uint8_t)}, {"int16_t", "f9", false, sizeof(int16_t)}, {"const char*", "f10", true, sizeof(const char*)}, {"int32_t", "f11", false, sizeof(int32_t)}}; break;
    case 13: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint64_t", "f1", false, sizeof(uint64_t)}, {"int8_t", "f2", false, sizeof(int8_t)}, {"uint32_t", "f3", false, sizeof(uint32_t)}, {"const char*", "f4", true, sizeof(const char*)}, {"uint16_t", "f5", false, sizeof(uint16_t)}, {"int64_t", "f6", false, sizeof(int64_t)}, {"uint8_t", "f7", false, sizeof(uint8_t)}, {"int16_t", "f8", false, sizeof(int16_t)}, {"const char*", "f9", true, sizeof(const char*)}, {"int32_t", "f10", false, sizeof(int32_t)}, {"uint64_t", "f11", false, sizeof(uint64_t)}, {"int8_t", "f12", false, sizeof(int8_t)}}; break;
    case 14: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int8_t", "f1", false, sizeof(int8_t)}, {"uint32_t", "f2", false, sizeof(uint32_t)}, {"const char*", "f3", true, sizeof(const char*)}, {"uint16_t", "f4", false, sizeof(uint16_t)}, {"int64_t", "f5", false, sizeof(int64_t)}, {"uint8_t", "f6", false, sizeof(uint8_t)}, {"int16_t", "f7", false, sizeof(int16_t)}, {"const char*", "f8", true, sizeof(const char*)}, {"int32_t", "f9", false, sizeof(int32_t)}, {"uint64_t", "f10", false, sizeof(uint64_t)}, {"int8_t", "f11", false, sizeof(int8_t)}, {"uint32_t", "f12", false, sizeof(uint32_t)}, {"const char*", "f13", true, sizeof(const char*)}}; break;
    case 15: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint32_t", "f1", false, sizeof(uint32_t)}, {"const char*", "f2", true, sizeof(const char*)}, {"uint16_t", "f3", false, sizeof(uint16_t)}, {"int64_t", "f4", false, sizeof(int64_t)}, {"uint8_t", "f5", false, sizeof(uint8_t)}, {"int16_t", "f6", false, sizeof(int16_t)}, {"const char*", "f7", true, sizeof(const char*)}, {"int32_t", "f8", false, sizeof(int32_t)}, {"uint64_t", "f9", false, sizeof(uint64_t)}, {"int8_t", "f10", false, sizeof(int8_t)}, {"uint32_t", "f11", false, sizeof(uint32_t)}, {"const char*", "f12", true, sizeof(const char*)}, {"uint16_t", "f13", false, sizeof(uint16_t)}, {"int64_t", "f14", false, sizeof(int64_t)}}; break;
    case 16: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"const char*", "f1", true, sizeof(const char*)}, {"uint16_t", "f2", false, sizeof(uint16_t)}, {"int64_t", "f3", false, sizeof(int64_t)}, {"uint8_t", "f4", false, sizeof(uint8_t)}, {"int16_t", "f5", false, sizeof(int16_t)}, {"const char*", "f6", true, sizeof(const char*)}, {"int32_t", "f7", false, sizeof(int32_t)}, {"uint64_t", "f8", false, sizeof(uint64_t)}, {"int8_t", "f9", false, sizeof(int8_t)}, {"uint32_t", "f10", false, sizeof(uint32_t)}, {"const char*", "f11", true, sizeof(const char*)}, {"uint16_t", "f12", false, sizeof(uint16_t)}, {"int64_t", "f13", false, sizeof(int64_t)}, {"uint8_t", "f14", false, sizeof(uint8_t)}, {"int16_t", "f15", false, sizeof(int16_t)}}; break;
    case 17: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint16_t", "f1", false, sizeof(uint16_t)}, {"int64_t", "f2", false, sizeof(int64_t)}, {"uint8_t", "f3", false, sizeof(uint8_t)}, {"int16_t", "f4", false, sizeof(int16_t)}, {"const char*", "f5", true, sizeof(const char*)}, {"int32_t", "f6", false, sizeof(int32_t)}, {"uint64_t", "f7", false, sizeof(uint64_t)}, {"int8_t", "f8", false, sizeof(int8_t)}, {"uint32_t", "f9", false, sizeof(uint32_t)}, {"const char*", "f10", true, sizeof(const char*)}, {"uint16_t", "f11", false, sizeof(uint16_t)}, {"int64_t", "f12", false, sizeof(int64_t)}, {"uint8_t", "f13", false, sizeof(uint8_t)}, {"int16_t", "f14", false, sizeof(int16_t)}, {"const char*", "f15", true, sizeof(const char*)}, {"int32_t", "f16", false, sizeof(int32_t)}}; break;
    case 18: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int64_t", "f1", false, sizeof(int64_t)}, {"uint8_t", "f2", false, sizeof(uint8_t)}, {"int16_t", "f3", false, sizeof(int16_t)}, {"const char*", "f4", true, sizeof(const char*)}, {"int32_t", "f5", false, sizeof(int32_t)}, {"uint64_t", "f6", false, sizeof(uint64_t)}, {"int8_t", "f7", false, sizeof(int8_t)}, {"uint32_t", "f8", false, sizeof(uint32_t)}, {"const char*", "f9", true, sizeof(const char*)}, {"uint16_t", "f10", false, sizeof(uint16_t)}, {"int64_t", "f11", false, sizeof(int64_t)}, {"uint8_t", "f12", false, sizeof(uint8_t)}, {"int16_t", "f13", false, sizeof(int16_t)}, {"const char*", "f14", true, sizeof(const char*)}, {"int32_t", "f15", false, sizeof(int32_t)}, {"uint64_t", "f16", false, sizeof(uint64_t)}, {"int8_t", "f17", false, sizeof(int8_t)}}; break;
    case 19: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint8_t", "f1", false, sizeof(uint8_t)}, {"int16_t", "f2", false, sizeof(int16_t)}, {"const char*", "f3", true, sizeof(const char*)}, {"int32_t", "f4", false, sizeof(int32_t)}, {"uint64_t", "f5", false, sizeof(uint64_t)}, {"int8_t", "f6", false, sizeof(int8_t)}, {"uint32_t", "f7", false, sizeof(uint32_t)}, {"const char*", "f8", true, sizeof(const char*)}, {"uint16_t", "f9", false, sizeof(uint16_t)}, {"int64_t", "f10", false, sizeof(int64_t)}, {"uint8_t", "f11", false, sizeof(uint8_t)}, {"int16_t", "f12", false, sizeof(int16_t)}, {"const char*", "f13", true, sizeof(const char*)}, {"int32_t", "f14", false, sizeof(int32_t)}, {"uint64_t", "f15", false, sizeof(uint64_t)}, {"int8_t", "f16", false, sizeof(int8_t)}, {"uint32_t", "f17", false, sizeof(uint32_t)}, {"const char*", "f18", true, sizeof(const char*)}}; break;
    case 20: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int16_t", "f1", false, sizeof(int16_t)}, {"const char*", "f2", true, sizeof(const char*)}, {"int32_t", "f3", false, sizeof(int32_t)}, {"uint64_t", "f4", false, sizeof(uint64_t)}, {"int8_t", "f5", false, sizeof(int8_t)}, {"uint32_t", "f6", false, sizeof(uint32_t)}, {"const char*", "f7", true, sizeof(const char*)}, {"uint16_t", "f8", false, sizeof(uint16_t)}, {"int64_t", "f9", false, sizeof(int64_t)}, {"uint8_t", "f10", false, sizeof(uint8_t)}, {"int16_t", "f11", false, sizeof(int16_t)}, {"const char*", "f12", true, sizeof(const char*)}, {"int32_t", "f13", false, sizeof(int32_t)}, {"uint64_t", "f14", false, sizeof(uint64_t)}, {"int8_t", "f15", false, sizeof(int8_t)}, {"uint32_t", "f16", false, sizeof(uint32_t)}, {"const char*", "f17", true, sizeof(const char*)}, {"uint16_t", "f18", false, sizeof(uint16_t)}, {"int64_t", "f19", false, sizeof(int64_t)}}; break;
    case 21: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"const char*", "f1", true, sizeof(const char*)}, {"int32_t", "f2", false, sizeof(int32_t)}, {"uint64_t", "f3", false, sizeof(uint64_t)}, {"int8_t", "f4", false, sizeof(int8_t)}, {"uint32_t", "f5", false, sizeof(uint32_t)}, {"const char*", "f6", true, sizeof(const char*)}, {"uint16_t", "f7", false, sizeof(uint16_t)}, {"int64_t", "f8", false, sizeof(int64_t)}, {"uint8_t", "f9", false, sizeof(uint8_t)}, {"int16_t", "f10", false, sizeof(int16_t)}, {"const char*", "f11", true, sizeof(const char*)}, {"int32_t", "f12", false, sizeof(int32_t)}, {"uint64_t", "f13", false, sizeof(uint64_t)}, {"int8_t", "f14", false, sizeof(int8_t)}, {"uint32_t", "f15", false, sizeof(uint32_t)}, {"const char*", "f16", true, sizeof(const char*)}, {"uint16_t", "f17", false, sizeof(uint16_t)}, {"int64_t", "f18", false, sizeof(int64_t)}, {"uint8_t", "f19", false, sizeof(uint8_t)}, {"int16_t", "f20", false, sizeof(int16_t)}}; break;
    case 22: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int32_t", "f1", false, sizeof(int32_t)}, {"uint64_t", "f2", false, sizeof(uint64_t)}, {"int8_t", "f3", false, sizeof(int8_t)}, {"uint32_t", "f4", false, sizeof(uint32_t)}, {"const char*", "f5", true, sizeof(const char*)}, {"uint16_t", "f6", false, sizeof(uint16_t)}, {"int64_t", "f7", false, sizeof(int64_t)}, {"uint8_t", "f8", false, sizeof(uint8_t)}, {"int16_t", "f9", false, sizeof(int16_t)}, {"const char*", "f10", true, sizeof(const char*)}, {"int32_t", "f11", false, sizeof(int32_t)}, {"uint64_t", "f12", false, sizeof(uint64_t)}, {"int8_t", "f13", false, sizeof(int8_t)}, {"uint32_t", "f14", false, sizeof(uint32_t)}, {"const char*", "f15", true, sizeof(const char*)}, {"uint16_t", "f16", false, sizeof(uint16_t)}, {"int64_t", "f17", false, sizeof(int64_t)}, {"uint8_t", "f18", false, sizeof(uint8_t)}, {"int16_t", "f19", false, sizeof(int16_t)}, {"const char*", "f20", true, sizeof(const char*)}, {"int32_t", "f21", false, sizeof(int32_t)}}; break;
    case 23: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"uint64_t", "f1", false, sizeof(uint64_t)}, {"int8_t", "f2", false, sizeof(int8_t)}, {"uint32_t", "f3", false, sizeof(uint32_t)}, {"const char*", "f4", true, sizeof(const char*)}, {"uint16_t", "f5", false, sizeof(uint16_t)}, {"int64_t", "f6", false, sizeof(int64_t)}, {"uint8_t", "f7", false, sizeof(uint8_t)}, {"int16_t", "f8", false, sizeof(int16_t)}, {"const char*", "f9", true, sizeof(const char*)}, {"int32_t", "f10", false, sizeof(int32_t)}, {"uint64_t", "f11", false, sizeof(uint64_t)}, {"int8_t", "f12", false, sizeof(int8_t)}, {"uint32_t", "f13", false, sizeof(uint32_t)}, {"const char*", "f14", true, sizeof(const char*)}, {"uint16_t", "f15", false, sizeof(uint16_t)}, {"int64_t", "f16", false, sizeof(int64_t)}, {"uint8_t", "f17", false, sizeof(uint8_t)}, {"int16_t", "f18", false, sizeof(int16_t)}, {"const char*", "f19", true, sizeof(const char*)}, {"int32_t", "f20", false, sizeof(int32_t)}, {"uint64_t", "f21", false, sizeof(uint64_t)}, {"int8_t", "f22", false, sizeof(int8_t)}}; break;
    case 24: o = {{"uint32_t", "tag", false, sizeof(uint32_t)}, {"int8_t", "f1", false, sizeof(int8_t)}, {"uint32_t", "f2", false, sizeof(uint32_t)}, {"const char*", "f3", true, sizeof(const char*)}, {"uint16_t", "f4", false, sizeof(uint16_t)}, {"int64_t", "f5", false, sizeof(int64_t)}, {"uint8_t", "f6", false, sizeof(uint8_t)}, {"int16_t", "f7", false, sizeof(int16_t)}, {"const char*", "f8", true, sizeof(const char*)}, {"int32_t", "f9", false, sizeof(int32_t)}, {"uint64_t", "f10", false, sizeof(uint64_t)}, {"int8_t", "f11", false, sizeof(int8_t)}, {"uint32_t", "f12", false, sizeof(uint32_t)}, {"const char*", "f13", true, sizeof(const char*)}, {"uint16_t", "f14", false, sizeof(uint16_t)}, {"int64_t", "f15", false, sizeof(int64_t)}, {"uint8_t", "f16", false, sizeof(uint8_t)}, {"int16_t", "f17", false, sizeof(int16_t)}, {"const char*", "f18", true, sizeof(const char*)}, {"int32_t", "f19", false, sizeof(int32_t)}, {"uint64_t", "f20", false, sizeof(uint64_t)}, {"int8_t", "f21", false, sizeof(int8_t)}, {"uint32_t", "f22", false, sizeof(uint32_t)}, {"const char*", "f23", true, sizeof(const char*)}}; break;
    }
}
void user_wide_push_macro(HT_Timeline* t, int n, const uint64_t* v, const char* const* s) {
    switch (n) {
    case 1: { HT_TIMELINE_PUSH_EVENT(t, SimW1, (uint32_t)v[0]); break; }
    case 2: { HT_TIMELINE_PUSH_EVENT(t, SimW2, (uint32_t)v[0], (int32_t)v[1]); break; }
    case 3: { HT_TIMELINE_PUSH_EVENT(t, SimW3, (uint32_t)v[0], (uint64_t)v[1], (int8_t)v[2]); break; }
    case 4: { HT_TIMELINE_PUSH_EVENT(t, SimW4, (uint32_t)v[0], (int8_t)v[1], (uint32_t)v[2], s[3]); break; }
    case 5: { HT_TIMELINE_PUSH_EVENT(t, SimW5, (uint32_t)v[0], (uint32_t)v[1], s[2], (uint16_t)v[3], (int64_t)v[4]); break; }
    case 6: { HT_TIMELINE_PUSH_EVENT(t, SimW6, (uint32_t)v[0], s[1], (uint16_t)v[2], (int64_t)v[3], (uint8_t)v[4], (int16_t)v[5]); break; }
    case 7: { HT_TIMELINE_PUSH_EVENT(t, SimW7, (uint32_t)v[0], (uint16_t)v[1], (int64_t)v[2], (uint8_t)v[3], (int16_t)v[4], s[5], (int32_t)v[6]); break; }
    case 8: { HT_TIMELINE_PUSH_EVENT(t, SimW8, (uint32_t)v[0], (int64_t)v[1], (uint8_t)v[2], (int16_t)v[3], s[4], (int32_t)v[5], (uint64_t)v[6], (int8_t)v[7]); break; }
    case 9: { HT_TIMELINE_PUSH_EVENT(t, SimW9, (uint32_t)v[0], (uint8_t)v[1], (int16_t)v[2], s[3], (int32_t)v[4], (uint64_t)v[5], (int8_t)v[6], (uint32_t)v[7], s[8]); break; }
    case 10: { HT_TIMELINE_PUSH_EVENT(t, SimW10, (uint32_t)v[0], (int16_t)v[1], s[2], (int32_t)v[3], (uint64_t)v[4], (int8_t)v[5], (uint32_t)v[6], s[7], (uint16_t)v[8], (int64_t)v[9]); break; }
    case 11: { HT_TIMELINE_PUSH_EVENT(t, SimW11, (uint32_t)v[0], s[1], (int32_t)v[2], (uint64_t)v[3], (int8_t)v[4], (uint32_t)v[5], s[6], (uint16_t)v[7], (int64_t)v[8], (uint8_t)v[9], (int16_t)v[10]); break; }
    case 12: { HT_TIMELINE_PUSH_EVENT(t, SimW12, (uint32_t)v[0], (int32_t)v[1], (uint64_t)v[2], (int8_t)v[3], (uint32_t)v[4], s[5], (uint16_t)v[6], (int64_t)v[7], (uint8_t)v[8], (int16_t)v[9], s[10], (int32_t)v[11]); break; }
    case 13: { HT_TIMELINE_PUSH_EVENT(t, SimW13, (uint32_t)v[0], (uint64_t)v[1], (int8_t)v[2], (uint32_t)v[3], s[4], (uint16_t)v[5], (int64_t)v[6], (uint8_t)v[7], (int16_t)v[8], s[9], (int32_t)v[10], (uint64_t)v[11], (int8_t)v[12]); break; }
    case 14: { HT_TIMELINE_PUSH_EVENT(t, SimW14, (uint32_t)v[0], (int8_t)v[1], (uint32_t)v[2], s[3], (uint16_t)v[4], (int64_t)v[5], (uint8_t)v[6], (int16_t)v[7], s[8], (int32_t)v[9], (uint64_t)v[10], (int8_t)v[11], (uint32_t)v[12], s[13]); break; }
    case 15: { HT_TIMELINE_PUSH_EVENT(t, SimW15, (uint32_t)v[0], (uint32_t)v[1], s[2], (uint16_t)v[3], (int64_t)v[4], (uint8_t)v[5], (int16_t)v[6], s[7], (int32_t)v[8], (uint64_t)v[9], (int8_t)v[10], (uint32_t)v[11], s[12], (uint16_t)v[13], (int64_t)v[14]); break; }
    case 16: { HT_TIMELINE_PUSH_EVENT(t, SimW16, (uint32_t)v[0], s[1], (uint16_t)v[2], (int64_t)v[3], (uint8_t)v[4], (int16_t)v[5], s[6], (int32_t)v[7], (uint64_t)v[8], (int8_t)v[9], (uint32_t)v[10], s[11], (uint16_t)v[12], (int64_t)v[13], (uint8_t)v[14], (int16_t)v[15]); break; }
    case 17: { HT_TIMELINE_PUSH_EVENT(t, SimW17, (uint32_t)v[0], (uint16_t)v[1], (int64_t)v[2], (uint8_t)v[3], (int16_t)v[4], s[5], (int32_t)v[6], (uint64_t)v[7], (int8_t)v[8], (uint32_t)v[9], s[10], (uint16_t)v[11], (int64_t)v[12], (uint8_t)v[13], (int16_t)v[14], s[15], (int32_t)v[16]); break; }
    case 18: { HT_TIMELINE_PUSH_EVENT(t, SimW18, (uint32_t)v[0], (int64_t)v[1], (uint8_t)v[2], (int16_t)v[3], s[4], (int32_t)v[5], (uint64_t)v[6], (int8_t)v[7], (uint32_t)v[8], s[9], (uint16_t)v[10], (int64_t)v[11], (uint8_t)v[12], (int16_t)v[13], s[14], (int32_t)v[15], (uint64_t)v[16], (int8_t)v[17]); break; }
    case 19: { HT_TIMELINE_PUSH_EVENT(t, SimW19, (uint32_t)v[0], (uint8_t)v[1], (int16_t)v[2], s[3], (int32_t)v[4], (uint64_t)v[5], (int8_t)v[6], (uint32_t)v[7], s[8], (uint16_t)v[9], (int64_t)v[10], (uint8_t)v[11], (int16_t)v[12], s[13], (int32_t)v[14], (uint64_t)v[15], (int8_t)v[16], (uint32_t)v[17], s[18]); break; }
    case 20: { HT_TIMELINE_PUSH_EVENT(t, SimW20, (uint32_t)v[0], (int16_t)v[1], s[2], (int32_t)v[3], (uint64_t)v[4], (int8_t)v[5], (uint32_t)v[6], s[7], (uint16_t)v[8], (int64_t)v[9], (uint8_t)v[10], (int16_t)v[11], s[12], (int32_t)v[13], (uint64_t)v[14], (int8_t)v[15], (uint32_t)v[16], s[17], (uint16_t)v[18], (int64_t)v[19]); break; }
    case 21: { HT_TIMELINE_PUSH_EVENT(t, SimW21, (uint32_t)v[0], s[1], (int32_t)v[2], (uint64_t)v[3], (int8_t)v[4], (uint32_t)v[5], s[6], (uint16_t)v[7], (int64_t)v[8], (uint8_t)v[9], (int16_t)v[10], s[11], (int32_t)v[12], (uint64_t)v[13], (int8_t)v[14], (uint32_t)v[15], s[16], (uint16_t)v[17], (int64_t)v[18], (uint8_t)v[19], (int16_t)v[20]); break; }
    case 22: { HT_TIMELINE_PUSH_EVENT(t, SimW22, (uint32_t)v[0], (int32_t)v[1], (uint64_t)v[2], (int8_t)v[3], (uint32_t)v[4], s[5], (uint16_t)v[6], (int64_t)v[7], (uint8_t)v[8], (int16_t)v[9], s[10], (int32_t)v[11], (uint64_t)v[12], (int8_t)v[13], (uint32_t)v[14], s[15], (uint16_t)v[16], (int64_t)v[17], (uint8_t)v[18], (int16_t)v[19], s[20], (int32_t)v[21]); break; }
    case 23: { HT_TIMELINE_PUSH_EVENT(t, SimW23, (uint32_t)v[0], (uint64_t)v[1], (int8_t)v[2], (uint32_t)v[3], s[4], (uint16_t)v[5], (int64_t)v[6], (uint8_t)v[7], (int16_t)v[8], s[9], (int32_t)v[10], (uint64_t)v[11], (int8_t)v[12], (uint32_t)v[13], s[14], (uint16_t)v[15], (int64_t)v[16], (uint8_t)v[17], (int16_t)v[18], s[19], (int32_t)v[20], (uint64_t)v[21], (int8_t)v[22]); break; }
    case 24: { HT_TIMELINE_PUSH_EVENT(t, SimW24, (uint32_t)v[0], (int8_t)v[1], (uint32_t)v[2], s[3], (uint16_t)v[4], (int64_t)v[5], (uint8_t)v[6], (int16_t)v[7], s[8], (int32_t)v[9], (uint64_t)v[10], (int8_t)v[11], (uint32_t)v[12], s[13], (uint16_t)v[14], (int64_t)v[15], (uint8_t)v[16], (int16_t)v[17], s[18], (int32_t)v[19], (uint64_t)v[20], (int8_t)v[21], (uint32_t)v[22], s[23]); break; }
    }
}
void user_wide_push_fill(HT_Timeline* t, int n, const uint64_t* v, const char* const* s) {
    switch (n) {
    case 1: { HT_DECL_EVENT(SimW1, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 2: { HT_DECL_EVENT(SimW2, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int32_t)v[1]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 3: { HT_DECL_EVENT(SimW3, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint64_t)v[1]; e.f2 = (int8_t)v[2]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 4: { HT_DECL_EVENT(SimW4, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int8_t)v[1]; e.f2 = (uint32_t)v[2]; e.f3 = s[3]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 5: { HT_DECL_EVENT(SimW5, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint32_t)v[1]; e.f2 = s[2]; e.f3 = (uint16_t)v[3]; e.f4 = (int64_t)v[4]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 6: { HT_DECL_EVENT(SimW6, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = s[1]; e.f2 = (uint16_t)v[2]; e.f3 = (int64_t)v[3]; e.f4 = (uint8_t)v[4]; e.f5 = (int16_t)v[5]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 7: { HT_DECL_EVENT(SimW7, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint16_t)v[1]; e.f2 = (int64_t)v[2]; e.f3 = (uint8_t)v[3]; e.f4 = (int16_t)v[4]; e.f5 = s[5]; e.f6 = (int32_t)v[6]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 8: { HT_DECL_EVENT(SimW8, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int64_t)v[1]; e.f2 = (uint8_t)v[2]; e.f3 = (int16_t)v[3]; e.f4 = s[4]; e.f5 = (int32_t)v[5]; e.f6 = (uint64_t)v[6]; e.f7 = (int8_t)v[7]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 9: { HT_DECL_EVENT(SimW9, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint8_t)v[1]; e.f2 = (int16_t)v[2]; e.f3 = s[3]; e.f4 = (int32_t)v[4]; e.f5 = (uint64_t)v[5]; e.f6 = (int8_t)v[6]; e.f7 = (uint32_t)v[7]; e.f8 = s[8]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 10: { HT_DECL_EVENT(SimW10, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int16_t)v[1]; e.f2 = s[2]; e.f3 = (int32_t)v[3]; e.f4 = (uint64_t)v[4]; e.f5 = (int8_t)v[5]; e.f6 = (uint32_t)v[6]; e.f7 = s[7]; e.f8 = (uint16_t)v[8]; e.f9 = (int64_t)v[9]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 11: { HT_DECL_EVENT(SimW11, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = s[1]; e.f2 = (int32_t)v[2]; e.f3 = (uint64_t)v[3]; e.f4 = (int8_t)v[4]; e.f5 = (uint32_t)v[5]; e.f6 = s[6]; e.f7 = (uint16_t)v[7]; e.f8 = (int64_t)v[8]; e.f9 = (uint8_t)v[9]; e.f10 = (int16_t)v[10]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 12: { HT_DECL_EVENT(SimW12, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int32_t)v[1]; e.f2 = (uint64_t)v[2]; e.f3 = (int8_t)v[3]; e.f4 = (uint32_t)v[4]; e.f5 = s[5]; e.f6 = (uint16_t)v[6]; e.f7 = (int64_t)v[7]; e.f8 = (uint8_t)v[8]; e.f9 = (int16_t)v[9]; e.f10 = s[10]; e.f11 = (int32_t)v[11]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 13: { HT_DECL_EVENT(SimW13, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint64_t)v[1]; e.f2 = (int8_t)v[2]; e.f3 = (uint32_t)v[3]; e.f4 = s[4]; e.f5 = (uint16_t)v[5]; e.f6 = (int64_t)v[6]; e.f7 = (uint8_t)v[7]; e.f8 = (int16_t)v[8]; e.f9 = s[9]; e.f10 = (int32_t)v[10]; e.f11 = (uint64_t)v[11]; e.f12 = (int8_t)v[12]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 14: { HT_DECL_EVENT(SimW14, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int8_t)v[1]; e.f2 = (uint32_t)v[2]; e.f3 = s[3]; e.f4 = (uint16_t)v[4]; e.f5 = (int64_t)v[5]; e.f6 = (uint8_t)v[6]; e.f7 = (int16_t)v[7]; e.f8 = s[8]; e.f9 = (int32_t)v[9]; e.f10 = (uint64_t)v[10]; e.f11 = (int8_t)v[11]; e.f12 = (uint32_t)v[12]; e.f13 = s[13]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 15: { HT_DECL_EVENT(SimW15, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint32_t)v[1]; e.f2 = s[2]; e.f3 = (uint16_t)v[3]; e.f4 = (int64_t)v[4]; e.f5 = (uint8_t)v[5]; e.f6 = (int16_t)v[6]; e.f7 = s[7]; e.f8 = (int32_t)v[8]; e.f9 = (uint64_t)v[9]; e.f10 = (int8_t)v[10]; e.f11 = (uint32_t)v[11]; e.f12 = s[12]; e.f13 = (uint16_t)v[13]; e.f14 = (int64_t)v[14]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 16: { HT_DECL_EVENT(SimW16, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = s[1]; e.f2 = (uint16_t)v[2]; e.f3 = (int64_t)v[3]; e.f4 = (uint8_t)v[4]; e.f5 = (int16_t)v[5]; e.f6 = s[6]; e.f7 = (int32_t)v[7]; e.f8 = (uint64_t)v[8]; e.f9 = (int8_t)v[9]; e.f10 = (uint32_t)v[10]; e.f11 = s[11]; e.f12 = (uint16_t)v[12]; e.f13 = (int64_t)v[13]; e.f14 = (uint8_t)v[14]; e.f15 = (int16_t)v[15]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 17: { HT_DECL_EVENT(SimW17, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint16_t)v[1]; e.f2 = (int64_t)v[2]; e.f3 = (uint8_t)v[3]; e.f4 = (int16_t)v[4]; e.f5 = s[5]; e.f6 = (int32_t)v[6]; e.f7 = (uint64_t)v[7]; e.f8 = (int8_t)v[8]; e.f9 = (uint32_t)v[9]; e.f10 = s[10]; e.f11 = (uint16_t)v[11]; e.f12 = (int64_t)v[12]; e.f13 = (uint8_t)v[13]; e.f14 = (int16_t)v[14]; e.f15 = s[15]; e.f16 = (int32_t)v[16]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 18: { HT_DECL_EVENT(SimW18, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int64_t)v[1]; e.f2 = (uint8_t)v[2]; e.f3 = (int16_t)v[3]; e.f4 = s[4]; e.f5 = (int32_t)v[5]; e.f6 = (uint64_t)v[6]; e.f7 = (int8_t)v[7]; e.f8 = (uint32_t)v[8]; e.f9 = s[9]; e.f10 = (uint16_t)v[10]; e.f11 = (int64_t)v[11]; e.f12 = (uint8_t)v[12]; e.f13 = (int16_t)v[13]; e.f14 = s[14]; e.f15 = (int32_t)v[15]; e.f16 = (uint64_t)v[16]; e.f17 = (int8_t)v[17]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 19: { HT_DECL_EVENT(SimW19, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint8_t)v[1]; e.f2 = (int16_t)v[2]; e.f3 = s[3]; e.f4 = (int32_t)v[4]; e.f5 = (uint64_t)v[5]; e.f6 = (int8_t)v[6]; e.f7 = (uint32_t)v[7]; e.f8 = s[8]; e.f9 = (uint16_t)v[9]; e.f10 = (int64_t)v[10]; e.f11 = (uint8_t)v[11]; e.f12 = (int16_t)v[12]; e.f13 = s[13]; e.f14 = (int32_t)v[14]; e.f15 = (uint64_t)v[15]; e.f16 = (int8_t)v[16]; e.f17 = (uint32_t)v[17]; e.f18 = s[18]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 20: { HT_DECL_EVENT(SimW20, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int16_t)v[1]; e.f2 = s[2]; e.f3 = (int32_t)v[3]; e.f4 = (uint64_t)v[4]; e.f5 = (int8_t)v[5]; e.f6 = (uint32_t)v[6]; e.f7 = s[7]; e.f8 = (uint16_t)v[8]; e.f9 = (int64_t)v[9]; e.f10 = (uint8_t)v[10]; e.f11 = (int16_t)v[11]; e.f12 = s[12]; e.f13 = (int32_t)v[13]; e.f14 = (uint64_t)v[14]; e.f15 = (int8_t)v[15]; e.f16 = (uint32_t)v[16]; e.f17 = s[17]; e.f18 = (uint16_t)v[18]; e.f19 = (int64_t)v[19]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 21: { HT_DECL_EVENT(SimW21, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = s[1]; e.f2 = (int32_t)v[2]; e.f3 = (uint64_t)v[3]; e.f4 = (int8_t)v[4]; e.f5 = (uint32_t)v[5]; e.f6 = s[6]; e.f7 = (uint16_t)v[7]; e.f8 = (int64_t)v[8]; e.f9 = (uint8_t)v[9]; e.f10 = (int16_t)v[10]; e.f11 = s[11]; e.f12 = (int32_t)v[12]; e.f13 = (uint64_t)v[13]; e.f14 = (int8_t)v[14]; e.f15 = (uint32_t)v[15]; e.f16 = s[16]; e.f17 = (uint16_t)v[17]; e.f18 = (int64_t)v[18]; e.f19 = (uint8_t)v[19]; e.f20 = (int16_t)v[20]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 22: { HT_DECL_EVENT(SimW22, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int32_t)v[1]; e.f2 = (uint64_t)v[2]; e.f3 = (int8_t)v[3]; e.f4 = (uint32_t)v[4]; e.f5 = s[5]; e.f6 = (uint16_t)v[6]; e.f7 = (int64_t)v[7]; e.f8 = (uint8_t)v[8]; e.f9 = (int16_t)v[9]; e.f10 = s[10]; e.f11 = (int32_t)v[11]; e.f12 = (uint64_t)v[12]; e.f13 = (int8_t)v[13]; e.f14 = (uint32_t)v[14]; e.f15 = s[15]; e.f16 = (uint16_t)v[16]; e.f17 = (int64_t)v[17]; e.f18 = (uint8_t)v[18]; e.f19 = (int16_t)v[19]; e.f20 = s[20]; e.f21 = (int32_t)v[21]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 23: { HT_DECL_EVENT(SimW23, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (uint64_t)v[1]; e.f2 = (int8_t)v[2]; e.f3 = (uint32_t)v[3]; e.f4 = s[4]; e.f5 = (uint16_t)v[5]; e.f6 = (int64_t)v[6]; e.f7 = (uint8_t)v[7]; e.f8 = (int16_t)v[8]; e.f9 = s[9]; e.f10 = (int32_t)v[10]; e.f11 = (uint64_t)v[11]; e.f12 = (int8_t)v[12]; e.f13 = (uint32_t)v[13]; e.f14 = s[14]; e.f15 = (uint16_t)v[15]; e.f16 = (int64_t)v[16]; e.f17 = (uint8_t)v[17]; e.f18 = (int16_t)v[18]; e.f19 = s[19]; e.f20 = (int32_t)v[20]; e.f21 = (uint64_t)v[21]; e.f22 = (int8_t)v[22]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 24: { HT_DECL_EVENT(SimW24, e); ht_timeline_init_event(t, HT_EVENT(&e)); e.tag = (uint32_t)v[0]; e.f1 = (int8_t)v[1]; e.f2 = (uint32_t)v[2]; e.f3 = s[3]; e.f4 = (uint16_t)v[4]; e.f5 = (int64_t)v[5]; e.f6 = (uint8_t)v[6]; e.f7 = (int16_t)v[7]; e.f8 = s[8]; e.f9 = (int32_t)v[9]; e.f10 = (uint64_t)v[10]; e.f11 = (int8_t)v[11]; e.f12 = (uint32_t)v[12]; e.f13 = s[13]; e.f14 = (uint16_t)v[14]; e.f15 = (int64_t)v[15]; e.f16 = (uint8_t)v[16]; e.f17 = (int16_t)v[17]; e.f18 = s[18]; e.f19 = (int32_t)v[19]; e.f20 = (uint64_t)v[20]; e.f21 = (int8_t)v[21]; e.f22 = (uint32_t)v[22]; e.f23 = s[23]; ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    }
}
