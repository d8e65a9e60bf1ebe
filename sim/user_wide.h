/* generated by tools/gen_wide.py */
#pragma once
#include <hawktracer/core_events.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(SimW1, HT_Event, (INTEGER, uint32_t, tag))
HT_DECLARE_EVENT_KLASS(SimW2, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int32_t, f1))
HT_DECLARE_EVENT_KLASS(SimW3, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint64_t, f1), (INTEGER, int8_t, f2))
HT_DECLARE_EVENT_KLASS(SimW4, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int8_t, f1), (INTEGER, uint32_t, f2), (STRING, const char*, f3))
HT_DECLARE_EVENT_KLASS(SimW5, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, f1), (STRING, const char*, f2), (INTEGER, uint16_t, f3), (INTEGER, int64_t, f4))
HT_DECLARE_EVENT_KLASS(SimW6, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, f1), (INTEGER, uint16_t, f2), (INTEGER, int64_t, f3), (INTEGER, uint8_t, f4), (INTEGER, int16_t, f5))
HT_DECLARE_EVENT_KLASS(SimW7, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint16_t, f1), (INTEGER, int64_t, f2), (INTEGER, uint8_t, f3), (INTEGER, int16_t, f4), (STRING, const char*, f5), (INTEGER, int32_t, f6))
HT_DECLARE_EVENT_KLASS(SimW8, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int64_t, f1), (INTEGER, uint8_t, f2), (INTEGER, int16_t, f3), (STRING, const char*, f4), (INTEGER, int32_t, f5), (INTEGER, uint64_t, f6), (INTEGER, int8_t, f7))
HT_DECLARE_EVENT_KLASS(SimW9, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint8_t, f1), (INTEGER, int16_t, f2), (STRING, const char*, f3), (INTEGER, int32_t, f4), (INTEGER, uint64_t, f5), (INTEGER, int8_t, f6), (INTEGER, uint32_t, f7), (STRING, const char*, f8))
HT_DECLARE_EVENT_KLASS(SimW10, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int16_t, f1), (STRING, const char*, f2), (INTEGER, int32_t, f3), (INTEGER, uint64_t, f4), (INTEGER, int8_t, f5), (INTEGER, uint32_t, f6), (STRING, const char*, f7), (INTEGER, uint16_t, f8), (INTEGER, int64_t, f9))
HT_DECLARE_EVENT_KLASS(SimW11, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, f1), (INTEGER, int32_t, f2), (INTEGER, uint64_t, f3), (INTEGER, int8_t, f4), (INTEGER, uint32_t, f5), (STRING, const char*, f6), (INTEGER, uint16_t, f7), (INTEGER, int64_t, f8), (INTEGER, uint8_t, f9), (INTEGER, int16_t, f10))
HT_DECLARE_EVENT_KLASS(SimW12, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int32_t, f1), (INTEGER, uint64_t, f2), (INTEGER, int8_t, f3), (INTEGER, uint32_t, f4), (STRING, const char*, f5), (INTEGER, uint16_t, f6), (INTEGER, int64_t, f7), (INTEGER, uint8_t, f8), (INTEGER, int16_t, f9), (STRING, const char*, f10), (INTEGER, int32_t, f11))
HT_DECLARE_EVENT_KLASS(SimW13, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint64_t, f1), (INTEGER, int8_t, f2), (INTEGER, uint32_t, f3), (STRING, const char*, f4), (INTEGER, uint16_t, f5), (INTEGER, int64_t, f6), (INTEGER, uint8_t, f7), (INTEGER, int16_t, f8), (STRING, const char*, f9), (INTEGER, int32_t, f10), (INTEGER, uint64_t, f11), (INTEGER, int8_t, f12))
HT_DECLARE_EVENT_KLASS(SimW14, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int8_t, f1), (INTEGER, uint32_t, f2), (STRING, const char*, f3), (INTEGER, uint16_t, f4), (INTEGER, int64_t, f5), (INTEGER, uint8_t, f6), (INTEGER, int16_t, f7), (STRING, const char*, f8), (INTEGER, int32_t, f9), (INTEGER, uint64_t, f10), (INTEGER, int8_t, f11), (INTEGER, uint32_t, f12), (STRING, const char*, f13))
HT_DECLARE_EVENT_KLASS(SimW15, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, f1), (STRING, const char*, f2), (INTEGER, uint16_t, f3), (INTEGER, int64_t, f4), (INTEGER, uint8_t, f5), (INTEGER, int16_t, f6), (STRING, const char*, f7), (INTEGER, int32_t, f8), (INTEGER, uint64_t, f9), (INTEGER, int8_t, f10), (INTEGER, uint32_t, f11), (STRING, const char*, f12), (INTEGER, uint16_t, f13), (INTEGER, int64_t, f14))
HT_DECLARE_EVENT_KLASS(SimW16, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, f1), (INTEGER, uint16_t, f2), (INTEGER, int64_t, f3), (INTEGER, uint8_t, f4), (INTEGER, int16_t, f5), (STRING, const char*, f6), (INTEGER, int32_t, f7), (INTEGER, uint64_t, f8), (INTEGER, int8_t, f9), (INTEGER, uint32_t, f10), (STRING, const char*, f11), (INTEGER, uint16_t, f12), (INTEGER, int64_t, f13), (INTEGER, uint8_t, f14), (INTEGER, int16_t, f15))
HT_DECLARE_EVENT_KLASS(SimW17, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint16_t, f1), (INTEGER, int64_t, f2), (INTEGER, uint8_t, f3), (INTEGER, int16_t, f4), (STRING, const char*, f5), (INTEGER, int32_t, f6), (INTEGER, uint64_t, f7), (INTEGER, int8_t, f8), (INTEGER, uint32_t, f9), (STRING, const char*, f10), (INTEGER, uint16_t, f11), (INTEGER, int64_t, f12), (INTEGER, uint8_t, f13), (INTEGER, int16_t, f14), (STRING, const char*, f15), (INTEGER, int32_t, f16))
HT_DECLARE_EVENT_KLASS(SimW18, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int64_t, f1), (INTEGER, uint8_t, f2), (INTEGER, int16_t, f3), (STRING, const char*, f4), (INTEGER, int32_t, f5), (INTEGER, uint64_t, f6), (INTEGER, int8_t, f7), (INTEGER, uint32_t, f8), (STRING, const char*, f9), (INTEGER, uint16_t, f10), (INTEGER, int64_t, f11), (INTEGER, uint8_t, f12), (INTEGER, int16_t, f13), (STRING, const char*, f14), (INTEGER, int32_t, f15), (INTEGER, uint64_t, f16), (INTEGER, int8_t, f17))
HT_DECLARE_EVENT_KLASS(SimW19, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint8_t, f1), (INTEGER, int16_t, f2), (STRING, const char*, f3), (INTEGER, int32_t, f4), (INTEGER, uint64_t, f5), (INTEGER, int8_t, f6), (INTEGER, uint32_t, f7), (STRING, const char*, f8), (INTEGER, uint16_t, f9), (INTEGER, int64_t, f10), (INTEGER, uint8_t, f11), (INTEGER, int16_t, f12), (STRING, const char*, f13), (INTEGER, int32_t, f14), (INTEGER, uint64_t, f15), (INTEGER, int8_t, f16), (INTEGER, uint32_t, f17), (STRING, const char*, f18))
HT_DECLARE_EVENT_KLASS(SimW20, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int16_t, f1), (STRING, const char*, f2), (INTEGER, int32_t, f3), (INTEGER, uint64_t, f4), (INTEGER, int8_t, f5), (INTEGER, uint32_t, f6), (STRING, const char*, f7), (INTEGER, uint16_t, f8), (INTEGER, int64_t, f9), (INTEGER, uint8_t, f10), (INTEGER, int16_t, f11), (STRING, const char*, f12), (INTEGER, int32_t, f13), (INTEGER, uint64_t, f14), (INTEGER, int8_t, f15), (INTEGER, uint32_t, f16), (STRING, const char*, f17), (INTEGER, uint16_t, f18), (INTEGER, int64_t, f19))
HT_DECLARE_EVENT_KLASS(SimW21, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, f1), (INTEGER, int32_t, f2), (INTEGER, uint64_t, f3), (INTEGER, int8_t, f4), (INTEGER, uint32_t, f5), (STRING, const char*, f6), (INTEGER, uint16_t, f7), (INTEGER, int64_t, f8), (INTEGER, uint8_t, f9), (INTEGER, int16_t, f10), (STRING, const char*, f11), (INTEGER, int32_t, f12), (INTEGER, uint64_t, f13), (INTEGER, int8_t, f14), (INTEGER, uint32_t, f15), (STRING, const char*, f16), (INTEGER, uint16_t, f17), (INTEGER, int64_t, f18), (INTEGER, uint8_t, f19), (INTEGER, int16_t, f20))
HT_DECLARE_EVENT_KLASS(SimW22, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int32_t, f1), (INTEGER, uint64_t, f2), (INTEGER, int8_t, f3), (INTEGER, uint32_t, f4), (STRING, const char*, f5), (INTEGER, uint16_t, f6), (INTEGER, int64_t, f7), (INTEGER, uint8_t, f8), (INTEGER, int16_t, f9), (STRING, const char*, f10), (INTEGER, int32_t, f11), (INTEGER, uint64_t, f12), (INTEGER, int8_t, f13), (INTEGER, uint32_t, f14), (STRING, const char*, f15), (INTEGER, uint16_t, f16), (INTEGER, int64_t, f17), (INTEGER, uint8_t, f18), (INTEGER, int16_t, f19), (STRING, const char*, f20), (INTEGER, int32_t, f21))
HT_DECLARE_EVENT_KLASS(SimW23, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint64_t, f1), (INTEGER, int8_t, f2), (INTEGER, uint32_t, f3), (STRING, const char*, f4), (INTEGER, uint16_t, f5), (INTEGER, int64_t, f6), (INTEGER, uint8_t, f7), (INTEGER, int16_t, f8), (STRING, const char*, f9), (INTEGER, int32_t, f10), (INTEGER, uint64_t, f11), (INTEGER, int8_t, f12), (INTEGER, uint32_t, f13), (STRING, const char*, f14), (INTEGER, uint16_t, f15), (INTEGER, int64_t, f16), (INTEGER, uint8_t, f17), (INTEGER, int16_t, f18), (STRING, const char*, f19), (INTEGER, int32_t, f20), (INTEGER, uint64_t, f21), (INTEGER, int8_t, f22))
HT_DECLARE_EVENT_KLASS(SimW24, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, int8_t, f1), (INTEGER, uint32_t, f2), (STRING, const char*, f3), (INTEGER, uint16_t, f4), (INTEGER, int64_t, f5), (INTEGER, uint8_t, f6), (INTEGER, int16_t, f7), (STRING, const char*, f8), (INTEGER, int32_t, f9), (INTEGER, uint64_t, f10), (INTEGER, int8_t, f11), (INTEGER, uint32_t, f12), (STRING, const char*, f13), (INTEGER, uint16_t, f14), (INTEGER, int64_t, f15), (INTEGER, uint8_t, f16), (INTEGER, int16_t, f17), (STRING, const char*, f18), (INTEGER, int32_t, f19), (INTEGER, uint64_t, f20), (INTEGER, int8_t, f21), (INTEGER, uint32_t, f22), (STRING, const char*, f23))
HT_DECLS_END
