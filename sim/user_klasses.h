/* Event types an application would define; compiled with the product's flags (user_*.c, user_*.cpp). */
#ifndef SIM_USER_KLASSES_H
#define SIM_USER_KLASSES_H
#include <hawktracer/core_events.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(SimInts, HT_Event,
                       (INTEGER, uint32_t, tag), (INTEGER, int8_t, a), (INTEGER, uint8_t, b), (INTEGER, int16_t, c),
                       (INTEGER, uint16_t, d), (INTEGER, int32_t, e), (INTEGER, uint64_t, f), (INTEGER, int64_t, g))
HT_DECLARE_EVENT_KLASS(SimStr, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, s))
HT_DECLARE_EVENT_KLASS(SimMix, HT_Event, (INTEGER, uint32_t, tag), (STRING, const char*, s1), (INTEGER, int32_t, n),
                       (STRING, const char*, s2), (INTEGER, uint8_t, last))
HT_DECLARE_EVENT_KLASS(SimDerived, SimStr, (INTEGER, uint16_t, extra))
HT_DECLARE_EVENT_KLASS(SimDeep, SimDerived, (STRING, const char*, tail))
HT_DECLARE_EVENT_KLASS(SimDouble, HT_Event, (INTEGER, uint32_t, tag), (DOUBLE, double, x), (INTEGER, uint16_t, y))
HT_DECLARE_EVENT_KLASS(SimCall, HT_CallstackBaseEvent, (INTEGER, uint32_t, tag), (STRING, const char*, note), (INTEGER, uint64_t, pad1), (INTEGER, uint64_t, pad2))
HT_DECLARE_EVENT_KLASS(SimSpan, HT_CallstackBaseEvent, (STRING, const char*, label), (INTEGER, int8_t, s8), (INTEGER, uint8_t, u8), (INTEGER, int16_t, s16), (INTEGER, uint32_t, u32), (INTEGER, int64_t, s64), (STRING, const char*, note))
HT_DECLARE_EVENT_KLASS(SimNamed, HT_Event, (STRING, const char*, name), (INTEGER, int32_t, value))
/* its own fields have the names of fields of its bases */
HT_DECLARE_EVENT_KLASS(SimShadow, SimStr, (INTEGER, uint16_t, id), (INTEGER, uint64_t, s), (INTEGER, uint8_t, end))
/* klasses used only by the registration scenarios */
#define SIM_REG(N) HT_DECLARE_EVENT_KLASS(SimReg##N, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, r##N))
SIM_REG(0) SIM_REG(1) SIM_REG(2) SIM_REG(3) SIM_REG(4) SIM_REG(5) SIM_REG(6) SIM_REG(7)
SIM_REG(8) SIM_REG(9) SIM_REG(10) SIM_REG(11) SIM_REG(12) SIM_REG(13) SIM_REG(14) SIM_REG(15)
/* descriptions of very different lengths */
HT_DECLARE_EVENT_KLASS(SimReg16, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, r16_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it))
HT_DECLARE_EVENT_KLASS(SimReg17, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, r17_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_w))
HT_DECLARE_EVENT_KLASS(SimReg18, HT_Event, (INTEGER, uint32_t, tag), (INTEGER, uint32_t, r18_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_holds_a_field_of_an_application_whose_author_likes_to_say_in_the_name_what_it_h))
HT_DECLS_END
#endif
