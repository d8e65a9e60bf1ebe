#!/usr/bin/env python3
"""Writes sim/user_wide.h and sim/user_wide.cpp: event klasses with 1 to 24 fields of their own (25 with the base,
the most the product's macros take)."""
import os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim")
T = [("INTEGER", "uint8_t"), ("INTEGER", "int16_t"), ("STRING", "const char*"), ("INTEGER", "int32_t"), ("INTEGER", "uint64_t"),
     ("INTEGER", "int8_t"), ("INTEGER", "uint32_t"), ("STRING", "const char*"), ("INTEGER", "uint16_t"), ("INTEGER", "int64_t")]
N = 24
def flds(n):
    return [("INTEGER", "uint32_t", "tag")] + [(*T[(i + n) % len(T)], "f%d" % i) for i in range(1, n)]
h = "/* generated by tools/gen_wide.py */\n#pragma once\n#include <hawktracer/core_events.h>\nHT_DECLS_BEGIN\n"
for n in range(1, N + 1):
    h += "HT_DECLARE_EVENT_KLASS(SimW%d, HT_Event, %s)\n" % (n, ", ".join("(%s, %s, %s)" % f for f in flds(n)))
h += "HT_DECLS_END\n"
open(os.path.join(here, "user_wide.h"), "w").write(h)
c = '// generated by tools/gen_wide.py\n#include "user_code.h"\n#include "user_wide.h"\n'
c += "uint32_t user_wide_register(int n) {\n    switch (n) {\n" + "".join("    case %d: return HT_REGISTER_EVENT_KLASS(SimW%d);\n" % (n, n) for n in range(1, N + 1)) + "    }\n    return 0;\n}\n"
c += "size_t user_wide_sizeof(int n) {\n    switch (n) {\n" + "".join("    case %d: return sizeof(SimW%d);\n" % (n, n) for n in range(1, N + 1)) + "    }\n    return 0;\n}\n"
c += "void user_wide_fields(int n, std::vector<UWField>& o) {\n    switch (n) {\n"
for n in range(1, N + 1):
    c += "    case %d: o = {%s}; break;\n" % (n, ", ".join('{"%s", "%s", %s, sizeof(%s)}' % (t, nm, "true" if k == "STRING" else "false", t) for k, t, nm in flds(n)))
c += "    }\n}\n"
for how in ("macro", "fill"):
    c += "void user_wide_push_%s(HT_Timeline* t, int n, const uint64_t* v, const char* const* s) {\n    switch (n) {\n" % how
    for n in range(1, N + 1):
        if how == "macro":
            c += "    case %d: { HT_TIMELINE_PUSH_EVENT(t, SimW%d, %s); break; }\n" % (n, n, ", ".join(("s[%d]" % i) if k == "STRING" else "(%s)v[%d]" % (ty, i) for i, (k, ty, nm) in enumerate(flds(n))))
        else:
            c += "    case %d: { HT_DECL_EVENT(SimW%d, e); ht_timeline_init_event(t, HT_EVENT(&e)); %s ht_timeline_push_event(t, HT_EVENT(&e)); break; }\n" % (n, n, " ".join(("e.%s = s[%d];" % (nm, i)) if k == "STRING" else "e.%s = (%s)v[%d];" % (nm, ty, i) for i, (k, ty, nm) in enumerate(flds(n))))
    c += "    }\n}\n"
open(os.path.join(here, "user_wide.cpp"), "w").write(c)
