#include "realparse.h"
using namespace sim;
using namespace HawkTracer::parser;

static void flat_into(const Event& e, DEv& d, int depth) {
    if (depth > 8) return;
    for (auto& kv : e.get_values()) {
        const Event::Value& v = kv.second;
        Val o;
        switch (v.field->get_type_id()) {
        case FieldTypeId::UINT8: o.u = v.value.f_UINT8; o.size = 1; break;
        case FieldTypeId::INT8: o.u = (uint8_t)v.value.f_INT8; o.size = 1; break;
        case FieldTypeId::UINT16: o.u = v.value.f_UINT16; o.size = 2; break;
        case FieldTypeId::INT16: o.u = (uint16_t)v.value.f_INT16; o.size = 2; break;
        case FieldTypeId::UINT32: o.u = v.value.f_UINT32; o.size = 4; break;
        case FieldTypeId::INT32: o.u = (uint32_t)v.value.f_INT32; o.size = 4; break;
        case FieldTypeId::UINT64: o.u = v.value.f_UINT64; o.size = 8; break;
        case FieldTypeId::INT64: o.u = (uint64_t)v.value.f_INT64; o.size = 8; break;
        case FieldTypeId::STRING: o.is_str = true; o.s = v.value.f_STRING ? v.value.f_STRING : "<null>"; break;
        case FieldTypeId::STRUCT: if (v.value.f_EVENT) flat_into(*v.value.f_EVENT, d, depth + 1); continue;
        default: continue;
        }
        if (kv.first == "klass_id") d.klass = (uint32_t)o.u;
        else if (kv.first == "timestamp") d.ts = o.u;
        else if (kv.first == "id") d.id = o.u;
        else d.v[kv.first] = o;
    }
}
DEv from_event(const Event& e) {
    DEv d; d.name = e.get_klass()->get_name();
    flat_into(e, d, 0);
    return d;
}
bool parse_file(const std::string& path, bool flat, std::vector<DEv>& out) {
    Sut s;
    KlassRegister reg;
    std::unique_ptr<FileStream> fs(new FileStream(path));
    ProtocolReader rd(&reg, std::move(fs), flat);
    rd.register_events_listener([&](const Event& e) { Har h; out.push_back(from_event(e)); });
    if (!rd.start()) return false;
    rd.wait_for_complete();
    rd.stop();
    return true;
}
