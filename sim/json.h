// Strict JSON reader (RFC 8259), sharing no code with the product.
#pragma once
#include <cctype>
#include <string>
#include <utility>
#include <vector>
struct J { char t = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o; const J* get(const char* k) const { const J* r = nullptr; for (auto& x : o) if (x.first == k) { if (r) return nullptr; r = &x.second; } return r; } };
struct JP {
    const std::string& b; size_t p = 0; std::string err;
    explicit JP(const std::string& x) : b(x) {}
    bool bad(const char* m) { if (err.empty()) { size_t f = p > 30 ? p - 30 : 0; err = std::string(m) + " at offset " + std::to_string(p) + " near \"" + b.substr(f, 60) + "\""; } return false; }
    void ws() { while (p < b.size() && (b[p] == ' ' || b[p] == '\t' || b[p] == '\n' || b[p] == '\r')) p++; }
    bool str(std::string& o) {
        if (p >= b.size() || b[p] != '"') return bad("expected a string");
        for (p++; p < b.size(); p++) {
            unsigned char c = (unsigned char)b[p];
            if (c == '"') { p++; return true; }
            if (c < 0x20) return bad("control character in a string");
            if (c != '\\') { o += (char)c; continue; }
            if (++p >= b.size()) break;
            switch (b[p]) {
            case '"': case '\\': case '/': o += b[p]; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { unsigned u = 0; if (p + 4 >= b.size()) return bad("short escape"); for (int i = 0; i < 4; i++) { char c2 = b[++p]; int d = c2 >= '0' && c2 <= '9' ? c2 - '0' : c2 >= 'a' && c2 <= 'f' ? c2 - 'a' + 10 : c2 >= 'A' && c2 <= 'F' ? c2 - 'A' + 10 : -1; if (d < 0) return bad("bad escape"); u = u * 16 + (unsigned)d; } if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } break; }
            default: return bad("bad escape");
            }
        }
        return bad("unterminated string");
    }
    bool val(J& j, int d = 0) {
        ws(); if (p >= b.size() || d > 20) return bad("expected a value");
        char c = b[p];
        if (c == '"') { j.t = 's'; return str(j.s); }
        if (c == '[') { j.t = 'a'; p++; ws(); if (p < b.size() && b[p] == ']') { p++; return true; } for (;;) { j.a.emplace_back(); if (!val(j.a.back(), d + 1)) return false; ws(); if (p < b.size() && b[p] == ',') { p++; continue; } if (p < b.size() && b[p] == ']') { p++; return true; } return bad("expected , or ]"); } }
        if (c == '{') { j.t = 'o'; p++; ws(); if (p < b.size() && b[p] == '}') { p++; return true; } for (;;) { ws(); j.o.emplace_back(); if (!str(j.o.back().first)) return false; ws(); if (p >= b.size() || b[p] != ':') return bad("expected :"); p++; if (!val(j.o.back().second, d + 1)) return false; ws(); if (p < b.size() && b[p] == ',') { p++; continue; } if (p < b.size() && b[p] == '}') { p++; return true; } return bad("expected , or }"); } }
        size_t q = p; if (c == '-') p++; size_t dg = p; while (p < b.size() && isdigit((unsigned char)b[p])) p++; if (p == dg || (b[dg] == '0' && p > dg + 1)) { p = q; return bad("bad value"); }
        if (p < b.size() && b[p] == '.') { size_t f = ++p; while (p < b.size() && isdigit((unsigned char)b[p])) p++; if (p == f) return bad("bad number"); }
        j.t = 'n'; j.s = b.substr(q, p - q); return true;
    }
    bool doc(J& j) { if (!val(j)) return false; ws(); return p == b.size() ? true : bad("text after the document"); }
};
