// DNS messages as the simulated name servers see them.
#pragma once
#include "lib.h"
enum { DNS_A = 1, DNS_CNAME = 5, DNS_AAAA = 28 };
inline Str low(Str s) { for (auto &c : s) c = tolower(c); while (!s.empty() && s.back() == '.') s.pop_back(); return s; }
inline Str be16(int v) { return Str{(char)(v >> 8), (char)v}; }
inline Str wire_name(const Str &n) { Str o; size_t p = 0; while (p < n.size()) { size_t e = n.find('.', p); if (e == Str::npos) e = n.size(); o += (char)(e - p); o += n.substr(p, e - p); p = e + 1; } o += '\0'; return o; }
struct Query { bool ok = false; uint16_t id = 0; Str name; int type = 0, cls = 0; Str question; };
inline Query dns_parse(const Str &d) {
    Query q; if (d.size() < 17) return q; q.id = (uint8_t)d[0] << 8 | (uint8_t)d[1]; size_t p = 12; while (p < d.size() && d[p]) { size_t l = (uint8_t)d[p]; if (l > 63 || p + 1 + l >= d.size()) return q; if (!q.name.empty()) q.name += '.'; q.name += d.substr(p + 1, l); p += 1 + l; }
    if (p + 5 > d.size()) return q; q.type = (uint8_t)d[p + 1] << 8 | (uint8_t)d[p + 2]; q.cls = (uint8_t)d[p + 3] << 8 | (uint8_t)d[p + 4]; q.question = d.substr(12, p + 5 - 12); q.ok = true; return q;
}
inline Str dns_rr(const Str &owner, int type, const Str &data, int cls = 1) { return owner + be16(type) + be16(cls) + Str("\0\0\1\0", 4) + be16((int)data.size()) + data; }
