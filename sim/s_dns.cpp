// Name resolution (C25) and hostile name servers (C30).
#include "proto.h"
#include "dnsmsg.h"
#include <arpa/inet.h>
#include <netinet/in.h>
namespace {
enum { A = DNS_A, CNAME = DNS_CNAME, AAAA = DNS_AAAA };
struct Rec { std::vector<Str> a, aaaa; Str cname; };   // addresses in binary
struct Srv { Addr a; enum K { HONEST, SILENT, REFUSE, UNREACH, ODD } kind = HONEST; int drop = 0; int64_t lat = MS; enum T { T_OK, T_REFUSE, T_HOLE, T_CLOSE, T_BAD } tcp = T_OK; std::map<std::pair<Str, int>, int> seen; };
struct DnsT {
    std::map<Str, Rec> zone; std::map<Str, Rec> hosts; std::vector<Srv> sv; std::vector<Str> search, lookup; int ndots = 1, attempts = 3, timeout = 5; bool tcpok = true, tcponly = false, sure = true, spoof = false, extras = false, hostile = false, filefirst = true;
    int nlook = 0, nres = 0, nempty = 0, ntmo = 0, ncanc = 0, active = 0, maxactive = 0; bool noresolv = false; uint64_t queries = 0, tcpq = 0; std::map<std::pair<Str, int>, std::set<int>> ids; std::vector<Str> names;
    Str addr4(uint32_t x) { x = htonl(x); return Str((char *)&x, 4); }
    Str addr6(uint32_t x) { Str s(16, '\0'); s[0] = 0x20; s[1] = 1; s[14] = x >> 8; s[15] = x; return s; }
    Str evil(int t) { return t == AAAA ? addr6(0x6666) : addr4(0x06060606); }
    Str oneof_str(std::initializer_list<const char *> l) { return l.begin()[pick(W, (uint32_t)l.size())]; }
    void world() {
        uint32_t n = 1; auto some = [&](std::vector<Str> &v, int k, bool six) { for (int i = 0; i < k; ++i, ++n) v.push_back(six ? addr6(n) : addr4(0x0a640000 + n)); };
        some(zone["four.test"].a, 1 + pick(W, 3), false); some(zone["six.test"].aaaa, 1 + pick(W, 3), true); some(zone["dual.test"].a, 1 + pick(W, 3), false); some(zone["dual.test"].aaaa, 1 + pick(W, 3), true); some(zone["many.test"].a, 40 + pick(W, 60), false); some(zone["many.test"].aaaa, pick(W, 40), true);
        zone["alias.test"].cname = "dual.test"; zone["alias2.test"].cname = "alias.test"; zone["chain1.test"].cname = "alias2.test"; zone["chain2.test"].cname = "chain1.test"; zone["chain3.test"].cname = "chain2.test"; zone["dangling.test"].cname = "nothere.test"; zone["loop1.test"].cname = "loop2.test"; zone["loop2.test"].cname = "loop1.test"; zone["farm.test"].cname = "many.test"; zone["empty.test"];
        some(zone["host.corp.test"].a, 1 + pick(W, 2), false); some(zone["host.corp.test"].aaaa, pick(W, 2), true); some(zone["host.lab.test"].a, 1, false); some(zone["onlylab.lab.test"].a, 1 + pick(W, 2), false); Str longdom = "a-rather-long-domain-name.which.has.many.labels.example"; some(zone["longhost." + longdom].a, 1, false); some(zone["longhost." + longdom].aaaa, 1, true); some(zone["deep.name.corp.test"].a, 1, false); zone["web.corp.test"].cname = "four.test"; some(zone["host"].a, pick(W, 2), false);
        Str lng = Str(63, 'l') + "." + Str(1 + pick(W, 63), 'o') + "." + Str(63, 'n') + "."; lng += Str(std::min<size_t>(63, 253 - lng.size() - pick(W, 5)), 'g'); some(zone[lng].a, 1 + pick(W, 5), false); some(zone[lng].aaaa, pick(W, 3), true); some(zone["a.b.c.d.e.f.g.h.i.j.k.test"].a, 1, false); zone["tolong.test"].cname = lng;
        some(hosts["local.test"].a, 1 + pick(W, 2), false); some(hosts["local6.test"].aaaa, 1, true); { Str x = addr6(n++); memset(&x[0], 0, 10); x[10] = x[11] = (char)255; hosts["mapped.test"].aaaa.push_back(x); } some(hosts["localhost"].a, 1, false); some(hosts["localhost"].aaaa, 1, true); some(hosts["both.test"].a, 1, false); some(zone["both.test"].a, 1, false); some(zone["both.test"].aaaa, 1, true);
        names = {"four.test", "six.test", "dual.test", "many.test", "alias.test", "alias2.test", "dangling.test", "loop1.test", "farm.test", "empty.test", "nothere.test", "host", "host.corp.test", "deep.name", "web", "local.test", "local6.test", "localhost", "both.test", "nothost", "canon-local.test", "alias-local.test", "third.both.test", "DUAL.TEST", "dual.test.", lng, "a.b.c.d.e.f.g.h.i.j.k.test", "tolong.test", "chain1.test", "chain2.test", "chain3.test", "mapped.test", "onlylab", "longhost", "comment", "onlylab", "longhost"};
        // hosts file: addresses of a host on lines of their own or several names (aliases) on a line, comments, junk
        auto eol = [&] { return Str(pick(W, 12) ? "" : pick(W, 2) ? "  " : "\r") + "\n"; }; auto sp = [&] { return Str(pick(W, 2) ? "\t" : pick(W, 4) ? "   " : " \t "); };
        bool mixed = pick(W, 4) == 0; auto mix = [&](Str n) { if (mixed) for (auto &c : n) if (isalpha((uint8_t)c) && pick(W, 2)) c ^= 32; return n; };
        Str huge = Str(300, '9') + " local.test\n", h; auto base = hosts; for (auto &x : base) { auto line = [&](int fam, const Str &a) { auto put = [&](const Str &n) { (fam == AF_INET ? hosts[n].a : hosts[n].aaaa).push_back(a); }; char b[64]; inet_ntop(fam, a.data(), b, 64); Str l = Str(b) + sp(); switch (pick(W, 4)) { case 0: l += mix("canon-" + x.first) + sp() + mix(x.first); put("canon-" + x.first); break; case 1: l += mix(x.first) + sp() + mix("alias-" + x.first) + " third." + x.first; put("alias-" + x.first); put("third." + x.first); break; default: l += mix(x.first); } if (pick(W, 20) == 0) l += sp() + Str(oneofu(W, {256, 257, 258, 300, 5000, 200000}), 'q'); if (pick(W, 4) == 0) l += oneof_str({" # 9.9.9.9 comment", "#comment", ";x comment", " ; comment"}); h += l + eol(); }; for (auto &y : x.second.a) line(AF_INET, y); for (auto &y : x.second.aaaa) line(AF_INET6, y); if (pick(W, 6) == 0) h += oneof_str({"\n", "# 9.9.9.9 local.test\n", "nonsense local.test\n", "fe80::1%lo0 local6.test\n", "9.9.9.9\n", huge.c_str(), ";9.9.9.9 local.test\n", "9.9.9.9.9 localhost\n"}); }
        if (pick(W, 6) == 0 && !h.empty()) h.pop_back();
        if (pick(W, 8)) files["/etc/hosts"] = (pick(W, 2) ? "# hosts\n\n" : "") + h; else hosts.clear();
        Str r; if (pick(W, 4) == 0) r += oneof_str({"# nameserver 9.9.9.9\n", "; generated\n\n", "\n", "nonsense\n", "sortlist 130.155.160.0/255.255.240.0\n", "nameserver\n", "nameserver bogus\n"});
        bool six = sv.size() < 3 && pick(W, 8) == 0; if (six && pick(W, 2)) r += "nameserver 2001:db8::53\n", six = false;
        for (auto &s : sv) r += "nameserver" + Str(pick(W, 6) ? " " : "\t ") + (s.a.fam == AF_INET ? [&] { char b[64]; inet_ntop(AF_INET, s.a.b, b, 64); return Str(b); }() : Str()) + eol();
        if (six) r += "nameserver ::1\n";
        switch (pick(W, 5)) { case 4: filefirst = false; break; case 0: r += "lookup file bind\n"; break; case 1: r += "lookup bind file\n"; filefirst = false; break;
        case 2: files["/etc/nsswitch.conf"] = oneof_str({"passwd: files\nhosts: files dns\n", "hosts:files dns", "#hosts: dns files\npasswd:\tfiles systemd\n\nhosts:          files mdns4_minimal [NOTFOUND=return] dns\nnetworks: files\n", "hosts:      files myhostname mdns4_minimal [NOTFOUND=return] resolve [!UNAVAIL=return] dns\nnetworks: dns\n", "hosts: mymachines resolve [!UNAVAIL=return] files myhostname dns\n", "hosts: files [SUCCESS=return NOTFOUND=continue] dns # comment\n", "aliases: dns files\nhosts: files  dns  \n"}); break;
        default: files["/etc/nsswitch.conf"] = oneof_str({"hosts: dns files\n", "passwd: files\nhosts:\tdns mdns files\n", "hosts: dns [NOTFOUND=continue] files\n"}); filefirst = false; }
        if (pick(W, 2)) { search = {"corp.test"}; if (pick(W, 2)) search.push_back("lab.test"); if (pick(W, 3) == 0) search.push_back(longdom); if (pick(W, 6) == 0) std::swap(search.front(), search.back()); if (search.size() == 1 && pick(W, 3) == 0) r += "domain"; else { if (pick(W, 8) == 0) r += "domain other.test\n"; r += "search"; } for (auto &x : search) r += sp() + x; r += eol(); } else if (pick(W, 8) == 0) r += "search .\n";
        ndots = oneofu(W, {1, 2, 1, 0, 3}); attempts = oneofu(W, {3, 2, 1, 4}); timeout = oneofu(W, {5, 2, 3, 10}); tcpok = pick(W, 8); if (hostile && pick(W, 3) == 0) timeout = oneofu(W, {1, 0, 2}); if (sure && timeout < 2) sure = false;
        if (pick(W, 4) == 0) r += oneof_str({"options edns0 trust-ad\n", "options inet6 no-check-names single-request-reopen\n", "options edns0\n", "options\n"});
        tcponly = pick(W, hostile ? 4 : 8) == 0; if (tcponly) tcpok = true;
        r += "options ndots:" + std::to_string(ndots) + " attempts:" + std::to_string(attempts) + " timeout:" + std::to_string(timeout) + (tcponly ? oneof_str({" tcp", " tcp:only"}) : tcpok ? pick(W, 6) ? "" : " tcp:enable" : " tcp:disable") + (pick(W, 4) ? "" : " rotate") + eol();
        if (pick(W, 8) == 0) r.pop_back();
        if (pick(W, 20)) files["/etc/resolv.conf"] = r; else noresolv = true;
        for (auto &f : files) note("%s:\n%s", f.first.c_str(), f.second.c_str());
    }
    bool alive_by_file() const { return filefirst; }
    // what the name stands for
    const std::vector<Str> *follow(Str n, int fam, bool &cn) { cn = false; for (int i = 0; i < 20; ++i) { auto it = zone.find(low(n)); if (it == zone.end()) return NULL; if (it->second.cname.empty()) return fam == AF_INET ? &it->second.a : &it->second.aaaa; cn = true; n = it->second.cname; } return NULL; }
    std::vector<Str> candidates(const Str &n0) { Str n = low(n0); bool anchored = !n0.empty() && n0.back() == '.'; int dots = (int)std::count(n0.begin(), n0.end(), '.'); std::vector<Str> v; (void)anchored; if (dots >= ndots) v.push_back(n); for (auto &s : search) v.push_back(n + "." + s); if (dots < ndots) v.push_back(n); return v; }
    std::vector<Str> byfile(const Str &n, int fam) { for (auto &c : candidates(n)) { auto it = hosts.find(c); if (it != hosts.end()) { auto &v = fam == AF_INET ? it->second.a : it->second.aaaa; if (!v.empty()) return v; } } return {}; }
    std::vector<Str> bydns(const Str &n, int fam) { for (auto &c : candidates(n)) { auto it = zone.find(c); if (it == zone.end()) continue; bool cn; auto *v = follow(c, fam, cn); if (!it->second.cname.empty()) return v ? *v : std::vector<Str>(); if (v && !v->empty()) return *v; } return {}; }
    std::vector<Str> expect(const Str &n, int fam) { auto f = byfile(n, fam), d = bydns(n, fam); if (filefirst) return f.empty() ? d : f; return d.empty() ? f : d; }
    std::set<Str> legit(const Str &n, int fam) { std::set<Str> s; for (auto &c : candidates(n)) { auto h = hosts.find(c); if (h != hosts.end()) for (auto &x : fam == AF_INET ? h->second.a : h->second.aaaa) s.insert(x); bool cn; auto *v = follow(c, fam, cn); if (v) s.insert(v->begin(), v->end()); } return s; }
    // ---- servers ----------------------------------------------------------------------------
    // writes names with or without compression, pointers to pointers included, in any case
    struct Enc {
        Str d; std::vector<std::pair<Str, size_t>> at; bool compress = true, mangle = false;
        Str casing(Str s) { if (mangle) for (auto &c : s) if (isalpha((uint8_t)c) && pick(N, 2)) c ^= 32; return s; }
        void name(const Str &n0) {
            Str n = low(n0); int style = compress ? (int)pick(N, 4) : 0;
            while (!n.empty()) {
                if (style) { std::vector<size_t> v; for (auto &x : at) if (x.first == n) v.push_back(x.second); if (!v.empty() && (style > 1 || pick(N, 2))) { size_t o = style == 3 ? v.back() : v[pick(N, (uint32_t)v.size())]; note_at(n); d += Str{(char)(0xc0 | o >> 8), (char)o}; return; } }
                note_at(n); size_t e = n.find('.'); Str l = n.substr(0, e); d += (char)l.size(); d += casing(l); n = e == Str::npos ? "" : n.substr(e + 1);
            }
            d += '\0';
        }
        void note_at(const Str &n) { if (d.size() < 0x4000) at.push_back({n, d.size()}); }
        void rr(const Str &owner, int type, const std::function<void()> &data, int cls = 1) { name(owner); d += be16(type) + be16(cls) + Str("\0\0\1\0", 4) + be16(0); size_t o = d.size(); data(); size_t l = d.size() - o; d[o - 2] = (char)(l >> 8); d[o - 1] = (char)l; }
        void rr(const Str &owner, int type, const Str &data, int cls = 1) { rr(owner, type, [&] { d += data; }, cls); }
    };
    Str answer(const Query &q, size_t limit, bool &tc) {
        int nan = 0, nns = 0, nar = 0, rcode = 0; Str owner = q.name, n = low(q.name); tc = false; Enc e; e.compress = pick(N, 6); e.mangle = pick(N, 6) == 0; e.d = Str(12, '\0'); auto an = [&] { ++nan; };
        { size_t qo = e.d.size(); bool c = e.compress; e.compress = false; if (e.mangle) e.name(q.name); else { Str x = low(q.name); size_t o = qo; while (!x.empty()) { e.at.push_back({x, o}); size_t k = x.find('.'); o += (k == Str::npos ? x.size() : k) + 1; x = k == Str::npos ? "" : x.substr(k + 1); } e.d += q.question.substr(0, q.question.size() - 4); } e.compress = c; e.d += q.question.substr(q.question.size() - 4); }
        if (extras && pick(N, 2)) { e.rr("evil.test", q.type, evil(q.type)); an(); }
        if (hostile && pick(N, 8) == 0) { e.rr(owner, CNAME, pick(N, 2) ? Str("\4\0abc\0", 6) : pick(N, 2) ? Str("\1\0\0", 3) : Str(1, '\0')); an(); }
        if (hostile && pick(N, 4) == 0) for (int i = 1 + pick(N, 4); i--;) {
            probe("fault.dns-odd-record"); Str o = pick(N, 3) ? owner : "evil.test"; int t = oneofu(N, {A, AAAA, CNAME, 2, 6, 12, 15, 16, 33, 41, 44, 99, 255, 0, 65535}), cls = pick(N, 8) ? 1 : oneofu(N, {3, 254, 255, 0, 65535}); size_t ro = e.d.size();
            switch (pick(N, 5)) {
            case 0: e.rr(o, t, pattern(oneofu(N, {0, 1, 3, 4, 5, 15, 16, 17, 22, 255, 256, 400}), i), cls); break;
            case 1: e.rr(o, t, [&] { e.name(owner); }, cls); break;
            case 2: e.rr(o, t, [&] { int n = 1 + pick(N, 8); while (n--) { size_t l = oneofu(N, {1, 62, 63, 50, 31}); e.d += (char)l; for (size_t k = 0; k < l; ++k) e.d += (char)(pick(N, 20) ? 'a' + pick(N, 26) : pick(N, 256)); } switch (pick(N, 4)) { case 0: break; case 1: e.d += Str("\xc0\x0c", 2); break; case 2: { size_t x = e.d.size(); e.d += Str{(char)(0xc0 | x >> 8), (char)x}; break; } default: e.d += '\0'; } }, cls); break;
            case 3: e.rr(o, t, be16(pick(N, 100)) + (t == 33 ? be16(1) + be16(2) : Str()) + wire_name(owner) + pattern(pick(N, 30), i), cls); break;
            default: e.rr(o, t, evil(q.type), cls); { size_t l = e.d.size(); if (l - ro > 8) { size_t k = l - (q.type == A ? 4 : 16) - 2; e.d[k] = (char)pick(N, 3); e.d[k + 1] = (char)pick(N, 256); } } }
            an();
        }
        if (limit > 5000 && pick(N, 3) == 0) for (int i = 1 + pick(N, !sure ? 80 : cfg.mss < 200 ? 4 : timeout < 5 ? 10 : 40); i--;) { e.rr(owner, 16, Str(1, (char)200) + pattern(200, i)); an(); }
        bool whole = pick(N, 2); for (int i = 0; i < 8; ++i) {
            auto it = zone.find(n); if (it == zone.end()) { if (i == 0) rcode = 3; break; }
            if (!it->second.cname.empty()) { e.rr(owner, CNAME, [&] { e.name(it->second.cname); }); an(); owner = it->second.cname; n = it->second.cname; if (!whole && pick(N, 2)) break; continue; }
            for (auto &x : q.type == A ? it->second.a : q.type == AAAA ? it->second.aaaa : std::vector<Str>()) { Str keep = e.d; size_t ats = e.at.size(); e.rr(owner, q.type, x); if (e.d.size() > limit) { tc = true; e.d = keep; e.at.resize(ats); break; } an(); }
            break;
        }
        if (extras) { if (pick(N, 2)) { e.rr("other.test", q.type, evil(q.type)); an(); } if (pick(N, 3) == 0) { e.rr(owner, 16, "\3abc"); an(); } if (pick(N, 3) == 0) { e.rr(owner, q.type == A ? AAAA : A, evil(q.type == A ? AAAA : A)); an(); } if (pick(N, 2)) { e.rr("test", 2, [&] { e.name("ns.test"); }); ++nns; } if (pick(N, 2)) { e.rr("ns.test", q.type, evil(q.type)); ++nar; } }
        Str h = be16(q.id) + Str{(char)(0x81 | (tc ? 2 : 0)), (char)(0x80 | rcode)} + be16(1) + be16(nan) + be16(nns) + be16(nar); e.d.replace(0, 12, h); return e.d;
    }
    Str mutate(Str d) {
        switch (pick(N, 9)) {
        case 0: return d.substr(0, pick(N, (uint32_t)d.size() + 1));
        case 1: for (int i = 1 + pick(N, 8); i--;) d[pick(N, (uint32_t)d.size())] = (char)pick(N, 256); return d;
        case 2: for (int i = 1 + pick(N, 4); i--;) { size_t p = 12 + pick(N, (uint32_t)d.size() - 12); d[p] = (char)0xc0; if (p + 1 < d.size()) d[p + 1] = (char)pick(N, (uint32_t)std::min<size_t>(d.size(), 256)); } return d;
        case 3: d[4 + 2 * pick(N, 4) + pick(N, 2)] = (char)pick(N, 256); return d;
        case 4: { Str x = pattern(pick(N, 900), pick(N, 1000)); for (size_t i = 0; i < 2 && i < x.size(); ++i) x[i] = d[i]; return x; }
        case 5: { Str x = d; for (size_t i = 12; i < x.size(); ++i) if (pick(N, 20) == 0) x[i] = (char)oneofu(N, {0, 63, 64, 192, 255, 1}); return x; }
        case 6: return d + pattern(pick(N, 700), 5);
        case 7: { Str q = d.substr(0, 12); int n = 1 + pick(N, 60); q[6] = 0; q[7] = (char)n; q += dns_parse(d).question; for (int i = 0; i < n; ++i) q += Str("\xc0\x0c", 2) + be16(5) + be16(1) + Str("\0\0\0\0", 4) + be16(2) + Str{(char)0xc0, (char)(12 + pick(N, 60))}; return q; }
        default: d[2] = (char)pick(N, 256); d[3] = (char)pick(N, 256); return d;
        }
    }
    void on_query(size_t si, const Dgram &g) {
        Srv &s = sv[si]; Query q = dns_parse(g.data); ++queries; if (tcponly) viol("C25", "query", "a query was sent over UDP although only TCP is allowed"); if (!q.ok || q.cls != 1 || (q.type != A && q.type != AAAA)) viol("C25", "query", "a malformed query of %zu bytes was sent", g.data.size());
        if ((uint8_t)g.data[2] & 0xfa || !((uint8_t)g.data[2] & 1)) viol("C25", "query", "the flags of a query are wrong");
        ids[{low(q.name), q.type}].insert(q.id); ev("query", si, q.type, q.name.size(), hash_bytes(q.name.data(), q.name.size()) & 0xffff); int64_t t = s.lat + pick(N, 1000) * (s.lat / 2000 + 1);
        if (spoof) {
            bool dummy; Query e = q; auto fake = [&](const Query &q2) { bool tcx; (void)tcx; return be16(q2.id) + Str("\x81\x80", 2) + be16(1) + be16(1) + be16(0) + be16(0) + q2.question + dns_rr(Str("\xc0\x0c", 2), q2.type, evil(q2.type)); }; (void)dummy;
            for (int i = pick(N, 4); i--;) { Addr from = s.a; Query x = q; switch (pick(N, 4)) { case 0: from = ip4(0x0a0000c8, 53); break; case 1: from.port = 5353; break; case 2: x.id ^= 1 + pick(N, 65535); break; default: { Str o = low(q.name); if (o.size() > 1) switch (pick(N, 5)) { case 0: o = "evil.test"; break; case 1: o.back() = o.back() == 'x' ? 'y' : 'x'; break; case 2: o[0] = o[0] == 'x' ? 'y' : 'x'; break; case 3: if (o.size() < 240) o += ".evil"; break; default: if (o.size() < 240) o = "www." + o; } if (o == low(q.name) || o.empty() || o[0] == '.') o = "evil.test"; x.question = wire_name(o) + be16(q.type) + be16(1); } if (pick(N, 2)) x.question = q.question.substr(0, q.question.size() - 4) + be16(q.type == A ? AAAA : A) + be16(1); } udp_inject(from, g.from, fake(x), pick(N, (uint32_t)(t + t / 4))); probe("fault.dns-spoofed"); }
        }
        if (s.kind == Srv::SILENT) { probe("fault.dns-silent"); return; } if (s.kind == Srv::REFUSE) { probe("fault.dns-refused"); udp_icmp(g.from, g.to); return; }
        if (s.seen[{low(q.name), q.type}]++ < s.drop) { probe("fault.dns-query-dropped"); return; }
        bool tc; Str d = answer(q, extras ? 700 : 512, tc); int copies = cfg.dup_pm && pick(N, 4) == 0 ? 2 : 1; if (copies > 1) probe("fault.dns-duplicated");
        if (s.kind == Srv::ODD) {
            probe("fault.dns-odd-answer"); switch (pick(N, hostile ? 12 : 6)) {
            case 0: d[3] = (char)(0x80 | 2); d[6] = d[7] = d[8] = d[9] = d[10] = d[11] = 0; d.resize(12 + q.question.size()); break; // SERVFAIL
            case 1: d = g.data; break;                       // echo
            case 2: d.resize(pick(N, (uint32_t)d.size())); break;
            case 3: d = pattern(pick(N, 600), pick(N, 100)); break;
            case 4: t += (1 + pick(N, 10)) * SEC; break;
            case 5: d[2] |= 2; break;                        // claims to be truncated
            default: d = mutate(d); }
        }
        for (int i = 0; i < copies; ++i) udp_inject(s.a, g.from, d, t + i * (int64_t)pick(N, 3000) * MS);
    }
    void on_tcp(size_t si, std::shared_ptr<RawPeer> p) {
        Srv *s = &sv[si]; p->on_data = [this, s, p] {
            if (p->rx.size() < 2) return; size_t l = (uint8_t)p->rx[0] << 8 | (uint8_t)p->rx[1]; if (p->rx.size() < 2 + l) return; Str m = p->rx.substr(2, l); p->rx.erase(0, 2 + l); Query q = dns_parse(m); if (!q.ok) viol("C25", "query", "a malformed query was sent over TCP"); probe("dns.tcp"); ++tcpq; if (s->kind == Srv::SILENT) return; if (tcponly && s->seen[{low(q.name), q.type}]++ < s->drop) { probe("fault.dns-query-dropped"); return; } bool tc; Str d = answer(q, 60000, tc);
            if (hostile) d = mutate(d); Str w = be16((int)d.size()) + d; if (s->tcp == Srv::T_CLOSE) { p->send(w.substr(0, pick(N, (uint32_t)w.size()))); if (pick(N, 2)) p->close(); else p->reset(); probe("fault.dns-tcp-closed"); return; } if (s->tcp == Srv::T_BAD) { int k = pick(N, 4); w = (k == 0 ? be16(0) : k == 1 ? be16((int)d.size() + 50) : k == 2 ? be16(5) : be16(65535)) + d; probe("fault.dns-tcp-bad"); }
            if (sure) { size_t o = 0; int64_t t = 0; while (o < w.size()) { size_t k = std::min<size_t>(w.size() - o, 1 + pick(N, w.size() > 2500 ? 4000 : 400)); Str x = w.substr(o, k); after(t, [p, x] { p->send(x); }); o += k; t += pick(N, 5) * MS; } } else send_fragmented(p, w);
        };
    }
    void servers(int mode) { // 0: some server answers in the end  1: anything
        int n = 1 + pick(W, 3); for (int i = 0; i < n; ++i) { Srv s; s.a = ip4(i == 1 && pick(W, 2) ? 0x7f000035 : 0x0a000035 + i, 53); s.lat = oneofu(W, {1000000, 100000, 30000000, 300000000}); sv.push_back(s); }
        for (auto &s : sv) { switch (pick(W, mode ? 5 : 6)) { case 0: s.kind = Srv::HONEST; break; case 1: s.kind = Srv::SILENT; break; case 2: s.kind = Srv::REFUSE; break; case 3: s.kind = Srv::UNREACH; break; case 4: s.kind = mode ? Srv::ODD : Srv::HONEST; break; default: s.kind = Srv::HONEST; } s.tcp = mode ? (Srv::T)pick(W, 5) : Srv::T_OK; if (mode) s.drop = pick(W, 3); }
        if (!mode) { sv[pick(W, n)].kind = Srv::HONEST; }
    }
    void start() {
        for (size_t i = 0; i < sv.size(); ++i) {
            Srv &s = sv[i]; if (s.kind == Srv::HONEST && sure) s.drop = pick(W, attempts); if (sure && s.kind == Srv::HONEST && s.lat > 400 * MS) s.lat = MS; if (s.kind == Srv::UNREACH) udp_unreach.insert(s.a);
            udp_servers[s.a] = [this, i](const Dgram &g) { on_query(i, g); }; Remote r; r.kind = s.kind == Srv::UNREACH ? Remote::UNREACH : s.kind == Srv::REFUSE || s.tcp == Srv::T_REFUSE ? Remote::REFUSE : s.kind == Srv::SILENT || s.tcp == Srv::T_HOLE ? Remote::BLACKHOLE : Remote::ACCEPT; r.delay = 1 * MS + pick(W, 50) * MS; r.on_accept = [this, i](std::shared_ptr<RawPeer> p) { on_tcp(i, p); }; remotes[s.a] = r;
        }
    }
    // ---- lookups --------------------------------------------------------------------------------
    void lookup1(int id, const Str &name, int mode, int naddrs, int port, int64_t d, bool single, const bool &canceling) {
        std::unique_ptr<Mem> m(new Mem(sizeof(dill_ipaddr) * naddrs)); dill_ipaddr *a = (dill_ipaddr *)m->p; Watch wt; int64_t i0 = idle_ns(); uint64_t q0 = queries; ++active; maxactive = std::max(maxactive, active); ++nlook; (void)q0;
        size_t as0 = attempts_n() + tcpq; int rc = single ? dill_ipaddr_remote(a, name.c_str(), port, mode, d) : dill_ipaddr_remotes(a, naddrs, name.c_str(), port, mode, d); int e = rc < 0 ? errno : 0; --active; ev("lookup", id, rc, e, mode);
        { int64_t spent = now_ns() - wt.t0 - wt.busy(), most = (int64_t)(attempts_n() + tcpq - as0 + 2) * (timeout + 2) * SEC; if (!noresolv && spent > most) viol("C25 C30", "too-slow", "a lookup of '%s' took %lld ms although %zu attempts with a timeout of %d s were made", name.c_str(), (long long)(spent / MS), attempts_n() + (size_t)tcpq - as0, timeout); }
        if (!in_time(wt, d)) viol("C04 C25", "late", "a lookup of '%s' returned long after its deadline (%s)", name.c_str(), rc < 0 ? ename(e) : "success"); if (d == 0 && idle_ns() != i0) viol("C04 C25", "zero-waits", "a lookup with deadline 0 waited");
        bool v4 = mode != DILL_IPADDR_IPV6, v6 = mode != DILL_IPADDR_IPV4, six1 = mode == DILL_IPADDR_PREF_IPV6; std::vector<int> fams; if (six1) { fams = {AF_INET6, AF_INET}; } else { if (v4) fams.push_back(AF_INET); if (v6) fams.push_back(AF_INET6); }
        std::vector<Str> want; bool all = true; for (int f : fams) { auto x = expect(name, f); if (!tcpok && (x.size() > 8 || name.size() > 60 || name.find("tolong") == 0)) all = false; want.insert(want.end(), x.begin(), x.end()); if (single && !want.empty()) break; if ((int)want.size() >= naddrs) break; }
        if (rc < 0) {
            if (e == ETIMEDOUT) { ++ntmo; if (d) check_timedout("C04 C25", "a lookup", wt, d); return; } if (e == ECANCELED) { ++ncanc; if (!canceling) viol("C05 C25", "canceled-outside", "ECANCELED although nobody cancels"); return; }
            if (noresolv && e == ENOENT) return; if (single && e == EADDRNOTAVAIL) { ++nempty; if (sure && all && !want.empty()) viol("C25", "not-found", "'%s' was not found although a name server which knows it answers", name.c_str()); return; } viol("C25", "errno", "a lookup of '%s' failed with %s", name.c_str(), ename(e));
        }
        if (noresolv) viol("C25", "no-config", "a lookup of a name succeeded without a configuration"); int n = single ? 1 : rc; if (n > naddrs) viol("C25", "overflow", "%d results were reported for an array of %d", rc, naddrs); int lastfam = 0, nf = 0; std::map<Str, int> seen; if (n) ++nres; else ++nempty;
        for (int i = 0; i < n; ++i) {
            int f = dill_ipaddr_family(&a[i]); if (!std::count(fams.begin(), fams.end(), f)) viol("C25", "family", "an address of family %d was returned for mode %d", f, mode); if (f != lastfam) { if (lastfam && f == fams[0]) viol("C25", "order", "the addresses are not in preference order"); lastfam = f; ++nf; }
            if (dill_ipaddr_port(&a[i]) != port) viol("C25", "port", "the port is %d instead of %d", dill_ipaddr_port(&a[i]), port); if (hostile) continue;
            Str x = f == AF_INET ? Str((char *)&((sockaddr_in *)&a[i])->sin_addr, 4) : Str((char *)&((sockaddr_in6 *)&a[i])->sin6_addr, 16); auto lg = legit(name, f); if (!lg.count(x)) viol("C25", "wrong-address", "'%s' resolved to an address which nobody gave for it (%s)", name.c_str(), x == evil(f == AF_INET ? A : AAAA) ? "it was given for another name or spoofed" : "unknown"); if (++seen[x] > 1) viol("C25", "twice", "an address of '%s' was returned twice", name.c_str());
        }
        if (verbose()) { auto hx = [](const Str &s) { char b[64]; inet_ntop(s.size() == 4 ? AF_INET : AF_INET6, s.data(), b, 64); return Str(b); }; Str o = "want"; for (auto &x : want) o += " " + hx(x); o += "; got"; for (auto &x : seen) o += " " + hx(x.first); note("%s: %s", name.c_str(), o.c_str()); }
        if (sure && all) { int exp = std::min<int>((int)want.size(), naddrs); if (n != exp) viol("C25", "incomplete", "'%s' resolved to %d addresses instead of %d (mode %d)", name.c_str(), n, exp, mode); std::set<Str> w(want.begin(), want.end()); for (auto &x : seen) if (!w.count(x.first)) viol("C25", "source", "'%s' resolved to an address of lower precedence", name.c_str()); if (naddrs >= (int)want.size() && seen.size() != want.size()) viol("C25", "incomplete", "not all the addresses of '%s' were returned", name.c_str()); }
    }
    void literal(bool single) {
        size_t a0 = attempts_n(); static const char *v4[] = {"1.2.3.4", "255.255.255.255", "127.0.0.1"}, *v6[] = {"::1", "2001:db8::7", "::ffff:1.2.3.4"}; bool six = pick(W, 2); const char *l = six ? v6[pick(W, 3)] : v4[pick(W, 3)]; static const int modes[] = {0, DILL_IPADDR_IPV4, DILL_IPADDR_IPV6, DILL_IPADDR_PREF_IPV4, DILL_IPADDR_PREF_IPV6}; int mode = modes[pick(W, 5)]; dill_ipaddr a[3]; int port = 1 + pick(W, 65535); int64_t i0 = idle_ns();
        int rc = single ? dill_ipaddr_remote(a, l, port, mode, -1) : dill_ipaddr_remotes(a, 3, l, port, mode, -1); int e = rc < 0 ? errno : 0; ev("literal", rc, e, mode); if (idle_ns() != i0) viol("C25", "literal-waits", "converting a literal address waited"); if (attempts_n() != a0) viol("C25", "literal-network", "converting a literal address used the network");
        bool match = six ? mode != DILL_IPADDR_IPV4 : mode != DILL_IPADDR_IPV6; if (!match) { if (single ? !(rc == -1 && (e == EADDRNOTAVAIL || (noresolv && e == ENOENT))) : !(rc == 0 || (rc == -1 && noresolv && e == ENOENT))) viol("C25", "literal-family", "'%s' with mode %d gave %d, %s", l, mode, rc, ename(e)); return; }
        if (rc != (single ? 0 : 1)) viol("C25", "literal", "'%s' with mode %d gave %d, %s", l, mode, rc, ename(e)); uint8_t b[16]; inet_pton(six ? AF_INET6 : AF_INET, l, b); void *x = six ? (void *)&((sockaddr_in6 *)a)->sin6_addr : (void *)&((sockaddr_in *)a)->sin_addr; if (dill_ipaddr_family(a) != (six ? AF_INET6 : AF_INET) || memcmp(x, b, six ? 16 : 4) || dill_ipaddr_port(a) != port) viol("C25", "literal", "'%s' was converted to another address", l);
        char s[IPADDR_MAXSTRLEN_]; dill_ipaddr_str(a, s); dill_ipaddr c; if (dill_ipaddr_remote(&c, s, port, 0, 0) || !dill_ipaddr_equal(a, &c, 0)) viol("C25", "literal", "'%s' does not survive conversion to a string and back", l);
    }
    enum { IPADDR_MAXSTRLEN_ = 64 };
    size_t attempts_n() { size_t n = ::attempts.size(); for (auto &g : dgrams) n += g.to.port == 53; return n; }
    void invalid() {
        dill_ipaddr a[2]; int k = pick(W, 6), rc; Str lng(oneofu(W, {256, 300, 1000}), 'x'); for (size_t i = 50; i < lng.size(); i += 51) lng[i] = '.';
        size_t q0 = attempts_n();
        switch (k) { case 0: rc = dill_ipaddr_remotes(a, 0, "four.test", 80, 0, 0); break; case 1: rc = dill_ipaddr_remotes(NULL, 2, "four.test", 80, 0, 0); break; case 2: rc = dill_ipaddr_remotes(a, 2, NULL, 80, 0, 0); break; case 3: rc = dill_ipaddr_remotes(a, 2, pick(W, 2) ? "four.test" : "1.2.3.4", pick(W, 2) ? -1 : 65536, 0, 0); break; case 4: rc = dill_ipaddr_remotes(a, 2, "four.test", 80, 77, 0); break; default: rc = dill_ipaddr_remotes(a, 2, lng.c_str(), 80, 0, pick(W, 2) ? 0 : dill_now() + 1000); ev("long", rc, rc < 0 ? errno : 0); if (rc > 0) viol("C25", "invalid", "a name of %zu characters was found", lng.size()); return; }
        ev("invalid", k, rc, rc < 0 ? errno : 0); if (rc != -1 || errno != EINVAL) viol("C25", "invalid", "invalid arguments (%d) gave %d, %s", k, rc, ename(rc < 0 ? errno : 0)); if (attempts_n() != q0) viol("C25", "invalid", "invalid arguments caused a query");
    }
    Str somename() { if (pick(W, 12)) return names[pick(W, (uint32_t)names.size())]; switch (pick(W, 5)) { case 0: return ""; case 1: return "."; case 2: return "a..b"; case 3: { Str s(64 + pick(W, 10), 'l'); return s + ".test"; } default: { Str s; while (s.size() < 230u + pick(W, 25)) s += Str(20 + pick(W, 40), 'm') + "."; s.resize(std::min<size_t>(s.size(), 240 + pick(W, 16))); return s; } } }
    bool oddname(const Str &s) { return std::find(names.begin(), names.end(), s) == names.end(); }
    void run(int mode) {
        cfg.cpu_cost = oneofu(S, {200, 1000, 20000}); if (sure) { cfg.stall_pm = 0; cfg.loss_pm = 0; cfg.scap = std::max<size_t>(cfg.scap, 2000); cfg.rcap = std::max<size_t>(cfg.rcap, 2000); cfg.mss = std::max<uint32_t>(cfg.mss, 17); if (cfg.lat_min > 40 * MS) cfg.lat_min = 40 * MS, cfg.lat_jit = 1; } servers(mode); world(); start(); if (noresolv) sure = false;
        if (verbose()) for (auto &x : files) note("%s:\n%s", x.first.c_str(), x.second.c_str());
        dill_hclose(dill_bundle()); { dill_ipaddr a; dill_ipaddr_remotes(&a, 1, "four.test", 80, DILL_IPADDR_IPV4, 0); }
        bool canceling = false; static const int modes[] = {0, DILL_IPADDR_IPV4, DILL_IPADDR_IPV6, DILL_IPADDR_PREF_IPV4, DILL_IPADDR_PREF_IPV6}; int ncor = 1 + pick(W, 4), fds = open_fds(); size_t mem = 0; (void)mem;
        { int b = dill_bundle(); for (int i = 0; i < ncor + 2; ++i) co_bgo(b, [] { dill_msleep(-1); }); dill_hclose(b); }
        for (int round = 0; round < 2; ++round) {
            int b = dill_bundle(), bn = dill_bundle(); bool alldone = false; int done = 0;
            // somebody else's timers must not suffer
            co_bgo(bn, [&] { while (!alldone) { int64_t t = dill_now() + 500; Watch w; if (dill_msleep(t)) return; if (!in_time(w, t)) viol("C04 C25", "blocked", "a lookup kept another coroutine from waking up"); } });
            for (int i = 0; i < ncor; ++i) co_bgo(b, [&, i] {
                for (int k = 1 + pick(W, 2); k--;) {
                    if (chance(W, 1, 10)) { invalid(); continue; } if (chance(W, 1, 8)) { literal(pick(W, 2)); continue; }
                    Str n = somename(); bool single = pick(W, 4) == 0; int na = single ? 1 : pick(W, 3) ? 200 : 1 + pick(W, 4); int64_t d = -1; if (mode == 2 ? true : pick(W, 3) == 0) { switch (pick(W, 5)) { case 0: d = 0; break; case 1: d = dill_now() + pick(W, 5); break; case 2: d = dill_now() + pick(W, 30000); break; default: d = dill_now() + pick(W, 1000); } }
                    if (oddname(n)) { bool s0 = sure; (void)s0; }
                    lookup1(i, n, modes[pick(W, 5)], na, 1 + pick(W, 65535), d, single, canceling);
                }
                ++done; });
            bool cut = chance(W, 1, 3); int w = dill_bundle_wait(b, cut ? dill_now() + pick(W, 20000) : dill_now() + 7200000); if (!cut && w) viol("C25 C30", "no-progress", "a lookup does not finish although all the timeouts of the resolver have passed"); canceling = true; int64_t i0 = idle_ns(); dill_hclose(b); if (idle_ns() != i0) viol("C05 C25", "cancel-waits", "canceling a lookup waited"); canceling = false; alldone = true; dill_hclose(bn);
            if (open_fds() != fds) viol("C25 C27", "leak", "descriptors are left open after all lookups ended:\n%s", describe_fds().c_str());
            if (round == 0) mem = live_allocs(); else if (live_allocs() > mem) viol("C25 C27", "leak-memory", "memory allocated by lookups is not released:\n%s", describe_allocs().c_str());
        }
        { int same = 0, small = 0, n = 0, first = -1; for (auto &x : ids) { int i = *x.second.begin(); if (n++ == 0) first = i; same += i == first; small += i < 1024; } if (n >= 6 && (same == n || small == n)) viol("C25", "predictable", "the ids of %d queries can be guessed", n); if (n >= 6) probe("dns.ids"); }
        if (nlook) nontrivial(); probe("c25.lookups", nlook); probe("c25.found", nres); probe("c25.empty", nempty); probe("c25.timeouts", ntmo); probe("c25.canceled", ncanc); if (maxactive > 1) probe("c25.concurrent"); if (sure) probe("c25.sure-runs");
    }
};
}
SCENARIO(dns) {
    bool faults = pick(W, 2); randomize_common(faults); DnsT t; t.spoof = pick(W, 2); t.extras = pick(W, 2); int mode = pick(W, 2); t.sure = mode == 0; t.run(mode);
}
SCENARIO(dnshostile) {
    randomize_common(pick(W, 2)); DnsT t; t.hostile = true; t.sure = false; t.extras = pick(W, 2); t.spoof = pick(W, 3) == 0; t.run(1);
}
// Addresses of local interfaces, and the functions which take an address apart.
namespace {
struct IfaceT {
    static const char *name() { static const char *n[] = {"lo", "eth0", "eth", "eth01", "eth0:1", "e", "wlan0", "et"}; return n[pick(W, 8)]; }
    static Str lit(bool six) { char b[64]; uint8_t x[16]; for (auto &c : x) c = pick(W, 3) ? (uint8_t)pick(W, 256) : 0; inet_ntop(six ? AF_INET6 : AF_INET, x, b, 64); return b; }
    struct Val { int fam; Str b; int port; uint32_t scope; dill_ipaddr a; }; std::vector<Val> vs; int nok = 0, nerr = 0;
    void one() {
        ifaces.clear(); for (int i = pick(W, 12); i > 0; --i) { Iface f; f.name = name(); static const int fm[] = {AF_INET, AF_INET6, AF_INET, AF_INET6, 17, 0}; f.fam = fm[pick(W, 6)]; for (auto &c : f.b) c = (uint8_t)pick(W, 256); f.scope = pick(W, 3) ? 0 : 1 + pick(W, 9); ifaces.push_back(f); }
        ifaces_error = chance(F, 1, 12) ? oneofu(F, {ENOMEM, EMFILE, EACCES}) : 0; static const int modes[] = {0, DILL_IPADDR_IPV4, DILL_IPADDR_IPV6, DILL_IPADDR_PREF_IPV4, DILL_IPADDR_PREF_IPV6}; int mode = modes[pick(W, 5)], port = pick(W, 3) ? (int)pick(W, 65536) : (int)oneofu(W, {0, 1, 255, 256, 65535, 32768}); bool badport = false, badmode = false; if (chance(W, 1, 10)) { badport = true; port = (int)oneofu(W, {65536, 70000, (uint32_t)-1, 0x7fffffff, 0x80000000}); } if (chance(W, 1, 20)) { badmode = true; mode = oneofu(W, {5, 77, (uint32_t)-1}); }
        int k = pick(W, 5); bool six = pick(W, 2); Str n = k == 0 ? lit(six) : name(); bool any = k == 1 && pick(W, 2); bool islit = k == 0; dill_ipaddr a; memset(&a, 0x55, sizeof a);
        int64_t i0 = idle_ns(); int rc = dill_ipaddr_local(&a, any ? NULL : n.c_str(), port, mode), e = rc ? errno : 0; ev("local", rc, e, mode); if (idle_ns() != i0) viol("C25", "local-waits", "ipaddr_local waited"); if (ifaces_live) viol("C25 C27", "leak", "the list of interfaces is not freed");
        if (badport || badmode) { ++nerr; if (rc != -1 || e != EINVAL) viol("C25", "local-invalid", "ipaddr_local('%s') with port %d and mode %d returned %d, %s, port %d", any ? "(any)" : n.c_str(), port, mode, rc, ename(e), rc ? 0 : dill_ipaddr_port(&a)); return; }
        int pref = mode == DILL_IPADDR_IPV6 || mode == DILL_IPADDR_PREF_IPV6 ? AF_INET6 : AF_INET; bool only = mode == DILL_IPADDR_IPV4 || mode == DILL_IPADDR_IPV6; Val v; v.port = port; v.fam = 0; v.scope = 0;
        if (any) { v.fam = pref; v.b = Str(pref == AF_INET ? 4 : 16, '\0'); } else if (islit) { int f = six ? AF_INET6 : AF_INET; if (!only || f == pref) { uint8_t x[16]; inet_pton(f, n.c_str(), x); v.fam = f; v.b = Str((char *)x, six ? 16 : 4); } }
        else for (int f : {pref, pref == AF_INET ? AF_INET6 : AF_INET}) { if (v.fam || (only && f != pref)) continue; for (auto &x : ifaces) if (x.name == n && x.fam == f) { v.fam = f; v.b = Str((char *)x.b, f == AF_INET ? 4 : 16); if (f == AF_INET6) v.scope = x.scope; break; } }
        if (!v.fam || (ifaces_error && !any && !islit)) { ++nerr; int want = ifaces_error ? ifaces_error : ENODEV; if (rc != -1 || e != want) viol("C25", "local-absent", "ipaddr_local('%s') with mode %d returned %d, %s, expected %s", n.c_str(), mode, rc, ename(e), ename(want)); return; }
        if (rc) viol("C25", "local-refused", "ipaddr_local('%s') with mode %d failed with %s", any ? "(any)" : n.c_str(), mode, ename(e)); v.a = a; check(v, any ? "(any)" : n.c_str(), mode); vs.push_back(v); ++nok;
    }
    void check(const Val &v, const char *n, int mode) {
        const dill_ipaddr *a = &v.a; auto bad = [&](const char *what) { viol("C25", "local-wrong", "the %s of ipaddr_local('%s') with mode %d is wrong", what, n, mode); }; if (dill_ipaddr_family(a) != v.fam) bad("family"); auto *sa = dill_ipaddr_sockaddr(a); if (sa->sa_family != v.fam) bad("sockaddr's family"); if (dill_ipaddr_len(a) != (v.fam == AF_INET ? (int)sizeof(sockaddr_in) : (int)sizeof(sockaddr_in6))) bad("length"); if (dill_ipaddr_port(a) != v.port) bad("port");
        if (memcmp(v.fam == AF_INET ? (void *)&((sockaddr_in *)sa)->sin_addr : (void *)&((sockaddr_in6 *)sa)->sin6_addr, v.b.data(), v.b.size())) bad("address"); if (v.fam == AF_INET6 && ((sockaddr_in6 *)sa)->sin6_scope_id != v.scope) bad("scope"); char s[DILL_IPADDR_MAXSTRLEN], w[64]; inet_ntop(v.fam, v.b.data(), w, 64); Mem m(DILL_IPADDR_MAXSTRLEN); if (dill_ipaddr_str(a, m.p) != m.p || strcmp(m.p, w)) bad("string"); (void)s;
    }
    void run() {
        for (int i = 5 + pick(W, 20); i > 0; --i) {
            one(); if (vs.empty()) continue; Val &x = vs[pick(W, (uint32_t)vs.size())], &y = vs[pick(W, (uint32_t)vs.size())];
            if (pick(W, 4) == 0) { x.port = pick(W, 65536); dill_ipaddr_setport(&x.a, x.port); check(x, "after ipaddr_setport", 0); } if (pick(W, 4) == 0) { y = x; if (pick(W, 2)) { y.port ^= 1 << pick(W, 16); dill_ipaddr_setport(&y.a, y.port); } }
            bool same = x.fam == y.fam && x.b == y.b, same2 = same && x.port == y.port; if (!!dill_ipaddr_equal(&x.a, &y.a, 1) != same || !!dill_ipaddr_equal(&x.a, &y.a, 0) != same2) viol("C25", "equal", "ipaddr_equal of two addresses (%s, ports %d and %d) is wrong", same ? "same" : "different", x.port, y.port);
        }
        probe("c25.local", nok); probe("c25.local-errors", nerr); if (nok) nontrivial();
    }
};
}
SCENARIO(iface) { randomize_common(pick(W, 2)); IfaceT t; t.run(); final_census("C27 C25"); }
