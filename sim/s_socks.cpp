// SOCKS5 negotiation (C21), and hostile peers of it (C30).
#include "proto.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
namespace {
struct Target { int atyp = 1; Str addr; int port = 0; }; // addr: 4 or 16 bytes or the name
Str cat(std::initializer_list<int> l) { Str r; for (int x : l) r += (char)x; return r; }
Str target_bytes(const Target &t) { Str r = cat({t.atyp}); if (t.atyp == 3) r += (char)t.addr.size(); return r + t.addr + cat({t.port >> 8, t.port & 255}); }
// Reads what follows; 1 complete, 0 more needed, -1 wrong.
struct Rd {
    const Str &s; size_t o = 0; Rd(const Str &x) : s(x) {}
    bool has(size_t n) const { return s.size() - o >= n; }
    int u8() { return (uint8_t)s[o++]; }
    Str take(size_t n) { Str r = s.substr(o, n); o += n; return r; }
};
enum Res { OK, MORE, BAD, DENIED };
Res rd_request(Rd &r, int &code, Target &t) {
    if (!r.has(4)) return MORE; int v = r.u8(); code = r.u8(); int rsv = r.u8(); t.atyp = r.u8(); if (v != 5 || rsv != 0) return BAD;
    size_t n; if (t.atyp == 1) n = 4; else if (t.atyp == 4) n = 16; else if (t.atyp == 3) { if (!r.has(1)) return MORE; n = r.u8(); } else return BAD;
    if (!r.has(n + 2)) return MORE; t.addr = r.take(n); t.port = r.u8() << 8; t.port |= r.u8(); if (t.atyp == 3 && t.addr.find('\0') != Str::npos) return BAD; return OK;
}
// What a client's bytes mean to a proxy which wants these credentials (or none).
Res model_auth(Rd &r, bool auth, const Str &user, const Str &pass, Str &reply, int &checks) {
    if (!r.has(2)) return MORE; int v = r.u8(); int n = r.u8(); if (v != 5) return BAD; if (!r.has(n)) return MORE; Str m = r.take(n);
    bool np = m.find('\0') != Str::npos, up = m.find('\2') != Str::npos;
    if (!auth) { if (np) { reply += cat({5, 0}); return OK; } reply += cat({5, 255}); return DENIED; }
    if (!up) { reply += cat({5, 255}); return DENIED; }
    reply += cat({5, 2}); if (!r.has(2)) return MORE; v = r.u8(); size_t k = r.u8(); if (v != 1) return BAD; if (!r.has(k + 1)) return MORE; Str u = r.take(k); k = r.u8(); if (!r.has(k)) return MORE; Str p = r.take(k);
    ++checks; if (u == user && p == pass) { reply += cat({1, 0}); return OK; } reply += cat({1, 255}); return DENIED;
}
struct SocksT;
SocksT *cur;
int the_auth(const char *u, const char *p);
struct SocksT {
    Base b; Str user, pass; bool auth = false; int auth_calls = 0, nok = 0, nerr = 0, ninv = 0; bool checking = false; int64_t stallms = 0;
    int ask(const char *u, const char *p) { ++auth_calls; if (!checking) viol("C21", "auth-call", "the credentials were checked outside of the negotiation"); if (stallms) dill_msleep(dill_now() + stallms); return user == u && pass == p; }
    Str cred() { size_t n = pick(W, 4) ? pick(W, 12) : oneofu(W, {0, 255, 254, 1, 128}); Str r; for (size_t i = 0; i < n; ++i) r += (char)(1 + pick(W, 255)); return r; }
    Target target() {
        Target t; t.port = oneofu(W, {80, 1, 65535, 256, 255, 32768, 1080}); static const int ty[] = {1, 4, 3}; t.atyp = ty[pick(W, 3)];
        if (t.atyp == 3) { size_t n = 1 + (pick(W, 4) ? pick(W, 30) : oneofu(W, {254, 0, 253, 100})); for (size_t i = 0; i < n; ++i) t.addr += "abcxyz-.0129_"[pick(W, 13)]; t.addr[0] = 'h'; }
        else for (int i = 0; i < (t.atyp == 1 ? 4 : 16); ++i) t.addr += (char)pick(W, 256); return t;
    }
    static dill_ipaddr to_ip(const Target &t) { dill_ipaddr a; memset(&a, 0, sizeof a); if (t.atyp == 1) { auto *s = (sockaddr_in *)&a; s->sin_family = AF_INET; s->sin_port = htons(t.port); memcpy(&s->sin_addr, t.addr.data(), 4); } else { auto *s = (sockaddr_in6 *)&a; s->sin6_family = AF_INET6; s->sin6_port = htons(t.port); memcpy(&s->sin6_addr, t.addr.data(), 16); } return a; }
    static Str literal(const Target &t) { char x[64]; inet_ntop(t.atyp == 1 ? AF_INET : AF_INET6, t.addr.data(), x, sizeof x); return x; }
    static int rep_errno(int rep) { switch (rep) { case 1: return EIO; case 2: return EACCES; case 3: return ENETUNREACH; case 4: return EHOSTUNREACH; case 5: return ECONNREFUSED; case 6: return ETIMEDOUT; case 7: return EOPNOTSUPP; case 8: return EAFNOSUPPORT; default: return EPROTO; } }
    // how the client names its target
    struct Call { Target t; bool byname = false, up = false, pnull = false; Str name, u, p; };
    Call gencall() { Call c; c.t = target(); c.byname = c.t.atyp == 3 || pick(W, 2); c.name = c.t.atyp == 3 ? c.t.addr : literal(c.t); c.up = pick(W, 3); c.u = cred(); c.p = cred(); if (!c.up && pick(W, 3) == 0) c.pnull = true; return c; }
    int connect(int h, const Call &c, int64_t d) {
        const char *u = c.up || c.pnull ? c.u.c_str() : NULL, *p = c.up ? c.p.c_str() : NULL; if (c.byname) return dill_socks5_client_connectbyname(h, u, p, c.name.c_str(), c.t.port, d); dill_ipaddr a = to_ip(c.t); return dill_socks5_client_connect(h, u, p, &a, d);
    }
    // one command of a client; its meaning must be exactly 't'
    int recvcmd(int h, Target &t, int64_t d, bool byname) {
        if (byname) { Mem host(256); int port = -1; memset(host.p, 'x', 256); int rc = dill_socks5_proxy_recvcommandbyname(h, host.p, &port, d); if (rc > 0) { t.addr = Str(host.p, strnlen(host.p, 256)); t.atyp = 3; t.port = port; } return rc; }
        dill_ipaddr a; int rc = dill_socks5_proxy_recvcommand(h, &a, d); if (rc > 0) { t.port = dill_ipaddr_port(&a); if (dill_ipaddr_family(&a) == AF_INET) t.atyp = 1, t.addr = Str((char *)&((sockaddr_in *)&a)->sin_addr, 4); else t.atyp = 4, t.addr = Str((char *)&((sockaddr_in6 *)&a)->sin6_addr, 16); } return rc;
    }
    // does what was received say the same as what was requested?
    static bool same(const Target &got, const Target &want) { if (got.port != want.port) return false; if (got.atyp == want.atyp) return got.addr == want.addr; return got.atyp == 3 && want.atyp != 3 && got.addr == literal(want); }
    void invalid(int h) {
        ++ninv; int rc; const char *what; Str big(256 + pick(W, 100), 'a'); Call c = gencall(); c.byname = true; c.t.atyp = 3; c.name = "host"; dill_ipaddr a; memset(&a, 0, sizeof a);
        switch (pick(W, 3)) { case 0: c.up = true; if (pick(W, 2)) c.u = big; else c.p = big; what = "credentials of more than 255 bytes"; rc = connect(h, c, -1); break; case 1: what = "an unknown reply code"; { dill_ipaddr ok = to_ip(Target{1, Str(4, 1), 5}); rc = dill_socks5_proxy_sendreply(h, oneofu(W, {9, 255, (uint32_t)-1, 256}), &ok, -1); } break;
            default: what = "an address of no family"; rc = dill_socks5_proxy_sendreply(h, 0, &a, -1); }
        if (rc != -1 || errno != EINVAL) viol("C21", "invalid-accepted", "%s: returned %d, %s", what, rc, ename(errno));
        int hn = dill_bundle(); rc = pick(W, 2) ? dill_socks5_proxy_auth(hn, NULL, -1) : connect(hn, c, -1); if (rc != -1 || errno != ENOTSUP) viol("C21", "not-a-stream", "negotiation over something else than a byte stream returned %d, %s", rc, ename(errno)); dill_hclose(hn);
    }
    // late: a proxy's answer can be ETIMEDOUT before the deadline (reply 6)
    void judge_time(const char *what, Watch &wt, int64_t d, int rc, int e, int64_t extra = 0, bool rep6 = false) { if (!in_time(wt, d < 0 ? d : d + extra)) viol("C04 C21 C30", "late", "%s returned long after its deadline", what); if (rc < 0 && e == ETIMEDOUT && !rep6) { if (d) check_timedout("C04 C21", what, wt, d); } }
    void push(int h, int h2, uint64_t key) { // the stream is positioned after the negotiation
        Str d = pattern(20 + pick(W, 60), key); int bb = dill_bundle(); co_bgo(bb, [&] { if (dill_bsend(h, d.data(), d.size(), -1)) viol("C21", "position", "the stream cannot be used after the negotiation: %s", ename(errno)); }); Mem m(d.size()); if (dill_brecv(h2, m.p, d.size(), dill_now() + 360000000) || memcmp(m.p, d.data(), d.size())) viol("C21", "position", "after the negotiation the streams are not aligned"); if (dill_bundle_wait(bb, dill_now() + 360000000)) viol("C21", "position", "after the negotiation sending does not finish"); dill_hclose(bb);
    }
    int64_t dl(bool clean) { if (clean) return pick(W, 2) ? -1 : dill_now() + 360000000; switch (pick(W, 6)) { case 0: return 0; case 1: return -1; case 2: return dill_now() + pick(W, 5); default: return dill_now() + pick(W, 400); } }
    // ---- both ends are the library's -----------------------------------------------------------
    void pair_run(bool clean) {
        b.pair("C21"); if (chance(W, 1, 4)) invalid(b.h[pick(W, 2)]); Call c = gencall(); auth = pick(W, 3); if (c.up && pick(W, 3)) user = c.u, pass = c.p; else user = cred(), pass = cred(); switch (pick(W, 6)) { case 0: if (!user.empty()) user.resize(user.size() - 1); break; case 1: pass += 'x'; if (pass.size() > 255) pass.resize(255); break; default:; }
        bool accept = auth ? c.up && c.u == user && c.p == pass : true; int rep = pick(W, 2) ? 0 : pick(W, 9); Target bt = target(); while (bt.atyp == 3) bt = target(); if (pick(W, 3) == 0) stallms = pick(W, 50); bool byname = c.t.atyp == 3 || pick(W, 2); bool hosts = false;
        if (c.t.atyp == 3 && pick(W, 3) == 0 && c.t.addr.size() < 60) { c.t.addr = c.name = "www.example" + std::to_string(pick(W, 10)); files["/etc/hosts"] = "10.1.2.3 " + c.name + "\n"; files["/etc/resolv.conf"] = "nameserver 127.0.0.1\nlookup file bind\n"; byname = false; hosts = true; }
        bool silent = false; if (!clean && !hosts && c.t.atyp == 3 && pick(W, 2)) { silent = true; c.t.addr = c.name = "www.silent" + std::to_string(pick(W, 10)); files["/etc/hosts"] = ""; files["/etc/resolv.conf"] = "nameserver 10.77.0.1\n"; byname = false; } // no name server answers
        int crc = -2, ce = 0, arc = -2, ae = 0, qrc = -2, qe = 0, src = -2; Target got; bool canceled = false; int64_t d1 = dl(clean), d2 = dl(clean); int bb = dill_bundle();
        co_bgo(bb, [&] { Watch wt; crc = connect(b.h[0], c, d1); ce = crc ? errno : 0; ev("connect", crc, ce); judge_time("socks5_client_connect", wt, d1, crc, ce, 0, true); if (crc && ce == ETIMEDOUT && !(src == 0 && rep == 6) && d1) check_timedout("C04 C21", "socks5_client_connect", wt, d1);
            if (crc && !clean && ce != ETIMEDOUT) { dill_hclose(b.h[0]); b.h[0] = -1; } });
        co_bgo(bb, [&] {
            Watch wt; checking = true; arc = dill_socks5_proxy_auth(b.h[1], auth ? the_auth : NULL, d2); ae = arc ? errno : 0; checking = false; ev("auth", arc, ae); judge_time("socks5_proxy_auth", wt, d2, arc, ae, stallms); if (arc) { if (!accept && pick(W, 2)) { dill_hclose(b.h[1]); b.h[1] = -1; } return; }
            Watch w2; qrc = recvcmd(b.h[1], got, d2, byname); qe = qrc < 0 ? errno : 0; ev("command", qrc, qe); judge_time("socks5_proxy_recvcommand", w2, d2, qrc, qe, hosts ? 1000 : 0); if (qrc < 0) return;
            dill_ipaddr a = to_ip(bt); Watch w3; src = dill_socks5_proxy_sendreply(b.h[1], rep, &a, d2); int e = src ? errno : 0; judge_time("socks5_proxy_sendreply", w3, d2, src, e); });
        int w = dill_bundle_wait(bb, clean ? dill_now() + 72000000 : dill_now() + pick(W, 1000)); if (clean && w) viol("C21", "no-progress", "the negotiation does not finish"); canceled = w != 0; dill_hclose(bb);
        auto bad = [&](const char *what, int e) { if (clean || !(e == ETIMEDOUT || e == ECONNRESET || e == EPIPE || (e == ECANCELED && canceled))) viol("C21", "errno", "%s failed with %s", what, ename(e)); };
        if (arc == 0 && !accept) viol("C21", "accepted", "the proxy accepted a client whose credentials are not right"); if (arc == -1) { ++nerr; if (!(ae == EACCES && !accept)) bad("socks5_proxy_auth", ae); if (ae == EACCES && accept) viol("C21", "refused", "the proxy refused a client with the right credentials"); }
        if (arc == 0 && auth && auth_calls != 1) viol("C21", "auth-call", "a client was accepted after %d checks of its credentials", auth_calls); if (!auth && auth_calls) viol("C21", "auth-call", "credentials were checked without a checker");
        if (qrc >= 0) { if (qrc != DILL_SOCKS5_CONNECT) viol("C21", "command", "the command is %d", qrc); Target want = c.t; if (hosts) want.atyp = 1, want.addr = cat({10, 1, 2, 3}); if (!same(got, want)) viol("C21", "target", "the proxy got '%s' port %d, type %d; the client asked for '%s' port %d", got.atyp == 3 ? got.addr.c_str() : literal(got).c_str(), got.port, got.atyp, c.name.c_str(), c.t.port); } else if (qrc == -1) { ++nerr; if (!(silent && qe == EADDRNOTAVAIL)) bad("socks5_proxy_recvcommand", qe); }
        if (crc == 0) { ++nok; if (src != 0 && !(src == -1 && !clean) && !(src == -2 && canceled)) viol("C21", "success", "the client succeeded without the proxy's reply"); if (src == -2 && qrc < 0) viol("C21", "success", "the client succeeded before its command was received"); if (rep != 0 || !accept) viol("C21", "success", "the client succeeded although the proxy %s", accept ? "reported a failure" : "rejected the credentials"); }
        else if (crc == -1) { ++nerr; if (rep != 0 && ce == rep_errno(rep) && (src == 0 || src == -1 || (src == -2 && qrc > 0))) {} else if (!accept && ce == EACCES && (ae == EACCES || !clean)) {} else if (clean && !accept && (ce == EPIPE || ce == ECONNRESET) && b.h[1] < 0) {} else bad("socks5_client_connect", ce); if (clean && accept && rep == 0) viol("C21", "refused", "the client failed with %s", ename(ce)); }
        if (crc == 0 && src == 0) for (int i = 0; i < 2; ++i) push(b.h[i], b.h[1 - i], 5 + i);
        for (int i = 0; i < 2; ++i) if (b.h[i] >= 0) dill_hclose(b.h[i]);
    }
    // ---- one end is a script ---------------------------------------------------------------------
    void mutate(Str &s) { int k = pick(N, 6); if (k == 0) { for (int i = pick(N, 40); i > 0; --i) s += (char)pick(N, 256); } else if (k == 1 && !s.empty()) s.resize(pick(N, (uint32_t)s.size())); else if (k == 2 && !s.empty()) s[pick(N, (uint32_t)s.size())] ^= 1 << pick(N, 8); else if (k == 3 && !s.empty()) s[pick(N, (uint32_t)std::min<size_t>(s.size(), 8))] = (char)oneofu(N, {0, 255, 1, 2, 3, 4, 5, 6, 128}); else if (k == 4 && !s.empty()) s.erase(pick(N, (uint32_t)s.size()), 1 + pick(N, 3)); else { s.clear(); for (int i = pick(N, 300); i > 0; --i) s += (char)pick(N, 256); if (s.size() && pick(N, 2)) s[0] = pick(N, 2) ? 5 : 1; } }
    struct Script { std::shared_ptr<RawPeer> p; Str bytes; int end; int64_t done_at; };
    Script start(std::shared_ptr<RawPeer> p, const Str &bytes, bool hostile) { int end = hostile ? pick(N, 4) : 0; int64_t t = send_fragmented(p, bytes, 1000, [p, end] { if (end == 1) p->shut(); else if (end == 2) p->close(); }); if (end == 3) after(1 + pick(N, 300) * MS, [p] { p->reset(); }); return {p, bytes, end, now_ns() + t}; }
    // outcome of a library call vs. the meaning of the bytes; returns true if the negotiation goes on
    bool judge(const char *what, Res x, int rc, int e, const Script &s, Watch &wt, int64_t d, int64_t extra, bool rep6 = false) {
        judge_time(what, wt, d, rc, e, extra, rep6); if (rc >= 0) { if (x != OK) viol("C21 C30", "accepted", "%s succeeded although %s", what, x == MORE ? "the peer's message is not complete" : x == BAD ? "the peer violated the protocol" : "the credentials are not right"); return true; } ++nerr;
        bool soon = d >= 0 && d - wt.t0 / MS < 3000000; // the deadline may pass first
        if (e == ETIMEDOUT && (soon || x == MORE)) return false; if (e == ETIMEDOUT && rep6) return false; if (s.end == 3 && (e == ECONNRESET || e == EPIPE)) return false; if (s.end == 2 && e == ECONNRESET) return false; 
        if (x == MORE) { if (s.end == 0 || (e != EPIPE && e != ECONNRESET)) viol("C21 C30", "errno", "%s failed with %s although the peer is merely slow", what, ename(e)); return false; }
        if (x == BAD && e == EPROTO) return false; if (x == DENIED && e == EACCES) return false; if (x == DENIED && s.end == 2 && e == EPIPE) return false;
        if (x == OK) viol("C21", "refused", "%s failed with %s although the peer did everything right", what, ename(e)); viol("C21 C30", "errno", "%s failed with %s; the peer %s", what, ename(e), x == BAD ? "violated the protocol" : "was denied"); return false;
    }
    template <class P> void wait_rx(std::shared_ptr<RawPeer> p, P pred) { size_t had = p->rx.size(); for (int still = 0; still < 200 && !pred();) { dill_msleep(dill_now() + 500); if (p->rx.size() != had) still = 0, had = p->rx.size(); else ++still; } }
    void proxy_run(bool hostile) { // the library is the proxy
        auto p = b.raw("C21"); auth = pick(W, 2); user = cred(); pass = cred(); Str u = user, w = pass; if (pick(N, 4) == 0) { switch (pick(N, 4)) { case 0: u += Str("\0a", 2); break; case 1: w += Str("\0", 1); break; case 2: w = cred(); break; default: u = ""; } u.resize(std::min<size_t>(u.size(), 255)); w.resize(std::min<size_t>(w.size(), 255)); }
        Str m; if (pick(N, 5) == 0) { for (int i = pick(N, 2) ? pick(N, 5) : pick(N, 256); i > 0; --i) m += (char)pick(N, 256); } else m = pick(N, 2) ? cat({0, 2}) : auth ? cat({2}) : cat({0}); Str by = cat({5, (int)m.size()}) + m; if (auth) by += cat({1, (int)u.size()}) + u + cat({(int)w.size()}) + w;
        Target t = target(); int cmd = pick(N, 3) ? 1 : 1 + pick(N, 3); by += cat({5, cmd, 0}) + target_bytes(t); if (hostile) for (int i = 1 + pick(N, 2); i > 0; --i) mutate(by); Str tail = pattern(pick(W, 50), 8); by += tail;
        Rd r(by); Str reply; int checks = 0; Res x = model_auth(r, auth, user, pass, reply, checks); Script s = start(p, by, hostile); bool fin = s.end == 0; if (pick(W, 3) == 0) stallms = pick(W, 50);
        int64_t d = hostile && pick(W, 2) ? dill_now() + pick(W, 400) : dill_now() + 360000000; Watch wt; checking = true; int rc = dill_socks5_proxy_auth(b.h[0], auth ? the_auth : NULL, d); int e = rc ? errno : 0; checking = false; ev("auth", rc, e); bool go = judge("socks5_proxy_auth", x, rc, e, s, wt, d, stallms); int64_t timedout = rc && e == ETIMEDOUT; if (auth_calls > 1) viol("C21", "auth-call", "the credentials were checked %d times", auth_calls);
        if (go) {
            int code = 0; Target want, got; Res y = rd_request(r, code, want); if (y == OK && (code < 1 || code > 3)) y = BAD; bool byname = want.atyp == 3 || pick(W, 2); d = hostile && pick(W, 2) ? dill_now() + pick(W, 400) : dill_now() + 360000000; Watch w2; rc = recvcmd(b.h[0], got, d, byname); e = rc < 0 ? errno : 0; ev("command", rc, e); go = judge("socks5_proxy_recvcommand", y, rc, e, s, w2, d, 0); timedout |= rc < 0 && e == ETIMEDOUT;
            if (go) { ++nok; if (rc != code || !same(got, want)) viol("C21 C30", "target", "the proxy got command %d for '%s' port %d; the client sent command %d for '%s' port %d", rc, got.atyp == 3 ? got.addr.c_str() : literal(got).c_str(), got.port, code, want.atyp == 3 ? want.addr.c_str() : literal(want).c_str(), want.port);
                if (!hostile) { if (chance(W, 1, 3)) invalid(b.h[0]); int rep = pick(W, 9); Target bt = target(); while (bt.atyp == 3) bt = target(); dill_ipaddr a = to_ip(bt); if (dill_socks5_proxy_sendreply(b.h[0], rep, &a, -1)) viol("C21", "reply", "socks5_proxy_sendreply failed with %s", ename(errno)); reply += cat({5, rep, 0}) + target_bytes(bt); Str rest = by.substr(r.o); Mem mm(rest.size()); if (dill_brecv(b.h[0], mm.p, rest.size(), dill_now() + 360000000) || memcmp(mm.p, rest.data(), rest.size())) viol("C21", "position", "the stream is not positioned right after the client's request"); dill_bsend(b.h[0], "END", 3, -1); reply += "END"; } }
        }
        if (fin && !timedout) { wait_rx(p, [&] { return p->rx.size() >= reply.size(); }); if (p->rx != reply) viol("C21", "wire", "the proxy sent %zu bytes which are not what the protocol wants (%zu bytes)", p->rx.size(), reply.size()); }
        dill_hclose(b.h[0]); p->close(); dill_msleep(dill_now() + 100);
    }
    void client_run(bool hostile) { // the library is the client
        auto p = b.raw("C21"); Call c = gencall(); if (!hostile && chance(W, 1, 4)) { invalid(b.h[0]); dill_msleep(dill_now() + 50); if (!p->rx.empty()) viol("C21", "invalid-accepted", "bytes were sent by refused calls"); }
        int method = hostile ? oneofu(N, {0, 2, 255, 1, 3, 128}) : pick(N, 10) == 0 ? 255 : c.up ? 2 * pick(N, 2) : 0; int deny = method == 2 && pick(N, 6) == 0; int rep = pick(N, 2) ? 0 : pick(N, 10); Target bt = target(); Str by = cat({5, method}); if (method == 2) by += cat({1, deny ? (int)(1 + pick(N, 255)) : 0}); by += cat({5, rep, 0}) + target_bytes(bt); if (hostile) for (int i = pick(N, 3); i > 0; --i) mutate(by); Str tail = pattern(pick(W, 50), 8); by += tail;
        Rd r(by); Res x; int sent = 0, e0 = 0; // sent: greeting, credentials, request
        [&] { sent = 1; if (!r.has(2)) { x = MORE; return; } int v = r.u8(), mt = r.u8(); if (v != 5) { x = BAD; return; } if (mt == 255) { x = DENIED; return; } if (mt != 0 && !(mt == 2 && c.up)) { x = BAD; return; }
            if (mt == 2) { sent |= 2; if (!r.has(2)) { x = MORE; return; } v = r.u8(); int st = r.u8(); if (v != 1) { x = BAD; return; } if (st) { x = DENIED; return; } } sent |= 4; int code; Target t; x = rd_request(r, code, t); if (x == OK && code) { x = BAD; e0 = rep_errno(code); } }();
        bool badname = false; if (!hostile && chance(W, 1, 12)) { badname = true; c.byname = true; switch (pick(W, 3)) { case 0: c.name = Str(256 + pick(W, 50), 'h'); break; case 1: c.name = ""; break; default: c.t.port = oneofu(W, {65536, (uint32_t)-1, 70000, 0}); } if (sent & 4) { sent &= ~4; x = BAD; e0 = EINVAL; } }
        Script s = start(p, by, hostile); int64_t d = hostile && pick(W, 2) ? dill_now() + pick(W, 400) : dill_now() + 360000000; Watch wt; int rc = connect(b.h[0], c, d); int e = rc ? errno : 0; ev("connect", rc, e); if (rc > 0) viol("C21", "rc", "the client returned %d", rc);
        if (rc && e0 && e == e0) { ++nerr; judge_time("socks5_client_connect", wt, d, rc, e, 0, e0 == ETIMEDOUT); } else if (rc && e0 && e == EPROTO) viol("C21", "errno", "the client failed with %s, expected %s", ename(e), ename(e0)); else if (judge("socks5_client_connect", x, rc, e, s, wt, d, 0)) { ++nok; Str rest = by.substr(r.o); if (s.end != 3) { Mem mm(rest.size()); int64_t dd = dill_now() + 360000000; if (rest.size() && dill_brecv(b.h[0], mm.p, rest.size(), dd)) { if (s.end != 2 || errno != ECONNRESET) viol("C21", "position", "what follows the negotiation is not received: %s", ename(errno)); } else if (memcmp(mm.p, rest.data(), rest.size())) viol("C21", "position", "the stream is not positioned right after the proxy's reply"); } if (s.end == 0) dill_bsend(b.h[0], "END", 3, -1); }
        if (s.end == 0 && !(rc && e == ETIMEDOUT && (hostile || e0 != ETIMEDOUT))) { // what was sent, read by an independent decoder
            Str want; want = cat({0}); dill_msleep(dill_now() + 50); size_t had = 0; for (int i = 0, idle = 0; i < 5000 && idle < 30; ++i) { dill_msleep(dill_now() + 500); idle = p->rx.size() == had ? idle + 1 : 0; had = p->rx.size(); } Rd q(p->rx); auto wire = [&](bool ok, const char *what) { if (!ok) viol("C21", "wire", "the client's %s is not what the protocol wants", what); };
            wire(q.has(2), "greeting"); wire(q.u8() == 5, "greeting"); int n = q.u8(); wire(q.has(n), "greeting"); Str m = q.take(n); wire(m.find('\0') != Str::npos && (m.find('\2') != Str::npos) == c.up && n == (c.up ? 2 : 1), "list of methods");
            if (sent & 2) { wire(q.has(2) && q.u8() == 1, "credentials"); n = q.u8(); wire(q.has(n + 1), "user name"); wire(q.take(n) == c.u, "user name"); n = q.u8(); wire(q.has(n), "password"); wire(q.take(n) == c.p, "password"); }
            if (sent & 4) { int code; Target t; wire(rd_request(q, code, t) == OK && code == 1, "request"); if (c.byname && c.t.atyp == 3) wire(t.atyp == 3, "target"); if (!c.byname) wire(t.atyp == c.t.atyp, "target"); wire(same(t, c.t), "target"); }
            if (rc == 0) wire(q.has(3) && q.take(3) == "END", "later data"); wire(q.o == p->rx.size(), "end of the negotiation");
        }
        if (badname && rc == 0) viol("C21", "invalid-accepted", "an invalid host name or port was accepted"); dill_hclose(b.h[0]); p->close(); dill_msleep(dill_now() + 100);
    }
    void run(bool hostile) {
        switch (hostile ? 4 + pick(W, 2) : pick(W, 8)) { case 0: case 1: pair_run(true); break; case 2: pair_run(false); break; case 3: proxy_run(false); break; case 4: proxy_run(true); break; case 5: client_run(true); break; default: client_run(false); }
        probe("socks.ok", nok); probe("socks.errors", nerr); probe("socks.invalid", ninv); probe("socks.checks", auth_calls); if (nok || nerr) nontrivial();
    }
};
int the_auth(const char *u, const char *p) { return cur->ask(u, p); }
void go(bool hostile) { randomize_common(true); proto_net(); if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; if (cfg.ucap < 600) cfg.ucap = 600; if (cfg.scap < 600) cfg.scap = 600; if (cfg.rcap < 600) cfg.rcap = 600; cur = new SocksT; cur->run(hostile); delete cur; }
}
SCENARIO(socks) { go(false); }
SCENARIO(sockshostile) { go(true); }
