// UDP sockets (C23).
#include "proto.h"
#include <arpa/inet.h>
#include <netinet/in.h>
namespace {
Addr to_addr(const dill_ipaddr &a) { if (dill_ipaddr_family(&a) == AF_INET) return ip4(ntohl(((sockaddr_in *)&a)->sin_addr.s_addr), dill_ipaddr_port(&a)); return ip6(((sockaddr_in6 *)&a)->sin6_addr.s6_addr, dill_ipaddr_port(&a)); }
dill_ipaddr to_ip(const Addr &x) { dill_ipaddr a; memset(&a, 0, sizeof a); if (x.fam == AF_INET) { auto *s = (sockaddr_in *)&a; s->sin_family = AF_INET; s->sin_port = htons(x.port); memcpy(&s->sin_addr, x.b, 4); } else { auto *s = (sockaddr_in6 *)&a; s->sin6_family = AF_INET6; s->sin6_port = htons(x.port); memcpy(&s->sin6_addr, x.b, 16); } return a; }
struct Sock { int h = -1; bool v6 = false, bound = false, autob = false, hasremote = false, any = false, receiving = false, closed = false; Addr local, remote; std::unique_ptr<Mem> mem; std::map<uint64_t, int> taken; int got = 0; };
struct UdpT {
    std::deque<Sock> ss; bool clean = true, v6 = false, occupied = false; int nsent = 0, nrecv = 0, trunc = 0, refused = 0, dropped = 0, tmo = 0; std::map<Addr, std::multiset<Str>> far; std::map<Addr, std::vector<Str>> farexp; int port0 = 4000; bool canceling = false; uint64_t key = 1; std::map<uint64_t, int> seen; size_t inflight = 0;
    std::set<uint64_t> injected; void inject(const Addr &f, const Addr &t, const Str &d, int64_t del) { udp_inject(f, t, d, del); injected.insert(dgrams.back().id); }
    DgramRec *fresh(size_t n0, size_t &n) { n = 0; DgramRec *r = NULL; for (size_t i = n0; i < dgrams.size(); ++i) if (!injected.count(dgrams[i].id)) ++n, r = &dgrams[i]; return r; }
    Addr loop(int port) { if (!v6) return ip4(0x7f000001, port); uint8_t b[16] = {0}; b[15] = 1; return ip6(b, port); }
    Addr foreign(int k) { if (!v6) return ip4(0x0a010000 + k, 5000 + k % 2); uint8_t b[16] = {0x20, 1}; b[15] = (uint8_t)k; return ip6(b, 5000 + k % 2); }
    // how many times the datagram was given to the process so far
    void open(bool fixed = false) {
        ss.emplace_back(); Sock &s = ss.back(); s.v6 = v6; dill_ipaddr l, r; dill_ipaddr *lp = NULL, *rp = NULL; int expect = 0;
        if (pick(W, 6) || v6) { lp = &l; int port = pick(W, 2) ? 0 : port0 + pick(W, 4); s.any = pick(W, 4) == 0; if (s.any) dill_ipaddr_local(&l, NULL, port, v6 ? DILL_IPADDR_IPV6 : DILL_IPADDR_IPV4); else l = to_ip(loop(port)); if (!fixed && chance(W, 1, 12)) { l = to_ip(foreign(7)); expect = EADDRNOTAVAIL; }
            if (!fixed && !expect && chance(W, 1, 12)) { l = to_ip(loop(port0 - 1)); Addr z = loop(port0 - 1); if (!occupied) udp_occupy(z); occupied = true; expect = EADDRINUSE; }
            if (!expect && port) for (auto &o : ss) if (&o != &s && o.h >= 0 && o.bound && o.local.port == port) { ss.pop_back(); return; } } // the sockets are opened with SO_REUSEADDR
        if (pick(W, 3) == 0) { rp = &r; s.hasremote = true; if (pick(W, 2) && ss.size() > 1) { Sock &o = ss[pick(W, (uint32_t)ss.size() - 1)]; s.remote = o.bound ? loop(o.local.port) : foreign(1); } else s.remote = foreign(1 + pick(W, 3)); r = to_ip(s.remote); }
        dill_ipaddr l0; if (lp) l0 = l; if (!fixed && lp && rp && chance(W, 1, 10)) { bool keep = v6; v6 = !v6; r = to_ip(foreign(1)); v6 = keep; if (!expect) expect = EINVAL; else expect = EINVAL; }
        if (pick(W, 2)) s.mem.reset(new Mem(sizeof(dill_udp_storage))); if (chance(W, 1, 30)) { if (dill_udp_open_mem(lp, rp, NULL) != -1 || errno != EINVAL) viol("C23", "open-null", "udp_open_mem without storage did not fail with EINVAL"); if (lp) l = l0; }
        int fds = open_fds(); int h = s.mem ? dill_udp_open_mem(lp, rp, (dill_udp_storage *)s.mem->p) : dill_udp_open(lp, rp); int e = errno; ev("open", h >= 0, expect, h < 0 ? e : 0, lp ? dill_ipaddr_port(lp) : -1);
        if (h < 0) { if (!expect) viol("C23", "open", "udp_open failed with %s", ename(e)); if (e != expect) viol("C23", "open-errno", "udp_open failed with %s, expected %s", ename(e), ename(expect)); if (open_fds() != fds) viol("C23 C27", "leak", "a failed udp_open left a descriptor open"); ++refused; ss.pop_back(); return; }
        if (expect) viol("C23", "open-wrong", "udp_open succeeded although it should have failed with %s", ename(expect)); s.h = h;
        if (lp) { s.bound = true; s.local = to_addr(l); if (!s.local.port) viol("C23", "port", "the port chosen was not filled in"); if (dill_ipaddr_port(&l0) && dill_ipaddr_port(&l0) != s.local.port) viol("C23", "port", "the port asked for was changed"); dill_ipaddr t = l0; dill_ipaddr_setport(&t, s.local.port); if (!dill_ipaddr_equal(&t, &l, 0)) viol("C23", "local", "udp_open changed the local address"); }
    }
    Str payload() { size_t n; switch (pick(W, 10)) { case 0: n = 0; break; case 1: n = oneofu(W, {1, 1472, 1473, 508, 9000}); break; case 2: n = clean ? pick(W, 3000) : oneofu(W, {65507, 65506, 30000}); break; default: n = pick(W, 200); } return pattern(n, key++); }
    void do_send(Sock &s, int idx) {
        Str d = payload(); bool over = chance(W, 1, 20); if (over) d.resize(65508 + pick(W, 500)); bool useaddr = !s.hasremote || pick(W, 2); Addr to = s.remote; dill_ipaddr a; bool none = false, badfam = false;
        if (useaddr) { int k = pick(W, 10); if (k == 0 && !s.hasremote) { none = true; } else if (k == 1) { to = foreign(1 + pick(W, 4)); } else if (k == 2) { to = loop(6999); } else { std::vector<Sock *> c; for (auto &o : ss) if (o.h >= 0 && o.bound) c.push_back(&o); to = c.empty() ? foreign(2) : loop(c[pick(W, (uint32_t)c.size())]->local.port); } a = to_ip(to); if (k == 9 && chance(W, 1, 4)) { badfam = true; bool keep = v6; v6 = !v6; a = to_ip(foreign(1)); v6 = keep; } }
        const dill_ipaddr *ap = useaddr && !none ? &a : NULL; bool generic = !ap && pick(W, 2); size_t n0 = dgrams.size(); int64_t i0 = idle_ns(); bool bad = chance(W, 1, 25); int rc, e; int64_t d0 = pick(W, 2) ? 0 : -1; bool busy = s.receiving, toolong = false;
        if (bad) { BadList l; rc = pick(W, 2) ? dill_udp_sendl(s.h, ap, l.f, l.la) : dill_msendl(s.h, l.f, l.la, d0); e = rc ? errno : 0; if (!(rc == -1 && e == EBUSY && busy)) l.check("C23", "udp_sendl", rc, e); ++refused; }
        else { SBuf b(d); toolong = b.list && b.l.v.size() > 1024; rc = b.list ? (generic ? dill_msendl(s.h, b.l.first(), b.l.last(), d0) : dill_udp_sendl(s.h, ap, b.l.first(), b.l.last())) : (generic ? dill_msend(s.h, b.m->p, d.size(), d0) : dill_udp_send(s.h, ap, b.m->p, d.size())); e = rc ? errno : 0; b.after_call("C23", "udp_send"); }
        ev("send", idx, d.size(), e, to.port); if (idle_ns() != i0) viol("C23", "send-waits", "sending a packet waited");
        size_t nf; DgramRec *fr = fresh(n0, nf); if (nf > 1) viol("C23", "send-many", "one send produced %zu packets", nf);
        if (rc) { ++refused; if (fr) viol("C23", "send-refused-sent", "a failed send sent a packet"); if (e == EBUSY && busy) return; if (toolong && e == EMSGSIZE) return; if (bad || (none && e == EINVAL) || (over && e == EMSGSIZE)) return; if (badfam && (e == EAFNOSUPPORT || e == EINVAL)) return; viol("C23", "send", "sending %zu bytes failed with %s", d.size(), ename(e)); }
        if (bad || none || badfam) viol("C23", "send-invalid", "an invalid send succeeded"); if (toolong) return; if (over) viol("C23", "oversize", "a packet of %zu bytes was accepted", d.size()); ++nsent;
        if (!fr) { if (!cfg.spurious_pm) viol("C23", "send-lost", "a packet which was sent successfully never reached the network"); return; }
        DgramRec &r = *fr; if (r.data != d) viol("C23", "send-data", "a packet of %zu bytes left as %zu bytes or with other contents", d.size(), r.data.size()); if (!(r.to == to)) viol("C23", "send-to", "a packet for %s was sent to %s", to.str().c_str(), r.to.str().c_str()); if (!s.bound && !s.autob) s.autob = true, s.local = r.from; if (r.from.port != s.local.port) viol("C23", "send-from", "a packet left from port %d instead of %d", r.from.port, s.local.port);
    }
    bool mine(const Sock &s, const DgramRec &r) { return (s.bound || s.autob) && r.to.fam == s.local.fam && r.to.port == s.local.port; }
    void do_recv(Sock &s, int idx, int64_t d) {
        size_t cap = pick(W, 8) ? 66000 : pick(W, 1500); if (clean && pick(W, 2)) cap = 3000 + pick(W, 100); bool list = pick(W, 2), generic = pick(W, 3) == 0, want = pick(W, 4), drop = list && chance(W, 1, 25); Iol l; std::unique_ptr<Mem> m; if (drop) cap = 0; else if (list) { if (chance(W, 1, 100)) l.make(cap, NULL, -(1000 + (int)pick(W, 50) + (pick(W, 2) ? 20000 : 0))); else l.make(cap, NULL, 6, chance(W, 1, 3)); } else m.reset(new Mem(cap));
        if (chance(W, 1, 30) && !s.receiving) { BadList x; ssize_t n = pick(W, 2) ? dill_udp_recvl(s.h, NULL, x.f, x.la, 0) : dill_mrecvl(s.h, x.f, x.la, 0); int e = n < 0 ? errno : 0; x.check("C23", "udp_recvl", (int)n, e); ++refused; }
        bool busy = s.receiving; s.receiving = true; dill_ipaddr a; memset(&a, 0x55, sizeof a); Watch wt; int64_t i0 = idle_ns();
        ssize_t n = list ? (generic ? dill_mrecvl(s.h, drop ? NULL : l.first(), drop ? NULL : l.last(), d) : dill_udp_recvl(s.h, want ? &a : NULL, drop ? NULL : l.first(), drop ? NULL : l.last(), d)) : (generic ? dill_mrecv(s.h, m->p, cap, d) : dill_udp_recv(s.h, want ? &a : NULL, m->p, cap, d)); int e = n < 0 ? errno : 0; if (!busy) s.receiving = false; if (generic) want = false;
        ev("recv", idx, n, e); if (!in_time(wt, d)) viol("C04 C23", "late", "udp_recv returned long after its deadline"); if (d == 0 && idle_ns() != i0) viol("C04 C23", "zero-waits", "udp_recv with deadline 0 waited"); if (list && !drop) l.check_unchanged("C23", "udp_recvl");
        if (busy) { if (n != -1 || e != EBUSY) viol("C23", "busy", "a second receiver got %zd, %s", n, ename(e)); return; }
        // which packets did the call take off the network? (one receiver per socket)
        DgramRec *pk = NULL; for (auto &r : dgrams) if (mine(s, r)) { int &t = s.taken[r.id]; while (t < r.delivered) { ++t; if (s.hasremote && !(r.from == s.remote)) { ++dropped; continue; } if (pk) viol("C23", "lost", "one receive took two packets"); pk = &r; } }
        if (n >= 0) {
            if (!pk) viol("C23", "invented", "a packet of %zd bytes was received which the network did not deliver%s", n, s.hasremote ? " (from the remote address)" : ""); ++nrecv; ++s.got; if (drop) return; if ((size_t)n != pk->data.size()) viol("C23", "length", "a packet of %zu bytes was received as %zd bytes (buffer %zu)", pk->data.size(), n, cap);
            if (list) { size_t o = 0; for (size_t i = 0; i < l.bufs.size() && o < (size_t)n; ++i) { size_t k = std::min(l.lens[i], n - o); if (l.bufs[i] && memcmp(l.bufs[i], pk->data.data() + o, k)) viol("C23", "content", "a packet was received with different contents"); o += k; } } else if (memcmp(m->p, pk->data.data(), n)) viol("C23", "content", "a packet was received with different contents");
            if (want && !(to_addr(a) == pk->from)) viol("C23", "sender", "the sender is %s, reported was %s", pk->from.str().c_str(), to_addr(a).str().c_str()); return;
        }
        if (e == EMSGSIZE && list && l.v.size() > 1024 && !pk) return; if (e == EMSGSIZE) { ++trunc; if (!pk || pk->data.size() <= cap) viol("C23", "spurious-emsgsize", "EMSGSIZE for a packet which fits (%zu into %zu)", pk ? pk->data.size() : 0, cap); return; }
        if (pk) viol("C23", "swallowed", "a packet of %zu bytes was lost by a receive which failed with %s", pk->data.size(), ename(e));
        if (e == ETIMEDOUT) { ++tmo; if (d) check_timedout("C04 C23", "udp_recv", wt, d); return; } if (e == ECANCELED) { if (!canceling) viol("C05", "canceled-outside", "ECANCELED although nobody cancels"); return; } viol("C23", "recv", "receiving failed with %s", ename(e));
    }
    void type_check() { // UDP functions on other message sockets, and message functions on other handles
        int hs[2]; if (dill_ipc_pair(hs)) return; int p = hs[0]; int kind = pick(W, 3); if (kind == 0) p = dill_prefix_attach(hs[0], 4, 0); else if (kind == 1) p = dill_suffix_attach(hs[0], "\r\n", 2); dill_ipaddr a = to_ip(loop(4000)); char c[4]; int rc = pick(W, 2) ? dill_udp_send(p, &a, "x", 1) : (int)dill_udp_recv(p, &a, c, 4, 0); if (rc != -1 || errno != ENOTSUP) viol("C23", "type", "a UDP function on another kind of socket returned %d, %s", rc, ename(errno)); dill_hclose(p); dill_hclose(hs[1]); ++refused;
    }
    void run() {
        dill_hclose(dill_bundle()); v6 = pick(W, 3) == 0; clean = pick(W, 2); if (clean) cfg.loss_pm = cfg.dup_pm = cfg.reorder_pm = cfg.spurious_pm = 0; else { if (pick(N, 2)) cfg.loss_pm = pick(N, 300); if (pick(N, 2)) cfg.dup_pm = pick(N, 300); if (pick(N, 2)) cfg.reorder_pm = pick(N, 500); }
        for (int k = 1; k < 6; ++k) udp_servers[foreign(k)] = [this, k](const Dgram &d) { far[foreign(k)].insert(d.data); if (k == 1 && pick(N, 2)) inject(d.to, d.from, d.data + "!", pick(N, 20) * MS); };
        int n = 2 + pick(W, 4); for (int i = 0; i < n; ++i) open(); if (ss.empty()) open(true); if (ss.empty()) { nontrivial(); return; } if (pick(W, 3) == 0) type_check();
        int bb = dill_bundle(); int ops = 5 + pick(W, 25);
        for (size_t i = 0; i < ss.size(); ++i) { Sock *s = &ss[i];
            co_bgo(bb, [=] { for (int k = 0; k < ops; ++k) { if (pick(W, 3) == 0 && dill_msleep(dill_now() + pick(W, 20))) return; if (s->receiving && pick(W, 4) && dill_msleep(dill_now() + pick(W, 40))) return; do_send(*s, (int)i); } });
            if (s->bound || chance(W, 1, 3)) { co_bgo(bb, [=] { for (int k = 0; k < 3 * ops; ++k) { int64_t d; switch (pick(W, 5)) { case 0: d = 0; break; case 1: d = dill_now() + pick(W, 3); break; default: d = dill_now() + pick(W, 80); } bool c0 = canceling; do_recv(*s, (int)i, d); if (c0) return; if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 10))) return; } }); if (chance(W, 1, 6)) co_bgo(bb, [=] { for (int k = 0; k < 4; ++k) { if (dill_msleep(dill_now() + pick(W, 30))) return; if (s->receiving) do_recv(*s, (int)i, dill_now() + 10); } }); } }
        // packets from elsewhere, genuine and stray
        int inj = pick(W, 12); for (int k = 0; k < inj; ++k) { Sock &s = ss[pick(W, (uint32_t)ss.size())]; if (!s.bound) continue; Addr from = s.hasremote && pick(N, 2) ? s.remote : foreign(1 + pick(N, 5)); if (pick(N, 3) == 0) { from = s.remote; if (!s.hasremote) from = foreign(1); from.port ^= 1; } inject(from, loop(s.local.port), payload(), pick(N, 300) * MS); }
        bool cut = pick(W, 4) == 0; if (cut) { dill_bundle_wait(bb, dill_now() + pick(W, 200)); canceling = true; dill_hclose(bb); canceling = false; } else { if (dill_bundle_wait(bb, dill_now() + 360000000)) viol("C23", "no-progress", "sending and receiving does not finish"); dill_hclose(bb); }
        // afterwards every packet still queued is there exactly once
        dill_msleep(dill_now() + 1500);
        for (size_t i = 0; i < ss.size(); ++i) { Sock &s = ss[i]; if (!s.bound) continue; for (int idle = 0, guard = 0; idle < 3 && guard < 3000; ++guard) { int g0 = nrecv + trunc, t0 = tmo; do_recv(s, (int)i, cfg.spurious_pm ? dill_now() + 30 : 0); if (nrecv + trunc == g0 && tmo > t0) ++idle; } }
        if (clean) for (auto &s : ss) if (s.bound) for (auto &r : dgrams) if (mine(s, r)) { if (r.delivered != 1) viol("C23", "lost", "a packet to port %d was given to the process %d times although the network lost nothing", s.local.port, r.delivered); }
        for (auto &s : ss) { if (s.h < 0) continue; if (dill_hclose(s.h)) viol("C23", "hclose", "hclose failed with %s", ename(errno)); }
        probe("udp.sent", nsent); probe("udp.received", nrecv); probe("udp.emsgsize", trunc); probe("udp.refused", refused); probe("udp.filtered", dropped); probe("udp.timeouts", tmo); if (nsent || nrecv) nontrivial();
    }
};
}
SCENARIO(udp) { randomize_common(true); proto_net(); if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; auto *u = new UdpT; u->run(); delete u; final_census("C23 C27"); }
