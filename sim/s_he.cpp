// Happy Eyeballs (C24).
#include "proto.h"
#include "dnsmsg.h"
#include <arpa/inet.h>
#include <netinet/in.h>
namespace {
struct Call;
struct Tgt { Addr a; int fam; Remote::Kind kind; int64_t delay; int64_t est = -1; int nest = 0; std::shared_ptr<RawPeer> p; };
struct Call {
    int id; Str name; int port; std::vector<Tgt> t[2]; int64_t R[2] = {-1, -1}; int64_t delay[2]; int mode = 0; bool silent[2] = {false, false}; int drop[2] = {0, 0}; int asked[2] = {0, 0};  // index 0: IPv6, 1: IPv4
    int64_t start = 0, end = 0, dl = -1; bool reachable = false; int rc = -2, err = 0;
};
struct HeT {
    std::deque<Call> cs; bool exact = true, canceling = false; int64_t slack = 0; Addr srv; int nok = 0, nt = 0, nc = 0, nprobe = 0;
    static Str bin(const Addr &a) { return Str((const char *)a.b, a.fam == AF_INET ? 4 : 16); }
    void mk(int id, bool many) {
        cs.emplace_back(); Call &c = cs.back(); c.id = id; c.name = "h" + std::to_string(id) + ".test"; c.port = 1 + pick(W, 65535); c.mode = pick(W, 4); // 0,1 DNS 2 hosts 3 literal
        static const int64_t dd[] = {100000, 10 * MS, 40 * MS, 48 * MS, 60 * MS, 200 * MS, 700 * MS, 4 * SEC}; int style = pick(W, 5);
        for (int f = 0; f < 2; ++f) {
            int n = many ? pick(W, 13) : pick(W, 5); if (c.mode == 3) n = f == (int)pick(W, 2) ? 1 : 0; c.delay[f] = dd[pick(W, 8)]; if (pick(W, 10) == 0) c.silent[f] = true; if (!exact && pick(W, 4) == 0) c.drop[f] = 1;
            for (int i = 0; i < n; ++i) {
                Tgt t; t.fam = f; if (f) t.a = ip4(0x0a0a0000 + id * 256 + i, c.port); else { uint8_t b[16] = {0x20, 1, 0x0d, 0xb8}; b[14] = (uint8_t)id; b[15] = (uint8_t)(i + 1); t.a = ip6(b, c.port); }
                static const Remote::Kind ks[] = {Remote::ACCEPT, Remote::REFUSE, Remote::BLACKHOLE, Remote::UNREACH}; t.kind = style == 0 ? Remote::BLACKHOLE : style == 1 && i < n - 1 ? ks[1 + pick(W, 3)] : ks[pick(W, 4)]; static const int64_t ds[] = {100000, 20 * MS, 150 * MS, 310 * MS, 1000 * MS, 3 * SEC, 12 * SEC, 70 * SEC}; t.delay = ds[pick(W, pick(W, 3) ? 5 : 8)]; c.t[f].push_back(t);
            }
        }
        if (c.mode == 3 && c.t[0].size() + c.t[1].size() != 1) { c.t[0].clear(); if (c.t[1].empty()) { c.mode = 2; } else c.t[1].resize(1); }
        if (c.mode == 3) { Tgt &t = c.t[0].empty() ? c.t[1][0] : c.t[0][0]; char b[64]; inet_ntop(t.a.fam, t.a.b, b, 64); c.name = b; }
        if (c.mode >= 2) c.silent[0] = c.silent[1] = false;
        for (int f = 0; f < 2; ++f) for (size_t i = 0; i < c.t[f].size(); ++i) {
            Tgt &t = c.t[f][i]; if (t.kind == Remote::ACCEPT && i < 10 && !c.silent[f]) c.reachable = true; Remote r; r.kind = t.kind; r.delay = t.delay; Tgt *tp = &t;
            r.on_accept = [tp](std::shared_ptr<RawPeer> p) { if (tp->est < 0) tp->est = now_ns(); tp->nest++; tp->p = p; }; remotes[t.a] = r;
        }
    }
    void dns() {
        srv = ip4(0x0a000035, 53); Str hosts = "127.0.0.1 localhost\n"; for (auto &c : cs) if (c.mode == 2) { std::vector<Str> l; for (int f = 0; f < 2; ++f) for (auto &t : c.t[f]) { char b[64]; inet_ntop(t.a.fam, t.a.b, b, 64); l.push_back(Str(b) + " " + c.name + "\n"); } for (auto &x : l) hosts += x; }
        files["/etc/hosts"] = hosts; files["/etc/resolv.conf"] = "nameserver 10.0.0.53\nlookup file bind\noptions timeout:10 attempts:3\n";
        udp_servers[srv] = [this](const Dgram &g) {
            Query q = dns_parse(g.data); if (!q.ok) return; int f = q.type == DNS_AAAA ? 0 : 1; Call *c = NULL; for (auto &x : cs) if (low(q.name) == x.name && x.mode < 2) c = &x; Str an; int n = 0;
            if (c) { if (c->silent[f] || c->asked[f]++ < c->drop[f]) return; for (auto &t : c->t[f]) { an += dns_rr(Str("\xc0\x0c", 2), q.type, bin(t.a)); ++n; } }
            Str d = be16(q.id) + Str("\x81\x80", 2) + be16(1) + be16(n) + be16(0) + be16(0) + q.question + an; if (!c) d[3] = (char)0x83; int64_t del = c ? c->delay[f] : MS; udp_inject(g.to, g.from, d, del); if (c) after(del, [c, f] { if (c->R[f] < 0) c->R[f] = now_ns(); });
        };
    }
    struct At { int64_t t; int f; size_t i; };
    void judge(Call &c, bool canceled) {
        std::vector<At> as; for (int f = 0; f < 2; ++f) { for (size_t i = 0; i < c.t[f].size(); ++i) { auto &r = remotes[c.t[f][i].a]; if (r.attempt_times.size() > 1) viol("C24", "twice", "an address was tried %zu times", r.attempt_times.size()); for (auto x : r.attempt_times) as.push_back({x, f, i}); } }
        std::sort(as.begin(), as.end(), [](const At &a, const At &b) { return a.t < b.t; }); nprobe += (int)as.size();
        size_t nx[2] = {0, 0}; for (auto &a : as) { if (a.i != nx[a.f]) viol("C24", "order", "the addresses of a family were not tried in the order they were given"); nx[a.f]++; if (a.i >= 10 && c.mode != 3) {} if (a.t < c.start) viol("C24", "early", "an address was tried before the call"); if (a.t > c.end) viol("C24", "after-return", "an address was tried after the call ended"); if (c.mode < 2 && (c.R[a.f] < 0 || a.t < c.R[a.f])) viol("C24", "early", "an address was tried before the name server gave it"); }
        if (!exact || canceled) return;
        if (c.mode >= 2) c.R[0] = c.R[1] = c.start; auto avail = [&](int f, size_t used, int64_t t) { return c.R[f] >= 0 && c.R[f] <= t && used < std::min<size_t>(10, c.t[f].size()); };
        int64_t low300 = 300 * MS - slack; nx[0] = nx[1] = 0; int64_t prev = -1; int pf = -1; const int64_t W50 = c.start + 50 * MS;
        auto earliest = [&]() -> int64_t { // when the next attempt should happen, -1: never
            int64_t b = -1; for (int f = 0; f < 2; ++f) { if (c.R[f] < 0 || nx[f] >= std::min<size_t>(10, c.t[f].size())) continue; int64_t t = c.R[f]; if (prev >= 0) t = std::max(t, prev + 300 * MS); else if (f == 1) t = std::max(t, W50); if (b < 0 || t < b) b = t; } return b; };
        for (auto &a : as) {
            if (prev >= 0 && a.t - prev < low300) viol("C24", "stagger", "the next address was tried %lld ms after the previous one", (long long)((a.t - prev) / MS));
            int64_t e = earliest(); if (e >= 0 && a.t > e + slack) viol("C24", "late", "an address was tried %lld ms later than it should have been", (long long)((a.t - e) / MS));
            if (prev < 0) { if (a.f == 1 && avail(0, 0, std::min(a.t - slack, W50 - slack))) viol("C24", "ipv6-first", "an IPv4 address was tried first although an IPv6 address was known in time"); if (a.f == 1 && a.t < W50 - slack && !(c.R[0] >= 0 && c.R[0] <= a.t)) viol("C24", "ipv6-first", "an IPv4 address was tried without giving the IPv6 query its 50 ms"); if (a.f == 0 && avail(1, 0, a.t - slack) && c.R[0] > W50 + slack && c.R[0] - c.R[1] > slack) viol("C24", "wait", "a known IPv4 address was not tried before the late IPv6 one"); }
            else if (a.f == pf && avail(1 - pf, nx[1 - pf], a.t - slack)) viol("C24", "alternate", "two addresses of the same family were tried in a row although an address of the other family was known");
            prev = a.t; pf = a.f; nx[a.f]++;
        }
        int64_t e = earliest(); if (e >= 0 && e + slack < c.end) viol("C24", "not-tried", "an address which should have been tried was not");
        int64_t first = -1; for (int f = 0; f < 2; ++f) for (auto &t : c.t[f]) if (t.est >= 0 && (first < 0 || t.est < first)) first = t.est;
        if (first >= 0 && first + slack < c.end) viol("C24", "late-return", "the call went on for %lld ms after a connection was established", (long long)((c.end - first) / MS));
    }
    void call(Call &c) {
        Watch w; c.start = now_ns(); int64_t i0 = idle_ns(); int h = dill_happyeyeballs_connect(c.name.c_str(), c.port, c.dl); c.err = h < 0 ? errno : 0; c.end = now_ns(); c.rc = h < 0 ? -1 : 0; ev("he", c.id, c.rc, c.err, (c.end - c.start) / MS);
        if (!in_time(w, c.dl)) viol("C04 C24", "late", "happyeyeballs_connect returned long after its deadline"); if (c.dl == 0 && idle_ns() != i0) viol("C04 C24", "zero-waits", "happyeyeballs_connect with deadline 0 waited");
        if (h < 0) {
            if (c.err == ETIMEDOUT && c.dl >= 0) { if (c.dl) check_timedout("C04 C24", "happyeyeballs_connect", w, c.dl); ++nt; } else if (c.err == ECANCELED && canceling) ++nc; else viol("C24 C05", "errno", "happyeyeballs_connect failed with %s", ename(c.err));
            judge(c, c.err == ECANCELED); return;
        }
        judge(c, false); ++nok; Tgt *won = NULL; Str tok = pattern(1 + pick(W, 40), c.id + 1); int64_t d = dill_now() + 100000; if (dill_bsend(h, tok.data(), tok.size(), d)) { if (errno == ECANCELED && canceling) { dill_hclose(h); return; } viol("C24", "not-usable", "sending to the returned connection failed with %s", ename(errno)); }
        for (int k = 0; k < 400 && !won; ++k) { for (int f = 0; f < 2; ++f) for (auto &t : c.t[f]) if (t.p && t.p->rx.size() >= tok.size()) won = &t; if (!won && dill_msleep(dill_now() + 500)) { dill_hclose(h); return; } }
        if (!won || won->p->rx != tok) viol("C24", "not-usable", "the returned connection is not connected to any of the addresses"); if (won->nest != 1) viol("C24", "twice", "several connections were established to an address");
        if (exact) { int64_t first = won->est; for (int f = 0; f < 2; ++f) for (auto &t : c.t[f]) if (t.est >= 0) first = std::min(first, t.est); if (won->est > first + slack) viol("C24", "not-first", "the returned connection is not the one established first"); }
        won->p->send(tok); std::unique_ptr<Mem> m(new Mem(tok.size())); if (dill_brecv(h, m->p, tok.size(), dill_now() + 100000)) { if (errno == ECANCELED && canceling) { dill_hclose(h); return; } viol("C24", "not-usable", "receiving from the returned connection failed with %s", ename(errno)); } if (memcmp(m->p, tok.data(), tok.size())) viol("C24", "not-usable", "wrong data were received from the returned connection");
        for (int f = 0; f < 2; ++f) for (auto &t : c.t[f]) if (&t != won && t.p) { for (int k = 0; k < 400 && !t.p->fin && !t.p->rst; ++k) if (dill_msleep(dill_now() + 500)) { dill_hclose(h); return; } if (!t.p->fin && !t.p->rst) viol("C24 C27", "left-open", "a connection which was not chosen stays open"); }
        dill_hclose(h);
    }
    void invalid() {
        int rc; switch (pick(W, 3)) { case 0: rc = dill_happyeyeballs_connect(NULL, 80, 0); break; case 1: rc = dill_happyeyeballs_connect("h0.test", pick(W, 2) ? 0 : -1 - pick(W, 5), 0); break; default: rc = dill_happyeyeballs_connect("h0.test", 65536 + pick(W, 5), 0); }
        if (rc != -1 || errno != EINVAL) viol("C24", "invalid", "invalid arguments gave %d, %s", rc, ename(errno));
    }
    void run() {
        proto_net(); exact = pick(W, 3); randomize_common(!exact && pick(W, 2)); proto_net(); cfg.loss_pm = 0; cfg.dup_pm = 0; cfg.reorder_pm = 0; if (exact) { cfg.cpu_cost = oneofu(S, {200, 1000, 20}); cfg.stall_pm = 0; cfg.tsc_migrate_pm = 0; } if (cfg.nofile < 256) cfg.nofile = 256;
        slack = 2 * cfg.tick_ns + 12 * MS; int n = 1 + pick(W, 3); bool many = pick(W, 2); for (int i = 0; i < n; ++i) mk(i, many); dns(); dill_hclose(dill_bundle());
        { int b = dill_bundle(); for (int i = 0; i < 90; ++i) co_bgo(b, [] { dill_msleep(-1); }); dill_hclose(b); dill_ipaddr a; dill_ipaddr_remotes(&a, 1, "x.test", 80, DILL_IPADDR_IPV4, 0); for (int i = 0; i < 4; ++i) { std::shared_ptr<RawPeer> p[4]; int h[4]; char x; for (int k = 0; k < 4; ++k) { h[k] = dill_tcp_fromfd(mk_rawpair(true, p[k])); p[k]->send("x"); } for (int k = 0; k < 4; ++k) dill_brecv(h[k], &x, 1, -1); for (int k = 0; k < 4; ++k) dill_hclose(h[k]); } int64_t t = dill_now() + 100; dill_msleep(t); } if (chance(W, 1, 6)) invalid();
        int fds = open_fds(); size_t mem = live_allocs(), mark = alloc_mark(); bool cut = chance(W, 1, 4); int b = dill_bundle();
        for (auto &c : cs) { int64_t rel = -1; if (!c.reachable ? !(cut && pick(W, 2)) : pick(W, 3) == 0) rel = pick(W, 8) == 0 ? 0 : pick(W, 3) ? pick(W, 2000) : pick(W, 12000); co_bgo(b, [this, &c, rel] { if (pick(W, 2) && dill_msleep(dill_now() + pick(W, 400))) return; c.dl = rel > 0 ? dill_now() + rel : rel; if (rel < 0 && !c.reachable) probe("c24.hopeless"); call(c); }); }
        int rc = dill_bundle_wait(b, cut ? dill_now() + pick(W, 4000) : dill_now() + 900000); if (!cut && rc) viol("C24", "no-progress", "happyeyeballs_connect does not finish although an address accepts connections or its deadline expired");
        canceling = true; int64_t i0 = idle_ns(); dill_hclose(b); if (idle_ns() != i0) viol("C05 C24", "cancel-waits", "canceling waited");
        if (open_fds() != fds) viol("C24 C27", "leak", "descriptors are left open:\n%s", describe_fds().c_str()); if (live_allocs() > mem) viol("C24 C27", "leak-memory", "memory is not released:\n%s", describe_allocs(mark).c_str());
        if (nprobe || nok) nontrivial(); probe("c24.connected", nok); probe("c24.timeouts", nt); probe("c24.canceled", nc); probe("c24.attempts", nprobe); if (exact) probe("c24.exact-runs");
    }
};
}
SCENARIO(he) { HeT t; t.run(); }
