// Threads (C28): every thread runs its own workload, judged by the same models as when it is alone;
// what the library kept for a thread is gone when the thread has ended.
#include "engines.h"
#include "proto.h"
#include "dnsmsg.h"
#include "tlsenv.h"
#include <netinet/in.h>
namespace {
struct ThreadsT {
    int ntask = 0, sess = 0, looks = 0, both = 0, inlib = 0; int stampede = -1; bool cold = false, usedns = false, userand = false; std::set<int> ended;
    int64_t last[16] = {0};
    void clock() { int t = cur_thread(); int64_t t0 = now_ms(), n = dill_now(); if (n > now_ms()) viol("C28 C29", "clock-ahead", "thread %d reads a time in the future", t); if (n < last[t]) viol("C28 C29", "clock-back", "the clock of thread %d went from %lld to %lld", t, (long long)last[t], (long long)n); if (n + tick_ms() + 5 < t0) viol("C28 C29", "clock-lag", "thread %d reads %lld ms, but it is %lld ms", t, (long long)n, (long long)t0); last[t] = n; }
    // ---- a conversation between two coroutines of the thread --------------------------------
    int attach(int kind, int h, bool server) {
        switch (kind) {
        case 0: return dill_prefix_attach(h, 4, 0);
        case 1: case 4: { userand = true; int fl = DILL_WS_BINARY | (kind == 4 ? 0 : DILL_WS_NOHTTP); bool h4 = kind == 4; char r[100], o[100]; return server ? dill_ws_attach_server(h, fl, h4 ? r : NULL, 100, h4 ? o : NULL, 100, -1) : dill_ws_attach_client(h, fl, h4 ? "/x" : NULL, h4 ? "www.example.org" : NULL, -1); }
        case 2: { int r = server ? dill_tls_attach_server(h, (g_dir + "tlscert.pem").c_str(), (g_dir + "tlskey.pem").c_str(), -1) : dill_tls_attach_client(h, -1); if (r < 0) return r; return dill_prefix_attach(r, 2, 1); }
        default: return dill_suffix_attach(h, "\r\n", 2);
        }
    }
    int detach(int kind, int h) {
        switch (kind) {
        case 0: return dill_prefix_detach(h);
        case 1: case 4: return dill_ws_detach(h, 0, NULL, 0, -1);
        case 2: { int r = dill_prefix_detach(h); return r < 0 ? r : dill_tls_detach(r, -1); }
        default: return dill_suffix_detach(h, -1);
        }
    }
    void session(int kind) {
        ++sess; int me = cur_thread(), h[2], n = 1 + pick(W, 5); uint64_t key = 1000 * me + pick(W, 100000); if (inlib++) ++both; ev("session", me, kind);
        if (pick(W, 2)) { int f[2]; mk_tcppair(f); for (int i = 0; i < 2; ++i) h[i] = dill_tcp_fromfd(f[i]); } else if (dill_ipc_pair(h)) h[0] = -1;
        if (h[0] < 0 || h[1] < 0) viol("C28", "pair", "creating a connection failed in thread %d: %s", me, ename(errno));
        auto msg = [key](int side, int i) { Str s = pattern((key + i * 37 + side) % 200, key + side * 50 + i); for (auto &c : s) if (c == '\r' || c == '\n') c = 'x'; return s; };
        int b = dill_bundle();
        for (int side = 0; side < 2; ++side) co_bgo(b, [&, side] {
            int s = attach(kind, h[side], side == 1); if (s < 0) viol("C28", "attach", "attaching protocol %d failed in thread %d: %s", kind, me, ename(errno));
            int bb = dill_bundle();
            co_bgo(bb, [&, side, s] { for (int i = 0; i < n; ++i) { Str m = msg(side, i); if (dill_msend(s, m.data(), m.size(), -1)) viol("C28", "send", "sending failed in thread %d (protocol %d): %s", me, kind, ename(errno)); clock(); } });
            co_bgo(bb, [&, side, s] { for (int i = 0; i < n; ++i) { Mem m(300); ssize_t r = dill_mrecv(s, m.p, m.n, -1); if (r < 0) viol("C28", "recv", "receiving failed in thread %d (protocol %d): %s", me, kind, ename(errno)); Str w = msg(!side, i); if ((size_t)r != w.size() || memcmp(m.p, w.data(), r)) viol("C28", "data", "thread %d received other data than it sent (protocol %d)", me, kind); clock(); } });
            if (dill_bundle_wait(bb, -1) || dill_hclose(bb)) viol("C28", "wait", "waiting failed: %s", ename(errno));
            int r = detach(kind, s); if (r < 0) viol("C28", "detach", "detaching protocol %d failed in thread %d: %s", kind, me, ename(errno)); if (dill_hclose(r)) viol("C28", "close", "closing failed in thread %d: %s", me, ename(errno));
        });
        if (dill_bundle_wait(b, -1) || dill_hclose(b)) viol("C28", "wait", "waiting failed: %s", ename(errno)); --inlib;
    }
    void lookup() {
        ++looks; usedns = true; userand = true; dill_ipaddr a[3]; int me = cur_thread(); bool six = pick(W, 4) == 0, file = pick(W, 3) == 0; int rc = dill_ipaddr_remotes(a, 3, file ? "local.test" : "host.test", 80, six ? DILL_IPADDR_IPV6 : DILL_IPADDR_IPV4, -1); ev("lookup", me, rc);
        if (rc != (six ? 0 : 1) || (!six && ((sockaddr_in *)a)->sin_addr.s_addr != htonl(file ? 0x01020304 : 0x0a640001))) viol("C28", "lookup", "a lookup failed in thread %d: %d, %s", me, rc, ename(rc < 0 ? errno : 0));
    }
    void timers() { int k = 1 + pick(W, 4), b = dill_bundle(); for (int i = 0; i < k; ++i) co_bgo(b, [this] { for (int j = 1 + pick(W, 3); j--;) { int64_t d = dill_now() + pick(W, 50); Watch w; if (dill_msleep(d)) viol("C28", "sleep", "a sleep failed: %s", ename(errno)); if (now_ms() < d) viol("C28 C04", "early", "a sleep ended early in thread %d", cur_thread()); if (!in_time(w, d)) viol("C28 C04", "late", "a sleep ended late in thread %d", cur_thread()); clock(); } }); if (dill_bundle_wait(b, -1)) viol("C28", "wait", "%s", ename(errno)); dill_hclose(b); }
    void task(bool tls) {
        ++ntask; clock(); EngineOpts o; o.in_thread = true;
        switch (stampede >= 0 ? stampede : (int)pick(W, 9)) { case 0: chan_engine(o); break; case 1: core_engine(o); break; case 2: stream_engine(o); break; case 3: session(1); break; case 4: session(4); break; case 5: session(tls ? 2 : 0); break; case 6: lookup(); break; case 7: timers(); break; default: session(pick(W, 2) ? 0 : 3); }
        clock();
    }
    void run() {
        bool tls = chance(W, 1, 3), mains = pick(W, 2); int nt = 1 + pick(W, 4); cold = pick(W, 2); if (chance(W, 1, 3)) { stampede = oneofu(W, {5, 6, 3, 0, 1}); if (stampede == 5) tls = true; } extra_tags = "C28";
        cfg.preempt = oneofu(S, {0, 20, 200, 2000}); cfg.loss_pm = 0; static const uint32_t caps[] = {65536, 4096, 2048, 1000000}; cfg.scap = caps[pick(W, 4)]; cfg.rcap = caps[pick(W, 4)]; cfg.ucap = caps[pick(W, 4)]; if (cfg.mss < 100) cfg.mss = 100; if (cfg.nofile < 1024) cfg.nofile = 1024; if (cfg.lat_min > 40 * MS) cfg.lat_min = 40 * MS, cfg.lat_jit = 1;
        files["/etc/resolv.conf"] = "nameserver 10.0.0.53\nlookup file bind\noptions attempts:8 timeout:5\n"; files["/etc/hosts"] = "1.2.3.4 local.test\n"; Addr ns = ip4(0x0a000035, 53);
        udp_servers[ns] = [ns](const Dgram &g) { Query q = dns_parse(g.data); if (!q.ok) viol("C28 C25", "query", "a malformed query was sent"); bool y = low(q.name) == "host.test", a = q.type == DNS_A && y; udp_inject(ns, g.from, be16(q.id) + Str{(char)0x81, (char)(y ? 0x80 : 0x83)} + be16(1) + be16(a) + be16(0) + be16(0) + q.question + (a ? dns_rr(Str("\xc0\x0c", 2), DNS_A, Str("\x0a\x64\0\1", 4)) : Str()), 1 * MS); };
        size_t conf = 0; if (!cold) { session(1); size_t a = live_allocs(); lookup(); conf = live_allocs() > a ? live_allocs() - a : 0; session(0); }
        // the main thread's own objects
        int ch[2] = {-1, -1}, cb = -1, got = 0, sent = 0; bool keep = pick(W, 2); if (keep) { dill_chmake(ch); cb = dill_bundle(); co_bgo(cb, [&] { int v; while (dill_chrecv(ch[1], &v, sizeof v, -1) == 0) { if (cur_thread()) viol("C28", "migrated", "a coroutine of the main thread runs in thread %d", cur_thread()); got += v; } }); co_bgo(cb, [] { dill_msleep(-1); }); }
        on_thread_end = [this](int t) {
            ended.insert(t); ev("thread-end", t); int f = open_fds_of_thread(t); if (f) viol("C28 C27", "leak-fd", "%d descriptors opened by thread %d are still open after its end:\n%s", f, t, describe_fds().c_str());
            if (!(cold && usedns) && live_allocs_of_thread(t)) viol("C28 C27", "leak-memory", "thread %d has left %zu blocks of memory behind: %s", t, live_allocs_of_thread(t), describe_allocs().c_str());
        };
        std::vector<std::pair<int64_t, std::function<void()>>> fns;
        for (int i = 0; i < nt; ++i) fns.push_back({pick(W, 2) || stampede >= 0 ? 0 : (int64_t)pick(S, 100000) * 1000, [this, tls] { for (int k = 1 + pick(W, 3); k--;) task(tls); if (chance(W, 1, 2)) { EngineOpts o; (void)o; handle_census("C28 C07"); } }});
        run_threads(fns, [&] { if (mains) for (int k = 1 + pick(W, 2); k--;) { task(tls); if (keep) { int v = 1; if (dill_chsend(ch[0], &v, sizeof v, -1)) viol("C28", "channel", "sending to the main thread's channel failed"); ++sent; } } });
        on_thread_end = nullptr;
        if (keep) { int v = 5; if (dill_chsend(ch[0], &v, sizeof v, -1) || dill_yield()) viol("C28", "channel", "the main thread's channel does not work any more: %s", ename(errno)); dill_yield(); if (got != sent + 5) viol("C28", "channel", "the main thread's coroutine has not received the message"); dill_hclose(cb); dill_hclose(ch[0]); dill_hclose(ch[1]); }
        timers(); if (pick(W, 2)) session(1);
        if (cold && usedns) { int owners = 0; for (int t = 0; t <= nt; ++t) if (t && live_allocs_of_thread(t)) ++owners; if (owners > 1) viol("C28 C27", "leak-memory", "%d threads which have ended have left memory behind: %s", owners, describe_allocs().c_str()); conf = (size_t)1 << 40; }
        probe("c28.tasks", ntask); probe("c28.sessions", sess); probe("c28.lookups", looks); probe("c28.overlapping-sessions", both); if (cold) probe("c28.cold-runs"); nontrivial();
        final_census("C28 C27", 0, conf);
    }
};
}
SCENARIO(threads) { randomize_common(true); ThreadsT t; t.run(); }
