// Connecting and accepting (C14), descriptors passed over IPC (C15).
#include "lib.h"
#include <sys/socket.h>
#include <arpa/inet.h>
static int64_t idle() { return now_ns() - busy_ns(); }
namespace {
struct Conn { int id; bool started = false, ok = false, failed = false, acked = false; int accepted = 0, attempt = -1; };
struct AccT {
    bool tcp, v6; dill_ipaddr ad; char path[120]; int ls = -1; std::deque<Conn> cs; int cancelled[64] = {0}; bool stop = false, lclosed = false, lever = false; int nacc = 0, aband = 0, refused = 0, tmo = 0, canc = 0, port, nids = 0; bool expect_all = true;
    std::set<std::pair<int64_t, int64_t> *> aw;   // waiting acceptors: when a connection has become available
    std::set<std::pair<int, std::pair<int64_t, int64_t>> *> cw; // waiting connectors: attempt, when decided
    void sample() {
        bool have = ls >= 0 && pending_accepts() > 0;
        for (auto *w : aw) { if (!have) w->first = -1; else if (w->first < 0) { w->first = now_ns(); w->second = idle(); } }
        for (auto *w : cw) if (w->second.first < 0 && w->first < (int)attempts.size() && attempts[w->first].outcome) { w->second.first = now_ns(); w->second.second = idle(); }
    }
    void listen() {
        if (tcp) { dill_ipaddr_local(&ad, v6 ? "::1" : pick(W, 3) ? "127.0.0.1" : NULL, chance(W, 1, 3) ? 0 : port, v6 ? DILL_IPADDR_IPV6 : DILL_IPADDR_IPV4); bool eph = dill_ipaddr_port(&ad) == 0;
            ls = dill_tcp_listen(&ad, oneofu(W, {10, 0, 1, 2, 100})); if (ls < 0) viol("C14", "listen", "tcp_listen failed with %s", ename(errno));
            if (!dill_ipaddr_port(&ad)) viol("C14", "port", "tcp_listen did not fill in the port assigned%s", eph ? "" : "(fixed)"); port = dill_ipaddr_port(&ad);
            if (dill_ipaddr_local(&ad, v6 ? "::1" : "127.0.0.1", port, v6 ? DILL_IPADDR_IPV6 : DILL_IPADDR_IPV4)) viol("C14", "addr", "ipaddr_local failed"); }
        else { int n = snprintf(path, sizeof path, "/tmp/l%d", port++), full = pick(W, 4) ? n : 60 + pick(W, 48); while (n < full) path[n++] = 'x'; path[n] = 0; // the longest address has 107 bytes
            if (chance(W, 1, 8)) { char lp[300]; int n = 109 + pick(W, 150); memset(lp, 'y', n); memcpy(lp, "/tmp/", 5); lp[n] = 0; int l = dill_ipc_listen(lp, 10); if (l >= 0 || errno != ENAMETOOLONG) viol("C14", "long-address", "ipc_listen with an address of %d bytes returned %d (%s)", n, l, ename(errno)); }
            ls = dill_ipc_listen(path, oneofu(W, {10, 0, 1, 100})); if (ls < 0) viol("C14", "listen", "ipc_listen failed with %s", ename(errno)); }
        if (chance(W, 1, 6)) { dill_ipaddr a2 = ad; int f0 = open_fds(); size_t m0 = live_allocs(); int l = tcp ? dill_tcp_listen(&a2, 10) : dill_ipc_listen(path, 10); if (l >= 0 || errno != EADDRINUSE) viol("C14", "in-use", "listening on an address in use returned %d (%s)", l, ename(errno)); if (open_fds() != f0 || live_allocs() != m0) viol("C14 C27", "leak", "a failed listen left something behind"); }
        lclosed = false;
    }
    void connector(int bundle) {
        cs.emplace_back(); Conn &c = cs.back(); c.id = nids++; int64_t dl; Mem *mem = pick(W, 2) ? new Mem(72) : NULL; bool none = false; dill_ipaddr to = ad; char p[300]; strcpy(p, path); bool tl = false; Remote *r = NULL;
        switch (pick(W, 5)) { case 0: dl = -1; break; case 1: dl = pick(W, 4) ? dill_now() + pick(W, 60) : 0; break; default: dl = dill_now() + pick(W, 4000); }
        int kind = pick(W, 8);
        if (kind == 0 && tcp) { // an address nobody listens on
            dill_ipaddr_local(&to, "127.0.0.1", 9999, DILL_IPADDR_IPV4); none = true; }
        else if (kind == 0) { snprintf(p, sizeof p, "/tmp/none"); none = true; if (!pick(W, 3)) { tl = true; int n = 109 + pick(W, 150); memset(p, 'y', n); memcpy(p, path, strlen(path)); p[n] = 0; } }
        else if (kind == 1 && tcp && !v6) { // another host
            char b[40]; snprintf(b, sizeof b, "10.1.0.%d", 1 + pick(W, 4)); dill_ipaddr_remote(&to, b, 80, DILL_IPADDR_IPV4, 0);
            auto it = remotes.find(ip4(0x0a010000 + (b[7] - '0'), 80)); r = it == remotes.end() ? NULL : &it->second;
        }
        c.attempt = (int)attempts.size(); std::pair<int, std::pair<int64_t, int64_t>> w{c.attempt, {-1, 0}}; if (tcp) cw.insert(&w);
        c.started = true; Watch wt; int64_t i0 = idle(); bool lc = lclosed; ev("connect", c.id, none, r ? r->kind : -1);
        int h = tcp ? mem ? dill_tcp_connect_mem(&to, (dill_tcp_storage *)mem->p, dl) : dill_tcp_connect(&to, dl) : mem ? dill_ipc_connect_mem(p, (dill_ipc_storage *)mem->p, dl) : dill_ipc_connect(p, dl);
        int e = h < 0 ? errno : 0; int64_t i1 = idle(); sample(); cw.erase(&w); ev("connected", c.id, e);
        if (w.second.first >= 0 && i1 > w.second.second) viol("C14 C08", "connect-late", "the process slept %lld us after the outcome of a connect was known", (long long)(i1 - w.second.second) / 1000);
        if (dl == 0 && i1 != i0) viol("C04 C14", "zero-waits", "connect with deadline 0 waited");
        if (!tcp && i1 != i0) viol("C14", "ipc-waits", "connecting to a local listener waited");
        if (h < 0) {
            c.failed = true; delete mem; bool known = tcp && c.attempt < (int)attempts.size() && attempts[c.attempt].outcome == 2;
            switch (e) {
            case ECONNREFUSED: if (tcp ? !known && !none : !none && !lc && !lclosed && !cs.empty()) viol("C14", "refused", "connect failed with ECONNREFUSED although the listener is there"); ++refused; break;
            case ECONNRESET: if (!tcp) viol("C14", "reset", "connect failed with ECONNRESET although the listener is there"); break; // reset before it was reported
            case ENAMETOOLONG: if (!tl) viol("C14", "too-long", "connect failed with ENAMETOOLONG"); ++refused; break;
            case ENOENT: if (tl) viol("C14", "long-address", "ipc_connect with an address of %zu bytes failed with ENOENT", strlen(p)); if (tcp || !none) viol("C14", "noent", "connect failed with ENOENT"); ++refused; break;
            case EAGAIN: if (tcp) viol("C14", "again", "connect failed with EAGAIN"); break;     // local listener's queue is full
            case ENETUNREACH: if (!r || r->kind != Remote::UNREACH) viol("C14", "unreach", "connect failed with ENETUNREACH"); break;
            case EHOSTUNREACH: if (!tcp) viol("C14", "unreach", "connect failed with EHOSTUNREACH"); break; // the network gave up
            case ETIMEDOUT: if (dl < 0) viol("C04 C14", "timeout-infinite", "connect timed out without a deadline"); if (dl == 0 ? i1 != i0 : false) viol("C04", "x", "x"); if (dl != 0) check_timedout("C04 C14", "connect", wt, dl); ++tmo; if (w.second.first >= 0 && w.second.first < wt.t0) viol("C14", "x", "x"); break;
            case ECANCELED: if (!cancelled[bundle]) viol("C05", "canceled-outside", "connect failed with ECANCELED although nobody cancels"); ++canc; break;
            default: viol("C14", "connect-errno", "connect failed with %s", ename(e));
            }
            return;
        }
        if (tcp && attempts[c.attempt].outcome != 1) viol("C14", "connect-invented", "connect succeeded although no connection was established");
        if (none) viol("C14", "connect-invented", "connect succeeded although nobody listens");
        if (r) { dill_hclose(h); delete mem; return; }
        c.ok = true;
        // both ends must talk to each other
        uint32_t m[2] = {0xabcd0000u + c.id, 0}, back = 0; int rc = dill_bsend(h, m, 8, dill_now() + 20000);
        if (!rc) rc = dill_brecv(h, &back, 4, dill_now() + 60000);
        if (!rc) { if (back != ~m[0]) viol("C14", "crossed", "connector %d talks to somebody else's end", c.id); c.acked = true; }
        else if (!cancelled[bundle] && !lclosed && !stop && errno != ETIMEDOUT && expect_all) viol("C14", "conn-broken", "a freshly established connection failed with %s", ename(errno));
        if (pick(W, 2)) dill_hclose(h); else if (tcp) dill_tcp_close(h, dill_now() + 1000); else dill_ipc_close(h, dill_now() + 1000);
        delete mem;
    }
    bool accept1(int64_t dl, int bundle) {
        dill_ipaddr from; memset(&from, 0, sizeof from); Mem *mem = pick(W, 2) ? new Mem(72) : NULL; bool wantaddr = pick(W, 3); int lh = ls;
        std::pair<int64_t, int64_t> w{-1, 0}; bool others = !aw.empty(); aw.insert(&w); sample(); Watch wt; int64_t i0 = idle();
        int h = tcp ? mem ? dill_tcp_accept_mem(lh, wantaddr ? &from : NULL, (dill_tcp_storage *)mem->p, dl) : dill_tcp_accept(lh, wantaddr ? &from : NULL, dl) : mem ? dill_ipc_accept_mem(lh, (dill_ipc_storage *)mem->p, dl) : dill_ipc_accept(lh, dl);
        int e = h < 0 ? errno : 0; int64_t i1 = idle(); aw.erase(&w); sample(); ev("accept", e);
        if (w.first >= 0 && i1 > w.second && aw.empty()) viol("C14 C08", "accept-late", "the process slept %lld us while a connection was waiting to be accepted", (long long)(i1 - w.second) / 1000);
        if (dl == 0 && i1 != i0) viol("C04 C14", "zero-waits", "accept with deadline 0 waited");
        if (h < 0) {
            delete mem;
            if (e == EBUSY) { if (!others && aw.empty()) viol("C14 C13", "spurious-ebusy", "accept failed with EBUSY although nobody else is accepting"); return false; }
            if (e == ECANCELED) { if (!cancelled[bundle]) viol("C05", "canceled-outside", "accept failed with ECANCELED"); return false; }
            if (e == ETIMEDOUT) { if (dl != 0) check_timedout("C04 C14", "accept", wt, dl); if (w.first >= 0 && !cfg.spurious_pm && aw.empty() && w.first < wt.t0) viol("C14", "missed", "accept timed out although a connection was waiting"); return false; }
            viol("C14", "accept-errno", "accept failed with %s", ename(e));
        }
        ++nacc; uint32_t m[2] = {0, 0}; int64_t limit = dill_now() + 5000;
        int rc = dill_brecv(h, m, 8, limit); e = rc ? errno : 0;
        if (!rc) {
            unsigned id = m[0] - 0xabcd0000u; if (id >= cs.size() || m[1] || !cs[id].ok) viol("C14", "crossed", "the accepted connection carries data of no successful connect: %08x", m[0]);
            Conn &c = cs[id]; if (c.accepted++) viol("C14", "twice", "connection %u was accepted twice", id);
            if (tcp && wantaddr) { Addr &l = attempts[c.attempt].local; int pt = dill_ipaddr_port(&from); char b[64]; dill_ipaddr_str(&from, b); const uint8_t *ip = v6 ? (const uint8_t *)&((struct sockaddr_in6 *)&from)->sin6_addr : (const uint8_t *)&((struct sockaddr_in *)&from)->sin_addr;
                if (dill_ipaddr_family(&from) != (v6 ? AF_INET6 : AF_INET) || pt != l.port || memcmp(ip, l.b, v6 ? 16 : 4)) viol("C14", "peer-address", "accept reported the peer %s:%d, it is %s", b, pt, l.str().c_str()); }
            uint32_t back = ~m[0]; dill_bsend(h, &back, 4, dill_now() + 5000);
            if (chance(W, 1, 3)) { char x; dill_brecv(h, &x, 1, dill_now() + 3000); } // wait for its end
            else dill_msleep(dill_now() + 2000);
        } else { if (e != ECANCELED && e != EPIPE && e != ECONNRESET && e != ETIMEDOUT) viol("C14", "recv", "%s", ename(e)); ++aband; if (e == ETIMEDOUT && (cfg.loss_pm || cfg.lat_min > 100 * MS || cfg.stall_pm)) expect_all = false; if (e == ECANCELED) expect_all = false; }
        dill_hclose(h); delete mem;
        return true;
    }
    void run() {
        tcp = pick(W, 3); v6 = tcp && chance(W, 1, 4); port = 7000; path[0] = 0;
        for (int i = 1; i <= 4; ++i) { Remote r; r.kind = (Remote::Kind)(i - 1); static const int64_t d[] = {1, 50, 700}; r.delay = d[pick(W, 3)] * MS; remotes[ip4(0x0a010000 + i, 80)] = r; }
        listen(); after_event = [this] { sample(); };
        int nb = 2 + pick(W, 3); std::vector<int> bs; bool early = chance(W, 1, 4);
        for (int b = 0; b < nb; ++b) { int h = dill_bundle(); bs.push_back(h);
            if (b == 0) { int n = 1 + pick(W, 3); for (int i = 0; i < n; ++i) co_bgo(h, [this] { while (!stop && !cancelled[0] && !lclosed) { int64_t dl = pick(W, 4) == 0 ? -1 : pick(W, 8) ? dill_now() + pick(W, 900) : 0; if (!accept1(dl, 0)) if (dill_msleep(dill_now() + pick(W, 30))) return; } }); }
            else { int n = 1 + pick(W, 5); for (int i = 0; i < n; ++i) co_bgo(h, [this, b] { int k = 1 + pick(W, 2); for (int j = 0; j < k; ++j) { if (dill_msleep(dill_now() + pick(W, 300))) return; connector(b); } }); }
        }
        if (early && nb > 2) { dill_msleep(dill_now() + pick(W, 400)); cancelled[1] = 1; expect_all = false; dill_hclose(bs[1]); bs[1] = -1; }
        if (chance(W, 1, 5)) { // the listener goes away and comes back: accepting must be stopped first
            dill_msleep(dill_now() + pick(W, 500)); cancelled[0] = 1; expect_all = false; dill_hclose(bs[0]); bs[0] = -1; lclosed = lever = true; int x = ls; ls = -1; if (tcp && pick(W, 2) ? dill_tcp_close(x, 0) : dill_hclose(x)) viol("C27", "close", "closing the listener failed");
            char c; if (dill_hclose(x) != -1 || errno != EBADF) viol("C07", "stale", "a closed listener handle is still accepted");
            dill_msleep(dill_now() + pick(W, 200)); listen(); cancelled[0] = 0; bs[0] = dill_bundle(); co_bgo(bs[0], [this] { while (!stop && !cancelled[0]) { accept1(dill_now() + 500, 0); if (dill_yield()) return; } });
        }
        for (int b = 1; b < nb; ++b) if (bs[b] >= 0) { if (dill_bundle_wait(bs[b], dill_now() + 360000000)) viol("C14", "connect-hangs", "a connector has not finished in an hour: %s", ename(errno)); dill_hclose(bs[b]); }
        stop = true; for (int i = 0; i < 3; ++i) dill_msleep(dill_now() + 1000);
        cancelled[0] = 1; dill_hclose(bs[0]);
        int ok = 0; for (auto &c : cs) { if (c.ok) ++ok; }
        // whoever is left in the queue: every successful connect is accepted exactly once
        while (accept1(dill_now() + 2000, 63)) ;
        if (expect_all && !cfg.loss_pm && !cfg.stall_pm) for (auto &c : cs) if (c.ok && c.acked && c.accepted != 1) viol("C14", "lost", "a successful connect was never accepted");
        sample(); dill_hclose(ls); ls = -1; after_event = nullptr; dill_msleep(dill_now() + 200);
        probe("conn.established", ok); probe("conn.accepted", nacc); probe("conn.abandoned", aband); probe("conn.refused", refused); probe("conn.timeouts", tmo); probe("conn.canceled", canc);
        if (ok) nontrivial();
        remotes.clear();
    }
};

// ---- descriptors over IPC -------------------------------------------------------------
struct FdT {
    int cancelled[8] = {0}; int passed = 0, errs = 0, eb = 0;
    struct Item { bool fd; size_t n; uint64_t file; };
    struct Dir { std::vector<Item> it; std::string data; bool done = false, fin = false, bad_s = false, bad_r = false; size_t sent_items = 0; };
    int newfd(std::vector<int> &also) { int p[2]; switch (pick(W, 4)) { case 0: mk_pipe(p); break; case 1: mk_socketpair(p); break; case 2: mk_tcppair(p); break; default: return mk_plain_file(); } also.push_back(p[1]); return p[0]; }
    void send_side(int h, Dir &d, bool clean, int b) {
        size_t off = 0;
        for (auto &it : d.it) {
            int64_t dl = clean ? -1 : pick(W, 3) ? dill_now() + pick(W, 300) : -1; Watch wt; int rc, e;
            if (it.fd) {
                std::vector<int> also; int fd = newfd(also); it.file = file_id(fd); ++d.sent_items;
                rc = dill_ipc_sendfd(h, fd, dl); e = rc ? errno : 0; ev("sendfd", rc, e);
                if (rc && e == ETIMEDOUT && pick(W, 2)) { rc = dill_ipc_sendfd(h, fd, dl); e = rc ? errno : 0; if (rc && e == EBUSY) viol("C13 C15", "busy-after-failure", "sendfd failed with EBUSY after an earlier sendfd timed out"); }
                if (file_id(fd) != it.file) viol("C15", "sender-closed", "ipc_sendfd closed the sender's descriptor");
                if (pick(W, 2) && !rc) { sys_close(fd); for (int x : also) sys_close(x); } else { sys_close(fd); for (int x : also) sys_close(x); }
            } else if (pick(W, 2)) { ++d.sent_items; Iol l; l.make(it.n, d.data.data() + off, 5); rc = dill_bsendl(h, l.first(), l.last(), dl); e = rc ? errno : 0; l.check_unchanged("C11 C15", "bsendl"); off += it.n; }
            else { ++d.sent_items; rc = dill_bsend(h, d.data.data() + off, it.n, dl); e = rc ? errno : 0; off += it.n; }
            if (rc) { ++errs; err("sending", e, wt, dl, clean, b); d.bad_s = true; return; }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 20)) && clean) return; }
        d.done = true;
        if (d.fin) { if (dill_ipc_done(h, -1) && clean) viol("C12 C15", "done", "ipc_done failed with %s", ename(errno)); std::vector<int> also; int fd = newfd(also); int rc = dill_ipc_sendfd(h, fd, -1); if (!rc || errno != EPIPE) { if (clean) viol("C12 C15", "send-after-done", "sendfd after ipc_done returned %d, %s", rc, ename(errno)); } sys_close(fd); for (int x : also) sys_close(x); }
    }
    bool peer_gone = false, hostile = false, in_broken = false, in_end = false;
    void err(const char *what, int e, Watch &wt, int64_t dl, bool clean, int b) {
        if (clean) viol("C15 C11", "failed", "%s a descriptor or bytes failed with %s although the peer behaves", what, ename(e));
        if (e == ETIMEDOUT) { if (dl > 0) check_timedout("C04 C15", what, wt, dl); else if (dl < 0) viol("C04", "timeout-infinite", "timed out without a deadline"); return; }
        if (e == ECANCELED) { if (!cancelled[b]) viol("C05", "canceled-outside", "ECANCELED although nobody cancels"); return; }
        if ((e == EPIPE || e == ECONNRESET) && peer_gone) return;
        if (e == EPROTO && hostile) { in_broken = true; return; }
        if (e == ECONNRESET && in_broken && !strcmp(what, "receiving")) return;
        if (e == EPROTO && res_fired()) return;
        viol("C15", "errno", "%s failed with %s", what, ename(e));
    }
    void recv_side(int h, Dir &d, bool clean, int b) {
        size_t off = 0; std::vector<int> got; size_t k0 = 0;
        for (size_t k = 0; k < d.it.size(); ++k) { auto &it = d.it[k]; k0 = k;
            int64_t dl = clean ? -1 : pick(W, 3) ? dill_now() + pick(W, 300) : -1; Watch wt; int rc, e;
            if (it.fd) {
                int n0 = 0; bool open0[256]; for (int i = 0; i < 256; ++i) open0[i] = fd_is_open(i); int64_t i0 = idle();
                rc = dill_ipc_recvfd(h, dl); e = rc < 0 ? errno : 0; ev("recvfd", rc < 0, e);
                if (dl == 0 && idle() != i0) viol("C04", "zero-waits", "recvfd with deadline 0 waited");
                if (rc >= 0) {
                    if (!fd_is_open(rc)) viol("C15", "invalid-fd", "ipc_recvfd returned descriptor %d, which is not open", rc);
                    if (it.file == 0 || file_id(rc) != it.file) viol("C15", "wrong-fd", "ipc_recvfd returned a descriptor of another file (item %zu)", k);
                    for (int x : got) if (x == rc) viol("C15", "not-new", "ipc_recvfd returned descriptor %d twice", rc);
                    got.push_back(rc); ++passed;
                }
                rc = rc < 0 ? -1 : 0;
            } else if (pick(W, 2)) { Iol l; l.make(it.n, NULL, 5, pick(W, 4) == 0); rc = dill_brecvl(h, l.first(), l.last(), dl); e = rc ? errno : 0; l.check_unchanged("C11 C15", "brecvl"); size_t o = off;
                if (!rc) for (size_t i = 0; i < l.v.size(); ++i) { if (l.v[i].iol_base && memcmp(l.v[i].iol_base, d.data.data() + o, l.v[i].iol_len)) viol("C15 C11", "out-of-step", "bytes received into a list after passing descriptors differ from those sent (item %zu)", k); o += l.v[i].iol_len; } off += it.n;
            } else { size_t part = pick(W, 3) && it.n > 1 ? it.n : pick(W, (uint32_t)it.n) + 1; rc = 0; e = 0; for (size_t o = 0; o < it.n && !rc; o += part) { size_t q = std::min(part, it.n - o); bool skip = pick(W, 8) == 0; Mem m(q); if (o) wt = Watch(); rc = dill_brecv(h, skip ? NULL : m.p, q, dl); e = rc ? errno : 0; if (!rc && !skip && memcmp(m.p, d.data.data() + off + o, q)) viol("C15 C11", "out-of-step", "bytes received after passing descriptors differ from those sent (item %zu)", k); } off += it.n; }
            if (rc) { ++errs; err("receiving", e, wt, dl, clean, b); d.bad_r = true; break; }
            if (!got.empty() && pick(W, 2)) { sys_close(got.back()); got.pop_back(); }
            k0 = k + 1; if (pick(W, 5) == 0 && dill_msleep(dill_now() + pick(W, 20)) && clean) break; }
        if (clean && d.fin && k0 == d.it.size()) for (int i = 1 + pick(W, 3); i > 0; --i) { char c; int rc = pick(W, 2) ? dill_ipc_recvfd(h, -1) : dill_brecv(h, &c, 1, -1); if (rc >= 0 || errno != EPIPE) viol("C12 C15", "end", "receiving after the peer ended its direction returned %d, %s", rc, rc < 0 ? ename(errno) : ""); }
        if (d.bad_r) { // whatever follows is an error or stays in step; never anything else
            int64_t i0 = idle(); int r = dill_ipc_recvfd(h, 0), e = errno; if (r >= 0) { sys_close(r); } else if (e == EBUSY) viol("C13 C15", "busy-after-failure", "recvfd failed with EBUSY after an earlier receive failed"); (void)i0; }
        for (int x : got) if (sys_close(x)) viol("C15 C10", "closed-behind", "a received descriptor was closed by somebody else");
    }
    void fill(Dir &d, uint64_t key) { int n = pick(W, 9); size_t t = 0; for (int i = 0; i < n; ++i) { Item it{pick(W, 2) == 0, 0, 0}; if (!it.fd) { it.n = pick(W, 6) ? pick(W, 300) : pick(W, 20000); t += it.n; } d.it.push_back(it); } d.data = pattern(t, key); d.fin = pick(W, 2); }
    void pair_run(bool clean) {
        int s[2]; if (dill_ipc_pair(s)) viol("C15", "pair", "ipc_pair failed with %s", ename(errno));
        Dir d[2]; fill(d[0], 5); fill(d[1], 6); int b[2] = {dill_bundle(), dill_bundle()};
        for (int i = 0; i < 2; ++i) { co_bgo(b[i], [&, i] { send_side(s[i], d[i], clean, i); }); co_bgo(b[i], [&, i] { recv_side(s[i], d[1 - i], clean, i); });
            if (!clean) co_bgo(b[i], [&, i] { intruder(s[i], i); }); }
        int st = 0;
        if (clean) for (int i = 0; i < 2; ++i) { if (dill_bundle_wait(b[i], dill_now() + 360000000)) viol("C15", "no-progress", "passing descriptors does not finish"); dill_hclose(b[i]); }
        else for (int i = 0; i < 2; ++i) { if (pick(W, 2)) dill_bundle_wait(b[i], dill_now() + pick(W, 500)); cancelled[i] = 1; dill_hclose(b[i]); peer_gone = true; if (pick(W, 2)) dill_hclose(s[i]); else dill_ipc_close(s[i], dill_now() + pick(W, 100)); }
        if (clean) for (int i = 0; i < 2; ++i) dill_hclose(s[i]);
    }
    // concurrent attempts while another coroutine waits: EBUSY, and nothing is disturbed
    void intruder(int h, int b) { (void)h; (void)b; }
    void busy_run() {
        int s[2]; if (dill_ipc_pair(s)) viol("C15", "pair", "ipc_pair failed"); int b = dill_bundle(); int rc1 = -2, e1 = 0; std::vector<int> also; int fd = newfd(also); uint64_t id = file_id(fd); bool ret = false;
        int first = pick(W, 2); char c[4]; ev("busy-run", first);
        if (first == 0) co_bgo(b, [&] { rc1 = dill_ipc_recvfd(s[0], -1); e1 = errno; ret = true; }); else co_bgo(b, [&] { rc1 = dill_brecv(s[0], c, 1, -1); e1 = errno; ret = true; });
        int op = pick(W, 3); bool late = pick(W, 2);
        if (late) { if (dill_ipc_sendfd(s[1], fd, -1)) viol("C15", "sendfd", "sendfd failed"); } // already arrived, but the first one has not run yet
        int rc = op == 0 ? dill_ipc_recvfd(s[0], 0) : op == 1 ? dill_brecv(s[0], c + 1, 1, 0) : -1, e = errno;
        if (op < 2 && !ret && (rc != -1 || e != EBUSY)) viol("C13 C15", "no-ebusy", "%s while another coroutine waits in %s returned %d, %s", op ? "brecv" : "recvfd", first ? "brecv" : "recvfd", rc, ename(e));
        if (!late && dill_ipc_sendfd(s[1], fd, -1)) viol("C15", "sendfd", "sendfd failed");
        if (dill_bundle_wait(b, dill_now() + 360000000)) viol("C13 C15", "disturbed", "the first receiver never finished");
        if (first == 0) { if (rc1 < 0 || file_id(rc1) != id) viol("C13 C15", "disturbed", "the first receiver got %d, %s", rc1, ename(e1)); sys_close(rc1); } else if (rc1) viol("C13 C15", "disturbed", "the first receiver failed with %s", ename(e1));
        dill_hclose(b); sys_close(fd); for (int x : also) sys_close(x);
        // a full pipe: sendfd waits; meanwhile nobody else may send
        std::string big = pattern(cfg.ucap, 3); bool full = true; int w = dill_bsend(s[1], big.data(), cfg.ucap, dill_now() + 10);
        if (!w) { // a sender that gave up leaves the socket usable
            for (int i = pick(W, 3); i > 0; --i) { also.clear(); fd = newfd(also); int64_t dl = dill_now() + pick(W, 30); Watch wt; int rc2 = dill_ipc_sendfd(s[1], fd, dl), e2 = errno; sys_close(fd); for (int x : also) sys_close(x);
                if (rc2 && e2 == EBUSY) viol("C13 C15", "busy-after-failure", "sendfd failed with EBUSY after an earlier sendfd timed out"); if (!rc2) { full = false; break; } if (e2 != ETIMEDOUT) viol("C15", "errno", "sendfd on a full socket failed with %s", ename(e2)); check_timedout("C04 C15", "sendfd", wt, dl); }
            if (!full) { dill_hclose(s[0]); dill_hclose(s[1]); passed += 1; return; }
            also.clear(); fd = newfd(also); int rc2 = -2; ret = false; b = dill_bundle(); co_bgo(b, [&] { rc2 = dill_ipc_sendfd(s[1], fd, -1); ret = true; });
            if (!ret) { int r = pick(W, 2) ? dill_bsend(s[1], "x", 1, 0) : dill_ipc_sendfd(s[1], fd, 0); if (r != -1 || errno != EBUSY) viol("C13 C15", "no-ebusy", "sending while another coroutine waits in sendfd returned %d, %s", r, ename(errno)); }
            Mem m(cfg.ucap); if (dill_brecv(s[0], m.p, cfg.ucap, dill_now() + 360000000) || memcmp(m.p, big.data(), cfg.ucap)) viol("C15 C13", "out-of-step", "bytes differ");
            int g = dill_ipc_recvfd(s[0], dill_now() + 360000000); if (g < 0) viol("C15", "lost", "the descriptor did not arrive: %s", ename(errno)); sys_close(g);
            dill_bundle_wait(b, dill_now() + 360000000); dill_hclose(b); if (rc2) viol("C15", "sendfd", "sendfd failed"); sys_close(fd); for (int x : also) sys_close(x); }
        dill_hclose(s[0]); dill_hclose(s[1]); passed += 2;
    }
    void hostile_run() {
        std::shared_ptr<RawPeer> p; int f = mk_rawpair(false, p); int h = dill_ipc_fromfd(f); if (h < 0) viol("C15", "fromfd", "fromfd failed"); hostile = true; p->autoread = pick(W, 2); int fds0 = open_fds();
        int steps = 1 + pick(W, 6); int64_t t = 0;
        for (int i = 0; i < steps; ++i) { t += (int64_t)pick(N, 30000) * 1000; after(t + 1000, [&, p, i] {
            switch (pick(N, 7)) { case 0: p->send("x", 1); break; case 1: p->send_fds("\xcc", 1); break; case 2: p->send_fds("\xcc", 2 + pick(N, 5)); break; case 3: p->send_fds("abcd", 1 + pick(N, 2)); break; case 4: p->shut(); peer_gone = true; break; case 5: p->close(); peer_gone = true; break; default: p->reset(); peer_gone = true; } }); }
        std::vector<int> got; int n = 1 + pick(W, 6);
        if (pick(W, 3) == 0) arm(R_FD, 1 + pick(W, 3));
        for (int i = 0; i < n; ++i) { int64_t dl = dill_now() + pick(W, 60); Watch wt; int rc, e; bool bad_fd = false, in = true, brecv = false;
            switch (pick(W, 4)) { case 0: case 1: rc = dill_ipc_recvfd(h, dl); e = errno; if (rc >= 0) { if (!fd_is_open(rc)) viol("C15", "invalid-fd", "ipc_recvfd returned a descriptor which is not open"); got.push_back(rc); ++passed; } break;
            case 2: { std::vector<int> also; in = false; int x = newfd(also); rc = dill_ipc_sendfd(h, x, dl); e = errno; sys_close(x); for (int y : also) sys_close(y); break; }
            default: if (pick(W, 4) == 0) { bad_fd = true; in = false; rc = dill_ipc_sendfd(h, pick(W, 2) ? 200 : -1, dl); e = errno; if (!rc) viol("C15", "bad-fd", "sending an invalid descriptor succeeded"); if (e == EBADF || e == EINVAL) continue; } else { Mem m(4); brecv = true; rc = dill_brecv(h, m.p, 1 + pick(W, 4), dl); e = errno; } }
            if (in && in_end && (rc >= 0 || e != EPIPE)) viol("C12 C15", "end", "receiving after EPIPE returned %d, %s", rc, rc < 0 ? ename(e) : "");
            if (in && in_broken && (rc >= 0 || e != ECONNRESET)) viol("C12 C15", "sticky", "receiving after the direction failed returned %d, %s", rc, rc < 0 ? ename(e) : "");
            if (in && rc < 0 && e == EPIPE) in_end = true;
            if (rc < 0) { ++errs; err(in ? "receiving" : "sending", e, wt, dl, false, 7); if (in && brecv && e != EPIPE && e != EBUSY) in_broken = true; } }
        disarm(); for (int x : got) sys_close(x);
        if (open_fds() > fds0) viol("C15 C27", "leak-fd", "%d descriptors leaked while receiving from a misbehaving peer: %s", open_fds() - fds0, describe_fds().c_str());
        if (pick(W, 2)) dill_hclose(h); else dill_ipc_close(h, dill_now() + 20);
        dill_msleep(dill_now() + 300); p->close();
    }
    void run() {
        switch (pick(W, 4)) { case 0: pair_run(true); break; case 1: pair_run(false); break; case 2: busy_run(); break; default: hostile_run(); }
        probe("sendfd.passed", passed); probe("sendfd.errors", errs); if (passed || errs) nontrivial();
    }
};
}
SCENARIO(accept) { randomize_common(true); if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; cfg.scap = cfg.rcap = cfg.ucap = 4096; cfg.mss = 1460; auto *a = new AccT; a->run(); delete a; final_census("C27 C14"); }
SCENARIO(sendfd) { randomize_common(true); static const uint32_t caps[] = {65536, 2000, 4096, 300}; cfg.ucap = caps[pick(W, 4)]; cfg.nofile = 256; auto *a = new FdT; a->run(); delete a; final_census("C27 C15"); }
