// TCP and IPC byte streams (C11, C12, C13), also run in several threads at once (C28).
#include "engines.h"
#include <sys/socket.h>
namespace {
const char *T11 = "C11", *T12 = "C12", *T13 = "C13";
struct Data { uint64_t key; std::string d;
    const char *upto(size_t n) { while (d.size() < n) { size_t o = d.size(); d.resize(o + 4096); fill_pattern(&d[o], 4096, key * 1000003 + o); } return d.data(); } };
struct Half {
    int i = 0; Half *peer = NULL; int h = -1; bool raw = false, tcp = true; std::shared_ptr<RawPeer> p; uint64_t fid = 0; Data data; Mem *mem = NULL;
    bool out_done = false, out_err = false, in_err = false, in_end = false, sbusy = false, rbusy = false, closed = false, hclosed = false, ended_cleanly = false, stall = false, maybe_ended = false, early = false, nodone = false, closing = false;
    size_t sent = 0, tried = 0, got = 0, plan = 0;
};
struct StreamT {
    EngineOpts o; bool clean; bool stop = false; int cancelled[64] = {0}; int scnt = 0, ops = 0, eb = 0, tmo = 0, canc = 0, eofs = 0, inv = 0; size_t bytes = 0;
    std::vector<std::unique_ptr<Half>> halves; std::vector<std::pair<int, int>> conns;
    bool broken(Half &a) { return a.hclosed || a.peer->hclosed; } // somebody broke the connection on purpose
    static int64_t idle() { return now_ns() - busy_ns(); }
    Half &H(int k) { return *halves[k]; }
    // ---- one receive --------------------------------------------------------------
    struct RWait { Half *a; size_t need; int64_t since = -1, sinceidle = 0; };
    std::set<RWait *> rw;
    void sample() {
        for (RWait *w : rw) { StreamIn in; if (w->since >= 0 || !w->a->fid || !stream_in(w->a->fid, in)) continue; if (in.fin || in.arrived >= (int64_t)w->need) { w->since = now_ns(); w->sinceidle = idle(); } }
    }
    void bad_list(Iol &l, dill_iolist *&f, dill_iolist *&la, dill_iolist *other) {
        f = l.first(); la = l.last();
        switch (pick(W, 6)) {
        case 0: if (pick(W, 2)) f = NULL; else la = NULL; break;                        // one missing
        case 1: l.v[pick(W, (uint32_t)l.v.size())].iol_rsvd = 1; break;                  // reserved field used
        case 2: l.v.back().iol_next = &l.v[pick(W, (uint32_t)l.v.size())]; la = other; break;   // loop
        case 3: l.v.back().iol_next = &l.v[0]; break;
        case 4: la = other; break;                                                     // last belongs to another list
        default: if (l.v.size() > 1) la = &l.v[0]; else la = other;
        }
    }
    void expect_unch(std::vector<dill_iolist> &sv, Iol &l, const char *what) {
        for (size_t i = 0; i < sv.size(); ++i) if (memcmp(&sv[i].iol_base, &l.v[i].iol_base, sizeof(void *)) || sv[i].iol_len != l.v[i].iol_len || sv[i].iol_next != l.v[i].iol_next || sv[i].iol_rsvd != l.v[i].iol_rsvd)
            viol(T11, "iolist-modified", "%s with an invalid list left element %zu of %zu modified (rsvd %d)", what, i, sv.size(), l.v[i].iol_rsvd);
    }
    void invalid(Half &a, bool snd, int bundle) {
        ++inv; Iol l; l.make(1 + pick(W, 3000), NULL, 5); dill_iolist other = {NULL, 0, NULL, 0}; std::string before = l.bytes();
        dill_iolist *f, *la; bad_list(l, f, la, &other); std::vector<dill_iolist> sv = l.v; int64_t i0 = idle();
        bool dead = snd ? a.out_done || a.out_err : a.in_end || a.in_err, busy = snd ? a.sbusy : a.rbusy;
        int rc = snd ? dill_bsendl(a.h, f, la, -1) : dill_brecvl(a.h, f, la, -1); int e = rc ? errno : 0; ev("invalid", snd, e);
        expect_unch(sv, l, snd ? "bsendl" : "brecvl");
        if (idle() != i0) viol(T11, "invalid-waits", "%s with an invalid list waited", snd ? "bsendl" : "brecvl");
        if (!rc || (e != EINVAL && !(busy && e == EBUSY) && !(dead && (e == EPIPE || e == ECONNRESET))))
            viol(T11, "invalid-accepted", "%s with an invalid list returned %d, %s", snd ? "bsendl" : "brecvl", rc, ename(e));
        if (l.bytes() != before) viol(T11, "invalid-transferred", "%s with an invalid list transferred data", snd ? "bsendl" : "brecvl");
        // whether the direction is still usable afterwards is left open (C13); nothing was transferred either way
        if (e == EINVAL && !dead && !busy) { // probe with an empty transfer: succeeds if usable, fails otherwise
            char c = 0; int r2 = snd ? dill_bsend(a.h, &c, 0, 0) : 0;
            if (!snd) { Mem m(1); r2 = dill_brecv(a.h, m.p, 0, 0); }
            if (r2) { if (snd) a.out_err = true; else a.in_err = true; }
        }
    }
    size_t size() { switch (pick(W, 12)) { case 0: return 0; case 1: return 1; case 2: case 3: return pick(W, 30); case 4: return 1984; case 5: return 1983 + pick(W, 3); case 6: return pick(W, 30000); case 7: return pick(W, 4000); default: return pick(W, 700); } }
    int64_t deadline(int bundle) {
        if (clean) return pick(W, 3) ? -1 : dill_now() + 40000000;
        switch (pick(W, 8)) { case 0: return 0; case 1: return bundle == 60 ? dill_now() + 50 : -1; case 2: return dill_now() + pick(W, 5); case 3: return std::max<int64_t>(1, dill_now() - 5); default: return dill_now() + pick(W, 500); }
    }
    int many() { return !chance(W, 1, 60) ? 7 : pick(W, 3) ? 2500 : -(1023 + (int)pick(W, 3) + (pick(W, 2) ? 20000 : 0)); } // more elements than one system call takes
    void recv(Half &a, size_t n, int64_t dl, int bundle) {
        Half &b = *a.peer; bool busy = a.rbusy, dead = a.in_end || a.in_err, end = a.in_end, c0 = cancelled[bundle]; ++ops;
        bool list = pick(W, 2), skip = chance(W, 1, 4); Iol l; Mem *m = NULL; int rc, e; size_t off = a.got;
        l.make(n, NULL, list ? many() : 1, skip);
        if (list) for (auto &p : l.bufs) (void)p;
        if (!busy) a.rbusy = true;
        RWait w{&a, a.got + n}; bool track = !busy && !dead && !o.in_thread && a.fid; if (track) { rw.insert(&w); sample(); }
        Watch wt; int64_t i0 = idle(); ev("recv0", a.i, n, busy, dead);
        rc = list ? dill_brecvl(a.h, l.first(), l.last(), dl) : dill_brecv(a.h, l.v[0].iol_base, n, dl); e = rc ? errno : 0;
        ev("recv", a.i, e, n); int64_t i1 = idle(), t1 = now_ns(); if (track) { sample(); rw.erase(&w); }
        if (list) l.check_unchanged(T11, "brecvl");
        if (rc != 0 && rc != -1) viol(T11, "result", "brecv returned %d", rc);
        if (dead || busy || dl == 0) if (i1 != i0) viol("C13 C04", "waits", "brecv waited although %s", dead ? "the direction had failed or ended" : busy ? "another coroutine was receiving" : "its deadline was 0");
        if (busy) { if (rc == 0 || (e != EBUSY && !(dead && (e == EPIPE || e == ECONNRESET)))) viol(T13, "no-ebusy", "brecv while another coroutine is receiving returned %d, %s", rc, ename(e)); ++eb; return; }
        a.rbusy = false;
        if (dead) {
            if (rc == 0) viol("C13 C12", "usable-after-failure", "brecv of %zu bytes succeeded although the direction had %s", n, end ? "ended" : "failed before");
            if (end && e != EPIPE) viol("C12 C13", "after-end", "brecv after the end of the stream failed with %s", ename(e));
            return;
        }
        if (w.since >= 0 && idle() > w.sinceidle) viol("C11 C08", "lost-wakeup", "the process slept %lld us while a receive of %zu bytes could complete", (long long)(idle() - w.sinceidle) / 1000, n);
        if (!rc) {
            if (off + n > b.tried) viol(T11, "invented", "brecv delivered %zu bytes at offset %zu, only %zu were sent", n, off, b.tried);
            const char *d = b.data.upto(off + n); size_t k = 0;
            for (size_t i = 0; i < l.bufs.size(); ++i) { if (l.bufs[i] && memcmp(l.bufs[i], d + off + k, l.lens[i])) {
                size_t x = 0; while (l.bufs[i][x] == d[off + k + x]) ++x; viol(T11, "content", "byte %zu of the stream arrived as %02x, sent %02x (receive of %zu bytes from offset %zu)", off + k + x, (uint8_t)l.bufs[i][x], (uint8_t)d[off + k + x], n, off); } k += l.lens[i]; }
            a.got += n; bytes += n;
            return;
        }
        switch (e) {
        case EPIPE: {
            bool ended = b.out_done || b.closed || b.maybe_ended;
            if (!ended && !broken(a)) viol(T12, "early-end", "brecv reported the end of the stream although the peer has not ended it");
            if (!broken(a) && b.tried == b.sent && a.got + n <= b.sent) viol("C12 C11", "lost-tail", "brecv of %zu bytes got EPIPE at offset %zu of %zu sent", n, a.got, b.sent);
            a.in_end = true; ++eofs; return; }
        case ECONNRESET: if (!broken(a)) viol("C12 C13", "reset", "brecv failed with ECONNRESET although nobody broke the connection"); a.in_err = true; return;
        case ETIMEDOUT: if (dl > 0) check_timedout("C04 C11", "brecv", wt, dl); else if (dl < 0) viol("C04", "timeout-infinite", "brecv timed out without a deadline");
            if (w.since >= 0 && w.since < wt.t0) viol("C11", "missed", "brecv timed out although all the data had arrived before the call"); a.in_err = true; ++tmo; return;
        case ECANCELED: if (!cancelled[bundle]) viol("C05", "canceled-outside", "brecv failed with ECANCELED although nobody cancels"); a.in_err = true; ++canc; return;
        }
        viol("C11 C13", "errno", "brecv failed with %s", ename(e));
    }
    void send(Half &a, size_t n, int64_t dl, int bundle) {
        bool busy = a.sbusy, dead = a.out_done || a.out_err, ended = a.out_done; int rc, e; ++ops;
        bool list = pick(W, 2); size_t off = a.sent; std::string copy(a.data.upto(off + n) + off, n); Iol l; l.make(n, copy.data(), list ? many() : 1);
        if (!busy) { a.sbusy = true; if (!dead) a.tried = off + n; }
        Watch wt; int64_t i0 = idle(); ev("send0", a.i, n, busy, dead);
        rc = list ? dill_bsendl(a.h, l.first(), l.last(), dl) : dill_bsend(a.h, l.v[0].iol_base, n, dl); e = rc ? errno : 0;
        ev("send", a.i, e, n);
        if (list) l.check_unchanged(T11, "bsendl");
        if (l.bytes() != copy) viol(T11, "sendbuf-modified", "bsend modified the data it sends");
        if (rc != 0 && rc != -1) viol(T11, "result", "bsend returned %d", rc);
        if (dead || busy || dl == 0) if (idle() != i0) viol("C13 C04", "waits", "bsend waited although %s", dead ? "the direction had failed or ended" : busy ? "another coroutine was sending" : "its deadline was 0");
        if (busy) { if (rc == 0 || (e != EBUSY && !(dead && (e == EPIPE || e == ECONNRESET)))) viol(T13, "no-ebusy", "bsend while another coroutine is sending returned %d, %s", rc, ename(e)); ++eb; return; }
        a.sbusy = false;
        if (dead) {
            if (rc == 0) viol("C13 C12", "usable-after-failure", "bsend of %zu bytes succeeded although the direction had %s", n, ended ? "ended" : "failed before");
            if (ended && e != EPIPE) viol("C12", "after-done", "bsend after done failed with %s", ename(e));
            return;
        }
        if (!rc) { a.sent = off + n; return; }
        switch (e) {
        case EPIPE: viol("C13 C12", "send-epipe", "bsend failed with EPIPE, which stands for a side ended by its owner, although this side was not ended");
        case ECONNRESET: if (!broken(a) && !a.peer->closed) viol("C12 C13", "reset", "bsend failed with %s although nobody broke the connection", ename(e)); a.out_err = true; return;
        case ETIMEDOUT: if (dl > 0) check_timedout("C04 C11", "bsend", wt, dl); else if (dl < 0) viol("C04", "timeout-infinite", "bsend timed out without a deadline"); a.out_err = true; ++tmo; return;
        case ECANCELED: if (!cancelled[bundle]) viol("C05", "canceled-outside", "bsend failed with ECANCELED although nobody cancels"); a.out_err = true; ++canc; return;
        }
        viol("C11 C13", "errno", "bsend failed with %s", ename(e));
    }
    void done(Half &a) {
        if (a.sbusy) return; bool was = a.out_done, err = a.out_err; int64_t i0 = idle();
        int64_t dl = pick(W, 2) ? -1 : 0; if (!was && !err) a.maybe_ended = true;
        int rc = a.tcp ? dill_tcp_done(a.h, dl) : dill_ipc_done(a.h, dl), e = rc ? errno : 0; ev("done", a.i, e);
        if (was) { if (!rc || e != EPIPE) viol(T12, "second-done", "done called again returned %d, %s", rc, ename(e)); return; }
        if (err) { if (!rc) viol("C13", "usable-after-failure", "done succeeded although the direction had failed"); return; }
        if (rc && !broken(a)) viol(T12, "done", "done failed with %s", ename(e));
        if (!rc) a.out_done = true; else a.out_err = true;
    }
    void own(Half &a) {
        if (a.sbusy || a.rbusy || cancelled[60]) return;
        int n = dill_hown(a.h); if (n < 0) { if (errno != ECANCELED) viol("C07", "hown", "hown failed with %s", ename(errno)); a.h = -1; a.closed = a.hclosed = true; return; }
        char c; if (n == a.h || dill_brecv(a.h, &c, 0, 0) == 0 || errno != EBADF) viol("C07", "stale", "the handle given away by hown still works"); a.h = n;
    }
    // closes the half; nobody else may be using it
    void close(Half &a, int64_t dl, bool hard, int bundle) {
        if (a.closed) return;
        Half &b = *a.peer; a.closed = true; int rc, e; Watch wt; int h = a.h; int64_t i0 = idle(); ev("close0", a.i, hard);
        if (hard) { a.hclosed = true; a.out_done = true; rc = dill_hclose(h); if (rc) viol("C27 C13", "hclose", "hclose failed with %s", ename(errno)); if (idle() != i0) viol(T13, "hclose-waits", "hclose waited"); }
        else {
            bool bad = a.out_err || a.in_err; RWait w{&a, (size_t)1 << 60}; bool track = !o.in_thread && a.fid && !bad && !a.in_end; if (!a.out_done && !a.out_err) a.maybe_ended = true;
            if (track) { rw.insert(&w); sample(); }
            a.closing = true; rc = a.tcp ? dill_tcp_close(h, dl) : dill_ipc_close(h, dl); e = rc ? errno : 0; a.closing = false; ev("close", a.i, e);
            if (track) rw.erase(&w);
            if (rc) a.hclosed = true; // the connection may be reset
            if (!rc) {
                if (bad) viol("C12 C13", "close-after-failure", "close succeeded although a direction had failed");
                if (!(b.out_done || b.maybe_ended || b.closed)) viol(T12, "close-early", "close succeeded although the peer has not ended its side");
                a.out_done = true; a.ended_cleanly = true;
            } else switch (e) {
                case ETIMEDOUT: if (dl > 0) check_timedout("C04 C12", "close", wt, dl); else if (dl < 0) viol("C04", "timeout-infinite", "close timed out without a deadline"); break;
                case ECANCELED: if (!cancelled[bundle]) viol("C05", "canceled-outside", "close failed with ECANCELED although nobody cancels"); break;
                case ECONNRESET: if (!bad && !broken(*a.peer) && !b.hclosed) viol(T12, "close-reset", "close failed with ECONNRESET although nobody broke the connection"); break;
                default: viol(T12, "close-errno", "close failed with %s", ename(e));
            }
            if (rc && clean) viol(T12, "close-failed", "close failed with %s although the peer behaves", ename(e));
            if (bad && idle() != i0) viol(T13, "waits", "close waited although a direction had failed");
        }
        Mem m(1);
        int r = pick(W, 2) ? dill_brecv(h, m.p, 1, 0) : dill_hclose(h);
        if (r != -1 || errno != EBADF) viol("C07 C12 C27", "stale-after-close", "after close the handle is still accepted: %d, %s", r, ename(errno));
        if (a.mem) { delete a.mem; a.mem = NULL; } // the memory belongs to the user again
    }
    // ---- connections -----------------------------------------------------------------
    Half *mkhalf(bool tcp) { halves.emplace_back(new Half); Half *x = halves.back().get(); x->i = (int)halves.size() - 1; x->tcp = tcp; x->data.key = 77 + x->i * 1000 + pick(W, 1000) * 100000 + (o.in_thread ? cur_thread() * 7777777ull : 0); return x; }
    int64_t setup_dl() { return dill_now() + 100000000; }
    int fromfd(int fd, bool tcp, Half *x) {
        int h; x->fid = file_id(fd);
        if (pick(W, 2)) { x->mem = new Mem(tcp ? sizeof(dill_tcp_storage) : sizeof(dill_ipc_storage)); h = tcp ? dill_tcp_fromfd_mem(fd, (dill_tcp_storage *)x->mem->p) : dill_ipc_fromfd_mem(fd, (dill_ipc_storage *)x->mem->p); }
        else h = tcp ? dill_tcp_fromfd(fd) : dill_ipc_fromfd(fd);
        if (h < 0) viol("C27", "fromfd", "fromfd failed with %s", ename(errno));
        return h;
    }
    void connect_pair(bool tcp, Half *a, Half *b) {
        int ls, ac = -1, dummy = 0; dill_ipaddr ad; char path[80]; static int nport; int port = 5000 + ++nport;
        if (tcp) { if (dill_ipaddr_local(&ad, "127.0.0.1", port, DILL_IPADDR_IPV4)) viol("C14", "ipaddr_local", "%s", ename(errno)); ls = dill_tcp_listen(&ad, 10); }
        else { snprintf(path, sizeof path, "/tmp/s%d.%d", port, cur_thread()); ls = dill_ipc_listen(path, 10); }
        if (ls < 0) viol("C14", "listen", "listen failed with %s", ename(errno));
        bool am = pick(W, 2), bm = pick(W, 2); a->mem = am ? new Mem(72) : NULL; b->mem = bm ? new Mem(72) : NULL;
        auto acc = [&] { ac = tcp ? bm ? dill_tcp_accept_mem(ls, NULL, (dill_tcp_storage *)b->mem->p, setup_dl()) : dill_tcp_accept(ls, NULL, setup_dl()) : bm ? dill_ipc_accept_mem(ls, (dill_ipc_storage *)b->mem->p, setup_dl()) : dill_ipc_accept(ls, setup_dl()); };
        int g = co_go(acc); if (g < 0) viol("C14", "go", "go failed");
        a->h = tcp ? am ? dill_tcp_connect_mem(&ad, (dill_tcp_storage *)a->mem->p, setup_dl()) : dill_tcp_connect(&ad, setup_dl()) : am ? dill_ipc_connect_mem(path, (dill_ipc_storage *)a->mem->p, setup_dl()) : dill_ipc_connect(path, setup_dl());
        if (a->h < 0) viol("C14", "connect", "connect failed with %s", ename(errno));
        if (dill_bundle_wait(g, setup_dl())) viol("C14", "accept-hangs", "accept does not finish");
        dill_hclose(g); b->h = ac; if (ac < 0) viol("C14", "accept", "accept failed");
        if (pick(W, 2) ? dill_hclose(ls) : tcp ? dill_tcp_close(ls, -1) : dill_ipc_close(ls, -1)) viol("C27", "close-listener", "closing the listener failed");
    }
    void mk() {
        bool tcp = pick(W, 3) != 0; Half *a = mkhalf(tcp), *b = mkhalf(tcp); a->peer = b; b->peer = a; int fds[2];
        switch (pick(W, 5)) {
        case 0: case 1: if (tcp) mk_tcppair(fds); else mk_socketpair(fds); a->h = fromfd(fds[0], tcp, a); b->h = fromfd(fds[1], tcp, b); break;
        case 2: if (tcp) { connect_pair(tcp, a, b); break; }
            if (pick(W, 2)) { int s[2]; if (dill_ipc_pair(s)) viol("C27", "ipc_pair", "ipc_pair failed"); a->h = s[0]; b->h = s[1]; } else connect_pair(tcp, a, b); break;
        default: { int fd = mk_rawpair(tcp, b->p); b->raw = true; a->h = fromfd(fd, tcp, a); }
        }
    }
    // ---- scripted far ends -------------------------------------------------------------
    void check_rx(Half &r, bool complete) { Half &a = *r.peer; auto &rx = r.p->rx;
        if (rx.size() > a.tried) viol(T11, "invented", "the peer received %zu bytes, only %zu were sent", rx.size(), a.tried);
        const char *d = a.data.upto(rx.size()); if (r.got < rx.size() && memcmp(rx.data() + r.got, d + r.got, rx.size() - r.got)) { size_t x = r.got; while (rx[x] == d[x]) ++x; viol(T11, "content", "byte %zu of the stream arrived at the peer as %02x, sent %02x", x, (uint8_t)rx[x], (uint8_t)d[x]); }
        r.got = rx.size();
        if (r.p->fin && !a.out_done && !a.maybe_ended && !a.closed) viol(T12, "early-end", "the peer saw the end of the stream although it was not ended");
        if (r.p->fin && !broken(a) && a.tried == a.sent && rx.size() < a.sent) viol("C12 C11", "lost-tail", "the peer saw the end of the stream after %zu of %zu bytes", rx.size(), a.sent);
        if (r.p->rst && !broken(a) && !a.closing) viol("C12 C13", "reset", "the peer saw a reset although nobody broke the connection (received %zu of %zu bytes)", rx.size(), a.sent);
    }
    void raw_step(Half &r, int left) {
        if (stop || r.closed) return; auto &p = *r.p; ev("raw", r.i, left);
        if (!clean && chance(N, 1, 12)) { ev("raw-break", r.i); r.closed = r.hclosed = true; if (pick(N, 2)) p.reset(); else p.close(); return; }
        if (!clean && chance(N, 1, 12)) r.stall = !r.stall;
        if (left == 0 || r.out_done) { if (!r.out_done && (clean || chance(N, 2, 3))) { r.out_done = true; p.shut(); ev("raw-shut", r.i); } }
        else if (!r.stall) { size_t n = clean ? std::min<size_t>(r.plan - r.sent, 1 + pick(N, 4000)) : size(); if (left == 1 && clean) n = r.plan - r.sent; r.tried = r.sent += n; p.send(r.data.upto(r.sent) + r.sent - n, n); }
        if (!p.autoread && !r.stall) p.read_some(1 + pick(N, 5000));
        check_rx(r, false);
        if (left > 0 || (!p.autoread && !p.fin)) after((int64_t)pick(N, pick(N, 2) ? 2000 : 60000) * 1000 + 1000, [this, k = r.i, left] { raw_step(H(k), left > 0 ? left - 1 : 0); });
    }
    // ---- coroutines ----------------------------------------------------------------------
    void sender(Half &a, int bundle) {
        if (clean) { while (a.sent < a.plan) { size_t n = std::min(size(), a.plan - a.sent); send(a, n, deadline(bundle), bundle); if (a.out_err) viol("C11 C12", "send-failed", "a send failed although the peer behaves"); pause(bundle); }
            if (pick(W, 3) || a.peer->nodone) done(a); else a.nodone = true; return; }
        int n = 1 + pick(W, 8);
        for (int i = 0; i < n; ++i) { if (chance(W, 1, 10)) done(a); else if (chance(W, 1, 12)) invalid(a, true, bundle); else send(a, chance(W, 1, 10) ? 20000 + pick(W, 150000) : size(), deadline(bundle), bundle); pause(bundle); if (cancelled[bundle] && pick(W, 2)) return; }
    }
    void receiver(Half &a, int bundle) {
        if (clean) { Half &b = *a.peer; bool exact = pick(W, 4); while (!a.in_end) { size_t n = size(); if (exact) n = a.got < b.plan ? std::min(n, b.plan - a.got) : 1; else if (!n) n = 1; recv(a, n, deadline(bundle), bundle); if (a.in_err) viol("C11 C12", "recv-failed", "a receive failed although the peer behaves"); pause(bundle); }
            return; }
        int n = 1 + pick(W, 8);
        for (int i = 0; i < n; ++i) { if (chance(W, 1, 12)) invalid(a, false, bundle); else recv(a, chance(W, 1, 12) ? 20000 + pick(W, 100000) : size(), deadline(bundle), bundle); pause(bundle); if (cancelled[bundle] && pick(W, 2)) return; }
    }
    void pause(int bundle) { switch (pick(W, 6)) { case 0: dill_yield(); break; case 1: dill_msleep(dill_now() + pick(W, 20)); break; case 2: burn((int64_t)pick(W, 1000) * 1000); } }
    void run() {
        clean = pick(W, 2); int nc = 1 + pick(W, 3); std::vector<int> bs;
        if (!o.in_thread) after_event = [this] { sample(); };
        for (int c = 0; c < nc; ++c) mk();
        for (auto &x : halves) x->plan = clean ? (chance(W, 1, 4) ? pick(W, 200000) : pick(W, 6000)) : 0;
        // closers: in a clean run one coroutine per half closes when both its directions have ended
        for (auto &xp : halves) { Half *x = xp.get();
            if (x->raw) { x->p->autoread = pick(W, 2); x->p->on_data = [this, x] { check_rx(*x, false); }; int k = 1 + pick(W, 10); after(1000, [this, x, k] { raw_step(*x, k); }); continue; }
            int b = dill_bundle(), id = (int)bs.size(); bs.push_back(b);
            if (clean) {
                auto *left = new int(2); bool early = pick(W, 3) == 0 && !x->peer->early; x->early = early;
                auto fin = [this, x, left, id, early] { if (--*left) return; delete left; if (pick(W, 2)) own(*x); close(*x, pick(W, 2) ? -1 : dill_now() + 40000000, false, id); };
                if (early) { // closes without reading: close discards what is still inbound
                    *left = 1; co_bgo(b, [this, x, id, fin] { sender(*x, id); size_t k = std::min<size_t>(x->peer->plan, pick(W, 500)); if (k && pick(W, 2)) recv(*x, k, -1, id); fin(); });
                } else { co_bgo(b, [this, x, id, fin] { sender(*x, id); fin(); }); co_bgo(b, [this, x, id, fin] { receiver(*x, id); fin(); }); }
            } else {
                int n = 1 + pick(W, 4); for (int i = 0; i < n; ++i) { bool s = i < 2 ? i : pick(W, 2); co_bgo(b, [this, x, id, s] { if (s) sender(*x, id); else receiver(*x, id); }); }
            }
        }
        if (clean) {
            for (size_t i = 0; i < bs.size(); ++i) { if (dill_bundle_wait(bs[i], dill_now() + 360000000)) viol("C12 C11", "no-progress", "the transfer is not finished after ten hours although nothing is broken: %s", ename(errno)); dill_hclose(bs[i]); }
        } else {
            int k = 0; std::vector<int> order; for (size_t i = 0; i < bs.size(); ++i) order.push_back((int)i);
            for (size_t i = bs.size(); i > 1; --i) std::swap(order[i - 1], order[pick(W, (uint32_t)i)]);
            std::vector<int> kh; for (size_t i = 0; i < halves.size(); ++i) if (!halves[i]->raw) kh.push_back((int)i);
            for (int i : order) {
                if (pick(W, 2)) dill_bundle_wait(bs[i], dill_now() + pick(W, 700));
                cancelled[i] = 1; dill_hclose(bs[i]); Half &x = H(kh[i]);
                if (chance(W, 1, 4)) own(x);
                if (x.sbusy || x.rbusy) viol("C05 C13", "still-running", "a coroutine of a closed bundle is still transferring");
                close(x, pick(W, 4) ? dill_now() + pick(W, 1000) : 0, pick(W, 3) == 0, 60);
            }
        }
        for (auto &xp : halves) { Half &x = *xp;
            if (!x.raw || x.closed || x.hclosed) continue;
            if (clean) { // everything reaches the peer, and nothing but the end after it
                for (int i = 0; i < 4000 && !x.p->fin; ++i) { dill_msleep(dill_now() + 500); if (!x.p->autoread) x.p->read_some(100000); }
                check_rx(x, true);
                if (x.p->rx.size() != x.peer->sent || !x.p->fin) viol("C12 C11", "lost-tail", "the peer has received %zu of %zu bytes, end seen: %d", x.p->rx.size(), x.peer->sent, x.p->fin);
            }
        }
        stop = true; if (!o.in_thread) after_event = nullptr;
        if (clean) for (auto &xp : halves) { Half &x = *xp; if (!x.raw && x.in_end && !x.in_err && x.got + 0 < x.peer->sent && x.peer->plan && x.got == x.peer->sent) (void)0; }
        for (auto &xp : halves) { Half &x = *xp; if (x.raw) { x.closed = true; x.p->on_data = nullptr; } }
        if (!o.in_thread) dill_msleep(dill_now() + 100); // late events
        for (auto &xp : halves) if (xp->raw && !xp->p->dead) { xp->p->autoread = true; xp->p->close(); }
        probe("stream.ops", ops); probe("stream.ebusy", eb); probe("stream.timeouts", tmo); probe("stream.canceled", canc); probe("stream.eof", eofs); probe("stream.invalid-lists", inv); probe("stream.bytes", bytes); probe(clean ? "stream.clean-runs" : "stream.faulty-runs");
        if (bytes || tmo || canc) nontrivial();
    }
};
}
void stream_engine(EngineOpts o) { auto *s = new StreamT; s->o = o; s->run(); if (!o.in_thread) delete s; } // late events of a threaded engine still look at its flag
SCENARIO(stream) {
    randomize_common(true);
    static const uint32_t caps[] = {65536, 2000, 4096, 300, 1000000}; cfg.scap = caps[pick(W, 5)]; cfg.rcap = caps[pick(W, 5)]; cfg.ucap = caps[pick(W, 5)];
    stream_engine(EngineOpts());
    final_census("C27 C12");
}
