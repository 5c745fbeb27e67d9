// TLS over byte streams (C22), and hostile peers of it (C30).
#include "tlsenv.h"
namespace {
const char *T = "C22";
struct TlsT;
struct End {
    TlsT *o; int i; End *peer; int u = -1, h = -1; bool server = false, handed = false, att = false, out_done = false, ending = false, in_end = false, in_err = false, out_err = false, rbusy = false, sbusy = false, gone = false, detached = false, canceled = false, waits_end = false, calls_done = false; uint64_t key;
    std::unique_ptr<Mem> mem; size_t plan = 0, sent = 0, tried = 0, got = 0; int64_t att_time = -1;
};
struct TlsT {
    Base b; End e[2]; bool clean = false, hostile = false, tampered = false, tamper_after = false, broken = false, conc = true; int tdir = -1, ops = 0, nto = 0, neof = 0, ncanc = 0, nerr = 0, natt = 0, ndet = 0; size_t bytes = 0; Str keyf, certf; std::shared_ptr<RawPeer> p[2]; std::unique_ptr<Ossl> op; bool opmode = false, trunc = false; bool stop = false;
    const char *TG() { return hostile ? "C30 C22" : "C22"; }
    Str data(End &x, size_t o, size_t n) { Str s(n, 0); for (size_t i = 0; i < n; ++i) { uint64_t z = (o + i) * 0x9e3779b97f4a7c15ull + x.key; z ^= z >> 29; s[i] = (char)((z * 0xbf58476d1ce4e5b9ull) >> 56); } return s; }
    int64_t deadline(End &x) {
        if (clean) return pick(W, 3) ? -1 : dill_now() + 40000000;
        switch (pick(W, 8)) { case 0: return 0; case 1: return dill_now() + pick(W, 5); case 2: return std::max<int64_t>(1, dill_now() - 5); case 3: return dill_now() + 60000; default: return dill_now() + pick(W, 1500); }
    }
    // what holds for every failed or successful operation; returns errno or 0
    int judge(End &x, const char *what, int rc, int er, int64_t dl, Watch &w, int64_t i0) {
        ++ops; ev(what, x.i, rc < 0 ? er : 0, dl);
        if (dl == 0 && idle_ns() != i0) viol("C22 C04", "waits", "%s with a deadline of 0 waited", what);
        if (dl > 0 && !in_time(w, dl)) viol("C22 C04", "late", "%s returned at %lld ms, deadline %lld ms", what, (long long)now_ms(), (long long)dl);
        if (rc >= 0) return 0;
        if (er == ETIMEDOUT) { ++nto; check_timedout("C22 C04", what, w, dl); } else if (er == ECANCELED) { ++ncanc; if (!x.canceled) viol("C22 C05", "canceled", "%s failed with ECANCELED although nobody cancels", what); } else ++nerr;
        if (clean) viol("C22", "failed", "%s failed with %s although nothing is broken", what, ename(er));
        if (er != ETIMEDOUT && er != ECANCELED && er != ECONNRESET && er != EPIPE && er != EFAULT && er != EBUSY) viol(TG(), "errno", "%s failed with %s", what, ename(er));
        if (er == EFAULT && !tampered && !hostile && !broken && !opmode && strcmp(what, "tls_detach")) viol("C22", "errno", "%s failed with EFAULT although nobody tampered with the data", what);
        return er;
    }
    void stale(int h, const char *what) { char c; int r = dill_brecv(h, &c, 1, 0); if (r != -1 || errno != EBADF) viol("C22 C27 C07", "stale", "after %s the old handle still works: %d, %s", what, r, ename(errno)); }
    bool attach(End &x) {
        int64_t dl = deadline(x), i0 = idle_ns(); Watch w; int u = x.u, h; x.u = -1; bool um = pick(W, 2); if (um) x.mem.reset(new Mem(sizeof(dill_tls_storage))); dill_tls_storage *m = um ? (dill_tls_storage *)x.mem->p : NULL; x.handed = true; ev("attach0", x.i, x.server);
        if (x.server) h = um ? dill_tls_attach_server_mem(u, certf.c_str(), keyf.c_str(), m, dl) : dill_tls_attach_server(u, certf.c_str(), keyf.c_str(), dl); else h = um ? dill_tls_attach_client_mem(u, m, dl) : dill_tls_attach_client(u, dl);
        int er = errno; judge(x, "tls_attach", h, er, dl, w, i0);
        if (h < 0) { broken = true; x.gone = true; if (er == EBUSY) viol(T, "errno", "tls_attach failed with EBUSY"); char c; int r = dill_brecv(u, &c, 1, 0); if (r != -1 || errno != EBADF) viol("C22 C27", "not-closed", "tls_attach failed but the underlying socket is still open: %d, %s", r, ename(errno)); x.mem.reset(); return false; }
        x.h = h; x.att = true; x.att_time = now_ns(); ++natt; if (h != u) stale(u, "tls_attach");
        if (x.peer->gone && !x.peer->att && !opmode && !x.server) {} // TLS 1.3 lets one side finish before the other fails
        if (!opmode && !hostile && !x.peer->handed) viol(T, "alone", "tls_attach succeeded although the peer has not started");
        return true;
    }
    size_t size() { switch (pick(W, 10)) { case 0: return 0; case 1: return 1; case 2: return 16384 + pick(W, 3) - 1; case 3: return pick(W, 40000); case 4: case 5: return pick(W, 30); default: return pick(W, 3000); } }
    void send(End &x, size_t n) {
        bool dead = x.out_done || x.out_err, busy = x.sbusy, end = x.out_done; int64_t dl = deadline(x); size_t off = x.sent; Str d = data(x, off, n); bool list = pick(W, 2); Iol l; l.make(n, d.data(), list ? 7 : 1); if (!busy && !dead) x.tried = off + n; if (!busy) x.sbusy = true;
        Watch w; int64_t i0 = idle_ns(); int rc = list ? dill_bsendl(x.h, l.first(), l.last(), dl) : dill_bsend(x.h, l.v[0].iol_base, n, dl), er = errno; if (list) l.check_unchanged(T, "bsendl"); if (l.bytes() != d) viol(T, "sendbuf-modified", "bsend modified the data it sends");
        judge(x, "bsend", rc, er, dl, w, i0);
        if (busy) { if (rc == 0 || er != EBUSY) viol("C22 C13", "no-ebusy", "bsend while another coroutine is sending returned %d, %s", rc, ename(er)); return; } x.sbusy = false;
        if (dead) { if (!rc) viol(T, "usable", "bsend succeeded although the direction was closed or failed"); if (er != (end ? EPIPE : ECONNRESET)) viol(T, "dead-errno", "bsend in a %s direction failed with %s", end ? "closed" : "failed", ename(er)); if (idle_ns() != i0) viol(T, "dead-waits", "bsend in a dead direction waited"); return; }
        if (er == EPIPE && rc) viol(T, "send-epipe", "bsend failed with EPIPE although the direction was not closed");
        if (rc) { x.out_err = true; if (er == ECONNRESET && !broken && !tampered && !opmode) viol(T, "reset", "bsend failed with ECONNRESET although nobody broke the connection"); } else x.sent = off + n;
    }
    void may_end(End &x, const char *what) {
        End &y = *x.peer; if (!y.ending && !y.out_done) viol(TG(), "early-end", "%s reported the orderly end of the stream although the peer has not ended it", what);
        if (tamper_after && tdir == y.i) viol(TG(), "tamper-end", "%s reported the orderly end of the stream although the transport was tampered with", what);
        if (trunc) viol(TG(), "trunc-end", "%s reported the orderly end of the stream although the transport was truncated", what);
    }
    void recv(End &x, size_t n) {
        End &y = *x.peer; bool dead = x.in_end || x.in_err, busy = x.rbusy, end = x.in_end; int64_t dl = deadline(x); bool list = pick(W, 2); Iol l; l.make(n, NULL, list ? 7 : 1, chance(W, 1, 4)); size_t off = x.got; if (!busy) x.rbusy = true;
        Watch w; int64_t i0 = idle_ns(); int rc = list ? dill_brecvl(x.h, l.first(), l.last(), dl) : dill_brecv(x.h, l.v[0].iol_base, n, dl), er = errno; if (list) l.check_unchanged(T, "brecvl");
        bool eof = rc && er == EPIPE && !dead && !busy; if (!(clean && eof)) judge(x, "brecv", rc, er, dl, w, i0);
        if (busy) { if (rc == 0 || er != EBUSY) viol("C22 C13", "no-ebusy", "brecv while another coroutine is receiving returned %d, %s", rc, ename(er)); return; } x.rbusy = false;
        if (dead) { if (!rc) viol(T, "usable", "brecv of %zu bytes succeeded although the direction had ended or failed", n); if (er != (end ? EPIPE : ECONNRESET)) viol(T, "dead-errno", "brecv in a%s direction failed with %s", end ? "n ended" : " failed", ename(er)); if (idle_ns() != i0) viol(T, "dead-waits", "brecv in a dead direction waited"); return; }
        if (!rc) {
            if (off + n > y.tried) viol(TG(), "invented", "brecv delivered %zu bytes at offset %zu, only %zu were sent", n, off, y.tried);
            Str d = data(y, off, n); size_t k = 0; for (size_t j = 0; j < l.bufs.size(); ++j) { if (l.bufs[j] && memcmp(l.bufs[j], d.data() + k, l.lens[j])) viol(TG(), "content", "received bytes differ from those sent (receive of %zu bytes from offset %zu)", n, off); k += l.lens[j]; }
            x.got += n; bytes += n; return;
        }
        if (eof) { may_end(x, "brecv"); ++neof; if (off + n <= y.sent) viol(TG(), "lost-tail", "brecv of %zu bytes got EPIPE at offset %zu of %zu sent", n, off, y.sent); x.in_end = true; return; }
        x.in_err = true; if (er == ECONNRESET && !broken && !tampered && !trunc && !hostile) viol(T, "reset", "brecv failed with ECONNRESET although nobody broke the connection");
    }
    void done(End &x) {
        if (x.sbusy) return; bool was = x.out_done, err = x.out_err; int64_t dl = deadline(x), i0 = idle_ns(); Watch w; if (!was && !err) x.ending = true; x.sbusy = true; int rc = dill_tls_done(x.h, dl), er = errno; x.sbusy = false; judge(x, "tls_done", rc, er, dl, w, i0);
        if (was) { if (!rc || (er != EPIPE && !err)) viol(T, "second-done", "tls_done called again returned %d, %s", rc, ename(er)); return; }
        if (err) { if (!rc) viol(T, "usable", "tls_done succeeded although the direction had failed"); return; }
        if (rc) x.out_err = true; else x.out_done = true;
    }
    void detach(End &x) {
        if (x.sbusy || x.rbusy) return; bool bad = x.in_err || x.out_err; int64_t dl = deadline(x), i0 = idle_ns(); Watch w; if (!bad) x.ending = true; int h = x.h; x.detached = true; bool unread = !x.in_end && x.got < x.peer->tried; bool hadend = x.in_end; ev("detach0", x.i);
        int u = dill_tls_detach(h, dl), er = errno; judge(x, "tls_detach", u, er, dl, w, i0); x.gone = true;
        if (u < 0) { broken = true; if (er == EPIPE || er == EBUSY) viol(T, "errno", "tls_detach failed with %s", ename(er)); stale(h, "failed tls_detach"); x.mem.reset(); if (bad && idle_ns() != i0) viol(T, "dead-waits", "tls_detach waited although a direction had failed"); if (bad && er != ECONNRESET) viol(T, "dead-errno", "tls_detach of a failed socket failed with %s", ename(er)); return; }
        ++ndet; if (bad) viol(T, "usable", "tls_detach succeeded although a direction had failed"); if (!hadend) may_end(x, "tls_detach"); x.out_done = true; if (u != h) stale(h, "tls_detach"); x.mem.reset(); x.u = u;
    }
    void hclose(End &x) { broken = true; x.gone = true; int h = x.h; int64_t i0 = idle_ns(); if (dill_hclose(h)) viol("C22 C27", "hclose", "hclose failed with %s", ename(errno)); if (idle_ns() != i0) viol("C22 C27", "hclose-waits", "hclose waited"); stale(h, "hclose"); x.mem.reset(); ev("hclose", x.i); }
    void pause() { switch (pick(W, 6)) { case 0: dill_yield(); break; case 1: dill_msleep(dill_now() + pick(W, 20)); break; case 2: burn((int64_t)pick(W, 1000) * 1000); } }
    void bad(End &x) { // a list which must be refused
        bool snd = pick(W, 2); if (snd ? x.sbusy || x.out_done || x.out_err : x.rbusy || x.in_end || x.in_err) return; BadList l; int64_t i0 = idle_ns(); int rc = snd ? dill_bsendl(x.h, l.f, l.la, -1) : dill_brecvl(x.h, l.f, l.la, -1); l.check("C22 C11", snd ? "bsendl" : "brecvl", rc, errno); if (idle_ns() != i0) viol(T, "invalid-waits", "an invalid list was waited with"); ev("bad", snd);
    }
    // ---- programs --------------------------------------------------------------------------
    void csend(End &x) { while (x.sent < x.plan) { size_t n = std::min(size(), x.plan - x.sent); if (x.plan - x.sent < 100 && pick(W, 2)) n = x.plan - x.sent; send(x, n); if (chance(W, 1, 20)) bad(x); pause(); } if (x.calls_done) done(x); }
    void crecv(End &x) { End &y = *x.peer; while (x.got < y.plan) { size_t n = std::min(size(), y.plan - x.got); if (y.plan - x.got < 100 && pick(W, 2)) n = y.plan - x.got; recv(x, n); if (chance(W, 1, 20)) bad(x); pause(); } if (x.waits_end) { recv(x, 1 + pick(W, 5)); if (!x.in_end) viol(T, "no-end", "the end of the stream was not reported"); if (pick(W, 3) == 0) recv_dead(x); } }
    void recv_dead(End &x) { char c; int r = dill_brecv(x.h, &c, 1, -1); if (r != -1 || errno != EPIPE) viol(T, "dead-errno", "brecv after the end of the stream returned %d, %s", r, ename(errno)); }
    void cend(End &x) {
        if (!attach(x)) return; bool full = conc; if (full) { int bn = dill_bundle(); co_bgo(bn, [&] { csend(x); }); co_bgo(bn, [&] { crecv(x); }); int rc = dill_bundle_wait(bn, -1); dill_hclose(bn); if (rc) return; }
        else if (x.server) { crecv(x); csend(x); } else { csend(x); crecv(x); }
        detach(x); if (x.u < 0) return;
        // the transport is as good as new
        Str m = pattern(1 + pick(W, 200), x.key), want = pattern(1000, x.peer->key); int rc = dill_bsend(x.u, m.data(), m.size(), -1); if (rc) viol(T, "transport", "bsend on the detached transport failed with %s", ename(errno)); raw_n[x.i] = m.size();
        Mem r(raw_n[1 - x.i] ? raw_n[1 - x.i] : 1); rc = dill_brecv(x.u, r.p, 1, -1); if (rc) viol(T, "transport", "brecv from the detached transport failed with %s", ename(errno)); if (r.p[0] != pattern(1, x.peer->key)[0]) viol(T, "transport-content", "the detached transport delivered something else than was sent");
        size_t k = raw_n[1 - x.i]; if (k > 1) { Mem r2(k - 1); rc = dill_brecv(x.u, r2.p, k - 1, -1); if (rc) viol(T, "transport", "brecv from the detached transport failed with %s", ename(errno)); if (memcmp(r2.p, pattern(k, x.peer->key).data() + 1, k - 1)) viol(T, "transport-content", "the detached transport delivered something else than was sent"); }
    }
    size_t raw_n[2] = {0, 0};
    void fend(End &x) {
        if (pick(W, 3) == 0) pause(); if (!attach(x)) return; int bn = dill_bundle(), nco = 1 + pick(W, 3); for (int k = 0; k < nco; ++k) { bool s = k < 2 ? k == (int)x.server : pick(W, 2); co_bgo(bn, [this, &x, s] { int n = 1 + pick(W, 6); for (int i = 0; i < n; ++i) { if (x.detached) return; if (chance(W, 1, 12)) bad(x); else if (s) { if (chance(W, 1, 8)) done(x); else send(x, size()); } else recv(x, size()); pause(); if (x.canceled && pick(W, 2)) return; } }); }
        if (dill_bundle_wait(bn, x.canceled || pick(W, 3) ? dill_now() + pick(W, 3000) : dill_now() + 100000)) { bool c = x.canceled; x.canceled = true; dill_hclose(bn); x.canceled = c; } else dill_hclose(bn);
        if (pick(W, 4)) detach(x); else hclose(x);
    }
    void finish() { for (auto &x : e) { if (x.u >= 0) { int k = x.u; x.u = -1; if (dill_hclose(k)) viol("C22 C27", "hclose", "closing the transport failed with %s", ename(errno)); } } }
    // ---- what is between the two ends -----------------------------------------------------------
    struct Tap { size_t seen = 0, fwd = 0; int64_t last = 0; } tap[2];
    size_t cut_at[2] = {SIZE_MAX, SIZE_MAX}; int cut_kind[2] = {0, 0}; bool cut[2] = {false, false};
    void mark(int d) { tampered = true; tamper_after = e[0].att && e[1].att && (tdir < 0 || tdir == d) && (tdir < 0 || tamper_after); tdir = d; ev("tamper", d, cut_kind[d], tamper_after); }
    void forward(int d) { // from end d to end 1-d
        auto &src = p[d], &dst = p[1 - d]; Tap &t = tap[d]; Str x = src->rx.substr(t.seen); t.seen = src->rx.size(); if (cut[d] && (cut_kind[d] == 1 || cut_kind[d] == 5 || cut_kind[d] == 6)) return;
        if (!cut[d] && t.seen > cut_at[d]) {
            cut[d] = true; size_t o = x.size() - (t.seen - cut_at[d]); mark(d); if (tamper_after && (cut_kind[d] == 1 || cut_kind[d] == 6)) {}
            switch (cut_kind[d]) {
            case 0: x[o] ^= (char)(1 << pick(N, 8)); break;                                 // a bit flips
            case 1: x = x.substr(0, o); dst->send(x); dst->shut(); return;                   // truncation
            case 2: { size_t k = std::min<size_t>(x.size() - o, 1 + pick(N, 40)); x.erase(o, k); break; } // bytes vanish
            case 3: { size_t k = std::min<size_t>(o, 1 + pick(N, 60)); if (!k) x.insert(0, "x"); else x.insert(o, x.substr(o - k, k)); break; } // bytes repeat
            case 4: { Str g; int k = 1 + pick(N, 50); for (int i = 0; i < k; ++i) g += (char)pick(N, 256); x.insert(o, g); break; } // garbage is inserted
            case 5: dst->reset(); broken = true; return;
            case 6: x = x.substr(0, o); dst->send(x); return;                                // silence
            case 7: { Str rec = pick(N, 2) ? Str("\x15\x03\x03\x00\x02\x01\x00", 7) : Str("\x17\x03\x03\x00\x05hello", 10); x.insert(o, rec); break; } // a forged record (end of stream, data)
            case 8: { size_t k = std::min<size_t>(x.size() - o, 5); for (size_t i = 0; i < k; ++i) x[o + i] = (char)pick(N, 256); break; }
            }
        }
        if (!dst->dead) dst->send(x);
    }
    void wire() { for (int d = 0; d < 2; ++d) { p[d]->autoread = true; auto f = [this, d] { if (stop) return; int64_t del = pick(N, 3) ? 0 : (int64_t)pick(N, 30) * MS; forwardlater(d, del); }; p[d]->on_data = f; } }
    bool finf[2] = {false, false};
    void forwardlater(int d, int64_t del) { int64_t t = std::max(now_ns() + del, tap[d].last); tap[d].last = t; auto f = [this, d] { if (stop || p[1 - d]->dead) return; forward(d); if (p[d]->rst) { p[1 - d]->reset(); broken = true; return; } if (p[d]->fin && !finf[d] && !(cut[d] && cut_kind[d] >= 5 && cut_kind[d] <= 6)) { finf[d] = true; if (!e[d].out_done) broken = true; if (!(cut[d] && cut_kind[d] == 1)) p[1 - d]->shut(); } }; if (t <= now_ns()) f(); else at(t, f); }
    void mk_mitm(bool must) {
        for (int i = 0; i < 2; ++i) { bool tcp = pick(W, 2); int f = mk_rawpair(tcp, p[i]); e[i].u = tcp ? dill_tcp_fromfd(f) : dill_ipc_fromfd(f); if (e[i].u < 0) viol(T, "fromfd", "fromfd failed"); }
        for (int d = 0; d < 2; ++d) if (must ? d == (int)pick(N, 2) || pick(N, 2) : pick(N, 3) == 0) { cut_at[d] = pick(N, 4) ? pick(N, 6000) : pick(N, 60); if (pick(N, 3) == 0) cut_at[d] = 700 + pick(N, 900); cut_kind[d] = pick(N, 9); }
        wire();
    }
    // the far end is OpenSSL itself
    void mk_ossl() {
        opmode = true; End &x = e[0], &y = e[1]; bool tcp = pick(W, 2); int f = mk_rawpair(tcp, p[0]); x.u = tcp ? dill_tcp_fromfd(f) : dill_ipc_fromfd(f); static const int fr[] = {0, 512, 600, 4000, 16384}; int ver = pick(W, 2) ? TLS1_3_VERSION : TLS1_2_VERSION; op.reset(new Ossl(!x.server, ver, fr[pick(W, 5)], pick(W, 2))); y.server = !x.server; y.handed = y.att = true;
        p[0]->autoread = true; p[0]->on_data = [this] { op_data(); }; after(1000, [this] { op_run(); }); y.plan = pick(W, 4) ? pick(W, 20000) : pick(W, 100); op_left = 1 + pick(W, 20); op_v13 = ver == TLS1_3_VERSION; op_close = pick(W, 4); if (clean) op_close = 3; after(1 + pick(W, 1000) * 1000, [this] { op_tick(); });
    }
    size_t op_seen = 0; int op_left = 0, op_close = 3; bool op_v13 = true, op_fin = false;
    void op_flush() { Str s = op->take(); if (!s.empty() && !p[0]->dead && !trunc) p[0]->send(s); }
    void op_run() { op->step(); op_flush(); End &x = e[0]; if (op->rx.size() > x.tried) viol(TG(), "invented", "the peer received %zu bytes, only %zu were sent", op->rx.size(), x.tried); if (op->rx != data(x, 0, op->rx.size())) viol(T, "content", "the peer received something else than was sent"); if (op->end && !x.ending && !x.out_done) viol(T, "early-end", "the peer saw the end of the stream before it was ended"); if (op->end && op->rx.size() < x.sent) viol(T, "lost-tail", "the peer saw the end of the stream after %zu of %zu bytes", op->rx.size(), x.sent); if (clean && op->err && !stop) viol(T, "peer-error", "the peer found an error in the TLS stream"); if (p[0]->fin && clean && !op->end && !op_fin) viol(T, "truncated", "the transport was closed without closing TLS"); }
    void op_data() { if (stop) return; Str d = p[0]->rx.substr(op_seen); op_seen = p[0]->rx.size(); if (op->end) { if (clean && op->end) op_after += d; return; } op->feed(d); op_run(); if (op->end && !op_fin && clean) op_finish(); if (op->end && clean) { char bb[4096]; int n; while ((n = BIO_read(op->in, bb, sizeof bb)) > 0) op_after.append(bb, n); } }
    Str op_after;
    void op_finish() { if (op_fin || trunc || p[0]->dead) return; End &y = e[1]; if (clean && y.sent < y.plan) return; op_fin = true; if (op->hs && op_close >= 2) { y.ending = true; y.out_done = true; op->shutdown(); op_flush(); } else if (op_close == 1) { trunc = true; p[0]->shut(); } else { broken = true; trunc = true; p[0]->reset(); } ev("op-finish", op_close); }
    void op_tick() {
        if (stop || op_fin || trunc || p[0]->dead) return; End &y = e[1]; if (op->hs && !op->err) {
            if (op_left-- <= 0 && (y.sent >= y.plan || !clean)) { op_finish(); return; }
            size_t n = std::min<size_t>(y.plan - y.sent, pick(W, 3) ? 1 + pick(W, 2000) : size()); if (op_left <= 0) n = std::min<size_t>(y.plan - y.sent, 16000); if (n) { Str d = data(y, y.sent, n); y.tried = y.sent + n; if (op->write(d)) y.sent += n; } if (op_v13 && chance(W, 1, 8)) { ERR_set_mark(); SSL_key_update(op->s, conc || clean ? SSL_KEY_UPDATE_NOT_REQUESTED : pick(W, 2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(op->s); ERR_pop_to_mark(); probe("tls.key-updates"); } op_flush();
        } else if (op->err) { if (clean) viol(T, "peer-error", "the peer found an error in the handshake"); return; }
        after((int64_t)(1 + pick(W, pick(W, 2) ? 2000 : 60000)) * 1000, [this] { op_tick(); });
    }
    // ---- runs -------------------------------------------------------------------------------
    void common() { g_rnd = 0x9e3779b97f4a7c15ull ^ ((uint64_t)pick(W, 1u << 30) << 20); proto_net(); static const uint32_t caps[] = {65536, 2048, 4096, 300000}; cfg.ucap = caps[pick(N, 4)]; cfg.scap = caps[pick(N, 4)]; cfg.rcap = caps[pick(N, 4)]; if (cfg.mss < 100) cfg.mss = 100; certf = g_dir + "tlscert.pem"; keyf = g_dir + "tlskey.pem"; for (int i = 0; i < 2; ++i) { e[i].o = this; e[i].i = i; e[i].peer = &e[1 - i]; e[i].key = 1 + pick(W, 1u << 30); } e[pick(W, 2)].server = true; conc = pick(W, 2); }
    void misuse() {
        int r, er; switch (pick(W, 6)) {
        case 0: { int c[2]; dill_chmake(c); r = pick(W, 2) ? dill_tls_attach_client(c[0], -1) : dill_tls_attach_server(c[0], certf.c_str(), keyf.c_str(), -1); er = errno; if (r != -1 || er != EPROTO) viol(T, "not-bytestream", "attaching TLS to a channel returned %d, %s", r, ename(er)); r = dill_hclose(c[0]); if (r != -1 || errno != EBADF) viol("C27 C22", "not-closed", "attaching TLS to a channel failed but the handle was left open"); dill_hclose(c[1]); break; }
        case 1: { r = pick(W, 2) ? dill_tls_attach_client(-1, -1) : dill_tls_attach_server(12345, certf.c_str(), keyf.c_str(), -1); if (r != -1 || errno != EBADF) viol(T, "bad-handle", "attaching TLS to an invalid handle returned %d, %s", r, ename(errno)); break; }
        case 2: { int s[2]; dill_ipc_pair(s); r = dill_tls_attach_server(s[0], pick(W, 2) ? "/nonexistent.pem" : keyf.c_str(), keyf.c_str(), -1); if (r != -1) viol(T, "bad-cert", "attaching TLS without a certificate succeeded"); stale(s[0], "failed tls_attach_server"); dill_hclose(s[1]); break; }
        case 3: { int s[2]; dill_ipc_pair(s); Str o = g_dir + "tlsother.pem"; r = dill_tls_attach_server(s[0], certf.c_str(), o.c_str(), -1); if (r != -1) viol(T, "bad-key", "attaching TLS with a key not belonging to the certificate succeeded"); stale(s[0], "failed tls_attach_server"); dill_hclose(s[1]); break; }
        case 4: { int s[2]; dill_ipc_pair(s); r = pick(W, 2) ? dill_tls_attach_client_mem(s[0], NULL, -1) : dill_tls_attach_server_mem(s[0], certf.c_str(), keyf.c_str(), NULL, -1); if (r != -1 || errno != EINVAL) viol(T, "null-mem", "attaching TLS with no storage returned %d, %s", r, ename(errno)); stale(s[0], "failed tls_attach"); dill_hclose(s[1]); break; }
        default: { int s[2]; dill_ipc_pair(s); if (dill_tls_done(s[0], -1) != -1 || errno != ENOTSUP) viol(T, "not-tls", "tls_done of an IPC socket failed with %s", ename(errno)); if (dill_tls_detach(s[0], -1) != -1 || errno != ENOTSUP) viol(T, "not-tls", "tls_detach of an IPC socket failed with %s", ename(errno)); dill_hclose(s[0]); dill_hclose(s[1]); } }
    }
    void run_pair(bool c) {
        clean = c; b.pair(T); e[0].u = b.h[0]; e[1].u = b.h[1];
        for (auto &x : e) { x.plan = pick(W, 4) ? pick(W, 3000) : pick(W, 60000); if (!conc) x.plan = std::min<size_t>(x.plan, 1000); x.calls_done = pick(W, 2); x.peer->waits_end = x.calls_done && pick(W, 2); }
        go_both(c);
    }
    void go_both(bool c) {
        int bn[2]; for (int i = 0; i < 2; ++i) { bn[i] = dill_bundle(); co_bgo(bn[i], [this, i, c] { if (c) cend(e[i]); else fend(e[i]); }); }
        if (c) { for (int i = 0; i < 2; ++i) { if (dill_bundle_wait(bn[i], dill_now() + 360000000)) viol(T, "no-progress", "the conversation is not finished after ten hours although nothing is broken"); dill_hclose(bn[i]); } }
        else for (int k = 0; k < 2; ++k) { int i = (int)pick(W, 2) ^ k; if (bn[i] < 0) i = 1 - i; if (pick(W, 3)) { if (dill_bundle_wait(bn[i], dill_now() + 400000)) viol(T, "no-end", "operations with deadlines have not ended"); } else dill_bundle_wait(bn[i], dill_now() + pick(W, 2000)); e[i].canceled = true; if (!e[i].gone) broken = true; dill_hclose(bn[i]); bn[i] = -1; if (!e[i].gone && e[i].att) hclose(e[i]); if (!e[i].gone && !e[i].handed) { e[i].gone = true; } if (pick(W, 2) && e[i].u >= 0) { dill_hclose(e[i].u); e[i].u = -1; broken = true; } }
    }
    void run_mitm() { clean = false; mk_mitm(hostile); go_both(false); }
    void run_ossl(bool c) {
        clean = c; if (!c && pick(W, 3) == 0) hostile = hostile; mk_ossl(); End &x = e[0]; x.plan = pick(W, 4) ? pick(W, 3000) : pick(W, 60000); x.waits_end = !conc ? false : false; x.calls_done = pick(W, 2);
        int bn = dill_bundle(); co_bgo(bn, [this, &x, c] { if (!c) { fend(x); return; } if (!attach(x)) return; if (conc) { int b2 = dill_bundle(); co_bgo(b2, [&] { csend(x); }); co_bgo(b2, [&] { crecv(x); }); dill_bundle_wait(b2, -1); dill_hclose(b2); } else { csend(x); crecv(x); } detach(x); if (x.u >= 0) { Str m = pattern(1 + pick(W, 100), 5); if (dill_bsend(x.u, m.data(), m.size(), -1)) viol(T, "transport", "bsend on the detached transport failed"); dill_msleep(dill_now() + 100000); if (op_after != m) viol(T, "transport-content", "the transport delivered %zu bytes after the end of TLS, %zu were sent", op_after.size(), m.size()); } });
        if (c) { if (dill_bundle_wait(bn, dill_now() + 360000000)) viol(T, "no-progress", "the conversation is not finished after ten hours although nothing is broken"); dill_hclose(bn); if (op->rx.size() != x.sent || !op->end) viol(T, "lost-tail", "the peer has received %zu of %zu bytes", op->rx.size(), x.sent); }
        else { if (pick(W, 3)) { if (dill_bundle_wait(bn, dill_now() + 400000)) viol(T, "no-end", "operations with deadlines have not ended"); } else dill_bundle_wait(bn, dill_now() + pick(W, 2000)); x.canceled = true; dill_hclose(bn); if (!x.gone && x.att) hclose(x); }
    }
    void run_garbage() { // C30: nothing like TLS, or TLS gone mad
        clean = false; opmode = true; bool tcp = pick(W, 2); int f = mk_rawpair(tcp, p[0]); End &x = e[0]; x.u = tcp ? dill_tcp_fromfd(f) : dill_ipc_fromfd(f); Str d; static const Str hello("\x16\x03\x01\x00\x05", 5); int style = pick(N, 5); size_t n = pick(N, 4) ? pick(N, 400) : pick(N, 40000);
        for (size_t i = 0; i < n; ++i) d += (char)pick(N, 256); if (style == 1) d = hello + d; if (style == 2) { Str r; while (r.size() < n) { size_t k = pick(N, 4) ? pick(N, 60) : oneofu(N, {0, 16384, 18432, 65535}); r += Str("\x14\x15\x16\x17\x18\x80", 6)[pick(N, 6)]; r += '\x03'; r += (char)pick(N, 5); r += be(k); r += d.substr(0, std::min(k, d.size())); } d = r; }
        if (style == 3) { Ossl o(!x.server, pick(N, 2) ? TLS1_3_VERSION : TLS1_2_VERSION, 0); if (x.server) { o.step(); d = o.take() + d; } } if (style == 4) { Ossl o(false, pick(N, 2) ? TLS1_3_VERSION : TLS1_2_VERSION, 0); o.step(); Str h = o.take(); int k = 1 + pick(N, 4); for (int i = 0; i < k; ++i) h[5 + pick(N, (uint32_t)h.size() - 5)] = (char)pick(N, 256); d = h + d; }
        auto q = p[0]; int how = pick(N, 4); send_fragmented(q, d, 0, [q, how] { if (how == 0) q->shut(); else if (how == 1) q->reset(); else if (how == 2) q->close(); }); broken = true; e[1].handed = true;
        int bn = dill_bundle(); co_bgo(bn, [this, &x] { fend(x); }); if (dill_bundle_wait(bn, dill_now() + 400000)) viol("C30", "no-end", "operations with deadlines have not ended"); x.canceled = true; dill_hclose(bn); if (!x.gone && x.att) hclose(x);
    }
    static Str be(size_t k) { Str r; r += (char)(k >> 8); r += (char)k; return r; }
    void end() {
        stop = true; for (auto &q : p) if (q) q->on_data = nullptr; finish(); b.mems.clear(); dill_msleep(dill_now() + 100); for (auto &q : p) if (q && !q->dead) { q->autoread = true; q->close(); } op.reset();
        probe("tls.ops", ops); probe("tls.timeouts", nto); probe("tls.ends", neof); probe("tls.canceled", ncanc); probe("tls.errors", nerr); probe("tls.attached", natt); probe("tls.detached", ndet); probe("tls.bytes", bytes); if (tampered) probe(tamper_after ? "tls.tampered-data" : "tls.tampered-handshake"); if (natt || nto) nontrivial();
    }
};
}
SCENARIO(tls) {
    randomize_common(true); { TlsT t; t.common(); if (pick(W, 12) == 0) t.misuse(); switch (pick(W, 8)) { case 0: case 1: case 2: t.run_pair(true); break; case 3: case 4: t.run_pair(false); break; case 5: t.run_mitm(); break; case 6: t.run_ossl(true); break; default: t.run_ossl(false); } t.end(); } final_census("C27 C22");
}
SCENARIO(tlshostile) {
    randomize_common(true); { TlsT t; t.common(); t.hostile = true; switch (pick(W, 3)) { case 0: t.run_garbage(); break; case 1: t.run_mitm(); break; default: t.run_ossl(false); } if (pick(W, 2)) nontrivial(); t.end(); } final_census("C27 C30");
}
