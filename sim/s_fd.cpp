// Waiting on descriptors (C10): coroutines wait for many descriptors whose state is changed by other processes
// (simulator events) and by the coroutines themselves.
#include "lib.h"
#include <poll.h>
namespace {
struct FObj { int fd = -1, far = -1, kind = 0; bool wr = true, rd = true; };   // far: the other process's end
struct Wait { int o, dir, fd; int64_t t0, dl; bool ever = false, must = false, over = false; int64_t since = -1, sinceidle = 0; int bundle; };
struct Fds {
    std::deque<FObj> ob; std::set<Wait *> ws; int cancelled[64] = {0}; bool stop = false, noyield = false; int ok = 0, timeouts = 0, busy = 0, cancels = 0, reuse = 0; uint64_t acts = 0;
    std::vector<int> closedfds;
    static int64_t idle() { return now_ns() - busy_ns(); }
    static bool ready(int fd, int dir) { short m = poll_mask(fd); return m & ((dir ? POLLOUT : POLLIN) | POLLERR | POLLHUP | POLLNVAL); }
    void sample() {
        for (Wait *w : ws) {
            if (ready(w->fd, w->dir)) { w->ever = true; if (w->since < 0) { w->since = now_ns(); w->sinceidle = idle(); } }
            else w->since = -1;
        }
    }
    void scanned(bool all) {
        sample();
        if (all) for (Wait *w : ws) if (!w->over && w->since >= 0 && (w->dl < 0 || now_ns() < w->dl * MS || w->since <= w->t0)) w->must = true;
        for (Wait *w : ws) if (w->dl >= 0 && now_ns() >= w->dl * MS) w->over = true; // its timer may fire now
    }
    // the other process does something
    void far_action(int oi) {
        FObj &o = ob[oi]; if (o.far < 0) return;
        sample(); char b[5000]; memset(b, 'x', sizeof b); ++acts;
        switch (pick(N, 8)) {
        case 0: case 1: case 2: if (o.rd) { sys_write(o.far, b, 1 + pick(N, 3)); ev("far-write", oi); } break;
        case 3: if (o.rd) { sys_write(o.far, b, sizeof b); ev("far-fill", oi); } break;
        case 4: case 5: if (o.wr) { for (int i = 0; i < 40; ++i) if (sys_read(o.far, b, sizeof b) <= 0) break; ev("far-drain", oi); } break;
        case 6: if (o.wr) { sys_read(o.far, b, 100); ev("far-read", oi); } break;
        default: if (chance(N, 1, 3)) { ev("far-close", oi); sys_close(o.far); o.far = -1; }
        }
        sample();
    }
    void plan(int oi, int n) { int64_t t = now_ns(); for (int i = 0; i < n; ++i) { t += (int64_t)pick(N, pick(N, 2) ? 3000 : 200000) * 1000; at(t, [this, oi] { if (!stop) far_action(oi); }); } }
    void mk(FObj &o) {
        int p[2]; o = FObj(); o.kind = pick(W, 5);
        switch (o.kind) {
        case 0: mk_pipe(p); o.fd = p[0]; o.far = p[1]; o.wr = false; break;
        case 1: mk_pipe(p); o.fd = p[1]; o.far = p[0]; o.rd = false; break;
        case 2: case 3: mk_socketpair(p); o.fd = p[0]; o.far = p[1]; break;
        default: mk_tcppair(p); o.fd = p[0]; o.far = p[1];
        }
    }
    // fills the near end so that it is not writable
    void fill(int oi) { FObj &o = ob[oi]; if (!o.wr || o.far < 0) return; sample(); char b[4096]; memset(b, 'y', sizeof b); while (sys_write(o.fd, b, sizeof b) > 0) ; sample(); ev("fill", oi); }
    void drain(int oi) { FObj &o = ob[oi]; if (!o.rd) return; sample(); char b[4096]; for (int i = 0; i < 40; ++i) if (sys_read(o.fd, b, sizeof b) <= 0) break; sample(); ev("drain", oi); }
    void wait(int oi, int bundle, bool &told) {
        FObj &o = ob[oi]; int dir = pick(W, 2); if (!o.wr && chance(W, 3, 4)) dir = 0; if (!o.rd && chance(W, 3, 4)) dir = 1;
        int64_t dl = pick(W, 5) == 0 && bundle != 60 ? -1 : pick(W, 6) == 0 ? 0 : dill_now() + pick(W, pick(W, 2) ? 5 : 300); if (dl > 0 && chance(W, 1, 15)) dl = dill_now() - 3; if (dl < -1 || (dl < 0 && bundle == 60)) dl = 1;
        bool may = false, sure = false;
        for (Wait *w : ws) if (w->fd == o.fd && w->dir == dir) { may = true; if (!w->ever && (w->dl < 0 || w->dl > now_ms() + 2) && !cancelled[w->bundle]) sure = true; }
        Wait w; w.o = oi; w.dir = dir; w.fd = o.fd; w.t0 = now_ns(); w.dl = dl; w.bundle = bundle;
        ws.insert(&w); sample(); Watch wt; int64_t i0 = idle(); bool c0 = told; ev("w0", oi, dir, c0, bundle);
        if (w.since >= 0) w.since = w.t0;
        int rc = dir ? dill_fdout(o.fd, dl) : dill_fdin(o.fd, dl); int e = rc ? errno : 0;
        sample(); ws.erase(&w); ev("wait", oi, dir, e);
        const char *what = dir ? "fdout" : "fdin";
        if (rc && e == EBUSY) { if (!may) viol("C10", "spurious-ebusy", "%s failed with EBUSY although nobody else waits", what); if (idle() != i0) viol("C10", "ebusy-waits", "EBUSY was reported only after waiting"); ++busy; return; }
        if (rc && e == ECANCELED) {
            if (!cancelled[bundle]) viol("C10 C05", "canceled-outside", "%s failed with ECANCELED although nobody cancels", what);
            ++cancels; told = true; return;
        }
        if (sure) viol("C10", "no-ebusy", "a second waiter for the same direction got %d, %s", rc, ename(e));
        if (c0) viol("C05 C10", "not-canceled", "%s in a canceled coroutine returned %d, %s", what, rc, ename(e));
        if (w.since >= 0 && idle() > w.sinceidle) viol("C10 C08", "late", "the process slept %lld us while %s was possible", (long long)(idle() - w.sinceidle) / 1000, what);
        if (!rc) { if (!w.ever) viol("C10", "spurious-ready", "%s succeeded on a %s which was not ready at any time during the wait", what, o.kind < 2 ? "pipe" : o.kind < 4 ? "unix socket" : "tcp socket"); ++ok;
            if (dl > 0 && !in_time(wt, dl) && 0) viol("C10", "x", "x"); return; }
        if (e != ETIMEDOUT) viol("C10", "fd-error", "%s failed with %s", what, ename(e));
        if (w.must) viol("C10", "missed", "%s timed out although the descriptor was ready and the kernel said so", what);
        if (dl == 0) { if (idle() != i0) viol("C04 C10", "zero-waits", "%s with deadline 0 waited", what); } else check_timedout("C04 C10", what, wt, dl);
        ++timeouts;
    }
    void bad() {
        int fd, e, want = EBADF; bool in = pick(W, 2);
        switch (pick(W, 5)) {
        case 0: fd = -1 - (int)pick(W, 3); break;
        case 1: fd = cfg.nofile + cfg.fdbase - 3 + (int)pick(W, 2) * (int)pick(W, 1000); break;
        case 2: fd = 2147483647 - (int)pick(W, 2); break;
        case 3: { fd = -1; for (int i = pick(W, 2) ? 3 : cfg.fdbase; i < cfg.nofile + cfg.fdbase - 3; ++i) if (!fd_is_open(i) && chance(W, 1, 3)) { bool used = false; fd = i; break; } if (fd < 0) return; break; }
        default: { // a file which cannot be polled: either ENOTSUP or always ready
            fd = mk_plain_file(); if (fd < 0) return; int64_t i0 = idle(); bool canc = false;
            int rc = in ? dill_fdin(fd, dill_now() + 30) : dill_fdout(fd, dill_now() + 30); e = rc ? errno : 0;
            if (rc && e != ENOTSUP && e != ECANCELED) viol("C10", "plain-file", "waiting for a plain file failed with %s", ename(e));
            if (idle() != i0) viol("C10", "plain-file-waits", "waiting for a plain file took time");
            if (dill_fdclean(fd)) viol("C10", "clean-busy", "fdclean failed with %s", ename(errno)); sys_close(fd); return; }
        }
        int64_t i0 = idle();
        int rc = in ? dill_fdin(fd, -1) : dill_fdout(fd, -1); e = rc ? errno : 0;
        ev("bad", rc, e);
        if (rc == 0 || (e != want && e != ECANCELED)) viol("C10", "bad-fd", "waiting for the invalid descriptor %d returned %d, %s", fd, rc, ename(e));
        if (idle() != i0) viol("C10", "bad-fd-waits", "waiting for an invalid descriptor took time");
        if (dill_fdclean(fd)) viol("C10", "clean-bad", "fdclean(%d) failed with %s", fd, ename(errno));
    }
    void clean(int oi, bool replace) {
        FObj &o = ob[oi]; bool any = false, sure = false;
        for (Wait *w : ws) if (w->fd == o.fd) { any = true; if (!w->ever && (w->dl < 0 || w->dl > now_ms() + 2) && !cancelled[w->bundle]) sure = true; }
        int rc = dill_fdclean(o.fd); int e = rc ? errno : 0; ev("clean", oi, rc ? e : 0);
        if (rc && (e != EBUSY || !any)) viol("C10", "clean-busy", "fdclean failed with %s, waiters: %d", ename(e), any);
        if (!rc && sure) viol("C10", "clean-not-busy", "fdclean succeeded while a coroutine waits for the descriptor");
        if (rc || any || !replace) return;
        sys_close(o.fd); if (o.far >= 0) sys_close(o.far); o.far = -1; ++reuse;
        mk(o); if (chance(W, 1, 2)) fill(oi); plan(oi, 1 + pick(W, 5));
    }
    void co(int n, int bundle, int first = -1) { bool told = false;
        if (first >= 0) wait(first, bundle, told);
        for (int i = 0; i < n && !stop; ++i) {
            int oi = pick(W, (uint32_t)ob.size()); int rc = 0; if (i == 0) told = false;
            switch (pick(W, 12)) {
            case 0: case 1: case 2: case 3: case 4: wait(oi, bundle, told); break;
            case 5: drain(oi); break;
            case 6: fill(oi); break;
            case 7: case 8: clean(oi, pick(W, 2)); break;
            case 9: bad(); break;
            case 10: if (!noyield) rc = dill_yield(); break;
            default: rc = dill_msleep(dill_now() + pick(W, 30));
            }
            if (cancelled[bundle] && chance(W, 2, 3)) return;
        }
    }
    void run() {
        int n = 1 + pick(W, 10); if (chance(W, 1, 10)) n += 20; noyield = pick(W, 2);
        bool crowd = cfg.nofile == 1024 && chance(W, 1, 12); if (crowd) n = 50 + pick(W, 120); // more than fit in one batch of changes or of events
        for (int i = 0; i < n; ++i) { ob.emplace_back(); mk(ob.back()); if (chance(W, 1, 2)) fill(i); plan(i, crowd ? 1 + pick(W, 3) : 2 + pick(W, 12)); }
        after_event = [this] { sample(); }; on_scan = [this](bool all) { scanned(all); };
        int nb = 1 + pick(W, 4), rounds = 1 + pick(W, 3);
        for (int r = 0; r < rounds; ++r) {
            std::vector<int> bs;
            for (int b = 0; b < nb; ++b) { int k = r * nb + b; int h = dill_bundle(); bs.push_back(h); int m = 1 + pick(W, 5); for (int i = 0; i < m; ++i) { int t = 1 + pick(W, 8); if (co_bgo(h, [this, t, k] { co(t, k); })) viol("C10", "go", "bundle_go failed"); } }
            if (crowd && r == 0) for (int i = 0; i < n; ++i) for (int j = pick(W, 3); j > 0; --j) if (co_bgo(bs[0], [this, i] { co(1, 0, i); })) viol("C10", "go", "bundle_go failed");
            int q = pick(W, 5);
            for (int i = 0; i < q; ++i) { int t = 1 + pick(W, 3); cancelled[60] = 0; co(t, 60); }
            for (int b = 0; b < nb; ++b) {
                if (chance(W, 1, 2)) dill_bundle_wait(bs[b], dill_now() + pick(W, 400));
                cancelled[r * nb + b] = 1; ev("cancel", r * nb + b); dill_hclose(bs[b]);
            }
        }
        stop = true; after_event = nullptr; on_scan = nullptr;
        for (auto &o : ob) { if (dill_fdclean(o.fd)) viol("C10", "clean-busy", "fdclean failed with %s although nobody waits", ename(errno)); sys_close(o.fd); if (o.far >= 0) sys_close(o.far); }
        if (crowd) probe("fds.crowd"); probe("fds.ok", ok); probe("fds.timeouts", timeouts); probe("fds.ebusy", busy); probe("fds.canceled", cancels); probe("fds.number-reused", reuse);
        if (ok + timeouts) nontrivial();
    }
};
}
SCENARIO(fds) {
    randomize_common(true);
    static const uint32_t nof[] = {1024, 128, 256, 100}; cfg.nofile = (int)nof[pick(W, 4)];
    static const uint32_t caps[] = {4096, 65536, 1000}; cfg.scap = caps[pick(W, 3)]; cfg.rcap = caps[pick(W, 3)]; cfg.ucap = caps[pick(W, 3)];
    auto *f = new Fds; f->run(); delete f;
    final_census("C27 C10");
}
