// Focused scenarios for handles (C07), timers (C04), fairness and event noticing (C08), stacks (C09), clock (C29).
#include "lib.h"
extern "C" {
#include <libdillimpl.h>
}
#include <signal.h>
#include <setjmp.h>
#include <map>
extern "C" {
struct args_out { int bad; void (*f)(void *); void *a; };
int reg_go_args(struct args_out *o, int bndl, void *mem, size_t len, long seed, int *bad);
int reg_call(int (*fn)(void *), void *arg, uint64_t seed);
}
// =============================================================================== handles
namespace {
int T1, T2, T3;
struct HWorld;
struct Obj { dill_hvfs vfs; int other; int id; int h = -1; int closes = 0; bool closing = false, dead = false, owned = false; int kind = 0; int child = -1; int bundle = -1; HWorld *w = NULL; int ch[2] = {-1, -1}; };
struct HWorld {
    std::deque<Obj> objs; std::vector<int> stale; int nclose = 0; int busy = 0; int chs[2]; int pp[2]; int ipc[2] = {-1, -1};
    bool done = false; int ops = 0;
    static void *query(dill_hvfs *v, const void *t) {
        Obj *o = (Obj *)v;
        if (o->dead) viol("C07", "query-dead", "the query routine of a closed object was called");
        if (t == &T1) return o;
        if (t == &T2) return &o->other;
        errno = ENOTSUP; return NULL;
    }
    static void close_cb(dill_hvfs *v) { Obj *o = (Obj *)v; o->w->closed(o); }
    void closed(Obj *o) {
        if (o->closes++) viol("C07", "closed-twice", "the close routine of object %d ran twice", o->id);
        o->closing = true; ++nclose; ev("objclose", o->id, o->kind);
        noblock(o);
        if (o->bundle >= 0) { if (dill_hclose(o->bundle)) viol("C07", "close-nested", "closing a bundle inside a close routine failed"); o->bundle = -1; noblock(o); }
        if (o->child >= 0) {
            Obj *c = &objs[o->child]; int n = c->closes;
            if (dill_hclose(c->h)) viol("C07", "close-nested", "closing a handle inside a close routine failed: %s", ename(errno));
            if (c->closes != n + 1) viol("C07", "close-missing", "closing a nested handle did not run its close routine");
            c->dead = true; c->closing = false; stale.push_back(c->h);
            noblock(o);
        }
    }
    void noblock(Obj *o) { // nothing may block in a close routine
        for (int i = 0; i < 3; ++i) {
            int rc = 0; char b[4]; const char *what = ""; int64_t i0 = now_ns() - busy_ns();
            switch (o->kind == 0 ? 99 : pick(W, 9)) {
            case 0: what = "msleep"; rc = dill_msleep(dill_now() + 50); break;
            case 1: what = "yield"; rc = dill_yield(); break;
            case 2: what = "chrecv"; rc = dill_chrecv(chs[0], b, 1, -1); break;
            case 3: what = "chsend"; rc = dill_chsend(chs[1], b, 1, dill_now() + 20); break;
            case 4: what = "fdin"; rc = dill_fdin(pp[0], -1); break;
            case 5: what = "bundle"; rc = dill_bundle(); break;
            case 6: what = "go"; rc = co_go([] {}); break;
            case 7: { what = "choose"; dill_chclause c = {DILL_CHRECV, chs[0], b, 1}; rc = dill_choose(&c, 1, dill_now() + 10); break; }
            case 8: what = "hmake"; rc = dill_hmake(&o->vfs); break;
            default: continue;
            }
            if (rc != -1 || errno != ECANCELED) viol("C07", "close-can-block", "%s inside a close routine returned %d, %s instead of ECANCELED", what, rc, ename(rc < 0 ? errno : 0));
            if (now_ns() - busy_ns() != i0) viol("C07", "close-blocked", "%s inside a close routine waited", what);
        }
    }
    Obj *mk(int depth = 0) {
        objs.emplace_back(); Obj *o = &objs.back(); o->id = (int)objs.size() - 1; o->w = this; o->vfs.query = query; o->vfs.close = close_cb; o->kind = pick(W, 4) ? 1 : 0;
        int h = dill_hmake(&o->vfs);
        if (h < 0) viol("C07 C26", "hmake", "hmake failed: %s", ename(errno));
        for (auto &x : objs) if (&x != o && !x.dead && x.h == h) viol("C07", "handle-reused", "new handle %d equals the handle of open object %d", h, x.id);
        for (int i = 0; i < 2; ++i) if (h == chs[i] || h == ipc[i]) viol("C07", "handle-reused", "new handle %d equals an open one", h);
        for (auto it = stale.begin(); it != stale.end();) it = *it == h ? stale.erase(it) : it + 1;
        o->h = h;
        if (depth < 3 && chance(W, 1, 5)) { Obj *c = mk(depth + 1); o->child = c->id; c->kind |= 2; c->owned = true; }
        return o;
    }
    bool owned(int id) { return objs[id].owned; }
    void newh(int h) { if (h < 0) viol("C07 C26", "create", "creating an object failed: %s", ename(errno)); for (auto &x : objs) if (!x.dead && x.h == h) viol("C07", "handle-reused", "new handle %d equals the handle of open object %d", h, x.id); for (auto it = stale.begin(); it != stale.end();) it = *it == h ? stale.erase(it) : it + 1; }
    Obj *any() { std::vector<Obj *> v; for (auto &x : objs) if (!x.dead && !x.closing && !owned(x.id)) v.push_back(&x); return v.empty() ? NULL : v[pick(W, (uint32_t)v.size())]; }
    void check(Obj *o) {
        void *p = dill_hquery(o->h, &T1);
        if (p != o) viol("C07", "query-wrong", "querying handle %d did not reach its own object (%s)", o->h, p ? "another object" : ename(errno));
        p = dill_hquery(o->h, &T2);
        if (p != &o->other) viol("C07", "query-wrong", "querying handle %d with another type did not reach its own object", o->h);
        if (chance(W, 1, 3)) { errno = 0; p = dill_hquery(o->h, &T3); if (p || errno != ENOTSUP) viol("C07", "query-type", "querying an unsupported type returned %s, %s", p ? "an object" : "NULL", ename(errno)); }
        p = dill_hquery(o->h, chance(W, 1, 2) ? (void *)&T1 : (void *)&T2);
        if (p != o && p != (void *)&o->other) viol("C07", "query-wrong", "query");
    }
    void bad(int h) {
        for (auto &x : objs) if (!x.dead && x.h == h) return;
        char b[8]; int rc = 0; const char *w = ""; int a[2]; int64_t l = 0; errno = 0;
        if (h >= 0 && h == chs[0] || h == chs[1] || h == ipc[0] || h == ipc[1]) return;
        switch (pick(W, 20)) {
        case 0: w = "hclose"; rc = dill_hclose(h); break;
        case 1: w = "hown"; rc = dill_hown(h); break;
        case 2: w = "hquery"; rc = dill_hquery(h, &T1) ? 0 : -1; break;
        case 3: w = "chsend"; rc = dill_chsend(h, b, 1, 0); break;
        case 4: w = "chrecv"; rc = dill_chrecv(h, b, 1, 0); break;
        case 5: w = "chdone"; rc = dill_chdone(h); break;
        case 6: w = "bundle_wait"; rc = dill_bundle_wait(h, 0); break;
        case 7: w = "bsend"; rc = dill_bsend(h, b, 1, 0); break;
        case 8: w = "brecv"; rc = dill_brecv(h, b, 1, 0); break;
        case 9: w = "msend"; rc = dill_msend(h, b, 1, 0); break;
        case 10: w = "mrecv"; rc = dill_mrecv(h, b, 1, 0); break;
        case 11: w = "tcp_accept"; rc = dill_tcp_accept(h, NULL, 0); break;
        case 12: w = "tcp_close"; rc = dill_tcp_close(h, 0); break;
        case 13: w = "prefix_attach"; rc = dill_prefix_attach(h, 2, 0); break;
        case 14: w = "suffix_attach"; rc = dill_suffix_attach(h, "\r\n", 2); break;
        case 15: w = "ipc_done"; rc = dill_ipc_done(h, 0); break;
        case 16: w = "term_attach"; rc = dill_term_attach(h, "x", 1); break;
        case 17: w = "bundle_go"; rc = co_bgo(h, [] { viol("C07", "ran", "a coroutine ran in a bundle that does not exist"); }); break;
        case 18: w = "udp_recv"; rc = dill_udp_recv(h, NULL, b, 1, 0); break;
        default: { w = "choose"; dill_chclause c = {(int)pick(W, 2) ? DILL_CHSEND : DILL_CHRECV, h, b, 1}; rc = dill_choose(&c, 1, 0); rc = rc == 0 ? -1 : 0; break; }
        }
        if (rc >= 0 || errno != EBADF) viol("C07", "stale-accepted", "%s on the invalid handle %d returned %d, %s instead of EBADF", w, h, rc, ename(rc < 0 ? errno : 0));
        PROBE("handles.stale");
    }
    void step() {
        ++ops;
        switch (pick(W, 12)) {
        case 0: case 1: case 2: mk(); break;
        case 3: case 4: if (Obj *o = any()) check(o); break;
        case 5: case 6: if (Obj *o = any()) {
                int n = o->closes, h = o->h; o->closing = true;
                if (chance(W, 1, 3)) { // an object whose close routine has to wait for coroutines
                    int b = dill_bundle(); newh(b); o->bundle = b; int k = 1 + pick(W, 3);
                    for (int i = 0; i < k; ++i) co_bgo(b, [this] { dill_msleep(-1); for (int j = pick(W, 4); j > 0; --j) { if (dill_yield() != -1 || errno != ECANCELED) viol("C05", "not-sticky", "yield in a canceled coroutine"); } });
                }
                if (dill_hclose(h)) viol("C07", "close-failed", "hclose failed: %s", ename(errno));
                if (o->closes != n + 1) viol("C07", "close-count", "hclose ran the close routine %d times", o->closes - n);
                o->dead = true; o->closing = false; stale.push_back(h); bad(h);
            } break;
        case 7: if (Obj *o = any()) {
                int old = o->h, h = dill_hown(old);
                if (h < 0) viol("C07", "hown-failed", "hown failed: %s", ename(errno));
                o->h = -1; newh(h); o->h = h; stale.push_back(old);
                if (h == old) viol("C07", "hown-same", "hown returned the same number");
                bad(old); check(o);
            } break;
        case 8: case 9: {
            static const int weird[] = {-1, -2, -100, 0x7fffffff, 1 << 20, 4000, -0x7fffffff - 1};
            bad(chance(W, 1, 2) && !stale.empty() ? stale[pick(W, (uint32_t)stale.size())] : weird[pick(W, 7)]); break; }
        case 10: if (chance(W, 1, 4)) { // no memory to create the object in
                int cc[2] = {-7, -7}; errno = 0; int rc = dill_bundle_mem(NULL); if (rc != -1 || errno != EINVAL) viol("C07 C26", "null-memory", "bundle_mem(NULL) returned %d, %s", rc, ename(errno));
                errno = 0; rc = dill_chmake_mem(NULL, cc); if (rc != -1 || errno != EINVAL) viol("C07 C26", "null-memory", "chmake_mem(NULL) returned %d, %s", rc, ename(errno));
            }
            if (dill_yield()) viol("C08", "yield", "yield failed"); break;
        default: { // many at once: the table grows
            if (objs.size() > 900 || chance(W, 1, 3)) break;
            if (chance(W, 1, 3)) { // numbers of closed handles are used again
                int n = oneofu(W, {60, 270, 600}); bool q = chance(W, 1, 2);
                Obj *o = chance(W, 1, 3) ? any() : NULL;
                for (int i = 0; i < n; ++i) {
                    if (o && !o->dead && !o->closing) { int old = o->h, h = dill_hown(old); o->h = -1; newh(h); o->h = h; if (h == old) viol("C07", "hown-same", "hown returned the same number"); check(o); continue; }
                    Obj *x = mk(3); if (q || (i & 3) == 0) check(x);
                    int hh = x->h; x->closing = true; x->kind = 0; if (dill_hclose(hh)) viol("C07", "close-failed", "hclose failed: %s", ename(errno));
                    if (x->closes != 1) viol("C07", "close-count", "hclose ran the close routine %d times", x->closes);
                    x->dead = true; x->closing = false; objs.pop_back();
                }
                PROBE("handles.churn"); break;
            }
            int k = oneofu(W, {10, 50, 260, 300}); std::vector<int> ids; for (int i = 0; i < k; ++i) ids.push_back(mk()->id); if (chance(W, 1, 2)) for (int i : ids) check(&objs[i]); break; }
        }
    }
    void run() {
        if (dill_chmake(chs)) viol("C26", "chmake", "chmake");
        mk_pipe(pp);
        int n = 5 + pick(W, 60);
        int b = dill_bundle(), nc = pick(W, 4);
        // a bundle has a handle too
        objs.emplace_back(); objs.back().h = b; objs.back().id = (int)objs.size() - 1; objs.back().closing = true; int bi = objs.back().id;
        for (int i = 0; i < nc; ++i) co_bgo(b, [this, n] { for (int j = 0; j < n; ++j) { step(); if (chance(W, 1, 3)) dill_yield(); } });
        for (int j = 0; j < n; ++j) step();
        if (dill_bundle_wait(b, -1)) viol("C06", "wait", "bundle_wait");
        if (dill_hclose(b)) viol("C07", "close-failed", "hclose"); objs[bi].dead = true;
        for (auto &o : objs) if (!o.dead && !owned(o.id)) { check(&o); if (dill_hclose(o.h)) viol("C07", "close-failed", "hclose failed: %s", ename(errno)); o.dead = true; if (o.closes != 1) viol("C07", "close-count", "hclose ran the close routine %d times", o.closes); }
        for (auto &o : objs) if (o.id != bi && o.closes != 1) viol("C07", "close-count", "object %d was closed %d times", o.id, o.closes);
        if (chance(W, 1, 150)) { // very many at once: numbers don't fit in 16 bits
            PROBE("handles.masses");
            struct Tiny { dill_hvfs vfs; int id, closes; }; static int ncl; ncl = 0;
            int N = 1000 + (chance(W, 1, 2) ? 65600 : pick(W, 20000)); std::vector<Tiny> t(N); std::vector<int> hs(N); std::map<int, int> who;
            for (int i = 0; i < N; ++i) {
                t[i].id = i; t[i].closes = 0; t[i].vfs.query = [](dill_hvfs *v, const void *ty) -> void * { if (ty == &T1) return v; errno = ENOTSUP; return NULL; };
                t[i].vfs.close = [](dill_hvfs *v) { ++((Tiny *)v)->closes; ++ncl; };
                hs[i] = dill_hmake(&t[i].vfs); if (hs[i] < 0 && errno == ENOMEM) discard("the simulated heap is full"); if (hs[i] < 0) viol("C07 C26", "hmake", "hmake failed: %s", ename(errno));
                if (!who.emplace(hs[i], i).second || hs[i] == chs[0] || hs[i] == chs[1]) viol("C07", "handle-reused", "new handle %d equals an open one", hs[i]);
                if (chance(W, 1, 50)) { int j = pick(W, i + 1); if (dill_hquery(hs[j], &T1) != &t[j]) viol("C07", "query-wrong", "querying handle %d did not reach its own object", hs[j]); }
                if (chance(W, 1, 50)) { int j = pick(W, i + 1); int h = dill_hown(hs[j]); if (h < 0) viol("C07", "hown-failed", "hown failed: %s", ename(errno)); who.erase(hs[j]); hs[j] = h; if (!who.emplace(h, j).second) viol("C07", "handle-reused", "new handle %d equals an open one", h); }
            }
            for (int i = 0; i < N; ++i) if (dill_hquery(hs[i], &T1) != &t[i]) viol("C07", "query-wrong", "querying handle %d did not reach its own object", hs[i]);
            for (int i = 0; i < N; ++i) { int c = ncl; if (dill_hclose(hs[i]) || t[i].closes != 1 || ncl != c + 1) viol("C07", "close-count", "closing handle %d ran %d close routines, its own %d times", hs[i], ncl - c, t[i].closes); }
            nontrivial();
        }
        if (chance(W, 1, 8)) { // a number given back is available again, so the table needn't grow
            Obj *o = mk(3); size_t a0 = live_bytes();
            for (int i = 0; i < 700; ++i) { int h = dill_hown(o->h); if (h < 0) viol("C07 C26", "hown-failed", "hown failed: %s", ename(errno)); o->h = h; }
            if (live_bytes() != a0) viol("C27 C07", "table-grows", "memory grew by %ld bytes while one handle was being passed on", (long)(live_bytes() - a0));
            o->closing = true; o->kind = 0; if (dill_hclose(o->h)) viol("C07", "close-failed", "hclose"); o->dead = true;
        }
        dill_hclose(chs[0]); dill_hclose(chs[1]); dill_fdclean(pp[0]); sys_close(pp[0]); sys_close(pp[1]);
        probe("handles.objects", objs.size()); nontrivial();
    }
};
}
SCENARIO(handles) { randomize_common(true); auto *w = new HWorld; w->run(); delete w; final_census("C27 C07"); }

// =============================================================================== timers
namespace {
struct TWorld {
    std::multiset<std::pair<int64_t, int64_t>> pend; // deadlines of sleepers which nobody cancels
    int64_t base; bool far; int live = 0; int nfar = 0; int n = 0;
    std::vector<int64_t> pool;
    int64_t dl() {
        if (far && chance(W, 1, 3)) { ++nfar; static const int64_t f[] = {2147483646ll, 2147483647ll, 2147483648ll, 2147483649ll, 2147484000ll, 4294967295ll, 4294967296ll, 4294967297ll, 6000000000ll, 21474836470ll}; return dill_now() + f[pick(W, 10)]; }
        switch (pick(W, 5)) {
        case 0: return pool[pick(W, (uint32_t)pool.size())];         // equal deadlines
        case 1: return dill_now() + pick(W, 10);
        case 2: return dill_now() + pick(W, 300);
        case 3: { int64_t v = dill_now() - pick(W, 20); return v < 1 ? 1 : v; }
        default: return dill_now() + pick(W, 5000);
        }
    }
    void sleeper(bool counted) {
        int k = 1 + pick(W, 3);
        while (k--) {
            int64_t d = dl(); Watch w; auto it = pend.end(); int64_t t0 = now_ms();
            if (counted) it = pend.insert({d, t0});
            int rc = dill_msleep(d); int e = errno;
            if (counted) pend.erase(it);
            ev("woke", rc ? e : 0, d - now_ms());
            if (rc) { if (counted || e != ECANCELED) viol("C04", "sleep-error", "msleep failed with %s", ename(e)); return; }
            ++n;
            if (now_ms() < d) viol("C04", "sleep-early", "msleep(%lld) called at %lld returned at %lld", (long long)d, (long long)t0, (long long)now_ms());
            if (!in_time(w, d)) viol("C04", "sleep-late", "msleep(%lld) called at %lld returned at %lld, busy %lld us", (long long)d, (long long)t0, (long long)now_ms(), (long long)w.busy() / 1000);
            if (counted) for (auto &q : pend) { if (q.first >= d) break; if (q.second < d) viol("C04", "sleep-order", "a sleeper with deadline %lld woke before one with deadline %lld", (long long)d, (long long)q.first); }
        }
    }
    void run() {
        far = chance(W, 1, 3);
        int np = 1 + pick(W, 5); for (int i = 0; i < np; ++i) pool.push_back(dill_now() + pick(W, 400));
        int b = dill_bundle(), c = dill_bundle(), r = dill_bundle(); int ch[2]; dill_chmake(ch);
        int N = chance(W, 1, 10) ? 150 : 1 + pick(W, 40), C = pick(W, 30), R = pick(W, 20);
        std::vector<void *> mems;
        if (chance(W, 1, 60)) { // very many
            int M = 400 + pick(W, 1200); PROBE("timers.crowd");
            for (int i = 0; i < M; ++i) { void *m = heap_alloc(49152); mems.push_back(m); if (co_bgo_mem(b, [this] { sleeper(true); }, m, 49152)) viol("C04 C09", "go", "bundle_go_mem failed: %s", ename(errno)); }
        }
        for (int i = 0; i < N; ++i) co_bgo(b, [this] { sleeper(true); });
        for (int i = 0; i < C; ++i) co_bgo(c, [this] { sleeper(false); });
        // receivers with deadlines, some of which get a message first
        int got = 0, to = 0, sent = 0;
        for (int i = 0; i < R; ++i) co_bgo(r, [&, this] {
            int64_t d = dl(); Watch w; char x; int rc = dill_chrecv(ch[0], &x, 1, d); int e = errno;
            ev("recv", rc ? e : 0);
            if (rc == 0) ++got; else if (e != ETIMEDOUT) viol("C04", "recv-error", "chrecv failed with %s", ename(e)); else { ++to; check_timedout("C04", "chrecv", w, d); }
        });
        int ops = pick(W, 12);
        for (int i = 0; i < ops; ++i) {
            switch (pick(W, 4)) {
            case 0: { int64_t d = dill_now() + pick(W, 60); Watch w; dill_msleep(d); if (now_ms() < d || !in_time(w, d)) viol("C04", "sleep-late", "msleep(%lld) returned at %lld", (long long)d, (long long)now_ms()); break; }
            case 1: if (dill_chsend(ch[1], "x", 1, dill_now() + 1) == 0) ++sent; break;
            case 2: burn((int64_t)pick(W, 20) * MS); break;
            default: if (chance(W, 1, 3)) { dill_hclose(c); c = dill_bundle(); int m = pick(W, 20); for (int j = 0; j < m; ++j) co_bgo(c, [this] { sleeper(false); }); } else dill_yield();
            }
        }
        dill_hclose(c);
        int64_t t = now_ms();
        if (dill_bundle_wait(b, -1)) viol("C06", "wait", "bundle_wait failed: %s", ename(errno));
        if (dill_bundle_wait(r, -1)) viol("C06", "wait", "bundle_wait failed: %s", ename(errno));
        if (got != sent) viol("C04 C01", "lost", "%d messages sent, %d received", sent, got);
        if (!pend.empty()) viol("C04", "lost-sleeper", "sleepers left");
        for (void *m : mems) heap_free(m);
        dill_hclose(b); dill_hclose(r); dill_hclose(ch[0]); dill_hclose(ch[1]);
        probe("timers.sleeps", n); probe("timers.far", nfar); nontrivial();
    }
};
}
SCENARIO(timers) { randomize_common(true); if (chance(W, 1, 2)) { cfg.stall_pm = 0; } auto *w = new TWorld; w->run(); delete w; final_census("C27 C04"); }

// =============================================================================== fairness
SCENARIO(fair) {
    // the kernel reports every ready descriptor (up to 128 at a time)
    randomize_common(true);
    cfg.stall_pm = 0;
    cfg.maxevents_cap = 1 << 30;
    int ny = 1 + pick(W, 6); bool stop = false; std::vector<uint64_t> runs(ny, 0); std::vector<uint32_t> cost(ny); int64_t round = 0;
    for (auto &c : cost) { c = oneofu(W, {0, 10, 300, 2000, 20000}); round += (int64_t)c * 1000; }
    int b = dill_bundle(), s = dill_bundle();
    int pp[2], nf = pick(W, 3); std::vector<std::array<int, 2>> pipes;
    int64_t bound = 1000 * MS + 2 * cfg.tick_ns + 6 * MS + 2 * round + 20 * MS; // "about a second"
    int done = 0, want = 0;
    for (int i = 0; i < ny; ++i) co_bgo(b, [&, i] {
        while (!stop) {
            std::vector<uint64_t> before = runs; int64_t idle = now_ns() - busy_ns();
            burn((int64_t)cost[i] * 1000 + 50000);
            if (dill_yield()) { if (errno != ECANCELED) viol("C08", "yield", "yield failed"); return; }
            ++runs[i];
            if (now_ns() - busy_ns() != idle) viol("C08", "idle-while-ready", "the process slept although coroutines were ready to run");
            for (int j = 0; j < ny; ++j) if (j != i && runs[j] && !stop) {
                if (runs[j] - before[j] > 2) viol("C08", "unfair", "another yielding coroutine ran %d times between two runs", (int)(runs[j] - before[j]));
                if (runs[j] == before[j] && runs[i] > 1) viol("C08", "starved", "a yielding coroutine did not get a turn between two runs of another one");
            }
        }
    });
    for (int i = 0; i < 2 + nf; ++i) { mk_pipe(pp); pipes.push_back({pp[0], pp[1]}); }
    int nw = 1 + pick(W, 6);
    for (int i = 0; i < nw; ++i) {
        int kind = pick(W, 3); ++want; int64_t t = now_ns() + (int64_t)skewed(W, 4000) * MS;
        if (kind < 2) co_bgo(s, [&, t] {
            int64_t d = t / MS; Watch w; int rc = dill_msleep(d);
            if (rc) viol("C08", "sleep", "msleep failed");
            if (now_ms() < d) viol("C08 C04", "sleep-early", "msleep returned early");
            int64_t late = now_ns() - std::max(d * MS, w.t0);
            if (late > bound) viol("C08", "timer-unnoticed", "an expired deadline was noticed %lld ms late while other coroutines kept yielding", (long long)(late / MS));
            ev("slept", late / MS); ++done;
        });
        else { int p = i % (int)pipes.size(); bool dup = false; static bool used[16]; if (i == 0) memset(used, 0, sizeof used); if (used[p]) { --want; continue; } used[p] = true;
            int wf = pipes[p][1]; auto fired = std::make_shared<int64_t>(0);
            at(t, [wf, fired] { sys_write(wf, "x", 1); *fired = now_ns(); });
            co_bgo(s, [&, p, fired] {
                int64_t t0 = now_ns(); int rc = dill_fdin(pipes[p][0], -1);
                if (rc) viol("C08 C10", "fdin", "fdin failed: %s", ename(errno));
                if (!*fired) viol("C08 C10", "spurious", "fdin succeeded before the pipe was readable");
                int64_t late = now_ns() - std::max(*fired, t0);
                if (late > bound) viol("C08", "fd-unnoticed", "a ready descriptor was noticed %lld ms late while other coroutines kept yielding", (long long)(late / MS));
                ev("fdin", late / MS); ++done;
            }); }
    }
    int64_t lim = now_ns() + 30 * SEC; uint64_t it = 0;
    bool mainyield = chance(W, 1, 2);
    if (mainyield) { while (done < want) { if (dill_yield()) viol("C08", "yield", "yield failed"); if (now_ns() > lim) viol("C08", "lost-wakeup", "a coroutine whose wake-up condition holds was never resumed"); burn(20000); } }
    else { if (dill_bundle_wait(s, dill_now() + 30000)) viol("C08", "lost-wakeup", "a coroutine whose wake-up condition holds was never resumed"); }
    stop = true;
    if (chance(W, 1, 2)) { if (dill_bundle_wait(b, -1)) viol("C06", "wait", "bundle_wait"); }
    dill_hclose(s); dill_hclose(b);
    for (auto &p : pipes) { dill_fdclean(p[0]); sys_close(p[0]); sys_close(p[1]); }
    uint64_t tot = 0; for (auto r : runs) tot += r; probe("fair.turns", tot); if (tot) nontrivial();
    final_census("C27 C08");
}

// =============================================================================== stacks
namespace {
sigjmp_buf g_jb; volatile bool g_expect = false; char *volatile g_fault = NULL;
void on_segv(int, siginfo_t *si, void *) { if (g_expect) { g_fault = (char *)si->si_addr; g_expect = false; siglongjmp(g_jb, 1); } signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); raise(SIGSEGV); }
struct StackRange { char *lo, *hi; };
std::vector<StackRange> g_ranges;
__attribute__((noinline)) int eat(volatile char *prev, int depth) {
    volatile char b[512]; memset((void *)b, depth, sizeof b); if (depth > 2000000) return b[7];
    int r = eat(b, depth + 1); return r + b[depth & 511] + prev[3];
}
}
struct StackCase {
    int id; size_t use; uint64_t seed; int turns; bool fp;
};
static void stack_body(StackCase c, int deadline_kind) {
    // fills part of the stack with its own pattern and keeps checking it
    size_t n = c.use; volatile uint8_t *a = (volatile uint8_t *)__builtin_alloca(n);
    char *lo = (char *)a, *hi = (char *)a + n;
    for (auto &r : g_ranges) if (lo < r.hi && r.lo < hi) viol("C09", "stack-overlap", "the stacks of two live coroutines overlap");
    size_t slot = g_ranges.size(); g_ranges.push_back({lo, hi});
    uint64_t x = c.seed;
    for (size_t i = 0; i < n; ++i) a[i] = (uint8_t)((x + i * 131) >> 3);
    double d1 = (double)c.seed / 3, d2 = d1 * d1; long l1 = (long)(c.seed * 7), l2 = l1 ^ 12345;
    for (int t = 0; t < c.turns; ++t) {
        int rc = 0;
        switch ((deadline_kind + t) % 3) { case 0: rc = dill_yield(); break; case 1: rc = dill_msleep(dill_now() + 1 + (c.seed + t) % 5); break; default: { int bad = reg_call([](void *) { return dill_yield(); }, NULL, c.seed + t); if (bad & 0xff) viol("C09", "registers", "callee-saved registers changed across a suspension (mask %x)", bad & 0xff); rc = bad >> 8; } }
        ev("turn", c.id, t);
        for (size_t i = 0; i < n; ++i) if (a[i] != (uint8_t)((x + i * 131) >> 3)) viol("C09", "stack-corrupt", "a byte on the stack of a suspended coroutine changed");
        if (d1 != (double)c.seed / 3 || d2 != d1 * d1 || l1 != (long)(c.seed * 7) || l2 != (l1 ^ 12345)) viol("C09", "local-corrupt", "a local variable changed across a suspension");
        if (rc) break;
    }
    g_ranges[slot] = {NULL, NULL};
}
SCENARIO(stack) {
    randomize_common(true);
    g_ranges.clear();
    int b = dill_bundle(); int n = 1 + pick(W, 30); if (chance(W, 1, 10)) n = 105 + pick(W, 40); // more than the cache of stacks holds
    std::vector<void *> mems; int rounds = 1 + pick(W, 3);
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < n; ++i) {
            StackCase c; c.id = i; c.seed = pick(W, 1 << 30); c.turns = pick(W, 5); int dk = pick(W, 3);
            if (chance(W, 1, 3)) {
                size_t len = 40000 + pick(W, 60000); void *m = heap_alloc(len); mems.push_back(m); size_t off = pick(W, 40); c.use = 1 + pick(W, 8000);
                if (co_bgo_mem(b, [c, dk] { stack_body(c, dk); }, (char *)m + off, len - off)) viol("C09", "go", "bundle_go_mem failed: %s", ename(errno));
            } else { c.use = chance(W, 1, 6) ? 200000 : 1 + pick(W, 30000); if (co_bgo(b, [c, dk] { stack_body(c, dk); })) viol("C09", "go", "bundle_go failed: %s", ename(errno)); }
            if (chance(W, 1, 5)) dill_yield();
            if (chance(W, 1, 6)) { // arguments and live values around the launch
                args_out o; o.bad = 0; o.f = chance(W, 1, 2) ? [](void *) { dill_yield(); } : (void (*)(void *))NULL; o.a = NULL; int bad = 0;
                void *m = NULL; size_t len = 0; if (chance(W, 1, 2)) { len = 40000 + pick(W, 100); m = heap_alloc(len); }
                int bb = chance(W, 1, 2) ? dill_bundle() : -1;
                int h = reg_go_args(&o, bb, m, len, pick(W, 1 << 30), &bad);
                if (h < 0) viol("C09", "go", "go failed: %s", ename(errno));
                if (bad) viol("C09", "launcher-locals", "local variables of the launching function changed");
                if (bb >= 0) h = bb;
                if (dill_bundle_wait(h, -1)) viol("C06", "wait", "bundle_wait");
                dill_hclose(h); if (m) heap_free(m);
                if (o.bad) viol("C09", o.bad & 1 ? "arguments" : "local-corrupt", "arguments or locals of a coroutine are wrong (%d)", o.bad);
                PROBE("stack.args");
            }
        }
        if (chance(W, 1, 3) && r + 1 < rounds) { dill_hclose(b); b = dill_bundle(); for (void *m : mems) heap_free(m); mems.clear(); g_ranges.clear(); } // stacks are reused by the next round
        else if (dill_bundle_wait(b, -1)) viol("C06", "wait", "bundle_wait");
    }
    dill_hclose(b); for (void *m : mems) heap_free(m);
    // user-supplied memory that is too small for anything
    if (chance(W, 1, 2)) {
        for (int i = 0; i < 3; ++i) {
            size_t len = pick(W, 3) ? pick(W, 70) : pick(W, 260); void *m = heap_alloc(len); int bb = chance(W, 1, 2) ? dill_bundle() : -1; bool ran = false;
            int rc = bb >= 0 ? co_bgo_mem(bb, [&] { ran = true; }, m, len) : co_go_mem([&] { ran = true; }, m, len);
            int e = errno;
            if (rc >= 0 || ran) viol("C09", "small-stack", "go_mem accepted %zu bytes of memory", len);
            if (e != ENOMEM) viol("C09", "small-stack", "go_mem with %zu bytes failed with %s instead of ENOMEM", len, ename(e));
            if (bb >= 0) dill_hclose(bb);
            heap_free(m);
        }
        PROBE("stack.small");
    }
    nontrivial();
    // overrunning a stack from the library must fault in the guard page; last, because it leaves the run in a strange state
    if (chance(W, 1, 4) && strcmp(variant(), "nothreads")) {
        stack_t ss; ss.ss_sp = malloc(65536 + 65536); ss.ss_size = 131072; ss.ss_flags = 0; sigaltstack(&ss, NULL);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
        size_t live0 = live_allocs(); g_fault = NULL; volatile char *top = NULL;
        if (!sigsetjmp(g_jb, 1)) {
            co_go([&] { volatile char x = 1; top = &x; g_expect = true; eat(&x, 0); });
            viol("C09", "no-overflow", "a coroutine overran its stack without a fault");
        }
        long dist = (long)(top - g_fault);
        ev("fault", dist > 0);
        // the fault must come before anything below the stack is reached: one stack plus one page
        if (dist < 0 || dist > 256 * 1024 + 4096) viol("C09", "guard-missed", "a stack overrun was noticed only %ld bytes below the top of the stack", dist);
        PROBE("stack.overrun");
        return; // heap_final_check() looks for overwritten red zones
    }
    final_census("C27 C09");
}

// =============================================================================== clock
namespace {
int64_t clk(int64_t &last) {
    int64_t lo = now_ms(), v = dill_now(), hi = now_ms();
    if (v <= 0) viol("C29", "now-nonpositive", "now() returned %lld", (long long)v);
    if (v < last) viol("C29", "now-backwards", "now() returned %lld after %lld", (long long)v, (long long)last);
    if (v > hi) viol("C29", "now-ahead", "now() returned %lld, the system's monotonic clock says %lld", (long long)v, (long long)hi);
    if (v < lo - tick_ms() - 5) viol("C29", "now-lags", "now() returned %lld, the system's monotonic clock says %lld", (long long)v, (long long)lo);
    return last = v;
}
}
SCENARIO(clock) {
    randomize_common(true);
    int64_t last = 0; int n = 5 + pick(W, 200); int b = -1; bool stop = false;
    if (chance(W, 1, 2)) { b = dill_bundle(); int k = 1 + pick(W, 3); for (int i = 0; i < k; ++i) co_bgo(b, [&] { for (int j = 0; j < 100 && !stop; ++j) { clk(last); if (pick(W, 2) ? dill_yield() : dill_msleep(clk(last) + pick(W, 20))) return; } }); }
    for (int i = 0; i < n; ++i) {
        int64_t t0 = clk(last);
        switch (pick(W, 9)) {
        case 0: burn(pick(W, 2000)); break;
        case 1: burn((int64_t)pick(W, 1000) * 1000); break;
        case 2: burn((int64_t)pick(W, 3000) * 10000); break;
        case 3: if (chance(W, 1, 5)) burn((int64_t)pick(W, 100000) * MS); break;
        case 4: dill_yield(); break;
        case 5: dill_msleep(dill_now() + pick(W, 30)); break;
        case 6: { int64_t d = clk(last) + pick(W, 1000); Watch w; dill_msleep(d); clk(last); if (now_ms() < d) viol("C29 C04", "sleep-early", "msleep returned before its deadline"); break; }
        default: break;
        }
        ev("now", clk(last) - t0);
    }
    stop = true; if (b >= 0) dill_hclose(b);
    nontrivial(); final_census("C27");
}
