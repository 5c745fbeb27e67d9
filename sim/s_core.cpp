// Coroutines, bundles, cancellation, deadlines: a random tree of coroutines doing random blocking calls,
// judged online (C04 deadlines, C05 cancellation, C06 bundle_wait, C08 scheduling, C09 stacks, C29 clock).
#include "engines.h"
extern "C" {
int reg_call(int (*fn)(void *), void *arg, uint64_t seed);

}
namespace {
struct Bun { int h = -1; int owner = -1; bool closed = false, closing = false; int running = 0, waiters = 0; uint64_t zero_act = 0; int64_t zero_ms = 0, zero_idle = 0; void *mem = NULL; std::vector<void *> stacks; int level = 0; };
struct Co {
    int id = 0, bundle = -1, level = 0; bool closing = false, told = false, finished = false, started = false;
    bool sleeping = false; int64_t dl = 0, t0 = 0; bool inclose = false; uint64_t runs = 0;
    int wdir = -1, wpipe = -1;
};
struct Core {
    EngineOpts o;
    std::deque<Co> co; std::deque<Bun> bn;
    uint64_t act = 0; int budget = 0; int maxlevel = 3; uint64_t key = 0;
    int64_t lastnow = 0;
    int pipes[8][2]; int npipes = 0; int rdw[8] = {0}, wrw[8] = {0}; Co *rdc[8] = {0}; int64_t rddl[8];
    int chv[2], chr[2]; int ipcs[2] = {-1, -1}; int ipcbusy = 0; bool stop = false;
    int ncancel = 0, nwait = 0, ntimeout = 0, nsleep = 0, nyield = 0, nco = 0, nfdok = 0, nmem = 0;
    std::vector<void *> freelist;

    static int64_t idle() { return now_ns() - busy_ns(); }
    int64_t now() {
        int64_t lo = now_ms();
        int64_t v = dill_now();
        int64_t hi = now_ms();
        if (v <= 0) viol("C29", "now-nonpositive", "now() returned %lld", (long long)v);
        if (v < lastnow) viol("C29", "now-backwards", "now() returned %lld after %lld", (long long)v, (long long)lastnow);
        if (v > hi) viol("C29", "now-ahead", "now() returned %lld, the system's monotonic clock says %lld", (long long)v, (long long)hi);
        if (v < lo - tick_ms() - 5) viol("C29", "now-lags", "now() returned %lld, the system's monotonic clock says %lld", (long long)v, (long long)hi);
        lastnow = v; return v;
    }
    int64_t rnd_dl(Co &c, bool allow_inf) {
        switch (pick(W, 8)) {
        case 0: return now() - (int64_t)pick(W, 30) - 1 < 1 ? 1 : now() - (int64_t)pick(W, 30) - 1;
        case 1: case 2: return now() + pick(W, 4);
        case 3: case 4: return now() + pick(W, 60);
        case 5: return now() + pick(W, 1200);
        case 6: if (allow_inf && c.id) { static const int64_t f[] = {2147483647ll, 2147483648ll, 4294967295ll, 4294967297ll, 1ll << 40, 1ll << 61}; return now() + f[pick(W, 6)]; } return now() + pick(W, 20);
        default: return allow_inf && c.id ? -1 - (int64_t)(pick(W, 2) * 4294967295ll) : now() + pick(W, 10);
        }
    }
    // before and after every suspending call
    struct Call { Watch w; uint64_t a0; int64_t idle0; std::vector<uint64_t> runs; };
    Call enter(Co &c) { Call k; k.a0 = ++act; k.idle0 = idle(); return k; }
    bool leave(Co &c, Call &k, int rc, int e, const char *what) { // true: canceled
        bool imm = act == k.a0; ++act; if (!imm) ++c.runs;
        if (c.told) {
            if (!(rc < 0 && e == ECANCELED)) viol("C05", "not-sticky", "coroutine was told ECANCELED but a later %s returned %d, %s", what, rc, ename(rc < 0 ? e : 0));
            if (!imm || idle() != k.idle0) viol("C05", "canceled-waits", "%s in a canceled coroutine waited", what);
            return true;
        }
        if (rc < 0 && e == ECANCELED) {
            if (!c.closing) viol("C05", "canceled-outside", "%s failed with ECANCELED although nobody is closing coroutine %d", what, c.id);
            c.told = true; ++ncancel; ev("canceled", c.id);
            return true;
        }
        return false;
    }
    void sleep(Co &c) {
        int64_t dl = rnd_dl(c, true);
        if (chance(W, 1, 10)) dl = 0;
        Call k = enter(c); c.sleeping = true; c.dl = dl; c.t0 = now_ms();
        int rc = dill_msleep(dl); int e = errno;
        c.sleeping = false;
        if (leave(c, k, rc, e, "msleep")) return;
        if (rc) viol("C04", "sleep-error", "msleep failed with %s", ename(e));
        ++nsleep; ev("woke", c.id, dl - now_ms());
        if (dl < 0) viol("C04", "sleep-infinite", "msleep with an infinite deadline returned");
        if (now_ms() < dl) viol("C04", "sleep-early", "msleep(%lld) returned at %lld", (long long)dl, (long long)now_ms());
        if (!in_time(k.w, dl)) viol("C04", "sleep-late", "msleep(%lld) called at %lld returned at %lld, busy %lld us", (long long)dl, (long long)(k.w.t0 / MS), (long long)now_ms(), (long long)k.w.busy() / 1000);
        for (auto &a : co) if (a.sleeping && !a.closing && a.dl >= 0 && a.dl < dl && a.t0 < dl)
            viol("C04", "sleep-order", "a sleeper with deadline %lld woke before one with deadline %lld", (long long)dl, (long long)a.dl);
    }
    void yield(Co &c) {
        Call k = enter(c);
        for (auto &x : co) k.runs.push_back(x.runs);
        int rc = dill_yield(); int e = errno;
        if (leave(c, k, rc, e, "yield")) return;
        if (rc) viol("C08", "yield-error", "yield failed with %s", ename(e));
        ++nyield;
        if (idle() != k.idle0) viol("C08", "idle-while-ready", "the process slept although a coroutine was ready to run");
        for (size_t i = 0; i < k.runs.size(); ++i) if (co[i].runs - k.runs[i] > 8)
            viol("C08", "unfair", "another coroutine ran %d times while one that had only yielded waited", (int)(co[i].runs - k.runs[i]));
    }
    void blocked_forever(Co &c, int kind) { // operations nothing will ever complete, with a deadline
        int64_t dl = rnd_dl(c, true); bool zero = chance(W, 1, 10); if (zero) dl = 0;
        Call k = enter(c); int rc; const char *what = ""; char b[16];
        switch (kind) {
        case 0: what = "chrecv"; rc = dill_chrecv(chr[0], b, 1, dl); break;
        case 1: what = "chsend"; rc = dill_chsend(chv[1], b, 7, dl); break;
        case 2: { what = "choose"; dill_chclause cl[2] = {{DILL_CHSEND, chv[1], b, 7}, {DILL_CHRECV, chr[0], b, 1}}; rc = dill_choose(cl, 2, dl); break; }
        default: { if (ipcbusy || ipcs[0] < 0) return; what = "brecv"; ipcbusy = 1; rc = dill_brecv(ipcs[0], b, 1, dl); break; }
        }
        int e = errno;
        if (kind >= 3) { // a receive that failed once stays failed
            if (rc == 0) viol("C13", "spurious-data", "brecv returned data nobody sent");
            dill_hclose(ipcs[0]); dill_hclose(ipcs[1]); ipcs[0] = -1;
        }
        if (leave(c, k, rc, e, what)) return;
        if (rc >= 0 || e != ETIMEDOUT) viol("C04", "block-error", "%s returned %d, %s", what, rc, ename(e));
        ++ntimeout; ev("timedout", c.id, kind);
        if (dl == 0) { if (idle() != k.idle0) viol("C04", "zero-waits", "%s with deadline 0 waited", what); }
        else check_timedout("C04", what, k.w, dl);
    }
    void fdwait(Co &c) {
        if (!npipes) return;
        int p = pick(W, npipes), dir = pick(W, 2); int fd = pipes[p][dir]; // reading end: never readable; writing end: always writable
        int64_t dl = rnd_dl(c, dir == 0);
        int &busy = dir ? wrw[p] : rdw[p];
        // the other waiter may already have been resumed, in which case it does not wait any more
        bool may = busy > 0, want = false;
        if (may && !dir && rdc[p] && !rdc[p]->closing && (rddl[p] < 0 || rddl[p] > now_ms() + 1)) want = true;
        Call k = enter(c); ++busy; if (!dir && !may) { rdc[p] = &c; rddl[p] = dl; }
        int rc = dir ? dill_fdout(fd, dl) : dill_fdin(fd, dl); int e = errno;
        --busy; if (rdc[p] == &c) rdc[p] = NULL;
        if (leave(c, k, rc, e, dir ? "fdout" : "fdin")) return;
        ev("fd", c.id, dir, rc ? e : 0);
        if (rc < 0 && e == EBUSY) { if (!may) viol("C10", "spurious-ebusy", "EBUSY although nobody else waits"); probe("fd.ebusy"); return; }
        if (want) viol("C10", "no-ebusy", "a second waiter on a descriptor got %d, %s", rc, ename(e));
        if (rc == 0) { if (!dir) viol("C10", "spurious-ready", "fdin succeeded on an empty pipe"); ++nfdok; return; }
        if (e != ETIMEDOUT) viol("C10", "fd-error", "fdin/fdout failed with %s", ename(e));
        if (dir && now_ms() < dl) viol("C10", "missed", "fdout timed out although the pipe was writable");
        check_timedout("C04 C10", "fdin", k.w, dl);
    }
    static int yield_cb(void *) { return dill_yield(); }
    int depth(Co &c, int n, uint64_t s) {
        volatile uint8_t buf[200]; uint64_t d0 = s * 31 + n; double f = (double)d0 * 1.5;
        for (int i = 0; i < 200; ++i) buf[i] = (uint8_t)(d0 + i * 7);
        int r = 0;
        if (n > 0) r = depth(c, n - 1, s); else one_simple(c);
        for (int i = 0; i < 200; ++i) if (buf[i] != (uint8_t)(d0 + i * 7)) viol("C09", "stack-corrupt", "a local array of a suspended coroutine changed");
        if (f != (double)d0 * 1.5) viol("C09", "local-corrupt", "a local variable changed");
        return r + 1;
    }
    void one_simple(Co &c) {
        switch (pick(W, 4)) { case 0: yield(c); break; case 1: case 2: sleep(c); break; default: blocked_forever(c, pick(W, 3)); }
    }
    void regs(Co &c) {
        Call k = enter(c);
        int bad = reg_call(yield_cb, NULL, key + c.id * 77 + act);
        if (bad & 0xff) viol("C09", "registers", "callee-saved registers changed across a suspension (mask %x)", bad & 0xff);
        int rc = (bad >> 8) ? -1 : 0;
        leave(c, k, rc, ECANCELED, "yield");
    }
    int new_bundle(Co &c) {
        if (bn.size() > 60) return -1;
        Bun b; b.owner = c.id; b.level = c.level + 1;
        if (chance(W, 1, 3)) { b.mem = heap_alloc(sizeof(dill_bundle_storage)); b.h = dill_bundle_mem((dill_bundle_storage *)b.mem); }
        else b.h = dill_bundle();
        int e = errno;
        if (b.h < 0) {
            if (b.mem) heap_free(b.mem);
            if (c.told && e == ECANCELED) return -1;
            if (c.closing && e == ECANCELED) { c.told = true; return -1; }
            viol("C26 C05", "bundle-failed", "bundle() failed with %s", ename(e));
        }
        for (auto &x : bn) if (!x.closed && x.h == b.h) viol("C07", "handle-reused", "new handle %d equals one that is still open", b.h);
        bn.push_back(b); return (int)bn.size() - 1;
    }
    void body(int id) {
        Co &c = co[id];
        c.started = true; ++act; ev("start", id, c.bundle);
        int n = 1 + pick(W, 6 * o.scale);
        uint64_t magic = key * 13 + id; volatile uint64_t m2 = ~magic;
        for (int i = 0; i < n && !stop; ++i) {
            step(c);
            if (magic != ~m2) viol("C09", "local-corrupt", "a local variable of a coroutine changed while it was suspended");
            if (c.told && chance(W, 1, 2)) break;
        }
        cleanup(c);
        c.finished = true; ++act; ev("end", id);
        Bun &b = bn[c.bundle];
        if (--b.running == 0) { b.zero_act = act; b.zero_ms = now_ms(); b.zero_idle = idle(); }
    }
    void launch(Co &c, int bi) {
        if (budget <= 0 || c.level >= maxlevel || co.size() > 120) return;
        --budget;
        Bun &b = bn[bi];
        int id = (int)co.size(); co.emplace_back(); Co &n = co.back();
        n.id = id; n.bundle = bi; n.level = b.level; if (b.closing) n.closing = true;
        ++b.running; ++nco;
        Call k = enter(c); int rc, e; void *mem = NULL;
        Fn f = [this, id] { body(id); };
        if (chance(W, 1, 4)) {
            size_t len = 49152 + pick(W, 100); mem = heap_alloc(len); size_t off = pick(W, 3) * 8; ++nmem;
            rc = co_bgo_mem(b.h, f, (char *)mem + off, len - off); e = errno; b.stacks.push_back(mem);
        } else { rc = co_bgo(b.h, f); e = errno; }
        if (rc && !n.started) { --b.running; n.finished = true; }
        if (leave(c, k, rc, e, "bundle_go")) { if (n.started) viol("C05", "launched-canceled", "a canceled coroutine could launch another one"); return; }
        if (rc) viol("C05 C26", "go-failed", "bundle_go returned %d, %s", rc, ename(e));
        if (!n.started) viol("C08", "go-not-run", "bundle_go returned before the coroutine ran");
    }
    // go(): the coroutine is in a bundle of its own
    void launch_single(Co &c) {
        if (budget <= 0 || c.level >= maxlevel || co.size() > 120 || bn.size() > 60) return;
        --budget;
        int bi = (int)bn.size(); bn.emplace_back(); bn[bi].owner = c.id; bn[bi].level = c.level + 1; bn[bi].running = 1;
        int id = (int)co.size(); co.emplace_back(); Co &n = co.back(); n.id = id; n.bundle = bi; n.level = c.level + 1;
        ++nco;
        Call k = enter(c); Fn f = [this, id] { body(id); }; int h;
        if (chance(W, 1, 4)) { size_t len = 49152 + pick(W, 100); void *m = heap_alloc(len); bn[bi].stacks.push_back(m); h = co_go_mem(f, m, len); ++nmem; }
        else h = co_go(f);
        int e = errno; bn[bi].h = h;
        if (h < 0) { n.finished = true; bn[bi].closed = true; bn[bi].running = 0; for (void *m : bn[bi].stacks) heap_free(m); }
        if (leave(c, k, h < 0 ? -1 : 0, e, "go")) { if (n.started) viol("C05", "launched-canceled", "a canceled coroutine could launch another one"); return; }
        if (h < 0) viol("C05 C26", "go-failed", "go failed: %s", ename(e));
        for (size_t i = 0; i < bn.size(); ++i) if ((int)i != bi && !bn[i].closed && bn[i].h == h) viol("C07", "handle-reused", "new handle %d equals one that is still open", h);
    }
    void wait(Co &c, int bi) {
        Bun &b = bn[bi];
        bool own = b.owner == c.id;
        int64_t dl = rnd_dl(c, own); if (chance(W, 1, 8)) dl = 0; if (!own && dl < 0) dl = now() + 20;
        bool none = b.running == 0;
        uint64_t zero0 = act;
        Call k = enter(c);
        if (b.waiters && !none) probe("core.waits-shared");
        ++b.waiters;
        int rc = dill_bundle_wait(b.h, dl); int e = errno;
        --b.waiters;
        bool imm = act == k.a0;
        if (leave(c, k, rc, e, "bundle_wait")) return;
        ev("waited", c.id, bi, rc ? e : 0);
        ++nwait;
        bool zeroed = none || b.zero_act > zero0;
        if (rc == 0) {
            if (!zeroed) viol("C06", "wait-early", "bundle_wait succeeded while coroutines of the bundle were running");
            if (none && !imm) viol("C06", "wait-empty", "bundle_wait on an empty bundle was suspended");
            if (!none && idle() != b.zero_idle) viol("C06 C08", "wait-late", "the process slept although the bundle had finished");
            return;
        }
        if (e != ETIMEDOUT) viol("C06", "wait-error", "bundle_wait failed with %s", ename(e));
        if (none) viol("C06", "wait-missed", "bundle_wait on a bundle without running coroutines timed out");
        if (dl != 0 && b.zero_act > zero0 && b.zero_ms < dl) viol("C06", "wait-missed", "bundle_wait timed out although all coroutines had finished before the deadline");
        if (dl == 0) { if (idle() != k.idle0) viol("C04 C06", "zero-waits", "bundle_wait with deadline 0 waited"); }
        else check_timedout("C04 C06", "bundle_wait", k.w, dl);
    }
    void mark(int bi) { // what closing bundle bi cancels: its coroutines (theirs in turn only by their own doing)
        bn[bi].closing = true;
        for (auto &x : co) if (x.bundle == bi && !x.finished) x.closing = true;
    }
    void closed(int bi) {
        Bun &b = bn[bi]; b.closed = true;
        for (void *m : b.stacks) heap_free(m); b.stacks.clear();
        if (b.mem) { heap_free(b.mem); b.mem = NULL; }
    }
    bool close(Co &c, int bi) {
        Bun &b = bn[bi];
        // closing a bundle somebody else waits for is not allowed
        if (b.waiters && c.id) { b.owner = 0; b.level = 1; return false; } // the main coroutine does it later
        while (b.waiters) sleep(c);
        // a coroutine which is itself inside hclose may be met here; that is part of the property
        for (auto &x : co) if (x.bundle == bi && x.inclose && !x.finished) probe("close.of-closing");
        mark(bi); int running = b.running;
        ev("hclose", c.id, bi, running);
        Call k = enter(c); c.inclose = true;
        int rc = dill_hclose(b.h); int e = errno; c.inclose = false;
        ++act; ++c.runs;
        if (rc) viol("C05", "close-failed", "hclose of a bundle failed: %s", ename(e));
        for (auto &x : co) if (x.bundle == bi && !x.finished) viol("C05", "close-early", "hclose returned while a coroutine of the bundle has not finished");
        if (idle() != k.idle0) viol("C05", "close-waits", "hclose of a bundle waited %lld us for something other than its coroutines", (long long)(idle() - k.idle0) / 1000);
        closed(bi);
        // the old number is dead now (unless it was given out again)
        bool again = false; for (auto &x : bn) if (!x.closed && x.h == b.h) again = true;
        if (!again && chance(W, 1, 4)) {
            int st[8];
            if (dill_hclose(b.h) != -1 || errno != EBADF) viol("C07", "stale-close", "hclose of a closed handle did not fail with EBADF");
        }
        return true;
    }
    void cleanup(Co &c) {
        for (bool again = true; again;) { again = false;
        for (size_t i = 0; i < bn.size(); ++i) if (bn[i].owner == c.id && !bn[i].closed) {
            again = c.id == 0; // others may have left theirs to the main coroutine
            if (!c.told && bn[i].running && chance(W, 1, 4)) wait(c, (int)i);
            close(c, (int)i);
        } }
    }
    void step(Co &c) {
        std::vector<int> mine, any;
        for (size_t i = 0; i < bn.size(); ++i) if (bn[i].owner == c.id && !bn[i].closed) mine.push_back((int)i);
        switch (pick(W, 20)) {
        case 0: case 1: yield(c); break;
        case 2: case 3: case 4: sleep(c); break;
        case 5: blocked_forever(c, pick(W, 4)); break;
        case 6: fdwait(c); break;
        case 7: burn((int64_t)pick(W, 3000) * 1000); ev("burn"); break;
        case 8: depth(c, pick(W, 12), key + c.id); break;
        case 9: regs(c); break;
        case 10: case 11: case 12: { int b = mine.empty() || chance(W, 1, 3) ? new_bundle(c) : mine[pick(W, (uint32_t)mine.size())]; if (b >= 0) for (int n = 1 + pick(W, 3); n > 0; --n) launch(c, b); break; }
        case 13: launch_single(c); break;
        case 14: case 15: if (!mine.empty()) wait(c, mine[pick(W, (uint32_t)mine.size())]); else sleep(c); break;
        case 16: if (!mine.empty()) close(c, mine[pick(W, (uint32_t)mine.size())]); else yield(c); break;
        case 17: // own bundle changes its handle
            if (!mine.empty()) {
                int bi = mine[pick(W, (uint32_t)mine.size())]; Bun &b = bn[bi]; if (b.waiters) break;
                if (c.closing) mark(bi); // hown() in a canceled coroutine fails and closes the handle
                int old = b.h, h = dill_hown(old);
                if (h < 0) {
                    int e = errno;
                    if (!(c.closing && e == ECANCELED)) viol("C07", "hown-failed", "hown failed: %s", ename(e));
                    c.told = true; ++act; ++c.runs; ev("hown-canceled", c.id);
                    for (auto &x : co) if (x.bundle == bi && !x.finished) viol("C05", "close-early", "a failed hown closed a bundle but one of its coroutines has not finished");
                    if (dill_hclose(old) != -1 || errno != EBADF) viol("C07", "hown-stale", "the handle is still valid after a failed hown");
                    closed(bi); break;
                }
                if (c.told) viol("C05", "not-sticky", "hown succeeded in a canceled coroutine");
                if (h == old) viol("C07", "hown-same", "hown returned the same handle");
                if (dill_hclose(old) != -1 || errno != EBADF) viol("C07", "hown-stale", "the old handle is still valid after hown");
                b.h = h;
            } break;
        case 18: // a sibling joins the bundle
            if (c.bundle >= 0 && bn[c.bundle].h >= 0 && c.level < maxlevel && !bn[c.bundle].closing) launch_sibling(c); else sleep(c);
            break;
        default:
            // somebody else's bundle: another waiter besides the owner
            for (size_t i = 0; i < bn.size(); ++i) if (!bn[i].closed && !bn[i].closing && bn[i].h >= 0 && bn[i].owner != c.id && (int)i != c.bundle) any.push_back((int)i);
            if (!any.empty()) wait(c, any[pick(W, (uint32_t)any.size())]);
            else sleep(c);
        }
    }
    void launch_sibling(Co &c) { int lv = c.level; c.level = lv - 1; launch(c, c.bundle); c.level = lv; }
    void run() {
        key = pick(W, 100000);
        budget = 3 + pick(W, 20 * o.scale); maxlevel = 1 + pick(W, 4);
        npipes = pick(W, 4); for (int i = 0; i < npipes; ++i) mk_pipe(pipes[i]);
        if (dill_chmake(chv) || dill_chmake(chr)) viol("C26", "chmake", "chmake failed");
        if (chance(W, 1, 2) && dill_ipc_pair(ipcs)) viol("C26", "ipc_pair", "ipc_pair failed");
        co.emplace_back(); co[0].id = 0; co[0].started = true;
        int steps = 3 + pick(W, 12 * o.scale);
        for (int i = 0; i < steps; ++i) step(co[0]);
        stop = chance(W, 1, 2);
        cleanup(co[0]);
        for (auto &c : co) if (c.id && !c.finished) viol("C05 C06", "unfinished", "coroutine %d never finished", c.id);
        for (int i = 0; i < npipes; ++i) for (int j = 0; j < 2; ++j) { if (dill_fdclean(pipes[i][j])) viol("C10", "clean-busy", "fdclean failed: %s", ename(errno)); sys_close(pipes[i][j]); }
        dill_hclose(chv[0]); dill_hclose(chv[1]); dill_hclose(chr[0]); dill_hclose(chr[1]);
        if (ipcs[0] >= 0) { dill_hclose(ipcs[0]); dill_hclose(ipcs[1]); }
        probe("core.coroutines", nco); probe("core.canceled", ncancel); probe("core.waits", nwait); probe("core.timeouts", ntimeout); probe("core.sleeps", nsleep); probe("core.yields", nyield); probe("core.go_mem", nmem);
        const char *p = property(); bool nt = nco > 0;
        if (!strcmp(p, "C05")) nt = ncancel > 0; else if (!strcmp(p, "C06")) nt = nwait > 0;
        else if (!strcmp(p, "C04")) nt = nsleep + ntimeout > 0; else if (!strcmp(p, "C08")) nt = nyield > 0 && nco > 1;
        if (nt) nontrivial();
    }
};
}
void core_engine(EngineOpts o) { auto *e = new Core; e->o = o; e->run(); delete e; }
SCENARIO(core) {
    randomize_common(true);
    EngineOpts o; o.scale = chance(W, 1, 8) ? 4 : 1;
    core_engine(o);
    final_census("C27 C05");
}
