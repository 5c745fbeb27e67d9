// Channels: random coroutines exchanging unique messages over random channels, judged online against a
// small reference model of rendezvous channels (C01, C02, C03; timeouts C04; cancellation C05).
#include "engines.h"
namespace {
struct Op;
struct Clause {
    Op *op = NULL; int idx = 0; int kind = 0;     // 1 send, 2 receive, else malformed
    int ch = -1, side = 0; int h = -1;            // ch -1: handle is not one of our channels
    int herr = 0;                                 // errno expected from the handle itself
    char *buf = NULL; size_t len = 0; std::string content; // what is in buf when nothing happens
    bool null = false;
};
struct Op {
    int id = 0, cr = 0; bool choose = false; int64_t deadline = -1; Watch w;
    std::vector<Clause> cl;
    enum { RUN, WAITING, RESOLVED, FINISHED } st = RUN;
    int ridx = -1, rerr = 0; std::vector<int> anyof; bool maybe = false; bool emsg_maybe = false;
    int64_t res_idle = 0; const char *why = "";
};
struct Dir { std::vector<Clause *> snd, rcv; bool done = false; };
struct Chan { int h[2]; bool open[2]; Dir d[2]; void *mem = NULL; };
struct Coro { int bundle = -1; bool closing = false, told = false, finished = false, started = false; };

struct Engine {
    EngineOpts o;
    std::vector<Chan> ch;
    std::vector<Coro> cr;                          // cr[0] is the director (main coroutine)
    std::vector<int> bundles; std::vector<bool> bclosed;
    std::deque<Op> ops; std::deque<std::string> keep;
    std::vector<std::pair<char *, std::string>> finals; // buffers whose content must not change any more
    uint64_t act = 0, nval = 0; int nmatch = 0, nwaitmatch = 0, nchoose = 0, nepipe = 0;
    bool ended = false, timeouts = false, cancels = false, small = false;
    int wmany = 0; size_t wbig = 0; int wsend, wrecv, wchoose, wdone, wclose; int notch[3];
    uint64_t tkey;

    static int64_t idle() { return now_ns() - busy_ns(); }
    const char *tag(Op &x, const char *base) { // choose operations also concern C02
        static char b[64]; snprintf(b, sizeof b, "%s%s", base, x.choose ? " C02" : ""); return b;
    }
    bool uncertain(Op *w) { return w->emsg_maybe || (w->deadline >= 0 && w->deadline <= now_ms()) || cr[w->cr].closing; }
    std::vector<Clause *> *opposite(Clause &c) {
        Dir &d = c.kind == 1 ? ch[c.ch].d[c.side] : ch[c.ch].d[1 - c.side];
        return c.kind == 1 ? &d.rcv : &d.snd;
    }
    std::vector<Clause *> *own(Clause &c) {
        Dir &d = c.kind == 1 ? ch[c.ch].d[c.side] : ch[c.ch].d[1 - c.side];
        return c.kind == 1 ? &d.snd : &d.rcv;
    }
    bool dir_done(Clause &c) { return (c.kind == 1 ? ch[c.ch].d[c.side] : ch[c.ch].d[1 - c.side]).done; }
    void unqueue(Op *w) {
        for (auto &c : w->cl) if (c.ch >= 0 && (c.kind == 1 || c.kind == 2)) {
            auto *q = own(c); q->erase(std::remove(q->begin(), q->end(), &c), q->end());
        }
    }
    void resolve(Op *w, int idx, int err, const char *why, bool maybe = false) {
        w->st = Op::RESOLVED; w->ridx = idx; w->rerr = err; w->maybe = maybe; w->res_idle = idle(); w->why = why;
        unqueue(w);
    }
    // candidates of a clause: waiters it may be matched with now. true if the last one is certain to be there.
    bool cands(Clause &c, std::vector<Clause *> &out) {
        for (Clause *w : *opposite(c)) { out.push_back(w); if (!uncertain(w->op)) return true; }
        return false;
    }
    // errno of a clause that fails by itself, 0 if none
    int selferr(Op &x, Clause &c) {
        if (c.herr) return c.herr;
        if (c.null) return EINVAL;
        if (x.choose && c.kind != 1 && c.kind != 2) return EINVAL;
        if (dir_done(c)) return EPIPE;
        return 0;
    }
    bool definite(Op &x, Clause &c) {
        if (selferr(x, c)) return true;
        std::vector<Clause *> v; return cands(c, v);
    }
    bool buf_is(Clause &c, const std::string &s) { return c.len == s.size() && (c.len == 0 || !memcmp(c.buf, s.data(), c.len)); }
    void check_untouched(Op &x, int except, const char *what) {
        for (auto &c : x.cl) if (c.idx != except && c.buf && !buf_is(c, c.content))
            viol(tag(x, "C01"), "touched", "%s: the buffer of clause %d (%s) was modified although that clause transferred nothing", what, c.idx, c.kind == 1 ? "send" : "receive");
    }
    // X completed at once with clause i and error e
    void immediate(Op &x, int i, int e) {
        if (i < 0) {
            if (e == ECANCELED) { if (!cr[x.cr].closing) viol("C05", "canceled-outside", "operation failed with ECANCELED although nobody is closing its coroutine"); return; }
            if (e != ETIMEDOUT) viol(tag(x, "C01"), "bad-error", "operation failed with %s", ename(e));
            if (!timeouts && x.deadline != 0) viol("C04", "timeout-infinite", "timed out with deadline %lld", (long long)x.deadline);
            for (auto &c : x.cl) if (definite(x, c))
                viol(tag(x, "C01"), "not-ready", "timed out at once although %s on channel %d could proceed", c.kind == 1 ? "sending" : "receiving", c.ch);
            if (x.deadline == 0) { if (idle() != x.w.t0 - x.w.busy0) viol("C04", "zero-waits", "operation with deadline 0 waited"); }
            else check_timedout("C04", "channel operation", x.w, x.deadline);
            check_untouched(x, -1, "after a timeout");
            return;
        }
        if (i >= (int)x.cl.size()) viol("C02", "bad-index", "choose with %zu clauses returned index %d", x.cl.size(), i);
        for (int k = 0; k < i; ++k) if (definite(x, x.cl[k]))
            viol("C02", "not-earliest", "choose returned clause %d although clause %d could proceed", i, k);
        Clause &c = x.cl[i];
        int se = selferr(x, c);
        if (se) {
            if (e != se) viol(se == EPIPE ? tag(x, "C03") : tag(x, "C01"), "wrong-error", "expected %s, got %s (clause %d)", ename(se), ename(e), i);
            if (se == EPIPE) ++nepipe;
            check_untouched(x, -1, "after an error"); return;
        }
        std::vector<Clause *> v; cands(c, v);
        if (v.empty()) {
            if (e == EPIPE) viol(tag(x, "C03"), "spurious-epipe", "EPIPE on channel %d direction which is neither done nor closed", c.ch);
            viol(tag(x, "C01"), e ? "spurious-error" : "spurious-success", "%s on channel %d returned %s with no opposite party waiting", c.kind == 1 ? "send" : "receive", c.ch, ename(e));
        }
        if (e == EMSGSIZE) {
            std::vector<Clause *> m; for (auto *w : v) if (w->len != c.len) m.push_back(w);
            if (m.empty()) viol(tag(x, "C01"), "spurious-emsgsize", "EMSGSIZE although the sizes agree (%zu)", c.len);
            check_untouched(x, -1, "after EMSGSIZE");
            if (m.size() == 1) { Clause *w = m[0]; for (auto *u : v) { if (u == w) break; unqueue(u->op); } resolve(w->op, w->idx, EMSGSIZE, "size mismatch", uncertain(w->op) && false); }
            else for (auto *w : m) { w->op->emsg_maybe = true; }
            probe("match.emsgsize");
            return;
        }
        if (e) viol(tag(x, "C01"), "wrong-error", "unexpected error %s", ename(e));
        Clause *hit = NULL;
        for (auto *w : v) {
            if (w->len != c.len) continue;
            if (c.kind == 2 ? buf_is(c, w->content) : buf_is(*w, c.content)) { hit = w; break; }
        }
        if (!hit) {
            if (c.kind == 2) for (auto &q : ops) for (auto &w : q.cl) if (w.kind == 1 && w.len == c.len && c.len >= 8 && buf_is(c, w.content))
                viol(tag(x, "C01"), q.st == Op::FINISHED || q.st == Op::RESOLVED ? "duplicate" : "order",
                    "received message #%d which %s", q.id, q.st == Op::FINISHED || q.st == Op::RESOLVED ? "was already delivered or given up" : "is not the first in the queue");
            if (c.kind == 1) for (auto &q : ops) for (auto &w : q.cl) if (w.kind == 2 && w.len == c.len && c.len >= 8 && buf_is(w, c.content))
                viol(tag(x, "C01"), "order", "message was given to a receiver which is not the first in the queue");
            viol(tag(x, "C01"), "corrupt", "%s of %zu bytes succeeded but the bytes do not match those of any waiting party", c.kind == 1 ? "send" : "receive", c.len);
        }
        for (auto *u : v) { if (u == hit) break; unqueue(u->op); }
        ev("match", c.ch, hit->op->id, x.id);
        ++nmatch; if (hit->op->choose) ++nwaitmatch;
        if (c.kind == 2) c.content = hit->content; else hit->content = c.content;
        if (c.len == 0) probe("match.empty");
        resolve(hit->op, hit->idx, 0, "matched");
        check_untouched(x, -1, "after a transfer");
    }
    // X was suspended and returned (i,e)
    void resumed(Op &x, int i, int e) {
        if (x.st == Op::RESOLVED) {
            bool ok = (i == x.ridx || (x.rerr == EPIPE && std::find(x.anyof.begin(), x.anyof.end(), i) != x.anyof.end())) && e == x.rerr;
            if (!ok && x.emsg_maybe && e == EMSGSIZE) ok = true;
            if (!ok && x.maybe && i < 0 && (e == ETIMEDOUT || e == ECANCELED)) {
                if (e == ETIMEDOUT) check_timedout("C04", "channel operation", x.w, x.deadline);
                else if (!cr[x.cr].closing) viol("C05", "canceled-outside", "ECANCELED although nobody is closing the coroutine");
                check_untouched(x, -1, "after a timeout or cancellation"); return;
            }
            if (!ok) viol(tag(x, x.rerr == EPIPE || e == EPIPE ? "C03" : "C01"), "wrong-outcome", "operation #%d was %s (clause %d, %s) but returned clause %d, %s", x.id, x.why, x.ridx, ename(x.rerr), i, ename(e));
            if (idle() - x.res_idle > 0) viol("C08", "idle-while-ready", "the process slept %lld ns although a coroutine was ready", (long long)(idle() - x.res_idle));
            if (x.rerr == EPIPE) ++nepipe;
            check_untouched(x, -1, "after completion");
            return;
        }
        if (i >= 0 && e == EMSGSIZE && x.emsg_maybe) { check_untouched(x, -1, "after EMSGSIZE"); return; }
        if (i < 0 && e == ECANCELED) {
            if (!cr[x.cr].closing) viol("C05", "canceled-outside", "ECANCELED although nobody is closing the coroutine");
            check_untouched(x, -1, "after cancellation"); return;
        }
        if (i < 0 && e == ETIMEDOUT) { check_timedout("C04", "channel operation", x.w, x.deadline); check_untouched(x, -1, "after a timeout"); return; }
        if (e == EPIPE) viol(tag(x, "C03"), "spurious-epipe", "blocked operation #%d failed with EPIPE although nothing was done or closed", x.id);
        viol(tag(x, "C01"), "spurious-completion", "blocked operation #%d returned clause %d, %s although nobody matched it", x.id, i, ename(e));
    }
    void mkclause(Op &x, int kind, bool wrongok) {
        x.cl.emplace_back();
        Clause &c = x.cl.back();
        c.kind = kind; c.idx = (int)x.cl.size() - 1;
        int r = wrongok ? pick(W, 12) : 11;
        if (r == 0) { // a handle that is not an open channel
            static const int bad[] = {-1, -5, 100000, 2147483647};
            int k = pick(W, 3);
            if (k == 0) { c.h = bad[pick(W, 4)]; c.herr = EBADF; }
            else { c.h = notch[k - 1]; c.herr = ENOTSUP; }
            if (c.h < 0 && k) { c.h = -1; c.herr = EBADF; }
        } else {
            c.ch = pick(W, (uint32_t)ch.size()); c.side = pick(W, 2);
            c.h = ch[c.ch].h[c.side];
            if (!ch[c.ch].open[c.side]) {
                c.herr = EBADF;
                for (auto &k : ch) for (int s = 0; s < 2; ++s) if (k.open[s] && k.h[s] == c.h) c.h = -1;
                for (int b : bundles) if (b == c.h) c.h = -1;
                for (int b : notch) if (b == c.h) c.h = -1;
                if (c.h >= 0) { probe("stale-handle"); }
                c.ch = -1;
            }
        }
        size_t base = 8 + 8 * (x.id % 2 == 0 ? 0 : pick(W, 2));
        c.len = small ? pick(W, 3) : (chance(W, 1, 12) ? base + 1 + pick(W, 3000) : 8 + (wbig ? wbig : (tkey % 3) * 24));
        c.buf = (char *)heap_alloc(c.len ? c.len : 1);
        if (kind == 1) { c.content = pattern(c.len, tkey + ++nval * 977); if (c.len >= 8) { uint64_t v = tkey * 1000003 + nval; memcpy(&c.content[0], &v, 8); } }
        else c.content = std::string(c.len, (char)0xEE);
        if (c.len) memcpy(c.buf, c.content.data(), c.len);
        if (x.choose && wrongok && c.ch >= 0) {
            if (chance(W, 1, 40)) c.kind = 7;
            else if (c.len && chance(W, 1, 40)) c.null = true;
        }
    }
    void operation(int me) {
        ops.emplace_back(); Op &x = ops.back();
        x.id = (int)ops.size(); x.cr = me;
        uint32_t k = pick(W, wsend + wrecv + wchoose);
        int kind = k < (uint32_t)wsend ? 1 : k < (uint32_t)(wsend + wrecv) ? 2 : 3;
        x.choose = kind == 3;
        if (kind == 3) { int n = pick(W, 6), only = 0; bool many = wmany && chance(W, 1, wmany); if (many) { n = 6 + pick(W, 70); only = pick(W, 3); probe("choose.many"); } x.cl.reserve(n); for (int i = 0; i < n; ++i) mkclause(x, only ? only : 1 + pick(W, 2), !many); ++nchoose; }
        else mkclause(x, kind, chance(W, 1, 3));
        for (auto &c : x.cl) c.op = &x;
        switch (pick(W, 4)) {
        case 0: x.deadline = 0; break;
        case 1: x.deadline = timeouts ? dill_now() + (int64_t)pick(W, 30) - (chance(W, 1, 8) ? 20 : 0) : 0; break;
        case 2: x.deadline = timeouts ? dill_now() + pick(W, 200) : -1; break;
        default: x.deadline = -1 - (int64_t)pick(W, 2) * 5000000000ll; break;
        }
        if ((me == 0 || x.cl.empty()) && x.deadline < 0) x.deadline = timeouts ? dill_now() + pick(W, 50) : 0;
        if (x.deadline == 0 && timeouts && chance(W, 1, 2)) x.deadline = 1; // long past
        dill_chclause dc[80];
        for (auto &c : x.cl) { dc[c.idx].op = c.kind == 7 ? 77 : c.kind == 1 ? DILL_CHSEND : DILL_CHRECV; dc[c.idx].ch = c.h; dc[c.idx].val = c.null ? NULL : c.buf; dc[c.idx].len = c.len; }
        bool sure = false; for (auto &c : x.cl) sure |= definite(x, c);
        if (cr[me].told) sure = false;
        x.w = Watch();
        if (!sure && x.deadline != 0 && !cr[me].told) { // will block unless it meets an uncertain waiter
            x.st = Op::WAITING;
            for (auto &c : x.cl) own(c)->push_back(&c);
        }
        ev(kind == 1 ? "chsend" : kind == 2 ? "chrecv" : "choose", me, x.cl.empty() ? -1 : x.cl[0].ch * 10 + x.cl[0].side, x.deadline < 0 ? -1 : x.deadline == 0 ? 0 : 1, x.cl.size());
        uint64_t a0 = ++act;
        int rc; errno = 7777;
        if (kind == 1) rc = dill_chsend(x.cl[0].h, x.cl[0].buf, x.cl[0].len, x.deadline);
        else if (kind == 2) rc = dill_chrecv(x.cl[0].h, x.cl[0].buf, x.cl[0].len, x.deadline);
        else rc = dill_choose(dc, (int)x.cl.size(), x.deadline);
        int e = errno;
        bool imm = act == a0; ++act;
        int i = rc;
        if (kind != 3) { if (rc != 0 && rc != -1) viol("C01", "bad-rc", "returned %d", rc); if (rc == 0) e = 0; else if (e != ETIMEDOUT && e != ECANCELED) i = 0; }
        else if (rc < -1) viol("C02", "bad-rc", "choose returned %d", rc);
        ev("->", me, i, e, imm);
        if (cr[me].told) {
            if (!(rc == -1 && e == ECANCELED)) viol("C05", "not-sticky", "after ECANCELED a later channel operation returned %d, %s", rc, ename(e));
            check_untouched(x, -1, "after cancellation");
        } else {
            if (sure && !imm) viol(tag(x, "C01"), "suspended", "operation could proceed at once but others ran before it returned");
            if (x.deadline == 0 && !imm) viol("C04", "zero-suspends", "operation with deadline 0 was suspended");
            bool waiting = x.st == Op::WAITING;
            if (waiting) unqueue(&x);
            if (imm) { x.st = Op::RUN; immediate(x, i, e); }
            else resumed(x, i, e);
            if (i < 0 && e == ECANCELED) cr[me].told = true;
        }
        x.st = Op::FINISHED;
        // what arrived stays, what was sent may be overwritten by its owner now
        for (auto &c : x.cl) {
            if (c.kind == 1 && c.len) memset(c.buf, 0x33, c.len);
            finals.push_back({c.buf, c.kind == 1 ? std::string(c.len, 0x33) : c.content});
        }
    }
    void close_half(int c, int s, bool fin = false) {
        Chan &k = ch[c];
        if (!k.open[s]) return;
        ev("hclose", c, s);
        k.open[s] = false;
        if (!k.open[1 - s]) epipe_all(k.d[0], &k.d[1]);
        int rc = dill_hclose(k.h[s]);
        if (rc) viol("C03 C07", "close-failed", "hclose of a channel handle failed: %s", ename(errno));
    }
    void epipe_all(Dir &d, Dir *d2 = NULL) {
        std::vector<std::vector<Clause *> *> qs{&d.snd, &d.rcv};
        if (d2) { qs.push_back(&d2->snd); qs.push_back(&d2->rcv); }
        while (1) {
            Clause *w = NULL; for (auto *q : qs) if (!q->empty()) { w = (*q)[0]; break; }
            if (!w) break;
            probe("wake.epipe");
            for (auto *q : qs) for (auto *c : *q) if (c->op == w->op) w->op->anyof.push_back(c->idx);
            resolve(w->op, w->idx, EPIPE, "ended by done/close", uncertain(w->op));
        }
    }
    void done(int c, int s) {
        Chan &k = ch[c];
        if (!k.open[s]) return;
        bool was = k.d[s].done;
        ev("chdone", c, s);
        k.d[s].done = true;
        // the first clause of an operation waiting twice is what resolves it: same order as the queue
        epipe_all(k.d[s]);
        int rc = dill_chdone(k.h[s]); int e = errno;
        if (was ? !(rc == -1 && e == EPIPE) : rc != 0) viol("C03", "chdone-result", "chdone %s returned %d %s", was ? "repeated in one direction" : "the first time", rc, ename(e));
    }
    void body(int me) {
        Coro &c = cr[me];
        c.started = true; ++act;
        ev("start", me);
        int n = 1 + pick(W, 14 * o.scale);
        for (int i = 0; i < n && !ended; ++i) {
            switch (pick(W, 8)) {
            case 0: misc(me, 0); break;
            case 1: misc(me, 1); break;
            case 2: if (wdone && chance(W, wdone, 40)) done(pick(W, (uint32_t)ch.size()), pick(W, 2)); else operation(me); break;
            case 3: if (wclose && chance(W, wclose, 60)) close_half(pick(W, (uint32_t)ch.size()), pick(W, 2)); else operation(me); break;
            default: operation(me);
            }
        }
        c.finished = true; ++act;
        ev("end", me);
    }
    void misc(int me, int what) {
        ++act; Watch w; int64_t dl = dill_now() + pick(W, timeouts ? 25 : 4);
        int rc = what ? dill_msleep(dl) : dill_yield();
        int e = errno; ++act;
        if (rc == 0) {
            if (cr[me].told) viol("C05", "not-sticky", "after ECANCELED a later %s succeeded", what ? "msleep" : "yield");
            if (what && now_ms() < dl) viol("C04", "sleep-early", "msleep returned %lld ms before its deadline", (long long)(dl - now_ms()));
            if (what && !in_time(w, dl)) viol("C04", "sleep-late", "msleep to %lld returned at %lld", (long long)dl, (long long)now_ms());
            return;
        }
        if (e == ECANCELED && cr[me].closing) { cr[me].told = true; return; }
        viol(e == ECANCELED ? "C05" : "C04", "misc-error", "%s failed with %s", what ? "msleep" : "yield", ename(e));
    }
    void launch(int b) {
        int me = (int)cr.size(); cr.emplace_back(); cr[me].bundle = b;
        ++act;
        int rc = co_bgo(bundles[b], [this, me] { body(me); });
        ++act;
        if (rc != 0) viol("C05 C26", "go-failed", "bundle_go failed: %s", ename(errno));
        if (!cr[me].started) viol("C08", "go-not-run", "bundle_go returned but the coroutine did not start");
    }
    void close_bundle(int b, bool endrun) {
        for (auto &c : cr) if (c.bundle == b && !c.finished) c.closing = true;
        bclosed[b] = true;
        ev("close-bundle", b);
        ++act;
        int rc = dill_hclose(bundles[b]); ++act;
        if (rc) viol("C05", "close-failed", "hclose of a bundle failed: %s", ename(errno));
        for (auto &c : cr) if (c.bundle == b && !c.finished) viol("C05", "close-early", "hclose of a bundle returned while one of its coroutines has not finished");
        bundles[b] = -1;
    }
    void run() {
        const char *p = property();
        tkey = pick(W, 1000) + 1;
        small = chance(W, 1, 6);
        timeouts = !small && !chance(W, 1, 3);
        cancels = !small && chance(W, 1, 2);
        wsend = 1 + pick(W, 4); wrecv = 1 + pick(W, 4);
        wmany = chance(W, 1, 6) ? 2 + pick(W, 10) : 0; wbig = chance(W, 1, 30) ? 4000 + pick(W, 66000) : 0;
        wchoose = !strcmp(p, "C02") ? 3 + pick(W, 8) : pick(W, 4);
        wdone = !strcmp(p, "C03") ? 4 + pick(W, 20) : pick(W, 5);
        wclose = !strcmp(p, "C03") ? 4 + pick(W, 20) : pick(W, 3);
        cr.reserve(64); cr.emplace_back(); cr[0].started = true;
        int k = 1 + (chance(W, 1, 2) ? 0 : pick(W, 5));
        ch.resize(k);
        for (auto &c : ch) {
            c.open[0] = c.open[1] = true;
            if (chance(W, 1, 3)) c.mem = heap_alloc(sizeof(dill_chstorage));
            int rc = c.mem ? dill_chmake_mem((dill_chstorage *)c.mem, c.h) : dill_chmake(c.h);
            if (rc) viol("C26", "chmake", "chmake failed: %s", ename(errno));
        }
        int nb = 1 + pick(W, 3);
        for (int i = 0; i < nb; ++i) { bundles.push_back(dill_bundle()); bclosed.push_back(false); }
        notch[0] = dill_bundle(); notch[1] = dill_bundle(); notch[2] = -1;
        int total = 0, maxco = 2 + pick(W, 7);
        int steps = 4 + pick(W, 25 * o.scale);
        for (int i = 0; i < nb && total < maxco; ++i) { launch(i); ++total; }
        for (int s = 0; s < steps; ++s) {
            int b = pick(W, nb);
            switch (pick(W, 10)) {
            case 0: case 1: if (total < maxco && !bclosed[b]) { launch(b); ++total; break; }
            case 2: misc(0, 0); break;
            case 3: case 4: misc(0, 1); break;
            case 5: if (wdone && chance(W, 1, 3)) { done(pick(W, k), pick(W, 2)); break; }
            case 6: if (wclose && chance(W, 1, 3)) { close_half(pick(W, k), pick(W, 2)); break; }
            case 7: if (cancels && chance(W, 1, 4) && !bclosed[b]) { close_bundle(b, false); break; }
            default: operation(0);
            }
        }
        // End: close all channels; everybody still blocked must be woken, then finish.
        ended = true;
        if (cancels && chance(W, 1, 3)) for (int b = 0; b < nb; ++b) if (!bclosed[b]) close_bundle(b, true);
        bool order = chance(W, 1, 2);
        for (int i = 0; i < k; ++i) { close_half(i, order); close_half(i, !order); }
        for (int b = 0; b < nb; ++b) if (!bclosed[b]) {
            ++act; int rc = dill_bundle_wait(bundles[b], -1); ++act;
            if (rc) viol("C06", "wait-failed", "bundle_wait failed: %s", ename(errno));
            for (auto &c : cr) if (c.bundle == b && !c.finished) viol("C06", "wait-early", "bundle_wait returned while a coroutine of the bundle still runs");
            if (dill_hclose(bundles[b])) viol("C07", "close-failed", "hclose failed");
        }
        for (auto &x : ops) if (x.st != Op::FINISHED) viol("C03 C08", "stuck", "operation #%d never returned", x.id);
        dill_hclose(notch[0]); dill_hclose(notch[1]);
        for (auto &f : finals) if (memcmp(f.first, f.second.data(), f.second.size()))
            viol("C01 C02 C04", "late-write", "a buffer was modified after its operation had returned");
        for (auto &f : finals) heap_free(f.first);
        for (auto &c : ch) if (c.mem) heap_free(c.mem);
        probe("chan.matches", nmatch); probe("chan.choose", nchoose); probe("chan.choose-waited", nwaitmatch); probe("chan.epipe", nepipe); probe("chan.ops", ops.size());
        bool nt = nmatch > 0;
        if (!strcmp(p, "C02")) nt = nwaitmatch > 0 || nchoose > 3;
        if (!strcmp(p, "C03")) nt = nepipe > 0;
        if (nt) nontrivial();
    }
};
}
void chan_engine(EngineOpts o) { auto *e = new Engine; e->o = o; e->run(); delete e; }
SCENARIO(chan) {
    randomize_common(true);
    EngineOpts o; o.scale = chance(W, 1, 8) ? 4 : 1;
    chan_engine(o);
    final_census("C27 C03");
}
