// Message protocols on top of byte streams: PREFIX (C16), SUFFIX (C17), TERM (C18), and hostile peers of theirs (C30).
#include "proto.h"
namespace {
struct Stack {
    const char *tag; bool suffix = false, term = false, big = true; size_t hdrlen = 1; Str suf, tm; std::vector<std::unique_ptr<Mem>> mems; size_t maxlen = 3000;
    void choose(const char *t) {
        tag = t; term = !strcmp(t, "C18"); suffix = term ? pick(W, 2) : !strcmp(t, "C17");
        if (!suffix) { hdrlen = oneofu(W, {2, 1, 4, 8, 3, 5, 9, 16, 32}); big = pick(W, 3); maxlen = hdrlen == 1 ? 255 : chance(W, 1, 12) ? 70000 : 3000; }
        else { static const char *s[] = {"\r\n", "a", "aa", "ab", "aab", "abab", "aaaaaaaa", "\n", "abcabcabd"}; int k = pick(W, 10); if (k < 9) suf = s[k]; else { int n = 1 + pick(W, 32); for (int i = 0; i < n; ++i) suf += "ab\0"[pick(W, 3)]; } if (chance(W, 1, 8)) { suf = Str(1, '\0'); } maxlen = 600; }
        if (term) do { int n = oneofu(W, {0, 1, 2, 3, 5, 16, 31, 32}); tm.clear(); for (int i = 0; i < n; ++i) tm += alpha(); } while (!fits(tm) || tm.size() > maxlen);
    }
    char alpha() { return suffix ? pick(W, 5) ? suf[pick(W, (uint32_t)suf.size())] : "xy\r\n\0"[pick(W, 5)] : term ? "stop"[pick(W, 4)] : (char)pick(W, 256); }
    bool clash(const Str &m) const { return suffix && (m + suf).find(suf) < m.size(); }
    bool fits(const Str &m) const { return suffix ? !clash(m) : hdrlen >= 8 || (m.size() >> (8 * hdrlen)) == 0; }
    bool valid(const Str &m) const { return fits(m) && !(term && m == tm); }
    Str gen() {
        for (;;) {
            size_t n; switch (pick(W, 8)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = pick(W, 40); break; case 3: n = pick(W, (uint32_t)maxlen + 1); break; default: n = pick(W, 120); }
            if (!suffix && hdrlen == 1 && pick(W, 6) == 0) n = 255; if (!suffix && hdrlen == 2 && maxlen > 65535 && pick(W, 6) == 0) n = 65535 - pick(W, 2); n = std::min(n, maxlen);
            Str m; if (suffix || n < 200) for (size_t i = 0; i < n; ++i) m += alpha(); else m = pattern(n, pick(W, 1000));
            if (term) switch (pick(W, 6)) { case 0: m = tm + m; break; case 1: m = tm.substr(0, pick(W, (uint32_t)tm.size() + 1)); break; case 2: m = tm; if (!m.empty()) m[pick(W, (uint32_t)m.size())] ^= 1; break; }
            if (suffix && clash(m)) { size_t p; while (clash(m)) { p = (m + suf).find(suf); m.resize(p + pick(W, (uint32_t)std::min<size_t>(suf.size(), m.size() - p))); if (clash(m)) m.resize(p); if (p == 0 && m.empty()) break; } }
            if (valid(m) && m.size() <= maxlen) return m;
        }
    }
    Str wire(const Str &m) const { if (suffix) return m + suf; Str h(hdrlen, '\0'); size_t n = m.size(); for (size_t i = 0; i < hdrlen; ++i) { h[big ? hdrlen - 1 - i : i] = (char)(n & 0xff); n >>= 8; } return h + m; }
    // the messages a byte string contains; rest: the position after the last complete one
    std::vector<Str> decode(const Str &b, size_t &rest, bool &toolong) const {
        std::vector<Str> r; rest = 0; toolong = false;
        for (;;) {
            if (suffix) { size_t p = b.find(suf, rest); if (p == Str::npos) return r; r.push_back(b.substr(rest, p - rest)); rest = p + suf.size(); }
            else { if (b.size() - rest < hdrlen) return r; unsigned __int128 n = 0; bool big128 = false; for (size_t i = 0; i < hdrlen; ++i) { if (n >> 100) big128 = true; n = n << 8 | (uint8_t)b[rest + (big ? i : hdrlen - 1 - i)]; } if (big128 || n > 1000000) { toolong = true; return r; } if (b.size() - rest - hdrlen < (size_t)n) return r; r.push_back(b.substr(rest + hdrlen, (size_t)n)); rest += hdrlen + (size_t)n; }
        }
    }
    template <class S> S *mem() { mems.emplace_back(new Mem(sizeof(S))); return (S *)mems.back()->p; }
    // what must be refused: the socket passed is closed
    void bad_attach(int s) {
        Mem sb(64); memset(sb.p, 'q', 64); int h; size_t n;
        if (suffix) { n = oneofu(W, {33, 34, 64, 0}); bool nul = chance(W, 1, 4); if (nul && pick(W, 2)) n = 2; h = pick(W, 2) ? dill_suffix_attach_mem(s, nul ? NULL : sb.p, n, mem<dill_suffix_storage>()) : dill_suffix_attach(s, nul ? NULL : sb.p, n); }
        else { n = 0; h = pick(W, 2) ? dill_prefix_attach_mem(s, n, 0, mem<dill_prefix_storage>()) : dill_prefix_attach(s, n, 0); }
        int e = h < 0 ? errno : 0; if (h >= 0 || e != EINVAL) viol(tag, "bad-attach", "attaching with invalid arguments (length %zu) returned %d, %s", n, h, ename(e));
    }
    void bad_term(int s) { Mem sb(64); memset(sb.p, 'q', 64); size_t n = 33 + pick(W, 31); bool nul = pick(W, 3) == 0; if (nul) n = 1 + pick(W, 32); int h = pick(W, 2) ? dill_term_attach_mem(s, nul ? NULL : sb.p, n, mem<dill_term_storage>()) : dill_term_attach(s, nul ? NULL : sb.p, n); int e = h < 0 ? errno : 0; if (h >= 0 || e != EINVAL) viol(tag, "bad-attach", "term_attach with invalid arguments (length %zu) returned %d, %s", n, h, ename(e)); }
    int attach0(int s) {
        int h; bool mm = pick(W, 2);
        if (suffix) { Mem sb(suf.size()); memcpy(sb.p, suf.data(), suf.size()); h = mm ? dill_suffix_attach_mem(s, sb.p, suf.size(), mem<dill_suffix_storage>()) : dill_suffix_attach(s, sb.p, suf.size()); }
        else { int fl = big ? DILL_PREFIX_BIG_ENDIAN : DILL_PREFIX_LITTLE_ENDIAN; h = mm ? dill_prefix_attach_mem(s, hdrlen, fl, mem<dill_prefix_storage>()) : dill_prefix_attach(s, hdrlen, fl); }
        if (h < 0) viol(tag, "attach", "attach failed with %s", ename(errno)); return h;
    }
    int attach(int s) {
        int h = attach0(s); if (!term) return h; Mem tb(tm.size()); memcpy(tb.p, tm.data(), tm.size()); const char *p = tm.empty() && pick(W, 2) ? NULL : tb.p;
        int h2 = pick(W, 2) ? dill_term_attach_mem(h, p, tm.size(), mem<dill_term_storage>()) : dill_term_attach(h, p, tm.size());
        if (h2 < 0) viol(tag, "attach", "term_attach failed with %s", ename(errno)); return h2;
    }
    int detach0(int h, int64_t dl) { return suffix ? dill_suffix_detach(h, dl) : dill_prefix_detach(h); }
    void gone(int h, int u) { if (h == u) return; char c; if (dill_mrecv(h, &c, 0, 0) != -1 || errno != EBADF) viol((Str(tag) + " C27 C07").c_str(), "stale", "a detached handle is still accepted (%s)", ename(errno)); }
};
struct MsgT {
    Stack st; Base b; bool clean; int cancelled[2] = {0, 0}; bool gone = false; int nsent = 0, nrecv = 0, errs = 0, refused = 0, detached = 0;
    struct Side { int h = -1; std::vector<Str> m; size_t sent = 0, got = 0; bool serr = false, rerr = false, dfail = false, done = false, eof = false, early = false, doing = false, willdone = false; size_t take; } s[2];
    int64_t dl() { if (clean) return pick(W, 3) ? -1 : dill_now() + 40000000; switch (pick(W, 8)) { case 0: return 0; case 1: return -1; case 2: return dill_now() + pick(W, 5); default: return dill_now() + pick(W, 600); } }
    const char *tg() { return st.tag; }
    void fail(const char *what, int e, bool sticky, Watch &wt, int64_t d, int b) {
        ++errs; if (clean) viol(tg(), "failed", "%s failed with %s although nothing went wrong", what, ename(e));
        if (e == ETIMEDOUT) { if (d) check_timedout((Str("C04 ") + tg()).c_str(), what, wt, d); return; }
        if (e == ECANCELED) { if (!cancelled[b]) viol("C05", "canceled-outside", "ECANCELED although nobody cancels"); return; }
        if (e == ECONNRESET && (sticky || gone)) return;
        if (e == EPIPE && (gone || s[1 - b].done)) return;
        viol(tg(), "errno", "%s failed with %s", what, ename(e));
    }
    void odd_send(Side &a) { // what must be refused without an effect
        ++refused;
        if (pick(W, 2)) { BadList l; int rc = dill_msendl(a.h, l.f, l.la, -1); int e = rc ? errno : 0; l.check(tg(), "msendl", rc, e); return; }
        Str m; int want;
        if (st.suffix) { m = st.gen(); size_t p = pick(W, (uint32_t)m.size() + 1); m = m.substr(0, p) + st.suf + m.substr(p); if (!st.clash(m)) return; want = EINVAL; } // contains the delimiter
        else { if (st.hdrlen > 2 || (st.hdrlen == 2 && pick(W, 4))) return; m = pattern(((size_t)1 << (8 * st.hdrlen)) + pick(W, 300), 5); want = EMSGSIZE; }
        if (st.term && m == st.tm) return;
        SBuf x(m); int rc = x.send(a.h, -1); int e = rc ? errno : 0; x.after_call(tg(), "msend");
        if (!rc) viol(tg(), st.suffix ? "delimiter-sent" : "length-truncated", st.suffix ? "a message containing the delimiter was accepted" : "a message of %zu bytes was accepted although its length does not fit the header", m.size());
        if (e != want) viol(tg(), "refusal-errno", "a message which cannot be sent failed with %s", ename(e));
    }
    void sender(int i) {
        Side &a = s[i]; size_t n = a.m.size();
        for (size_t k = 0; k < n; ++k) {
            if (clean && chance(W, 1, 8)) odd_send(a);
            SBuf x(a.m[k]); int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); bool bad = a.serr; int rc = x.send(a.h, d); int e = rc ? errno : 0; ev("msend", i, k, e); x.after_call(tg(), "msend");
            if (!in_time(wt, d)) viol((Str("C04 ") + tg()).c_str(), "late", "msend returned long after its deadline");
            if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "msend with deadline 0 waited");
            if (!rc) { if (bad) viol((Str("C13 ") + tg()).c_str(), "revived", "msend succeeded after it had failed"); a.sent = k + 1; ++nsent; }
            else { fail("msend", e, bad, wt, d, i); a.serr = true; if (pick(W, 2)) return; }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
        if (st.term && !a.serr && a.willdone) {
            int64_t d = dl(); Watch wt; a.doing = true; int rc = dill_term_done(a.h, d); int e = rc ? errno : 0; ev("done", i, e);
            if (rc) { fail("term_done", e, false, wt, d, i); a.serr = a.dfail = true; if (pick(W, 2)) { int r2 = pick(W, 2) ? dill_term_done(a.h, 0) : dill_msend(a.h, "x", 1, 0); if (!r2 || errno == EPIPE) viol("C18 C13", "done-failed", "after term_done failed the next call returned %d, %s", r2, r2 ? ename(errno) : "0"); } return; }
            a.done = true; int r2 = dill_term_done(a.h, -1); if (r2 != -1 || errno != EPIPE) viol(tg(), "done-twice", "the second term_done returned %d, %s", r2, ename(errno));
            r2 = dill_msend(a.h, "x", 1, -1); if (r2 != -1 || errno != EPIPE) viol(tg(), "send-after-done", "msend after term_done returned %d, %s", r2, ename(errno));
        }
    }
    void receiver(int i) {
        Side &a = s[i], &o = s[1 - i]; size_t next = 0; bool bad = false;
        for (size_t k = 0; k < a.take + (st.term && !a.early && o.willdone ? 1 : 0); ++k) {
            bool last = k == o.m.size(); size_t len = last ? 0 : o.m[k].size();
            if (clean && chance(W, 1, 15)) { BadList l; int rc = (int)dill_mrecvl(a.h, l.f, l.la, -1); int e = rc < 0 ? errno : 0; l.check(tg(), "mrecvl", rc, e); }
            size_t cap = last ? pick(W, 30) : len + (pick(W, 3) ? 0 : pick(W, 100)); bool small = false;
            if (!clean && len && chance(W, 1, 12)) { cap = pick(W, (uint32_t)len); small = true; }
            RBuf r(cap); int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); ssize_t n = r.recv(a.h, d); int e = n < 0 ? errno : 0; ev("mrecv", i, n, e); r.after_call(tg(), "mrecvl");
            if (!in_time(wt, d)) viol((Str("C04 ") + tg()).c_str(), "late", "mrecv returned long after its deadline");
            if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "mrecv with deadline 0 waited");
            if (n >= 0) {
                if (last) viol(tg(), "invented", "a message was received which nobody sent");
                if (!bad) { if ((size_t)n != len || !r.same(o.m[k])) viol(tg(), (size_t)n != len ? "length" : "content", "message %zu: %zd bytes received, %zu sent%s", k, n, len, (size_t)n == len ? "; contents differ" : ""); next = k + 1; }
                else { size_t q = next; while (q < o.m.size() && !((size_t)n == o.m[q].size() && r.same(o.m[q]))) ++q; if (q >= o.m.size()) viol((Str("C13 ") + tg()).c_str(), "after-error", "after a failure mrecv returned something which is not a message sent"); next = q + 1; }
                if (small && !r.drop) viol(tg(), "oversize", "a message of %zu bytes was accepted into a buffer of %zu", len, cap);
                ++a.got; ++nrecv;
            } else {
                if (last && e == EPIPE) { // the terminal message, once and for all
                    a.eof = true; if (clean && pick(W, 2)) { char c; ssize_t r2 = dill_mrecv(a.h, &c, 1, -1); if (r2 != -1 || errno != EPIPE) viol(tg(), "receive-after-end", "mrecv after the terminal message returned %zd, %s", r2, ename(errno)); } return; }
                if (e == EMSGSIZE && small && !r.drop) { ++errs; bad = true; a.rerr = true; if (pick(W, 2)) return; continue; }
                fail("mrecv", e, bad, wt, d, i); bad = true; a.rerr = true; if (pick(W, 2)) return;
            }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
    }
    void raw_echo(int u[2]) { // both ends agree on the position in both directions
        for (int i = 0; i < 2; ++i) { Str d = pattern(40 + pick(W, 60), 77 + i); int bb = dill_bundle(); co_bgo(bb, [&] { dill_bsend(u[i], d.data(), d.size(), -1); }); Mem m(d.size()); if (dill_brecv(u[1 - i], m.p, d.size(), dill_now() + 360000000) || memcmp(m.p, d.data(), d.size())) viol((Str(tg()) + " C27").c_str(), "position", "after detaching, the underlying stream is not positioned after the last message"); dill_bundle_wait(bb, -1); dill_hclose(bb); }
    }
    void pair_run() {
        b.pair(tg()); int old[2] = {b.h[0], b.h[1]}; bool eb = !clean && chance(W, 1, 2);
        for (int i = 0; i < 2; ++i) { s[i].h = st.attach(b.h[i]); int n = pick(W, 12); size_t t = 0; for (int k = 0; k < n && t < 150000; ++k) { s[i].m.push_back(st.gen()); t += s[i].m.back().size(); } }
        for (int i = 0; i < 2; ++i) { s[i].take = s[1 - i].m.size(); s[i].willdone = pick(W, 2); }
        if (st.term && chance(W, 1, 3)) { int i = pick(W, 2); s[i].early = true; s[i].take = pick(W, (uint32_t)s[i].take + 1); }
        int bs[2], u[2] = {-1, -1};
        for (int i = 0; i < 2; ++i) { bs[i] = dill_bundle(); co_bgo(bs[i], [this, i] { sender(i); }); co_bgo(bs[i], [this, i] { receiver(i); }); }
        if (!clean) {
            int f = pick(W, 2); bool det[2];
            for (int k = 0; k < 2; ++k) { int i = k ^ f; if (pick(W, 2)) dill_bundle_wait(bs[i], dill_now() + pick(W, 900)); cancelled[i] = 1; dill_hclose(bs[i]);
                det[i] = pick(W, 3) == 0; gone = true; Watch wt; int64_t d = dill_now() + pick(W, 100);
                if (det[i]) { u[i] = st.term ? dill_term_detach(s[i].h, d) : st.detach0(s[i].h, d); if (!in_time(wt, d)) viol((Str("C04 ") + tg()).c_str(), "late", "detach returned long after its deadline"); st.gone(s[i].h, u[i]); if (u[i] >= 0 && (st.term ? s[i].dfail : s[i].serr || s[i].rerr)) viol((Str("C13 ") + tg()).c_str(), "detach-after-failure", "detaching succeeded after a transfer had failed in the middle of the stream"); if (u[i] >= 0) { if (dill_hclose(u[i])) viol((Str(tg()) + " C27").c_str(), "underlying", "detach returned a handle which is not valid"); } }
                else if (dill_hclose(s[i].h)) viol((Str(tg()) + " C27").c_str(), "hclose", "hclose failed with %s", ename(errno)); }
            return;
        }
        // each side detaches as soon as it is finished
        int det = dill_bundle();
        for (int i = 0; i < 2; ++i) co_bgo(det, [&, i] {
            if (dill_bundle_wait(bs[i], dill_now() + 360000000)) viol(tg(), "no-progress", "transferring messages does not finish: %s", ename(errno));
            dill_hclose(bs[i]); detaching[i] = true; int64_t d = pick(W, 2) ? -1 : dill_now() + 360000000; u[i] = st.term ? dill_term_detach(s[i].h, d) : st.detach0(s[i].h, d);
            if (u[i] < 0) viol(tg(), "detach", "detaching failed with %s", ename(errno)); if (st.term && !s[1 - i].doing && u[1 - i] < 0 && !detaching[1 - i]) viol(tg(), "detach-early", "term_detach returned before the peer ended"); st.gone(s[i].h, u[i]); ++detached; });
        if (dill_bundle_wait(det, dill_now() + 72000000)) viol(tg(), "detach-hangs", "detaching does not finish"); dill_hclose(det);
        if (st.term) { // the message protocol below is usable, also for what used to be the terminal message
            for (int i = 0; i < 2; ++i) { Str m = pick(W, 2) ? st.tm : st.gen(); int bb = dill_bundle(); co_bgo(bb, [&] { dill_msend(u[i], m.data(), m.size(), -1); }); Mem r(m.size() + 5); ssize_t n = dill_mrecv(u[1 - i], r.p, m.size() + 5, dill_now() + 360000000); if (n != (ssize_t)m.size() || memcmp(r.p, m.data(), n)) viol(tg(), "position", "after term_detach the peers disagree on the position in the message stream (%zd)", n); dill_bundle_wait(bb, -1); dill_hclose(bb); }
            for (int i = 0; i < 2; ++i) { int v = st.detach0(u[i], -1); if (v < 0) viol(tg(), "detach", "detaching the protocol below failed with %s", ename(errno)); u[i] = v; }
        }
        raw_echo(u); for (int i = 0; i < 2; ++i) dill_hclose(u[i]);
        (void)old; (void)eb;
    }
    bool detaching[2] = {false, false};
    // one end is a script: the bytes on the wire are exactly right
    void raw_run() {
        auto p = b.raw(tg()); int h = st.attach(b.h[0]); Str want; std::vector<Str> in; Str inb; int n = pick(W, 8); for (int i = 0; i < n; ++i) { in.push_back(st.gen()); inb += st.wire(in.back()); }
        Str tail = pattern(pick(W, 50), 9); bool termed = st.term; send_fragmented(p, inb + (termed ? st.wire(st.tm) : Str()) + tail, 1000);
        int bb = dill_bundle(); int k = pick(W, 8); bool done = false;
        co_bgo(bb, [&] { for (int i = 0; i < k; ++i) { Str m = st.gen(); SBuf x(m); if (x.send(h, -1)) viol(tg(), "failed", "msend failed with %s", ename(errno)); want += st.wire(m); } if (termed && pick(W, 2)) { if (dill_term_done(h, -1)) viol(tg(), "failed", "term_done failed"); want += st.wire(st.tm); done = true; } });
        for (int i = 0; i < n; ++i) { RBuf r(in[i].size() + (pick(W, 2) ? 0 : pick(W, 40))); ssize_t z = r.recv(h, dill_now() + 360000000); if (z != (ssize_t)in[i].size() || !r.same(in[i])) viol(tg(), "wire-in", "message %d from the wire: %zd bytes received, %zu sent (%s)", i, z, in[i].size(), z < 0 ? ename(errno) : "contents differ"); ++nrecv; }
        if (dill_bundle_wait(bb, dill_now() + 360000000)) viol(tg(), "no-progress", "sending does not finish"); dill_hclose(bb);
        int u = h; if (termed) { u = dill_term_detach(h, dill_now() + 360000000); if (u < 0) viol(tg(), "detach", "term_detach failed with %s", ename(errno)); if (!done) want += st.wire(st.tm); st.gone(h, u); h = u; }
        u = st.detach0(h, -1); if (u < 0) viol(tg(), "detach", "detach failed with %s", ename(errno)); st.gone(h, u);
        Mem m(tail.size()); if (dill_brecv(u, m.p, tail.size(), dill_now() + 360000000) || memcmp(m.p, tail.data(), tail.size())) viol((Str(tg()) + " C27").c_str(), "position", "after detaching, the underlying stream is not positioned after the last message");
        dill_bsend(u, "END", 3, -1); want += "END"; size_t had = p->rx.size(); for (int i = 0, still = 0; still < 200 && p->rx.size() < want.size(); ++i) { dill_msleep(dill_now() + 500); if (p->rx.size() != had) still = 0, had = p->rx.size(); else ++still; }
        if (p->rx != want) viol(tg(), "wire-out", "the bytes on the wire (%zu) are not the encoded messages (%zu)", p->rx.size(), want.size());
        dill_hclose(u); ++detached; nsent += k; p->close();
    }
    // whatever the far end sends: only complete messages come out, in order; otherwise errors, in time
    void hostile_run() {
        auto p = b.raw(tg()); int h = st.attach(b.h[0]); Str bytes; int n = pick(W, 8);
        for (int i = 0; i < n; ++i) switch (pick(W, 8)) {
            case 0: { int k = pick(W, 40); for (int j = 0; j < k; ++j) bytes += (char)pick(N, 256); break; }
            case 1: { Str w = st.wire(st.gen()); if (!w.empty()) w[pick(N, (uint32_t)w.size())] ^= 1 << pick(N, 8); bytes += w; break; }
            case 2: { Str w = st.wire(st.gen()); bytes += w.substr(0, pick(N, (uint32_t)w.size() + 1)); break; }
            case 3: if (st.term) { bytes += st.wire(st.tm); break; } // fall through
            case 4: bytes += Str(st.suffix ? 1 : st.hdrlen, (char)(pick(N, 2) ? 0xff : 0x80)); break;
            default: bytes += st.wire(st.gen()); }
        size_t rest; bool toolong; std::vector<Str> ms = st.decode(bytes, rest, toolong); size_t tend = ms.size(); if (st.term) for (size_t i = 0; i < ms.size(); ++i) if (ms[i] == st.tm) { tend = i; break; }
        bool intact = true; int end = pick(N, 4); int64_t t1 = send_fragmented(p, bytes, 1000, [p, end] { if (end == 1) p->shut(); else if (end == 2) p->close(); });
        if (end == 2) intact = false; if (end == 3) { intact = false; after(1 + pick(N, 200) * MS, [p] { p->reset(); }); } if (chance(N, 1, 4)) { p->autoread = false; }
        int64_t quiet = now_ns() + t1 + 1; bool bad = false; size_t next = 0; int ops = 3 + pick(W, 10);
        for (int i = 0; i < ops; ++i) {
            int64_t d = pick(W, 5) == 0 ? dill_now() + 360000000 : dill_now() + pick(W, 300);
            if (pick(W, 4) == 0) { SBuf x(st.gen()); Watch wt; if (d > dill_now() + 5000) d = dill_now() + 100; x.send(h, d); if (!in_time(wt, d)) viol("C30 C04", "late", "msend to a misbehaving peer returned long after its deadline"); continue; }
            size_t len = next < ms.size() ? ms[next].size() : 10; size_t cap = pick(W, 5) ? len + pick(W, 20) : pick(W, (uint32_t)len + 1); RBuf r(cap); Watch wt; if (next >= ms.size() && d > dill_now() + 5000) d = dill_now() + 500;
            ssize_t z = r.recv(h, d); int e = z < 0 ? errno : 0; r.after_call(tg(), "mrecvl"); ev("hrecv", z, e);
            if (!in_time(wt, d)) viol("C30 C04", "late", "mrecv from a misbehaving peer returned long after its deadline");
            if (z >= 0) {
                if (!r.drop && (size_t)z > cap) viol((Str("C30 ") + tg()).c_str(), "overlong", "mrecv returned %zd bytes into a buffer of %zu", z, cap);
                if (next >= tend || bad ? true : (size_t)z != ms[next].size() || !r.same(ms[next])) { if (bad) { size_t q = next; while (q < ms.size() && !((size_t)z == ms[q].size() && r.same(ms[q]))) ++q; if (q >= ms.size()) viol((Str("C30 ") + tg()).c_str(), "invented", "mrecv returned something the peer never sent as a message"); next = q; } else viol((Str("C30 ") + tg()).c_str(), "invented", "mrecv returned %zd bytes which are not message %zu of %zu the peer sent", z, next, ms.size()); }
                ++next; ++nrecv;
            } else { ++errs;
                if (e == EMSGSIZE) { if (next < ms.size() && (r.drop || cap >= ms[next].size())) viol(tg(), "spurious-emsgsize", "a message of %zu bytes did not fit a buffer of %zu", next < ms.size() ? ms[next].size() : 0, cap); if (st.term && next < ms.size() && ms[next].size() <= st.tm.size()) { ++next; continue; } }
                else if (e == ETIMEDOUT) { check_timedout("C30 C04", "mrecv", wt, d); if (!bad && intact && next < tend && d - wt.t0 / MS > 3000000 && now_ns() > quiet) viol((Str("C30 ") + tg()).c_str(), "stuck", "mrecv did not return a complete message within an hour"); }
                else if (e == EPIPE && st.term && next == tend && tend < ms.size()) { break; }
                else if (e == EPIPE || e == ECONNRESET) { if (!bad && e == EPIPE && next < tend && intact) viol(tg(), "lost", "the end was reported before message %zu of %zu was received", next, ms.size()); if (e == EPIPE && st.term && (!bad || tend >= ms.size())) viol(tg(), "false-end", "mrecv reported the end although the peer has not sent the terminal message"); }
                else viol("C30", "errno", "mrecv failed with %s", ename(e));
                bad = true; }
        }
        if (pick(W, 2)) { int64_t d = dill_now() + pick(W, 100); Watch wt; int u = st.term ? dill_term_detach(h, d) : st.detach0(h, d); if (!in_time(wt, d)) viol("C30 C04", "late", "detach returned long after its deadline"); if (u >= 0 && st.term && tend >= ms.size()) viol(tg(), "detach-without-end", "term_detach succeeded although the peer never sent the terminal message"); st.gone(h, u); if (u >= 0) dill_hclose(u); ++detached; } else dill_hclose(h);
        p->close(); dill_msleep(dill_now() + 300);
    }
    void run(const char *tag, bool hostile) {
        st.choose(tag); if (!hostile && chance(W, 1, 15)) { Base q; q.pair(tag); if (st.term && pick(W, 2)) { int m = st.attach0(q.h[0]); st.bad_term(m); } else { Stack t = {}; t.tag = tag; t.suffix = st.suffix; t.bad_attach(q.h[0]); }
            char c; int rc = dill_brecv(q.h[1], &c, 1, dill_now() + 360000000); if (rc >= 0 || (errno != EPIPE && errno != ECONNRESET)) viol((Str("C27 ") + tag).c_str(), "not-closed", "after a failed attach the peer got %d, %s", rc, ename(errno)); dill_hclose(q.h[1]); }
        int k = pick(W, 6); if (hostile) hostile_run(); else if (k == 0) hostile_run(); else if (k == 1) { clean = true; raw_run(); } else { clean = k < 5; pair_run(); }
        probe("msg.sent", nsent); probe("msg.received", nrecv); probe("msg.errors", errs); probe("msg.refused", refused); probe("msg.detached", detached); if (nrecv || errs || refused) nontrivial();
    }
};
void go(const char *tag, bool hostile) { randomize_common(true); proto_net(); if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; if (!strcmp(tag, "C18")) { if (cfg.ucap < 300) cfg.ucap = 300; if (cfg.scap < 300) cfg.scap = 300; if (cfg.rcap < 300) cfg.rcap = 300; } auto *m = new MsgT; m->run(tag, hostile); delete m; final_census((Str("C27 ") + tag).c_str()); }
}
SCENARIO(prefix) { go("C16", false); }
SCENARIO(suffix) { go("C17", false); }
SCENARIO(term) { go("C18", false); }
SCENARIO(msghostile) { static const char *t[] = {"C16", "C17", "C18"}; go(t[pick(W, 3)], true); }
