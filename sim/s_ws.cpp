// WebSocket on top of byte streams (C19), and hostile peers of theirs (C30).
#include "proto.h"
namespace {
// ---- an independent SHA-1, Base64 and frame codec -------------------------------------------
Str sha1(Str m) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; uint64_t bits = m.size() * 8; m += '\x80'; while (m.size() % 64 != 56) m += '\0'; for (int i = 7; i >= 0; --i) m += (char)(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = (uint8_t)m[o + 4 * i] << 24 | (uint8_t)m[o + 4 * i + 1] << 16 | (uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; ++i) { uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    Str r; for (int i = 0; i < 5; ++i) for (int j = 3; j >= 0; --j) r += (char)(h[i] >> (8 * j)); return r;
}
Str b64(const Str &s) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str r; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (i + 1 < s.size() ? (uint8_t)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (uint8_t)s[i + 2] : 0); r += A[v >> 18 & 63]; r += A[v >> 12 & 63]; r += i + 1 < s.size() ? A[v >> 6 & 63] : '='; r += i + 2 < s.size() ? A[v & 63] : '='; } return r; }
Str accept_key(const Str &k) { return b64(sha1(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
Str frame(bool fin, int op, const Str &d, bool masked, int form = 0, int rsv = 0) {
    Str r(1, (char)((fin ? 0x80 : 0) | rsv << 4 | op)); char m = masked ? (char)0x80 : 0; size_t n = d.size(); int f = n > 0xffff ? 2 : n > 125 ? 1 : 0; if (form > f) f = form;
    if (f == 0) r += (char)(m | (char)n); else if (f == 1) { r += (char)(m | 126); r += (char)(n >> 8); r += (char)n; } else { r += (char)(m | 127); for (int i = 7; i >= 0; --i) r += (char)((uint64_t)n >> (8 * i)); }
    if (!masked) return r + d; uint8_t k[4]; for (auto &x : k) x = (uint8_t)pick(N, 256); r.append((char *)k, 4); for (size_t i = 0; i < n; ++i) r += (char)(d[i] ^ k[i % 4]); return r;
}
struct Ev { enum K { MSG, CLOSE, ERROR, MORE } k; bool text = false; Str d; int code = 0; uint64_t more = 0; size_t pending = 0, end = 0; };
// what a byte string contains for an endpoint which expects masked frames or not; the last event is never MSG
// a control frame whose length is encoded in a longer form than needed (or might be): refusing and accepting it are both all right; the bytes from *ambiguous on say nothing then
std::vector<Ev> decode(const Str &b, bool masked, bool strict = false, size_t *ambiguous = NULL) {
    std::vector<Ev> r; size_t o = 0; bool started = false; Ev cur; cur.k = Ev::MSG;
    auto finish = [&](Ev::K k) { Ev e = cur; e.k = k; if (!started) e.d.clear(); e.pending = e.d.size(); e.end = o; r.push_back(e); return r; };
    for (;;) {
        if (b.size() - o < 2) return finish(Ev::MORE);
        uint8_t h0 = b[o], h1 = b[o + 1]; int op = h0 & 15; bool fin = h0 & 0x80; size_t p = o + 2; if (h0 & 0x70 || (op > 2 && op < 8) || op > 10) return finish(Ev::ERROR); if (!!(h1 & 0x80) != masked) return finish(Ev::ERROR);
        if ((op == 0 && !started) || ((op == 1 || op == 2) && started)) return finish(Ev::ERROR);
        uint64_t n = h1 & 127; if (op >= 8 && n > 125 && ambiguous) { size_t w = n == 126 ? 2 : 8; uint64_t l = 0; for (size_t i = 0; i < w && p + i < b.size(); ++i) l = l << 8 | (uint8_t)b[p + i]; if (b.size() < p + w || l <= 125) *ambiguous = o; } if (op >= 8 && (n > 125 || !fin)) return finish(Ev::ERROR);
        if (n == 126) { if (b.size() < p + 2) return finish(Ev::MORE); n = (uint8_t)b[p] << 8 | (uint8_t)b[p + 1]; p += 2; if (strict && n < 126) return finish(Ev::ERROR); } else if (n == 127) { if (b.size() < p + 8) return finish(Ev::MORE); n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | (uint8_t)b[p + i]; p += 8; if (n >> 63) return finish(Ev::ERROR); if (strict && n < 65536) return finish(Ev::ERROR); }
        uint8_t k[4] = {0}; if (masked) { if (b.size() < p + 4) return finish(Ev::MORE); memcpy(k, b.data() + p, 4); p += 4; }
        if (op < 8 && op) { started = true; cur.text = op == 1; cur.d.clear(); }
        Str d = b.substr(p, (size_t)std::min<uint64_t>(n, b.size() - p)); if (masked) for (size_t i = 0; i < d.size(); ++i) d[i] ^= k[i % 4];
        if (b.size() - p < n) { if (op < 8) cur.d += d; Ev e = cur; if (op >= 8 && !started) e.d.clear(); e.k = Ev::MORE; e.pending = e.d.size(); if (op < 8) e.more = n - d.size(); e.end = o; r.push_back(e); return r; }
        p += n;
        if (op == 8) { Ev e; e.k = Ev::CLOSE; e.pending = started ? cur.d.size() : 0; if (n == 1) return finish(Ev::ERROR); if (n >= 2) { e.code = (uint8_t)d[0] << 8 | (uint8_t)d[1]; e.d = d.substr(2); if (e.code < 1000 || e.code > 4999) return finish(Ev::ERROR); } e.end = p; r.push_back(e); return r; }
        o = p; if (op > 8) continue; cur.d += d; if (fin) { cur.end = o; r.push_back(cur); started = false; cur.d.clear(); }
    }
}
struct Msg { bool text; Str d; };
Msg genmsg(size_t max) { Msg m; m.text = pick(W, 2); size_t n; switch (pick(W, 8)) { case 0: n = 0; break; case 1: n = oneofu(W, {125, 126, 127, 124, 1, 2, 4}); break; case 2: n = pick(W, (uint32_t)max + 1); break; default: n = pick(W, 150); } n = std::min(n, max); m.d = pattern(n, pick(W, 1000)); return m; }
// a message as a peer may send it: fragments, control frames in between, any length encoding
Str wire(const Msg &m, bool masked) {
    if (pick(N, 3)) return frame(true, m.text ? 1 : 2, m.d, masked); Str r; int k = 1 + pick(N, 4); size_t o = 0;
    for (int i = 0; i < k; ++i) { size_t n = i == k - 1 ? m.d.size() - o : pick(N, (uint32_t)(m.d.size() - o) + 1); if (pick(N, 3) == 0) r += frame(true, 9 + pick(N, 2), pattern(pick(N, 4) ? pick(N, 20) : 125, 3), masked); r += frame(i == k - 1, i ? 0 : m.text ? 1 : 2, m.d.substr(o, n), masked); o += n; }
    return r;
}
struct WsT {
    Base b; bool clean = true, gone = false, http = false; int cancelled = 0; std::vector<std::unique_ptr<Mem>> mems; int nsent = 0, nrecv = 0, errs = 0, refused = 0, detached = 0, shakes = 0, nkeys = 0; Str resource, host;
    struct Side { int h = -1, u = -1; bool text = false; std::vector<Msg> m; bool explicit_done = false, done = false, doing = false, serr = false, detaching = false, eof = false, rerr = false; int code = 0; Str reason; } s[2];
    int64_t dl() { if (clean) return pick(W, 3) ? -1 : dill_now() + 40000000; switch (pick(W, 8)) { case 0: return 0; case 1: return -1; case 2: return dill_now() + pick(W, 5); default: return dill_now() + pick(W, 600); } }
    Str htok(size_t max) { Str r; size_t n = 1 + pick(W, (uint32_t)max); for (size_t i = 0; i < n; ++i) r += "abcXYZ019./-_~%:"[pick(W, 16)]; return r; }
    int attach(int u, bool server, bool text, int64_t d, size_t rl = 300, size_t hl = 300, Str *gr = nullptr, Str *gh = nullptr) {
        int fl = (text ? DILL_WS_TEXT : DILL_WS_BINARY) | (http ? 0 : DILL_WS_NOHTTP); bool mm = pick(W, 2); dill_ws_storage *st = nullptr; if (mm) { mems.emplace_back(new Mem(sizeof(dill_ws_storage))); st = (dill_ws_storage *)mems.back()->p; }
        if (!server) return mm ? dill_ws_attach_client_mem(u, fl, http ? resource.c_str() : NULL, http ? host.c_str() : NULL, st, d) : dill_ws_attach_client(u, fl, http ? resource.c_str() : NULL, http ? host.c_str() : NULL, d);
        Mem r(rl), h(hl); int rc = mm ? dill_ws_attach_server_mem(u, fl, http ? r.p : NULL, rl, http ? h.p : NULL, hl, st, d) : dill_ws_attach_server(u, fl, http ? r.p : NULL, rl, http ? h.p : NULL, hl, d); int e = errno;
        if (rc >= 0 && http) { gr->assign(r.p, strnlen(r.p, rl)); gh->assign(h.p, strnlen(h.p, hl)); if (gr->size() == rl || gh->size() == hl) viol("C19", "unterminated", "the resource or host is not terminated within its buffer"); } errno = e; return rc;
    }
    void fail(const char *what, int e, bool sticky, Watch &wt, int64_t d, int i) {
        ++errs; if (clean) viol("C19", "failed", "%s failed with %s although nothing went wrong", what, ename(e));
        if (e == ETIMEDOUT) { if (d) check_timedout("C04 C19", what, wt, d); return; }
        if (e == ECANCELED) { if (!(cancelled & 1 << i)) viol("C05", "canceled-outside", "ECANCELED although nobody cancels"); return; }
        if (e == ECONNRESET && (sticky || gone)) return;
        if (e == EPIPE && (what[3] == 's' ? gone : s[1 - i].detaching || s[1 - i].doing)) return;
        viol("C19", "errno", "%s failed with %s", what, ename(e));
    }
    int send(int h, const Msg &m, bool sock_text, int64_t d) {
        SBuf x(m.d); int fl = m.text ? DILL_WS_TEXT : DILL_WS_BINARY; bool generic = m.text == sock_text && pick(W, 2); int rc;
        if (generic) rc = x.send(h, d); else rc = x.list ? dill_ws_sendl(h, fl, x.l.first(), x.l.last(), d) : dill_ws_send(h, fl, x.m->p, x.d.size(), d); int e = errno; x.after_call("C19", "ws_send"); errno = e; return rc;
    }
    // generic: 1 if mrecv was used, so that a message of the other type is refused
    ssize_t recv(int h, RBuf &r, bool &generic, int &flags, int64_t d) { generic = pick(W, 3) == 0; flags = -1; ssize_t n; if (generic) n = r.recv(h, d); else if (r.drop) n = dill_ws_recvl(h, pick(W, 4) ? &flags : NULL, NULL, NULL, d); else n = r.list ? dill_ws_recvl(h, &flags, r.l.first(), r.l.last(), d) : dill_ws_recv(h, &flags, r.m->p, r.cap, d); int e = errno; r.after_call("C19", "ws_recv"); errno = e; return n; }
    void status(int h, int code, const Str &reason) { // what the peer said when it closed
        int st = -1; Mem m(reason.size()); ssize_t n = dill_ws_status(h, &st, m.p, reason.size()); if (n != (ssize_t)reason.size() || st != code || memcmp(m.p, reason.data(), n)) viol("C19", "status", "ws_status says code %d and %zd bytes; the peer sent %d and %zu (%s)", st, n, code, reason.size(), n < 0 ? ename(errno) : "");
        if (!reason.empty() && pick(W, 2)) { n = dill_ws_status(h, &st, m.p, reason.size() - 1); if (n != -1 || errno != EMSGSIZE) viol("C19", "status-emsgsize", "ws_status with a short buffer returned %zd, %s", n, ename(errno)); } if (pick(W, 2) && dill_ws_status(h, NULL, NULL, 0) != (ssize_t)reason.size()) viol("C19", "status", "ws_status without a buffer does not return the length");
    }
    void odd(int h) { ++refused; int rc; const char *what; switch (pick(W, 4)) { case 0: { BadList l; rc = pick(W, 2) ? dill_msendl(h, l.f, l.la, -1) : dill_ws_sendl(h, DILL_WS_TEXT, l.f, l.la, -1); int e = rc ? errno : 0; l.check("C19", "ws_sendl", rc, e); return; }
            case 1: what = "an invalid code"; rc = dill_ws_done(h, oneofu(W, {999, 1, 5000, 70000}), NULL, 0, -1); break; case 2: { Str x(124 + pick(W, 200), 'x'); what = "a reason longer than 123 bytes"; rc = dill_ws_done(h, 1000, x.data(), x.size(), -1); break; } default: what = "a missing reason"; rc = dill_ws_done(h, 1000, NULL, 5, -1); }
        if (rc != -1 || errno != EINVAL) viol("C19", "invalid-done", "ws_done with %s returned %d, %s", what, rc, ename(errno)); }
    void sender(int i) {
        Side &a = s[i];
        for (size_t k = 0; k < a.m.size(); ++k) {
            if (clean && chance(W, 1, 8)) odd(a.h); if (chance(W, 1, 10) && !a.eof) { int st; if (dill_ws_status(a.h, &st, NULL, 0) >= 0) { if (!s[1 - i].doing && !s[1 - i].detaching) viol("C19", "status-early", "ws_status succeeded although the peer has not closed"); } else if (errno != EAGAIN) viol("C19", "status-early", "ws_status before the end failed with %s", ename(errno)); }
            int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); bool bad = a.serr; int rc = send(a.h, a.m[k], a.text, d), e = rc < 0 ? errno : 0; ev("send", i, k, e); if (!in_time(wt, d)) viol("C04 C19", "late", "a WebSocket send returned long after its deadline"); if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "a send with deadline 0 waited");
            if (!rc) { if (bad) viol("C19 C13", "revived", "a send succeeded after one had failed"); ++nsent; } else { fail("ws_send", e, bad, wt, d, i); a.serr = true; if (pick(W, 2)) return; }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
        if (!a.explicit_done || a.serr) return;
        int64_t d = dl(); Watch wt; a.doing = true; int rc = dill_ws_done(a.h, a.code, a.reason.empty() && pick(W, 2) ? NULL : a.reason.data(), a.reason.size(), d), e = rc ? errno : 0; ev("done", i, e); if (!in_time(wt, d)) viol("C04 C19", "late", "ws_done returned long after its deadline");
        if (rc) { fail("ws_sdone", e, false, wt, d, i); a.serr = true; return; }
        a.done = true; int r2 = dill_ws_done(a.h, 1000, NULL, 0, -1); if (r2 != -1 || errno != EPIPE) viol("C19", "done-twice", "the second ws_done returned %d, %s", r2, ename(errno)); r2 = send(a.h, genmsg(10), a.text, -1); if (r2 != -1 || errno != EPIPE) viol("C19", "send-after-done", "sending after ws_done returned %d, %s", r2, ename(errno));
    }
    void receiver(int i) {
        Side &a = s[i], &o = s[1 - i]; bool bad = false; size_t next = 0; size_t n = o.m.size() + (o.explicit_done ? 1 : 0);
        for (size_t k = 0; k < n; ++k) {
            bool last = k == o.m.size(); size_t len = last ? 0 : o.m[k].d.size(); size_t cap = last ? pick(W, 30) : len + (pick(W, 3) ? 0 : pick(W, 100)); bool small = false; if (!clean && len && chance(W, 1, 12)) { cap = pick(W, (uint32_t)len); small = true; }
            if (clean && chance(W, 1, 15)) { BadList l; int rc = (int)dill_mrecvl(a.h, l.f, l.la, -1); int e = rc < 0 ? errno : 0; if (!(rc < 0 && e == EPIPE && a.eof)) l.check("C19", "mrecvl", rc, e); }
            RBuf r(cap); int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); bool generic; int fl; ssize_t g = recv(a.h, r, generic, fl, d); int e = g < 0 ? errno : 0; ev("recv", i, g, e); if (!in_time(wt, d)) viol("C04 C19", "late", "a WebSocket receive returned long after its deadline"); if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "a receive with deadline 0 waited");
            bool mismatch = generic && !last && o.m[k].text != a.text;
            if (g >= 0) {
                if (last) viol("C19", "invented", "a message was received which nobody sent"); ++nrecv; if (small && !r.drop) viol("C19", "oversize", "a message of %zu bytes was accepted into a buffer of %zu", len, cap);
                if (!bad) { if ((size_t)g != len || !r.same(o.m[k].d)) viol("C19", (size_t)g != len ? "length" : "content", "message %zu: %zd bytes received, %zu sent%s", k, g, len, (size_t)g == len ? "; contents differ" : ""); if (mismatch) viol("C19", "type", "mrecv accepted a message of the other type"); if (fl >= 0 && !!(fl & DILL_WS_TEXT) != o.m[k].text) viol("C19", "type", "a message was received with the wrong type"); next = k + 1; }
                else viol("C19 C13", "after-error", "a message was received after a failure");
            } else {
                if (last && e == EPIPE && (o.done || o.doing)) { a.eof = true; if (o.done) status(a.h, o.code, o.reason); if (clean && pick(W, 2)) { char c; ssize_t r2 = dill_mrecv(a.h, &c, 1, -1); if (r2 != -1 || errno != EPIPE) viol("C19", "receive-after-end", "receiving after the closing frame returned %zd, %s", r2, ename(errno)); } return; }
                if (mismatch && e == EPROTO && !bad && !(small && !r.drop)) { next = k + 1; continue; }
                if (e == EMSGSIZE && small && !r.drop && !bad) { ++errs; bad = true; a.rerr = true; if (pick(W, 2)) return; continue; }
                fail("ws_recv", e, bad, wt, d, i); if (e == EPIPE) return; bad = true; a.rerr = true; if (pick(W, 2)) return;
            }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
    }
    void gen_side(Side &a) { int n = pick(W, 10); size_t t = 0; a.text = pick(W, 2); size_t max = chance(W, 1, 15) ? 67000 : 1500; for (int k = 0; k < n && t < 70000; ++k) { a.m.push_back(genmsg(max)); if (max > 60000 && pick(W, 2)) { a.m.back().d = pattern(65534 + pick(W, 4), 3); max = 1500; } t += a.m.back().d.size(); } a.explicit_done = pick(W, 3); a.code = oneofu(W, {0, 1000, 1001, 4999, 3000}); if (a.code) a.reason = pattern(oneofu(W, {0, 2, 123, 1, 20}), 4); }
    void stale(int h, int u) { if (h == u) return; int st; if (dill_ws_status(h, &st, NULL, 0) != -1 || errno != EBADF) viol("C19 C27 C07", "stale", "a detached handle is still accepted (%s)", ename(errno)); }
    void pair_run() {
        b.pair("C19", false); http = pick(W, 2); resource = "/" + htok(30); host = htok(40); gen_side(s[0]); gen_side(s[1]); bool ok = true; Str gr, gh;
        { // the opening handshake
            int bb = dill_bundle(); int64_t d[2]; for (int i = 0; i < 2; ++i) d[i] = dl(); Watch wt; bool killed = false;
            for (int i = 0; i < 2; ++i) co_bgo(bb, [&, i] { int rc = attach(b.h[i], i == 1, s[i].text, d[i], 300, 300, &gr, &gh); int e = rc < 0 ? errno : 0; ev("attach", i, rc < 0, e); if (!in_time(wt, d[i])) viol("C04 C19", "late", "attaching returned long after its deadline");
                if (rc < 0) { if (clean) viol("C19", "attach", "attaching failed with %s", ename(e)); if (!http) { if (d[i] == -1 && !killed) viol("C19", "attach", "attaching failed with %s", ename(e)); } else if (e == ETIMEDOUT) { if (d[i]) check_timedout("C04 C19", "ws_attach", wt, d[i]); } else if (!(e == ECANCELED && killed) && e != ECONNRESET && e != EPIPE) viol("C19", "errno", "attaching failed with %s", ename(e)); gone = true; ok = false; }
                s[i].h = rc; });
            if (clean) { if (dill_bundle_wait(bb, dill_now() + 360000000)) viol("C19", "no-progress", "the opening handshake does not finish"); } else { dill_bundle_wait(bb, dill_now() + pick(W, 3000)); }
            killed = true; dill_hclose(bb); for (int i = 0; i < 2; ++i) if (s[i].h < 0) ok = false;
            if (!ok) { for (int i = 0; i < 2; ++i) if (s[i].h >= 0) dill_hclose(s[i].h); ++errs; return; }
            if (http) { ++shakes; if (gr != resource || gh != host) viol("C19", "handshake", "the server got resource '%s' and host '%s', the client sent '%s' and '%s'", gr.c_str(), gh.c_str(), resource.c_str(), host.c_str()); }
        }
        int bs[2]; for (int i = 0; i < 2; ++i) { bs[i] = dill_bundle(); co_bgo(bs[i], [this, i] { sender(i); }); co_bgo(bs[i], [this, i] { receiver(i); }); }
        if (!clean) {
            int f = pick(W, 2);
            for (int k = 0; k < 2; ++k) { int i = k ^ f; if (pick(W, 2)) dill_bundle_wait(bs[i], dill_now() + pick(W, 900)); cancelled |= 1 << i; dill_hclose(bs[i]); gone = true; Watch wt; int64_t d = dill_now() + pick(W, 100);
                if (pick(W, 3) == 0) { s[i].detaching = true; int u = dill_ws_detach(s[i].h, 1000, "x", 1, d); int e = errno; if (!in_time(wt, d)) viol("C04 C19", "late", "ws_detach returned long after its deadline"); if (u < 0 && e == ETIMEDOUT) check_timedout("C04 C19", "ws_detach", wt, d); if (u >= 0) { ++detached; if (!s[1 - i].doing && !s[1 - i].detaching) viol("C19", "detach-early", "ws_detach succeeded although the peer never closed"); if (dill_hclose(u)) viol("C19 C27", "underlying", "ws_detach returned a handle which is not valid"); } stale(s[i].h, u); }
                else if (dill_hclose(s[i].h)) viol("C19 C27", "hclose", "hclose failed with %s", ename(errno)); }
            return;
        }
        int det = dill_bundle();
        for (int i = 0; i < 2; ++i) co_bgo(det, [&, i] {
            if (dill_bundle_wait(bs[i], dill_now() + 360000000)) viol("C19", "no-progress", "exchanging messages does not finish: %s", ename(errno)); dill_hclose(bs[i]); s[i].detaching = true;
            int u = dill_ws_detach(s[i].h, s[i].code, s[i].reason.data(), s[i].reason.size(), pick(W, 2) ? -1 : dill_now() + 360000000); if (u < 0) viol("C19", "detach", "ws_detach failed with %s", ename(errno)); if (!s[1 - i].doing && !s[1 - i].detaching) viol("C19", "detach-early", "ws_detach returned before the peer closed");
            stale(s[i].h, u); s[i].u = u; ++detached; });
        if (dill_bundle_wait(det, dill_now() + 72000000)) viol("C19", "detach-hangs", "detaching does not finish"); dill_hclose(det);
        for (int i = 0; i < 2; ++i) { Str d = pattern(40 + pick(W, 60), 77 + i); int bb = dill_bundle(); co_bgo(bb, [&] { dill_bsend(s[i].u, d.data(), d.size(), -1); }); Mem m(d.size()); if (dill_brecv(s[1 - i].u, m.p, d.size(), dill_now() + 360000000) || memcmp(m.p, d.data(), d.size())) viol("C19 C27", "position", "after detaching, the underlying stream is not positioned after the closing frame"); dill_bundle_wait(bb, -1); dill_hclose(bb); }
        for (int i = 0; i < 2; ++i) dill_hclose(s[i].u);
    }
    // ---- one end is a script -------------------------------------------------------------------
    static Str field(const Str &hdr, const Str &name, int *count = nullptr) { Str r; int n = 0; size_t o = hdr.find("\r\n") + 2; while (o < hdr.size()) { size_t e = hdr.find("\r\n", o); if (e == Str::npos || e == o) break; Str l = hdr.substr(o, e - o); size_t c = l.find(": "); if (c == name.size() && !strncasecmp(l.data(), name.data(), c)) { r = l.substr(c + 2); ++n; } o = e + 2; } if (count) *count = n; return r; }
    Str vary(const Str &name) { Str r = name; if (pick(N, 3) == 0) for (auto &c : r) if (pick(N, 2)) c = (char)(islower(c) ? toupper(c) : tolower(c)); return r; }
    Str assemble(const Str &first, std::vector<Str> f) { if (pick(N, 3) == 0) f.push_back("X-Other: a, b: c"); for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[pick(N, (uint32_t)i)]); Str r = first + "\r\n"; for (auto &x : f) r += x + "\r\n"; return r + "\r\n"; }
    // returns whether the answer is right
    bool spoil(std::vector<Str> &f, Str &first, bool server, const Str &key) { (void)key; switch (pick(N, 9)) { case 0: f.erase(f.begin() + pick(N, (uint32_t)f.size())); return false; case 1: { Str x = f[pick(N, (uint32_t)f.size())]; f.push_back(x); return false; }
            case 2: { Str &x = f[server ? 2 : pick(N, (uint32_t)f.size())]; if (!server && !strncasecmp(x.data(), "Host", 4)) { x += "yz"; return true; } size_t c = x.find(": ") + 2; size_t last = x.size() - 1; while (last > c && x[last] == '=') --last; size_t at = c + pick(N, (uint32_t)(last - c)); if (!server && !strncasecmp(x.data(), "Sec-WebSocket-Key", 17)) { x = pick(N, 2) ? x.substr(0, c + pick(N, 20)) : x.substr(0, x.size() - 2) + oneof(N, std::vector<Str>{"A=", "AA", "AA" "QQ==", "AAAAAAAA", "AAAAAAAAAAAAAAA="}); return false; } x[at] = x[at] == 'q' ? 'z' : 'q'; return false; }
            case 3: first = server ? (pick(N, 2) ? "HTTP/1.1 200 OK" : "HTTP/1.0 101 Switching Protocols") : Str(oneof(N, std::vector<Str>{"POST / HTTP/1.1", "GET / HTTP/1.0", "G / HTTP/1.1", "GETX / HTTP/1.1", "get / HTTP/1.1"})); return false; case 4: first = "nonsense"; return false; case 5: f.push_back("no colon"); return false; case 6: if (server) { Str &x = f[2]; x = x.substr(0, x.find(": ") + 2) + "xxx"; return false; } f.push_back(Str("X-Long: ") + Str(200, 'x')); return true; case 7: { Str &x = f[0]; x = x.substr(0, x.find(": ") + 2) + "h2c"; return !strncasecmp(x.data(), "Host", 4); } default: return true; } }
    bool autoreply(std::shared_ptr<RawPeer> p, bool allow_spoil, bool *good) { // the script is the server: answers the request
        *good = true; auto done = std::make_shared<bool>(false); p->on_data = [this, p, done, allow_spoil, good] {
            if (*done) return; size_t e = p->rx.find("\r\n\r\n"); if (e == Str::npos) return; *done = true; Str hdr = p->rx.substr(0, e + 4); p->rx.erase(0, e + 4); int n; Str key = field(hdr, "Sec-WebSocket-Key", &n);
            if (hdr.substr(0, hdr.find("\r\n")) != "GET " + resource + " HTTP/1.1" || n != 1 || key.size() != 24 || key.substr(22) != "==" || field(hdr, "Host") != host || strcasecmp(field(hdr, "Upgrade").c_str(), "websocket") || strcasecmp(field(hdr, "Connection").c_str(), "Upgrade") || field(hdr, "Sec-WebSocket-Version") != "13") viol("C19", "request", "the client's opening handshake is wrong: %s", hdr.c_str());
            std::vector<Str> f = {vary("Upgrade") + ": " + vary("websocket"), vary("Connection") + ": " + vary("Upgrade"), vary("Sec-WebSocket-Accept") + ": " + accept_key(key)}; Str first = "HTTP/1.1 101 Switching Protocols"; if (allow_spoil) *good = spoil(f, first, true, key); ++shakes; send_fragmented(p, assemble(first, f), 1000); }; return true;
    }
    Str request(Str &key, bool allow_spoil, bool *good) { Str nonce; for (int i = 0; i < 16; ++i) nonce += (char)pick(N, 256); key = b64(nonce); std::vector<Str> f = {vary("Host") + ": " + host, vary("Upgrade") + ": " + vary("websocket"), vary("Connection") + ": " + vary("Upgrade"), vary("Sec-WebSocket-Key") + ": " + key, vary("Sec-WebSocket-Version") + ": 13"}; Str first = "GET " + resource + " HTTP/1.1"; *good = true; if (allow_spoil) *good = spoil(f, first, false, key); return assemble(first, f); }
    // attaches the library's end; -1 if it was refused (allowed only with a spoilt handshake)
    int shake(std::shared_ptr<RawPeer> p, bool server, bool text, bool allow_spoil, bool hostile) {
        http = pick(W, 2); resource = "/" + htok(30); host = htok(40); if (!http) return attach(b.h[0], server, text, -1); bool good = true; Str key, gr, gh; int64_t d = dill_now() + 360000000; Watch wt;
        if (server) { Str rq = request(key, allow_spoil, &good); send_fragmented(p, rq, 1000); } else autoreply(p, allow_spoil, &good);
        int h = attach(b.h[0], server, text, d, 300, 300, &gr, &gh); if (!in_time(wt, d)) viol("C30 C19 C04", "late", "attaching returned long after its deadline"); p->on_data = nullptr; if (hostile && h < 0) return -1;
        if (good && h < 0) viol("C19", "handshake", "a correct opening handshake failed with %s", ename(errno)); if (!good && h >= 0) viol("C19 C30", "handshake-forged", "the opening handshake succeeded with a peer which did not do it right");
        if (!good && errno != EPROTO && errno != ECONNRESET && errno != ETIMEDOUT && errno != EMSGSIZE) viol("C19", "handshake-errno", "the opening handshake failed with %s", ename(errno));
        if (h >= 0 && server) { if (gr != resource) viol("C19", "handshake", "resource '%s' instead of '%s'", gr.c_str(), resource.c_str()); ++shakes; wait_rx(p, [&] { return p->rx.find("\r\n\r\n") != Str::npos; }); size_t e = p->rx.find("\r\n\r\n"); Str hdr = e == Str::npos ? p->rx : p->rx.substr(0, e + 4); if (e != Str::npos) p->rx.erase(0, e + 4); if (hdr.compare(0, 13, "HTTP/1.1 101 ") || field(hdr, "Sec-WebSocket-Accept") != accept_key(key) || strcasecmp(field(hdr, "Upgrade").c_str(), "websocket") || strcasecmp(field(hdr, "Connection").c_str(), "Upgrade")) viol("C19", "response", "the server's opening handshake is wrong: %s", hdr.c_str()); }
        return h;
    }
    template <class P> void wait_rx(std::shared_ptr<RawPeer> p, P pred) { size_t had = p->rx.size(); for (int still = 0; still < 200 && !pred();) { dill_msleep(dill_now() + 500); if (p->rx.size() != had) still = 0, had = p->rx.size(); else ++still; } }
    void raw_run() {
        auto p = b.raw("C19"); bool server = pick(W, 2); Side in, out; gen_side(in); gen_side(out); in.text = out.text; bool spoilt = pick(W, 3) == 0; int h = shake(p, server, out.text, spoilt, false); if (h < 0) { ++errs; p->close(); dill_msleep(dill_now() + 300); return; }
        p->rx.clear(); Str bytes; for (auto &m : in.m) bytes += wire(m, server); Str cl; if (in.code) { cl += (char)(in.code >> 8); cl += (char)in.code; cl += in.reason; } bytes += frame(true, 8, cl, server); Str tail = pattern(pick(W, 50), 9); bytes += tail; send_fragmented(p, bytes, 1000);
        int bb = dill_bundle(); co_bgo(bb, [&] { for (auto &m : out.m) { if (send(h, m, out.text, -1)) viol("C19", "failed", "sending failed with %s", ename(errno)); ++nsent; } if (out.explicit_done && dill_ws_done(h, out.code, out.reason.data(), out.reason.size(), -1)) viol("C19", "failed", "ws_done failed"); });
        for (size_t k = 0; k <= in.m.size(); ++k) { bool last = k == in.m.size(); RBuf r(last ? 10 : in.m[k].d.size() + (pick(W, 2) ? 0 : pick(W, 40))); bool generic; int fl; if (last && pick(W, 2)) break; ssize_t z = recv(h, r, generic, fl, dill_now() + 360000000); if (last) { if (z != -1 || errno != EPIPE) viol("C19", "end", "the closing frame was reported as %zd, %s", z, ename(errno)); status(h, in.code, in.reason); break; }
            if (z < 0 && errno == EPROTO && generic && in.m[k].text != out.text) continue; if (z != (ssize_t)in.m[k].d.size() || !r.same(in.m[k].d)) viol("C19", "wire-in", "message %zu from the wire: %zd bytes received, %zu sent (%s)", k, z, in.m[k].d.size(), z < 0 ? ename(errno) : "contents differ"); if (fl >= 0 && !!(fl & DILL_WS_TEXT) != in.m[k].text) viol("C19", "type", "a message was received with the wrong type"); ++nrecv; }
        if (dill_bundle_wait(bb, dill_now() + 360000000)) viol("C19", "no-progress", "sending does not finish"); dill_hclose(bb);
        int u = dill_ws_detach(h, out.code, out.reason.data(), out.reason.size(), dill_now() + 360000000); if (u < 0) viol("C19", "detach", "ws_detach failed with %s", ename(errno)); ++detached; stale(h, u);
        Mem m(tail.size()); if (dill_brecv(u, m.p, tail.size(), dill_now() + 360000000) || memcmp(m.p, tail.data(), tail.size())) viol("C19 C27", "position", "after detaching, the underlying stream is not positioned after the closing frame");
        dill_bsend(u, "END", 3, -1); wait_rx(p, [&] { return p->rx.size() >= 3 && p->rx.substr(p->rx.size() - 3) == "END"; }); dill_msleep(dill_now() + 1000);
        std::vector<Ev> es = decode(p->rx, !server, true); if (es.back().k != Ev::CLOSE || es.size() != out.m.size() + 1) viol("C19", "wire-out", "an independent decoder reads %zu messages, %zu were sent%s", es.size() - 1, out.m.size(), es.back().k == Ev::ERROR ? ", then an error" : es.back().k == Ev::MORE ? " and no closing frame" : "");
        for (size_t i = 0; i < out.m.size(); ++i) if (es[i].text != out.m[i].text || es[i].d != out.m[i].d) viol("C19", "wire-out", "an independent decoder reads a different message %zu", i); if (es.back().code != out.code || es.back().d != out.reason) viol("C19", "wire-out", "an independent decoder reads a different closing code or reason"); if (p->rx.substr(es.back().end) != "END") viol("C19", "wire-out", "there is something after the closing frame");
        dill_hclose(u); p->close();
    }
    void hostile_run() {
        bool attack = pick(W, 5) == 0; if (attack && pick(W, 2)) { cfg.ucap = 1 + pick(W, 60); cfg.scap = 1 + pick(W, 60); cfg.rcap = 1 + pick(W, 60); } auto p = b.raw("C19"); bool server = pick(W, 2); bool text = pick(W, 2); bool sp = pick(W, 4) == 0; if (attack) { // the handshake itself is attacked
            if (pick(W, 2)) p->autoread = false;
            http = true; resource = "/r"; host = "h"; bool good; Str key; int64_t d = dill_now() + pick(W, 3000); Watch wt; Str rq = server ? request(key, true, &good) : Str("HTTP/1.1 101 x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept_key("AAAAAAAAAAAAAAAAAAAAAA==") + "\r\n\r\n"); for (int i = pick(N, 4); i > 0; --i) switch (pick(N, 4)) { case 0: rq[pick(N, (uint32_t)rq.size())] ^= 1 << pick(N, 8); break; case 1: rq.insert(pick(N, (uint32_t)rq.size() + 1), 1, (char)pick(N, 256)); break; case 2: rq.insert(pick(N, (uint32_t)rq.size() + 1), Str(pick(N, 1500), 'x')); break; default: rq.resize(pick(N, (uint32_t)rq.size()) + 1); }
            int end = pick(N, 4); send_fragmented(p, rq, 1000, [p, end] { if (end == 1) p->shut(); else if (end == 2) p->close(); else if (end == 3) p->reset(); }); Str gr, gh; int h = attach(b.h[0], server, text, d, 1 + pick(W, 40), 1 + pick(W, 40), &gr, &gh); ev("attach", h < 0, h < 0 ? errno : 0); if (!in_time(wt, d)) viol("C30 C19 C04", "late", "attaching returned long after its deadline"); if (h < 0 && errno == ETIMEDOUT) check_timedout("C30 C04", "ws_attach", wt, d); if (h >= 0 && !server) viol("C19 C30", "handshake-forged", "the opening handshake succeeded with a wrong key"); if (h >= 0) dill_hclose(h); ++errs; p->close(); dill_msleep(dill_now() + 300); return; }
        int h = shake(p, server, text, sp, true); if (h < 0) { ++errs; p->close(); dill_msleep(dill_now() + 300); return; }
        Str bytes; int n = pick(W, 8);
        for (int i = 0; i < n; ++i) { Msg m = genmsg(300); bool mk = server; switch (pick(N, 12)) { case 0: for (int j = pick(N, 30); j > 0; --j) bytes += (char)pick(N, 256); break; case 1: { Str w = wire(m, mk); w[pick(N, (uint32_t)w.size())] ^= 1 << pick(N, 8); bytes += w; break; } case 2: { Str w = wire(m, mk); bytes += w.substr(0, pick(N, (uint32_t)w.size() + 1)); break; }
                case 3: bytes += frame(true, m.text ? 1 : 2, m.d, !mk); break; case 4: bytes += frame(pick(N, 2), pick(N, 16), m.d, mk, 0, pick(N, 4) ? 0 : 1 + pick(N, 7)); break; case 5: bytes += frame(false, m.text ? 1 : 2, m.d, mk); break; case 6: bytes += frame(pick(N, 2), 0, m.d, mk); break; case 7: { Str d; if (pick(N, 4)) { int c = oneofu(N, {1000, 999, 0, 5000, 4999, 65535}); d += (char)(c >> 8); d += (char)c; d += m.d; } else d = m.d.substr(0, 1); if (pick(N, 4)) d = d.substr(0, 125); bytes += frame(pick(N, 6), 8, d, mk); break; }
                case 8: { if (pick(N, 2)) { size_t q = m.d.size(); uint64_t l = q | 1ull << (16 + pick(N, 48)); Str w(1, (char)(0x80 | (pick(N, 6) ? (m.text ? 1 : 2) : pick(N, 11)))); w += (char)((mk ? 0x80 : 0) | 127); for (int j = 56; j >= 0; j -= 8) w += (char)(l >> j); if (mk) w += "mask"; bytes += w + m.d; break; } Str w(1, (char)(0x80 | pick(N, 11))); w += (char)((mk ? 0x80 : 0) | 127); for (int j = 0; j < 8; ++j) w += pick(N, 2) ? '\xff' : j == 0 && pick(N, 2) ? '\x7f' : '\0'; bytes += w + Str(pick(N, 400), 'z'); break; } case 9: bytes += frame(true, m.text ? 1 : 2, m.d, mk, 1 + pick(N, 2)); break; default: bytes += wire(m, mk); } }
        size_t amb = SIZE_MAX; std::vector<Ev> es = decode(bytes, server, false, &amb); if (amb != SIZE_MAX) { bytes.resize(amb); es = decode(bytes, server); } int end = pick(N, 4); int64_t t1 = send_fragmented(p, bytes, 1000, [p, end] { if (end == 1) p->shut(); else if (end == 2) p->close(); }); bool intact = end < 2; if (end == 3) after(1 + pick(N, 200) * MS, [p] { p->reset(); }); if (chance(N, 1, 4)) p->autoread = false;
        size_t next = 0; bool bad = false, closed = false; int64_t quiet = now_ns() + t1 + 1; int ops = 3 + pick(W, 10);
        for (int i = 0; i < ops; ++i) {
            Ev &x = es[std::min(next, es.size() - 1)]; int64_t d = pick(W, 5) == 0 ? dill_now() + 360000000 : dill_now() + pick(W, 300); if (pick(W, 4) == 0) { Watch wt; if (d > dill_now() + 5000) d = dill_now() + 100; send(h, genmsg(300), text, d); if (!in_time(wt, d)) viol("C30 C04", "late", "a send to a misbehaving peer returned long after its deadline"); continue; }
            if (x.k == Ev::MORE && d > dill_now() + 5000) d = dill_now() + 500; size_t cap = pick(W, 5) ? x.d.size() + pick(W, 20) : pick(W, (uint32_t)x.d.size() + 1); RBuf r(cap); bool generic; int fl; Watch wt; ssize_t z = recv(h, r, generic, fl, d); int e = z < 0 ? errno : 0; ev("hrecv", z, e); if (!in_time(wt, d)) viol("C30 C04", "late", "a receive from a misbehaving peer returned long after its deadline");
            if (z >= 0) { ++nrecv; if (bad || closed) viol("C30 C19", "after-error", "a message was received after the end or a failure"); if (x.k != Ev::MSG) viol("C30 C19", "invented", "a message of %zd bytes was received although what the peer sent is %s", z, x.k == Ev::ERROR ? "malformed" : x.k == Ev::CLOSE ? "a closing frame" : "incomplete"); if ((size_t)z != x.d.size() || !r.same(x.d)) viol("C30 C19", "content", "a message of %zd bytes was received, the peer sent %zu bytes", z, x.d.size()); if (!r.drop && (size_t)z > cap) viol("C30 C19", "overlong", "%zd bytes were received into a buffer of %zu", z, cap); if ((fl >= 0 && !!(fl & DILL_WS_TEXT) != x.text) || (generic && x.text != text)) viol("C19", "type", "a message was received with the wrong type"); ++next; continue; }
            ++errs; bool over = (x.k == Ev::MSG ? x.d.size() : x.pending) > cap && !r.drop; if (e == EPIPE) { if (!(closed || (!bad && x.k == Ev::CLOSE))) viol("C19 C30", "false-end", "the end was reported although the peer has sent no closing frame"); if (!closed) status(h, x.code, x.d); closed = true; continue; } if (closed) viol("C19", "end-forgotten", "after the closing frame a receive failed with %s", ename(e));
            if (e == EPROTO) { if (bad) viol("C19 C30", "errno", "EPROTO after a failure"); if (x.k == Ev::MSG) { if (generic && x.text != text && !over) { ++next; continue; } viol("C19", "good-refused", "a correct message was refused"); } if (x.k != Ev::ERROR) viol("C19", "good-refused", "EPROTO although what the peer sent is correct"); bad = true; }
            else if (e == EMSGSIZE) { if (bad || (!over && !(x.k == Ev::MORE && x.pending + x.more > cap)) || r.drop) viol("C19", "spurious-emsgsize", "a message of %zu+%llu bytes (%d) did not fit a buffer of %zu (bad %d drop %d)", x.d.size(), (unsigned long long)x.more, (int)x.k, cap, bad, r.drop); bad = true; }
            else if (e == ETIMEDOUT) { check_timedout("C30 C04", "ws_recv", wt, d); if (!bad && intact && x.k != Ev::MORE && d - wt.t0 / MS > 3000000 && now_ns() > quiet) viol("C30 C19", "stuck", "complete data was not received within an hour"); bad = true; }
            else if (e == ECONNRESET) { if (!bad && intact && x.k != Ev::MORE) viol("C19", "lost", "the connection was reported broken before message %zu was received", next); bad = true; }
            else viol("C30 C19", "errno", "receiving failed with %s", ename(e));
        }
        if (pick(W, 2)) { int64_t d = dill_now() + pick(W, 100); Watch wt; int u = dill_ws_detach(h, 1000, NULL, 0, d); if (!in_time(wt, d)) viol("C30 C04", "late", "ws_detach returned long after its deadline"); if (u >= 0 && (es.back().k != Ev::CLOSE || bad)) viol("C19 C30", "detach-without-end", "ws_detach succeeded although the peer never closed"); stale(h, u); if (u >= 0) dill_hclose(u); ++detached; } else dill_hclose(h);
        p->close(); dill_msleep(dill_now() + 300);
    }
    // the key functions for programs that do the HTTP handshake themselves
    void keys() {
        std::set<Str> seen;
        for (int i = 1 + pick(W, 5); i > 0; --i) {
            Mem k(WS_KEY_SIZE), r(WS_KEY_SIZE); memset(k.p, 0x5a, k.n); memset(r.p, 0x5a, r.n); int rc = dill_ws_request_key(k.p); if (rc < 0) { viol("C19", "request-key", "ws_request_key failed with %s", ename(errno)); return; }
            Str key(k.p, strnlen(k.p, k.n)); bool ok = key.size() == 24 && key.compare(22, 2, "==") == 0; for (size_t j = 0; ok && j < 22; ++j) ok = isalnum((uint8_t)key[j]) || key[j] == '+' || key[j] == '/'; if (!ok) viol("C19", "request-key", "ws_request_key generated '%s', which isn't 16 bytes in Base64", key.c_str());
            if (!seen.insert(key).second) viol("C19", "request-key", "ws_request_key generated '%s' twice", key.c_str());
            Str nonce; for (int j = 0; j < 16; ++j) nonce += (char)pick(N, 256); if (pick(W, 2)) key = b64(nonce); int kind = pick(W, 4); if (kind == 0) { nonce.resize(pick(W, 2) ? pick(N, 16) : 16); if (nonce.size() == 16) nonce += pattern(1 + pick(N, 20), 7); key = b64(nonce); }
            if (kind == 0 && pick(W, 2)) { for (int j = 0; j < 16; ++j) nonce += (char)pick(N, 256); nonce.resize(16); key = b64(nonce); key[pick(N, 22)] = "-_!,.*#\x80\xff@[`{\x7f"[pick(N, 14)]; } // a character that isn't Base64
            Mem in(key.size() + 1); memcpy(in.p, key.c_str(), key.size() + 1); rc = dill_ws_response_key(in.p, r.p); int e = rc ? errno : 0;
            if (kind == 0) { if (rc == 0 || e != EPROTO) viol("C19", "bad-key-accepted", "ws_response_key returned %d (%s) for a key of %zu bytes", rc, ename(e), nonce.size()); } else if (rc || accept_key(key) != Str(r.p, strnlen(r.p, r.n))) viol("C19", "response-key", "ws_response_key('%s') returned %d, '%.*s' instead of '%s'", key.c_str(), rc, (int)strnlen(r.p, r.n), r.p, accept_key(key).c_str());
            if (memcmp(in.p, key.c_str(), key.size() + 1)) viol("C19", "key-modified", "ws_response_key modified its input"); ++nkeys;
        }
        Mem r(WS_KEY_SIZE); if (dill_ws_request_key(NULL) == 0 || errno != EINVAL) viol("C19", "null-key", "ws_request_key(NULL) didn't fail with EINVAL"); if (dill_ws_response_key(NULL, r.p) == 0 || errno != EINVAL) viol("C19", "null-key", "ws_response_key(NULL) didn't fail with EINVAL"); if (dill_ws_response_key("AAAAAAAAAAAAAAAAAAAAAA==", NULL) == 0 || errno != EINVAL) viol("C19", "null-key", "ws_response_key(.., NULL) didn't fail with EINVAL");
    }
    void run(bool hostile) {
        if (!hostile && chance(W, 1, 6)) keys();
        int k = pick(W, 6); if (hostile || k == 0) hostile_run(); else if (k == 1 || k == 2) raw_run(); else { clean = k < 5; pair_run(); }
        probe("ws.sent", nsent); probe("ws.received", nrecv); probe("ws.errors", errs); probe("ws.refused", refused); probe("ws.detached", detached); probe("ws.handshakes", shakes); probe("ws.keys", nkeys); if (nrecv || errs || refused || shakes) nontrivial();
    }
};
void go(bool hostile) { randomize_common(true); proto_net(); if (cfg.ucap < 300) cfg.ucap = 300; if (cfg.scap < 300) cfg.scap = 300; if (cfg.rcap < 300) cfg.rcap = 300; if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; auto *m = new WsT; m->run(hostile); delete m; final_census("C27 C19"); }
}
SCENARIO(ws) { go(false); }
SCENARIO(wshostile) { go(true); }
