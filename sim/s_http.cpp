// HTTP headers on top of byte streams (C20), and hostile peers of theirs (C30).
#include "proto.h"
namespace {
enum Kind { REQ, STATUS, FIELD };
struct Line { Kind k; Str a, b; int status = 0; };
const char *BADNAME = "(),/:;<=>?@[\\]{}\" \t\r\n";
Str strip(const Str &s) { size_t i = s.find_first_not_of(' '); if (i == Str::npos) return ""; size_t j = s.find_last_not_of(' '); return s.substr(i, j - i + 1); }
Str lstrip(const Str &s) { size_t i = s.find_first_not_of(' '); return i == Str::npos ? "" : s.substr(i); }
Str tok(const char *bad, size_t max) { Str r; size_t n = pick(W, 6) ? 1 + pick(W, 12) : 1 + pick(W, (uint32_t)max); for (size_t i = 0; i < n; ++i) { char c; do { switch (pick(W, 4)) { case 0: c = (char)(1 + pick(W, 255)); break; case 1: c = ":/ HTP1."[pick(W, 8)]; break; default: c = 'a' + pick(W, 26); } } while (strchr(bad, c)); r += c; } return r; }
Line gen(Kind k) {
    Line l; l.k = k;
    if (k == REQ) { l.a = pick(W, 3) ? "GET" : tok(" \t\r\n", 100); l.b = pick(W, 6) ? tok(" \t\r\n", 200) : pick(W, 2) ? "HTTP/1.1" : tok(" \t\r\n", 800); }
    else if (k == STATUS) { l.status = oneofu(W, {200, 100, 599, 404, 500, 101, 0}); if (!l.status) l.status = 100 + pick(W, 500); l.a = pick(W, 6) ? tok("\r\n", 200) : ""; if (pick(W, 8) == 0) l.a = Str(pick(W, 4), ' ') + l.a + Str(pick(W, 4), ' '); }
    else { l.a = tok(BADNAME, 150); do l.b = pick(W, 8) ? tok("\r\n", 200) : tok("\r\n", 800); while (strip(l.b).empty()); if (pick(W, 4) == 0) l.b = Str(pick(W, 4), ' ') + l.b + Str(pick(W, 4), ' '); }
    return l;
}
Str wire(const Line &l) {
    char st[8]; snprintf(st, sizeof st, "%03d", l.status);
    return (l.k == REQ ? l.a + " " + l.b + " HTTP/1.1" : l.k == STATUS ? Str("HTTP/1.1 ") + st + " " + l.a : l.a + ": " + strip(l.b)) + "\r\n";
}
int send(int h, const Line &l, int64_t d) { return l.k == REQ ? dill_http_sendrequest(h, l.a.c_str(), l.b.c_str(), d) : l.k == STATUS ? dill_http_sendstatus(h, l.status, l.a.c_str(), d) : dill_http_sendfield(h, l.a.c_str(), l.b.c_str(), d); }
struct Got { int rc; Str a, b; bool unterminated = false; };
Got recv(int h, Kind k, size_t na, size_t nb, int64_t d) {
    Mem a(na), b(nb); memset(a.p, 'Z', na); memset(b.p, 'Z', nb); Got g;
    g.rc = k == REQ ? dill_http_recvrequest(h, a.p, na, b.p, nb, d) : k == STATUS ? dill_http_recvstatus(h, a.p, na, d) : dill_http_recvfield(h, a.p, na, b.p, nb, d); int e = errno;
    if (g.rc >= 0) { size_t x = strnlen(a.p, na); if (x == na) g.unterminated = true; g.a.assign(a.p, x); if (k != STATUS) { x = strnlen(b.p, nb); if (x == nb) g.unterminated = true; g.b.assign(b.p, x); } }
    errno = e; return g;
}
// what a line received must be understood as
enum Verdict { GOOD, BAD, LENIENT };
Verdict parse(Kind k, const Str &s, Line &l) {
    l.k = k; if (s.find('\0') != Str::npos) return BAD;
    bool odd = s.find_first_of("\t\r\n") != Str::npos;
    if (k == FIELD) { size_t c = s.find(':'); if (c == Str::npos) return BAD; l.a = strip(s.substr(0, c)); l.b = strip(s.substr(c + 1)); bool ok = !l.a.empty() && l.a == s.substr(0, c) && l.a.find_first_of(BADNAME) == Str::npos; return ok && !odd ? GOOD : LENIENT; }
    std::vector<Str> t; size_t i = 0; bool blanks = false; Str rest;
    while (i < s.size()) { if (s[i] == ' ') { if (i == 0 || i + 1 == s.size() || s[i + 1] == ' ') blanks = true; ++i; continue; } size_t j = s.find(' ', i); if (j == Str::npos) j = s.size(); t.push_back(s.substr(i, j - i)); i = j; if (k == STATUS && t.size() == 2) { rest = s.substr(i); break; } }
    if (k == REQ) { if (t.size() != 3 || t[2] != "HTTP/1.1") return BAD; l.a = t[0]; l.b = t[1]; return blanks || odd ? LENIENT : GOOD; }
    if (t.size() < 2 || t[0] != "HTTP/1.1" || t[1].size() != 3 || t[1].find_first_not_of("0123456789") != Str::npos) return BAD;
    l.status = atoi(t[1].c_str()); l.a = lstrip(rest); return blanks || odd || rest.empty() || l.status < 100 || l.status > 599 ? LENIENT : GOOD;
}
bool same(const Line &l, const Got &g) { if (l.k == STATUS) return g.rc == l.status && strip(g.a) == strip(l.a); return g.rc == 0 && g.a == l.a && g.b == (l.k == FIELD ? strip(l.b) : l.b); }
bool mem_attach; 
struct HttpT {
    Base b; bool clean = true, gone = false; int cancelled = 0; std::vector<std::unique_ptr<Mem>> mems; int nsent = 0, nrecv = 0, errs = 0, refused = 0, detached = 0;
    struct Side { int h = -1, u = -1; std::vector<Line> m; bool explicit_done = false, done = false, doing = false, serr = false, detaching = false; } s[2];
    int attach(int u) { int h; if (pick(W, 2)) { mems.emplace_back(new Mem(sizeof(dill_http_storage))); h = dill_http_attach_mem(u, (dill_http_storage *)mems.back()->p); } else h = dill_http_attach(u); if (h < 0) viol("C20", "attach", "http_attach failed with %s", ename(errno)); return h; }
    int64_t dl() { if (clean) return pick(W, 3) ? -1 : dill_now() + 40000000; switch (pick(W, 8)) { case 0: return 0; case 1: return -1; case 2: return dill_now() + pick(W, 5); default: return dill_now() + pick(W, 600); } }
    void fail(const char *what, int e, bool sticky, Watch &wt, int64_t d, int i) {
        ++errs; if (clean) viol("C20", "failed", "%s failed with %s although nothing went wrong", what, ename(e));
        if (e == ETIMEDOUT) { if (d) check_timedout("C04 C20", what, wt, d); return; }
        if (e == ECANCELED) { if (!(cancelled & 1 << i)) viol("C05", "canceled-outside", "ECANCELED although nobody cancels"); return; }
        if (e == ECONNRESET && (sticky || gone)) return;
        if (e == EPIPE && (what[5] == 's' ? gone : s[1 - i].detaching || s[1 - i].doing)) return;
        viol("C20", "errno", "%s failed with %s", what, ename(e));
    }
    void odd_send(int h) { // what cannot be represented must be refused without an effect
        ++refused; Line l = gen((Kind)pick(W, 3)); Str *x = l.k == STATUS || pick(W, 2) ? &l.a : &l.b; const char *bad = l.k == REQ ? " \t\n\r" : l.k == STATUS || x == &l.b ? "\r\n" : BADNAME; bool isname = !(l.k == STATUS || (l.k == FIELD && x == &l.b));
        switch (pick(W, 4)) { case 0: if (l.k == STATUS) { l.status = oneofu(W, {99, 600, 0, 1000, 12345}); if (pick(W, 4) == 0) l.status = -200; break; } if (isname) { x->clear(); break; } *x = Str(pick(W, 5), ' '); if (l.k == STATUS) return; break;
            case 1: *x += "\r\nX: y"; break;
            default: x->insert(pick(W, (uint32_t)x->size() + 1), 1, bad[pick(W, (uint32_t)strlen(bad))]); }
        int rc = send(h, l, -1); if (rc != -1) viol("C20", "unrepresentable", "a line which cannot be represented was accepted: '%s' '%s' %d", l.a.c_str(), l.b.c_str(), l.status);
        if (errno != EINVAL) viol("C20", "unrepresentable-errno", "a line which cannot be represented was refused with %s: '%s' '%s' %d", ename(errno), l.a.c_str(), l.b.c_str(), l.status);
    }
    void sender(int i) {
        Side &a = s[i];
        for (size_t k = 0; k < a.m.size(); ++k) {
            if (clean && chance(W, 1, 8)) odd_send(a.h);
            int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); bool bad = a.serr; int rc = send(a.h, a.m[k], d), e = rc < 0 ? errno : 0; ev("send", i, k, e);
            if (!in_time(wt, d)) viol("C04 C20", "late", "an HTTP send returned long after its deadline");
            if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "an HTTP send with deadline 0 waited");
            if (!rc) { if (bad) viol("C20 C13", "revived", "a send succeeded after one had failed"); ++nsent; } else { fail("http_send", e, bad, wt, d, i); a.serr = true; if (pick(W, 2)) return; }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
        if (!a.explicit_done || a.serr) return;
        int64_t d = dl(); Watch wt; a.doing = true; int rc = dill_http_done(a.h, d), e = rc ? errno : 0; ev("done", i, e); if (!in_time(wt, d)) viol("C04 C20", "late", "http_done returned long after its deadline");
        if (rc) { fail("http_sdone", e, false, wt, d, i); a.serr = true; return; }
        a.done = true; int r2 = dill_http_done(a.h, -1); if (r2 != -1 || errno != EPIPE) viol("C20", "done-twice", "the second http_done returned %d, %s", r2, ename(errno));
        r2 = send(a.h, gen(FIELD), -1); if (r2 != -1 || errno != EPIPE) viol("C20", "send-after-done", "sending after http_done returned %d, %s", r2, ename(errno));
    }
    void receiver(int i) {
        Side &a = s[i], &o = s[1 - i]; bool bad = false; size_t next = 0; size_t n = o.m.size() + (o.explicit_done ? 1 : 0);
        for (size_t k = 0; k < n; ++k) {
            bool last = k == o.m.size(); Kind kd = last ? FIELD : o.m[k].k; size_t na = 40, nb = 40; bool small = false;
            if (!last) { na = o.m[k].a.size() + 1 + (pick(W, 3) ? pick(W, 50) : 0); nb = o.m[k].b.size() + 1 + (pick(W, 3) ? pick(W, 50) : 0); size_t ea = o.m[k].k == STATUS ? strip(o.m[k].a).size() : o.m[k].a.size(), eb = o.m[k].k == FIELD ? strip(o.m[k].b).size() : o.m[k].b.size(); if (!bad && chance(W, 1, 10)) { small = true; if (kd == STATUS || pick(W, 2)) na = pick(W, (uint32_t)ea + 1); else nb = pick(W, (uint32_t)eb + 1); } }
            int64_t d = dl(); Watch wt; int64_t i0 = idle_ns(); Got g = recv(a.h, kd, na, nb, d); int e = g.rc < 0 ? errno : 0; ev("recv", i, g.rc, e);
            if (!in_time(wt, d)) viol("C04 C20", "late", "an HTTP receive returned long after its deadline"); if (d == 0 && idle_ns() != i0) viol("C04", "zero-waits", "an HTTP receive with deadline 0 waited");
            if (g.rc >= 0) {
                if (last) viol("C20", "invented", "a field was received which nobody sent"); if (g.unterminated) viol("C20", "unterminated", "a received string is not terminated within its buffer");
                if (small) viol("C20", "oversize", "a value too long for the buffer was accepted");
                if (!bad) { if (!same(o.m[k], g)) viol("C20", "content", "line %zu: received %d '%s' '%s', sent %d '%s' '%s'", k, g.rc, g.a.c_str(), g.b.c_str(), o.m[k].status, o.m[k].a.c_str(), o.m[k].b.c_str()); next = k + 1; }
                else { size_t q = next; while (q < o.m.size() && !(o.m[q].k == kd && same(o.m[q], g))) ++q; if (q == o.m.size()) viol("C20 C13", "after-error", "after a failure something was received which is not a line sent"); next = q + 1; }
                ++nrecv;
            } else {
                if (last && e == EPIPE && (o.done || o.doing)) { if (pick(W, 2)) { Got g2 = recv(a.h, FIELD, 10, 10, clean ? -1 : 0); if (g2.rc != -1 || errno != EPIPE) viol("C20", "receive-after-end", "a receive after the end of the header returned %d, %s", g2.rc, ename(errno)); } return; }
                if (e == EMSGSIZE && small) { next = k + 1; continue; }
                fail("http_recv", e, bad, wt, d, i); bad = true; if (pick(W, 2)) return;
            }
            if (pick(W, 4) == 0 && dill_msleep(dill_now() + pick(W, 30)) && !clean) return;
        }
    }
    void gen_lines(Side &a) { int n = pick(W, 9); size_t t = 0; a.m.push_back(gen(pick(W, 2) ? REQ : STATUS)); for (int k = 0; k < n && t < 8000; ++k) { a.m.push_back(gen(pick(W, 12) ? FIELD : (Kind)pick(W, 3))); if (a.m.back().k == FIELD && pick(W, 10) == 0) a.m.back() = gen(FIELD); t += wire(a.m.back()).size(); } }
    void stale(int h, int u) { if (h != u && (dill_http_done(h, 0) != -1 || errno != EBADF)) viol("C20 C27 C07", "stale", "a detached handle is still accepted (%s)", ename(errno)); }
    void pair_run() {
        b.pair("C20"); for (int i = 0; i < 2; ++i) { s[i].h = attach(b.h[i]); gen_lines(s[i]); s[i].explicit_done = pick(W, 3); }
        int bs[2]; for (int i = 0; i < 2; ++i) { bs[i] = dill_bundle(); co_bgo(bs[i], [this, i] { sender(i); }); co_bgo(bs[i], [this, i] { receiver(i); }); }
        if (!clean) {
            int f = pick(W, 2);
            for (int k = 0; k < 2; ++k) { int i = k ^ f; if (pick(W, 2)) dill_bundle_wait(bs[i], dill_now() + pick(W, 900)); cancelled |= 1 << i; dill_hclose(bs[i]); gone = true; Watch wt; int64_t d = dill_now() + pick(W, 100);
                if (pick(W, 3) == 0) { s[i].detaching = true; int u = dill_http_detach(s[i].h, d); int e = errno; if (!in_time(wt, d)) viol("C04 C20", "late", "http_detach returned long after its deadline"); if (u < 0 && e == ETIMEDOUT) check_timedout("C04 C20", "http_detach", wt, d); if (u >= 0) { ++detached; if (!s[1 - i].doing && !s[1 - i].detaching) viol("C20", "detach-early", "http_detach succeeded although the peer never ended its header"); if (dill_hclose(u)) viol("C20 C27", "underlying", "http_detach returned a handle which is not valid"); } if (u != s[i].h) stale(s[i].h, u); }
                else if (dill_hclose(s[i].h)) viol("C20 C27", "hclose", "hclose failed with %s", ename(errno)); }
            return;
        }
        int det = dill_bundle();
        for (int i = 0; i < 2; ++i) co_bgo(det, [&, i] {
            if (dill_bundle_wait(bs[i], dill_now() + 360000000)) viol("C20", "no-progress", "exchanging headers does not finish: %s", ename(errno)); dill_hclose(bs[i]); s[i].detaching = true;
            int u = dill_http_detach(s[i].h, pick(W, 2) ? -1 : dill_now() + 360000000); if (u < 0) viol("C20", "detach", "http_detach failed with %s", ename(errno)); if (!s[1 - i].doing && !s[1 - i].detaching) viol("C20", "detach-early", "http_detach returned before the peer ended its header");
            stale(s[i].h, u); s[i].u = u; ++detached; });
        if (dill_bundle_wait(det, dill_now() + 72000000)) viol("C20", "detach-hangs", "detaching does not finish"); dill_hclose(det);
        for (int i = 0; i < 2; ++i) { Str d = pattern(40 + pick(W, 60), 77 + i); int bb = dill_bundle(); co_bgo(bb, [&] { dill_bsend(s[i].u, d.data(), d.size(), -1); }); Mem m(d.size()); if (dill_brecv(s[1 - i].u, m.p, d.size(), dill_now() + 360000000) || memcmp(m.p, d.data(), d.size())) viol("C20 C27", "position", "after detaching, the underlying stream is not positioned after the header"); dill_bundle_wait(bb, -1); dill_hclose(bb); }
        for (int i = 0; i < 2; ++i) dill_hclose(s[i].u);
    }
    void raw_run() { // one end is a script: the bytes on the wire are exactly right
        auto p = b.raw("C20"); int h = attach(b.h[0]); Side in, out; gen_lines(in); gen_lines(out); Str inb; for (auto &l : in.m) inb += wire(l); Str tail = pattern(pick(W, 50), 9); send_fragmented(p, inb + "\r\n" + tail, 1000);
        Str want; bool ex = pick(W, 2); int bb = dill_bundle(); co_bgo(bb, [&] { for (auto &l : out.m) { if (chance(W, 1, 8)) odd_send(h); if (send(h, l, -1)) viol("C20", "failed", "sending failed with %s", ename(errno)); want += wire(l); ++nsent; } if (ex && dill_http_done(h, -1)) viol("C20", "failed", "http_done failed"); want += "\r\n"; });
        for (auto &l : in.m) { Got g = recv(h, l.k, l.a.size() + 1, l.b.size() + 1, dill_now() + 360000000); if (g.rc < 0) viol("C20", "failed", "receiving failed with %s", ename(errno)); if (!same(l, g)) viol("C20", "wire-in", "received %d '%s' '%s', the wire had '%s'", g.rc, g.a.c_str(), g.b.c_str(), wire(l).c_str()); ++nrecv; }
        if (dill_bundle_wait(bb, dill_now() + 360000000)) viol("C20", "no-progress", "sending does not finish"); dill_hclose(bb);
        int u = dill_http_detach(h, dill_now() + 360000000); if (u < 0) viol("C20", "detach", "http_detach failed with %s", ename(errno)); ++detached;
        Mem m(tail.size()); if (dill_brecv(u, m.p, tail.size(), dill_now() + 360000000) || memcmp(m.p, tail.data(), tail.size())) viol("C20 C27", "position", "after detaching, the underlying stream is not positioned after the header");
        dill_bsend(u, "END", 3, -1); want += "END"; size_t had = p->rx.size(); for (int still = 0; still < 200 && p->rx.size() < want.size();) { dill_msleep(dill_now() + 500); if (p->rx.size() != had) still = 0, had = p->rx.size(); else ++still; }
        if (p->rx != want) viol("C20", "wire-out", "the bytes on the wire (%zu) are not the encoded lines (%zu)", p->rx.size(), want.size());
        dill_hclose(u); p->close();
    }
    void hostile_run() {
        auto p = b.raw("C20"); int h = attach(b.h[0]); Str bytes; int n = pick(W, 8); std::vector<Kind> guess;
        for (int i = 0; i < n; ++i) { Line l = gen(i == 0 ? (pick(W, 2) ? REQ : STATUS) : FIELD); guess.push_back(pick(W, 8) ? l.k : (Kind)pick(W, 3)); Str w = wire(l); int k = pick(N, 12);
            switch (k) { case 0: w.clear(); for (int j = pick(W, 40); j > 0; --j) w += (char)pick(N, 256); w += "\r\n"; break;
                case 1: w[pick(N, (uint32_t)w.size())] ^= 1 << pick(N, 8); break; case 2: w = w.substr(0, pick(N, (uint32_t)w.size() + 1)); break;
                case 3: w.insert(pick(N, (uint32_t)w.size() + 1), 1, " :\r\n\t\0H"[pick(N, 7)]); break; case 4: if (w.size() > 2) w.erase(pick(N, (uint32_t)w.size() - 2), 1 + pick(N, 3)); break;
                case 5: w = "\r\n"; break; case 6: w = l.a + Str(pick(N, 5), ' ') + ":" + Str(pick(N, 5), ' ') + l.b + Str(pick(N, 5), ' ') + "\r\n"; break; case 7: { size_t t = pick(N, 3) ? (size_t)oneofu(N, {256, 1024, 512, 1024, 2048}) - 3 + pick(N, 6) : 1010 + pick(N, 30); w = pick(N, 2) ? l.a + ": " : Str("GET /"); if (w.size() < t) w += Str(t - w.size(), 'x'); if (w[0] == 'G' && pick(N, 2) && w.size() > 20) w.replace(w.size() - 9, 9, " HTTP/1.1"); w += "\r\n"; break; }
                case 8: { static const char *f[] = {"GET / HTTP/1.0\r\n", "GET / HTTP/1.12\r\n", "GET / HTTP/1.\r\n", "HTTP/1.1 2000 OK\r\n", "HTTP/1.1 20 OK\r\n", "HTTP/1.1 2a0 OK\r\n", "HTTP/1.0 200 OK\r\n", "HTTP/1.12 200 OK\r\n", "HTTP 200 OK\r\n", "GET /\r\n", "GET / HTTP/1.1 x\r\n", ": v\r\n", "name\r\n", "name :v\r\n", "a b: c\r\n", " \r\n", "X:\r\n", "X: \r\n", "HTTP/1.1 200 \r\n", "GET / ABCDEFGH\r\n", "abcdefgh 200 OK\r\n"}; w = f[pick(N, 21)]; break; } }
            bytes += w; }
        if (pick(W, 3)) bytes += "\r\n"; if (pick(N, 8) == 0) { bytes += Str(pick(N, 3000), 'y'); }
        std::vector<Str> ls; size_t o = 0; for (;;) { size_t q = bytes.find("\r\n", o); if (q == Str::npos) break; ls.push_back(bytes.substr(o, q - o)); o = q + 2; } size_t tend = ls.size(); for (size_t i = 0; i < ls.size(); ++i) if (ls[i].empty()) { tend = i; break; }
        int end = pick(N, 4); int64_t t1 = send_fragmented(p, bytes, 1000, [p, end] { if (end == 1) p->shut(); else if (end == 2) p->close(); }); bool intact = end < 2; if (end == 3) after(1 + pick(N, 200) * MS, [p] { p->reset(); }); if (chance(N, 1, 4)) p->autoread = false;
        size_t next = 0; bool bad = false; int64_t quiet = now_ns() + t1 + 1; int ops = 3 + pick(W, 10);
        for (int i = 0; i < ops; ++i) {
            int64_t d = pick(W, 5) == 0 ? dill_now() + 360000000 : dill_now() + pick(W, 300); if (pick(W, 4) == 0) { Watch wt; if (d > dill_now() + 5000) d = dill_now() + 100; send(h, gen((Kind)pick(W, 3)), d); if (!in_time(wt, d)) viol("C30 C04", "late", "a send to a misbehaving peer returned long after its deadline"); continue; }
            Kind k = next < guess.size() ? guess[next] : FIELD; size_t na = pick(W, 3) ? 1100 : pick(W, 30), nb = pick(W, 3) ? 1100 : pick(W, 30); if (next >= ls.size() && d > dill_now() + 5000) d = dill_now() + 500;
            Watch wt; Got g = recv(h, k, na, nb, d); int e = g.rc < 0 ? errno : 0; ev("hrecv", g.rc, e); if (!in_time(wt, d)) viol("C30 C04", "late", "a receive from a misbehaving peer returned long after its deadline");
            if (g.rc >= 0) { ++nrecv; if (g.unterminated) viol("C30 C20", "unterminated", "a received string is not terminated within its buffer");
                if (bad) continue; if (next >= tend) viol("C30 C20", "invented", "a line was received which the peer never sent"); Line l; Verdict v = parse(k, ls[next], l);
                if (v == BAD) viol("C30 C20", "malformed-accepted", "a malformed line was accepted: '%s'", ls[next].c_str()); if (!same(l, g)) viol("C30 C20", "misparsed", "'%s' was understood as %d '%s' '%s'", ls[next].c_str(), g.rc, g.a.c_str(), g.b.c_str()); ++next;
            } else { ++errs; bool avail = !bad && next < tend; Line l; Verdict v = avail ? parse(k, ls[next], l) : BAD; bool fits = avail && l.a.size() + 1 <= na && (k == STATUS || l.b.size() + 1 <= nb);
                if (e == EPROTO) { if (bad) continue; if (!avail) viol("C30 C20", "eproto", "EPROTO without a malformed line"); if (v == GOOD && fits) viol("C20", "good-refused", "a well-formed line was refused: '%s'", ls[next].c_str()); ++next; }
                else if (e == EMSGSIZE) { if (bad) continue; if (avail && ls[next].size() <= 1000) { if (v != BAD && fits) viol("C20", "fits-refused", "a value which fits was refused: '%s'", ls[next].c_str()); ++next; } else bad = true; }
                else if (e == ETIMEDOUT) { check_timedout("C30 C04", "http_recv", wt, d); if (avail && intact && d - wt.t0 / MS > 3000000 && now_ns() > quiet) viol("C30 C20", "stuck", "a complete line was not received within an hour"); bad = true; }
                else if (e == EPIPE) { if (!bad && !(next == tend && tend < ls.size())) viol("C20 C18", "false-end", "the end of the header was reported although the blank line has not been received"); if (bad) { bool any = tend < ls.size(); if (!any) viol("C20 C18", "false-end", "the end of the header was reported although the peer never sent the blank line"); } break; }
                else if (e == ECONNRESET) { if (!bad && intact && next < tend) viol("C20", "lost", "the connection was reported broken before line %zu of %zu was received", next, ls.size()); bad = true; }
                else viol("C30 C20", "errno", "receiving failed with %s", ename(e)); }
        }
        if (pick(W, 2)) { int64_t d = dill_now() + pick(W, 100); Watch wt; int u = dill_http_detach(h, d); if (!in_time(wt, d)) viol("C30 C04", "late", "http_detach returned long after its deadline"); if (u >= 0 && tend >= ls.size()) viol("C20 C18", "detach-without-end", "http_detach succeeded although the peer never ended its header"); stale(h, u); if (u >= 0) dill_hclose(u); ++detached; } else dill_hclose(h);
        p->close(); dill_msleep(dill_now() + 300);
    }
    void run(bool hostile) {
        int k = pick(W, 6); if (hostile || k == 0) hostile_run(); else if (k == 1) raw_run(); else { clean = k < 5; pair_run(); }
        probe("http.sent", nsent); probe("http.received", nrecv); probe("http.errors", errs); probe("http.refused", refused); probe("http.detached", detached); if (nrecv || errs || refused) nontrivial();
    }
};
void go(bool hostile) { randomize_common(true); proto_net(); if (cfg.ucap < 300) cfg.ucap = 300; if (cfg.scap < 300) cfg.scap = 300; if (cfg.rcap < 300) cfg.rcap = 300; if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; auto *m = new HttpT; m->run(hostile); delete m; final_census("C27 C20"); }
}
SCENARIO(http) { go(false); }
SCENARIO(httphostile) { go(true); }
