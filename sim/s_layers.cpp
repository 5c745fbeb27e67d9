// Protocol stacks built, used, unwound and broken at any point (C27).
#include "tlsenv.h"
extern "C" {
#include <libdillimpl.h>
}
namespace {
const char *T = "C27";
enum L { PREFIX, SUFFIX, TERM, HTTP, TLS, WS };
enum K { BYTES, MSG, HTTPS_ };
const char *ln[] = {"prefix", "suffix", "term", "http", "tls", "ws"};
K lower(L l) { return l == TERM ? MSG : BYTES; }
K upper(L l) { return l == HTTP ? HTTPS_ : l == TLS ? BYTES : MSG; }
bool handshakes(L l) { return l == TLS || l == WS; }
struct Layer { L l; std::unique_ptr<Mem> m; int arg; };
struct Stack_ { // one end
    int i, h = -1; std::vector<Layer> ls; std::vector<std::unique_ptr<Mem>> base; std::vector<int> old; bool dead = false, canceled = false; int rc = 0, er = 0; bool done = false, tcp = false, fault = false;
    K top() { return ls.empty() ? BYTES : upper(ls.back().l); }
};
bool stale(int h) { static int t; errno = 0; return !dill_hquery(h, &t) && errno == EBADF; }
struct Layers {
    Stack_ s[2]; Str keyf, certf; int depth = 0, nat = 0, ndet = 0, nfail = 0, nclose = 0; Str trace; int server = 0;
    void mk() {
        if (pick(W, 2)) { int f[2]; mk_tcppair(f); for (int i = 0; i < 2; ++i) { s[i].tcp = true; if (pick(W, 2)) { s[i].base.emplace_back(new Mem(sizeof(dill_tcp_storage))); s[i].h = dill_tcp_fromfd_mem(f[i], (dill_tcp_storage *)s[i].base.back()->p); } else s[i].h = dill_tcp_fromfd(f[i]); if (s[i].h < 0) viol(T, "setup", "tcp_fromfd failed: %s", ename(errno)); } }
        else if (pick(W, 2)) { int f[2]; mk_socketpair(f); for (int i = 0; i < 2; ++i) { if (pick(W, 2)) { s[i].base.emplace_back(new Mem(sizeof(dill_ipc_storage))); s[i].h = dill_ipc_fromfd_mem(f[i], (dill_ipc_storage *)s[i].base.back()->p); } else s[i].h = dill_ipc_fromfd(f[i]); if (s[i].h < 0) viol(T, "setup", "ipc_fromfd failed: %s", ename(errno)); } }
        else { int p[2]; if (dill_ipc_pair(p)) viol(T, "setup", "ipc_pair failed: %s", ename(errno)); s[0].h = p[0]; s[1].h = p[1]; }
        for (int i = 0; i < 2; ++i) s[i].i = i;
    }
    Str desc(Stack_ &x) { Str r = x.tcp ? "tcp" : "ipc"; for (auto &l : x.ls) { r += "+"; r += ln[l.l]; if (l.m) r += "*"; } return r; }
    // everything of this end has been closed by the call
    void gone(Stack_ &x, const char *what, int fds0, int expect = 1) {
        x.dead = true; for (int h : x.old) if (!stale(h)) viol("C27 C07", "still-valid", "after %s of %s the handle %d is still valid", what, desc(x).c_str(), h);
        if (fds0 >= 0 && open_fds() != fds0 - expect) viol(T, "not-closed", "after %s of %s the connection is still open: %s", what, desc(x).c_str(), describe_fds().c_str());
        x.ls.clear(); x.base.clear(); x.h = -1;
    }
    void superseded(Stack_ &x, int o, int n, const char *what) { if (n != o && !stale(o)) viol("C27 C07", "superseded", "after %s the superseded handle %d is still valid", what, o); x.old.push_back(o); x.old.erase(std::remove(x.old.begin(), x.old.end(), n), x.old.end()); }
    int do_attach(Stack_ &x, L l, int arg, Mem *m, int64_t dl) {
        int u = x.h; bool srv = x.i == server;
        switch (l) {
        case PREFIX: return m ? dill_prefix_attach_mem(u, 1 + arg % 8, arg / 8 % 2, (dill_prefix_storage *)m->p) : dill_prefix_attach(u, 1 + arg % 8, arg / 8 % 2);
        case SUFFIX: { Str t = arg % 2 ? Str("\r\n") : Str(1 + arg % 32, '#'); return m ? dill_suffix_attach_mem(u, t.data(), t.size(), (dill_suffix_storage *)m->p) : dill_suffix_attach(u, t.data(), t.size()); }
        case TERM: { bool below = false; for (auto &q : x.ls) below |= q.l == TERM; Str t(below ? 1 + arg % 32 : arg % 33, (char)('A' + x.ls.size())); // nested terminators differ
            return m ? dill_term_attach_mem(u, t.data(), t.size(), (dill_term_storage *)m->p) : dill_term_attach(u, t.data(), t.size()); }
        case HTTP: return m ? dill_http_attach_mem(u, (dill_http_storage *)m->p) : dill_http_attach(u);
        case TLS: if (srv) return m ? dill_tls_attach_server_mem(u, certf.c_str(), keyf.c_str(), (dill_tls_storage *)m->p, dl) : dill_tls_attach_server(u, certf.c_str(), keyf.c_str(), dl); return m ? dill_tls_attach_client_mem(u, (dill_tls_storage *)m->p, dl) : dill_tls_attach_client(u, dl);
        default: { int fl = (arg & 1 ? DILL_WS_TEXT : DILL_WS_BINARY) | (arg & 2 ? DILL_WS_NOHTTP : 0); bool http = !(arg & 2); char r[50], o[50];
            if (srv) return m ? dill_ws_attach_server_mem(u, fl, http ? r : NULL, 50, http ? o : NULL, 50, (dill_ws_storage *)m->p, dl) : dill_ws_attach_server(u, fl, http ? r : NULL, 50, http ? o : NULL, 50, dl);
            return m ? dill_ws_attach_client_mem(u, fl, http ? "/a" : NULL, http ? "h" : NULL, (dill_ws_storage *)m->p, dl) : dill_ws_attach_client(u, fl, http ? "/a" : NULL, http ? "h" : NULL, dl); }
        }
    }
    static size_t msz(L l) { switch (l) { case PREFIX: return sizeof(dill_prefix_storage); case SUFFIX: return sizeof(dill_suffix_storage); case TERM: return sizeof(dill_term_storage); case HTTP: return sizeof(dill_http_storage); case TLS: return sizeof(dill_tls_storage); default: return sizeof(dill_ws_storage); } }
    int do_detach(Stack_ &x, int64_t dl) { switch (x.ls.back().l) { case PREFIX: return dill_prefix_detach(x.h); case SUFFIX: return dill_suffix_detach(x.h, dl); case TERM: return dill_term_detach(x.h, dl); case HTTP: return dill_http_detach(x.h, dl); case TLS: return dill_tls_detach(x.h, dl); default: return pick(W, 2) ? dill_ws_detach(x.h, 1000, "bye", 3, dl) : dill_ws_detach(x.h, 0, NULL, 0, dl); } }
    int do_done(Stack_ &x, int64_t dl) { switch (x.ls.back().l) { case TERM: return dill_term_done(x.h, dl); case HTTP: return dill_http_done(x.h, dl); case TLS: return dill_tls_done(x.h, dl); case WS: return dill_ws_done(x.h, 1000, NULL, 0, dl); default: return 0; } }
    // one end attaches; 'expect' 0: must work
    bool attach(Stack_ &x, L l, int arg, int64_t dl, bool may_fail) {
        bool um = pick(W, 2); std::unique_ptr<Mem> m(um ? new Mem(msz(l)) : NULL); int o = x.h; int n = do_attach(x, l, arg, m.get(), dl), er = errno; ev("attach", x.i, l, n < 0 ? er : 0); x.rc = n; x.er = er;
        if (n < 0) { if (!may_fail) viol(T, "attach", "%s_attach on %s failed with %s although nothing is broken", ln[l], desc(x).c_str(), ename(er)); ++nfail; x.old.push_back(o); m.reset(); gone(x, "a failed attach", -1); return false; }
        ++nat; superseded(x, o, n, "attach"); x.h = n; x.ls.push_back(Layer{l, std::move(m), arg}); depth = std::max(depth, (int)x.ls.size()); return true;
    }
    bool detach(Stack_ &x, int64_t dl, bool may_fail) {
        int o = x.h; L l = x.ls.back().l; int n = do_detach(x, dl), er = errno; ev("detach", x.i, l, n < 0 ? er : 0); x.rc = n; x.er = er;
        if (n < 0) { if (!may_fail) viol(T, "detach", "%s_detach on %s failed with %s although nothing is broken", ln[l], desc(x).c_str(), ename(er)); ++nfail; x.old.push_back(o); gone(x, "a failed detach", -1); return false; }
        ++ndet; superseded(x, o, n, "detach"); x.h = n; x.ls.pop_back(); return true;
    }
    // both ends do something at the same time
    void both(const char *what, std::function<void(Stack_ &)> f) {
        int b = dill_bundle(); for (int k = 0; k < 2; ++k) { Stack_ &x = s[k]; x.done = false; co_bgo(b, [&x, f] { if (pick(W, 3) == 0) dill_msleep(dill_now() + pick(W, 20)); f(x); x.done = true; }); }
        int rc = dill_bundle_wait(b, dill_now() + 4000000); if (rc) viol("C27 C08", "stuck", "%s on %s does not finish", what, desc(s[0]).c_str()); dill_hclose(b);
    }
    static bool talk_send(Stack_ &x, const Str &d, int64_t dl) { switch (x.top()) { case BYTES: return !dill_bsend(x.h, d.data(), d.size(), dl); case MSG: return !dill_msend(x.h, d.data(), d.size(), dl); default: return !dill_http_sendfield(x.h, "Name", d.c_str(), dl); } }
    // -1 error, 0 other data
    static int talk_recv(Stack_ &x, const Str &d, int64_t dl) {
        switch (x.top()) { case BYTES: { Mem b(d.size()); if (dill_brecv(x.h, b.p, d.size(), dl)) return -1; return !memcmp(b.p, d.data(), d.size()); }
        case MSG: { Mem b(d.size() + 10); ssize_t n = dill_mrecv(x.h, b.p, d.size() + 10, dl); if (n < 0) return -1; return n == (ssize_t)d.size() && !memcmp(b.p, d.data(), d.size()); }
        default: { char n[20]; Mem v(d.size() + 10); if (dill_http_recvfield(x.h, n, 20, v.p, d.size() + 10, dl)) return -1; return !strcmp(n, "Name") && d == v.p; } }
    }
    void talk() {
        int maxl = 200; for (auto &l : s[0].ls) if (l.l == PREFIX && l.arg % 8 == 0) maxl = 60; Str d[2]; for (int k = 0; k < 2; ++k) { size_t n = 1 + pick(W, maxl); for (size_t i = 0; i < n; ++i) d[k] += (char)('a' + (i * 7 + k) % 26); }
        both("an exchange", [&](Stack_ &x) { int64_t dl = dill_now() + 3000000; if (!talk_send(x, d[x.i], dl)) viol(T, "exchange", "sending through %s failed with %s", desc(x).c_str(), ename(errno)); int r = talk_recv(x, d[1 - x.i], dl); if (r < 0) viol(T, "exchange", "receiving through %s failed with %s", desc(x).c_str(), ename(errno)); if (!r) viol(T, "content", "data received through %s differ", desc(x).c_str()); });
    }
    L choose(K k) { if (k == MSG) return TERM; for (;;) { L l = (L)oneofu(W, {PREFIX, SUFFIX, HTTP, TLS, WS, TLS}); int t = 0; for (auto &x : s[0].ls) t += x.l == TLS; if (l == TLS && t >= 2) continue; return l; } }
    // the other end learns that the connection is over; afterwards it is closed, too
    void survivor(Stack_ &x) {
        int64_t dl = dill_now() + 100000; char c[2000]; Str w = desc(x); int i; for (i = 0; i < 20; ++i) { int rc; switch (x.top()) { case BYTES: rc = dill_brecv(x.h, c, 1, dl); break; case MSG: rc = (int)dill_mrecv(x.h, c, sizeof c, dl); break; default: rc = dill_http_recvfield(x.h, c, 900, c + 1000, 900, dl); } if (rc < 0) { if (errno == ETIMEDOUT) viol(T, "peer-open", "the peer's stack has been closed but %s does not see the end of the connection", w.c_str()); break; } }
        int fds0 = open_fds(), o = x.h; if (!x.ls.empty() && pick(W, 2)) { if (!detach(x, dill_now() + 100000, true)) { if (open_fds() != fds0 - 1) viol(T, "not-closed", "after a failed detach of %s the connection is still open: %s", w.c_str(), describe_fds().c_str()); return; } fds0 = open_fds(); o = x.h; }
        x.old.push_back(o); if (x.ls.empty() && pick(W, 2)) { x.tcp ? dill_tcp_close(x.h, dill_now() + 5000) : dill_ipc_close(x.h, dill_now() + 5000); gone(x, "close", fds0); return; }
        if (dill_hclose(x.h)) viol(T, "hclose", "hclose failed with %s", ename(errno)); gone(x, "hclose", fds0);
    }
    void hclose(Stack_ &x) { int fds0 = open_fds(), o = x.h; ++nclose; int64_t i0 = idle_ns(); if (dill_hclose(x.h)) viol(T, "hclose", "hclose failed with %s", ename(errno)); if (idle_ns() != i0) viol(T, "hclose-waits", "hclose of %s waited", desc(x).c_str()); x.old.push_back(o); gone(x, "hclose", fds0); }
    void must_fail(Stack_ &x, const char *what, int e1, int e2, std::function<int(Mem *)> f, L l) {
        bool um = pick(W, 2); std::unique_ptr<Mem> m(new Mem(msz(l))); (void)um; int fds0 = open_fds(), o = x.h; errno = 0; int rc = f(m.get()), er = errno; ev("mustfail", l, er); if (rc >= 0) viol(T, "accepted", "%s on %s succeeded", what, desc(x).c_str()); if (er != e1 && er != e2) viol(T, "errno", "%s on %s failed with %s", what, desc(x).c_str(), ename(er));
        ++nfail; x.old.push_back(o); m.reset(); gone(x, what, fds0);
    }
    // a failure at one end; returns after both are closed
    void fail_step() {
        int k = pick(W, 2); Stack_ &x = s[k], &y = s[1 - k]; Str w;
        switch (pick(W, 8)) {
        case 0: hclose(x); break;
        case 1: { // a protocol which cannot be layered here
            std::vector<L> bad; for (L l : {PREFIX, SUFFIX, TERM, HTTP, TLS, WS}) if (lower(l) != x.top()) bad.push_back(l); L l = bad[pick(W, (uint32_t)bad.size())]; bool um = pick(W, 2); w = Str("attaching ") + ln[l]; must_fail(x, w.c_str(), EPROTO, ENOTSUP, [&](Mem *m) { return do_attach(x, l, 3, um ? m : NULL, dill_now() + 100); }, l); break; }
        case 2: { // invalid arguments
            L l = choose(x.top() == HTTPS_ ? BYTES : x.top()); int q = pick(W, 4); w = Str("attaching with invalid arguments ") + ln[l]; Str z(40, 'x');
            must_fail(x, w.c_str(), EINVAL, x.top() == HTTPS_ ? ENOTSUP : EINVAL, [&](Mem *m) {
                switch (l) {
                case PREFIX: return q == 0 ? dill_prefix_attach_mem(x.h, 2, 0, NULL) : q == 1 ? dill_prefix_attach(x.h, 0, 0) : dill_prefix_attach_mem(x.h, 0, 0, (dill_prefix_storage *)m->p);
                case SUFFIX: return q == 0 ? dill_suffix_attach_mem(x.h, "\n", 1, NULL) : q == 1 ? dill_suffix_attach(x.h, "\n", 0) : q == 2 ? dill_suffix_attach(x.h, z.data(), 33) : dill_suffix_attach_mem(x.h, NULL, 1, (dill_suffix_storage *)m->p);
                case TERM: return q == 0 ? dill_term_attach_mem(x.h, "\n", 1, NULL) : q == 1 ? dill_term_attach(x.h, z.data(), 33) : dill_term_attach_mem(x.h, NULL, 1, (dill_term_storage *)m->p);
                case HTTP: return dill_http_attach_mem(x.h, NULL);
                case TLS: return q & 1 ? dill_tls_attach_client_mem(x.h, NULL, -1) : dill_tls_attach_server_mem(x.h, certf.c_str(), keyf.c_str(), NULL, -1);
                default: return q == 0 ? dill_ws_attach_client_mem(x.h, 0, "/", "h", NULL, -1) : q == 1 ? dill_ws_attach_server_mem(x.h, 0, NULL, 0, NULL, 0, NULL, -1) : q == 2 ? dill_ws_attach_client_mem(x.h, 0, NULL, "h", (dill_ws_storage *)m->p, -1) : dill_ws_attach_client_mem(x.h, 0, "/", NULL, (dill_ws_storage *)m->p, -1); } }, l); break; }
        case 3: { // the peer does not take part in the handshake
            if (x.top() != BYTES) { hclose(x); break; } L l = pick(W, 2) ? TLS : WS; int fds0 = open_fds(); int64_t dl = pick(W, 4) ? dill_now() + pick(W, 100) : 0; int arg = pick(W, 2); server = pick(W, 2); Watch wt; if (attach(x, l, arg, dl, true)) viol(T, "alone", "%s_attach on %s succeeded without a peer", ln[l], desc(x).c_str()); if (x.er != ETIMEDOUT) viol(T, "errno", "%s_attach without a peer failed with %s", ln[l], ename(x.er)); check_timedout("C27 C04", "attach", wt, dl); if (open_fds() != fds0 - 1) viol(T, "not-closed", "after a failed attach the connection is still open: %s", describe_fds().c_str()); break; }
        case 4: { // the peer does not take part in the detaching
            if (x.ls.empty() || x.ls.back().l == PREFIX) { hclose(x); break; } L l = x.ls.back().l; Str d = desc(x); int fds0 = open_fds(); int64_t dl = pick(W, 4) ? dill_now() + pick(W, 100) : 0; Watch wt; if (l == SUFFIX) { if (!detach(x, dl, true)) { if (x.er != ETIMEDOUT) viol(T, "errno", "suffix_detach failed with %s", ename(x.er)); if (open_fds() != fds0 - 1) viol(T, "not-closed", "after a failed detach of %s the connection is still open: %s", d.c_str(), describe_fds().c_str()); break; } hclose(x); break; }
            if (detach(x, dl, true)) viol(T, "alone", "%s_detach of %s succeeded without the peer", ln[l], d.c_str()); if (x.er != ETIMEDOUT) viol(T, "errno", "%s_detach of %s without the peer failed with %s", ln[l], d.c_str(), ename(x.er)); check_timedout("C27 C04", "detach", wt, dl); if (open_fds() != fds0 - 1) viol(T, "not-closed", "after a failed detach of %s the connection is still open: %s", d.c_str(), describe_fds().c_str()); break; }
        case 5: case 6: { // the coroutine is canceled during a handshake, or the peer breaks the connection
            bool cancel = pick(W, 2), det = !x.ls.empty() && x.ls.back().l != PREFIX && pick(W, 2); if (!det && x.top() != BYTES) { hclose(x); break; } L l = det ? x.ls.back().l : pick(W, 2) ? TLS : WS; int arg = pick(W, 4), fds0 = open_fds(); server = pick(W, 2); bool fin = false, ok = false; Str d = desc(x); bool nohttp = l == WS && (arg & 2) && !det; // no handshake then
            int bn = dill_bundle(); co_bgo(bn, [&] { ok = det ? detach(x, -1, true) : attach(x, l, arg, -1, true); fin = true; }); dill_msleep(dill_now() + pick(W, 10)); bool pend = !fin; if (cancel) dill_hclose(bn); else { hclose(y); if (dill_bundle_wait(bn, dill_now() + 100000)) viol("C27 C08", "stuck", "%s of %s does not learn that the peer has closed the connection", det ? "detach" : "attach", d.c_str()); dill_hclose(bn); }
            if (!fin) viol(T, "lost", "the coroutine has been canceled but did not finish"); if (ok) { if (l != SUFFIX && !nohttp && !(l == WS && det && false)) viol(T, "alone", "%s of %s (%s) succeeded without the peer", det ? "detach" : "attach", d.c_str(), ln[l]); if (!x.dead) { fds0 = open_fds(); hclose(x); } }
            else { if (cancel && pend && x.er != ECANCELED) viol("C27 C05", "errno", "%s of %s failed with %s in a canceled coroutine", det ? "detach" : "attach", d.c_str(), ename(x.er)); if (open_fds() != fds0 - (cancel ? 1 : 2)) viol(T, "not-closed", "after a failed %s of %s the connection is still open: %s", det ? "detach" : "attach", d.c_str(), describe_fds().c_str()); }
            break; }
        default: { // no memory
            L l; if (x.top() == HTTPS_) { hclose(x); break; } l = choose(x.top()); int fds0 = open_fds(); auto m = res_filter; res_filter = nullptr; int64_t kth = 1 + pick(F, 4); arm(R_MEM, kth, 0); int64_t dl = dill_now() + 50; bool ok = attach(x, l, pick(W, 100), dl, true); int64_t f = res_fired(); disarm(); res_filter = m; if (ok) hclose(x); else { if (!f && !handshakes(l)) viol("C27 C26", "no-reason", "%s_attach on %s failed with %s", ln[l], desc(x).c_str(), ename(x.er)); if (open_fds() != fds0 - 1) viol(T, "not-closed", "after a failed attach the connection is still open: %s", describe_fds().c_str()); } } }
        if (x.dead && !y.dead) survivor(y); if (!x.dead) survivor(x); dill_msleep(dill_now() + 100);
    }
    void run() {
        g_rnd = 0x9e3779b97f4a7c15ull ^ ((uint64_t)pick(W, 1u << 30) << 20); certf = g_dir + "tlscert.pem"; keyf = g_dir + "tlskey.pem"; proto_net(); cfg.ucap = std::max<uint32_t>(cfg.ucap, 2048); cfg.scap = cfg.rcap = 8192; if (cfg.mss < 100) cfg.mss = 100;
        mk(); int n = pick(W, 9); bool fail = pick(W, 3);
        for (int i = 0; i < n; ++i) {
            K k = s[0].top(); bool det = !s[0].ls.empty() && (k == HTTPS_ || pick(W, 3) == 0 || (k == MSG && s[0].ls.size() > 3 && pick(W, 2)));
            if (det) { bool dn = pick(W, 3) == 0; if (pick(W, 2) && k == HTTPS_) talk(); both("detach", [&](Stack_ &x) { int64_t dl = dill_now() + 3000000; if (dn && pick(W, 2)) { if (do_done(x, dl) < 0) viol(T, "done", "%s_done of %s failed with %s", ln[x.ls.back().l], desc(x).c_str(), ename(errno)); } detach(x, pick(W, 2) ? dl : -1, false); }); }
            else { L l = choose(k); int arg = pick(W, 100); server = pick(W, 2); both("attach", [&](Stack_ &x) { attach(x, l, arg, pick(W, 2) ? dill_now() + 3000000 : -1, false); }); if (pick(W, 5) == 0) for (auto &x : s) { int o = x.h; int nh = dill_hown(o); if (nh < 0) viol("C27 C07", "hown", "hown failed with %s", ename(errno)); superseded(x, o, nh, "hown"); x.h = nh; } }
            if (pick(W, 2) && s[0].top() != HTTPS_) talk();
        }
        ev("built", s[0].ls.size(), s[0].h);
        if (fail) fail_step();
        else if (pick(W, 2)) { // down to the bottom in good order
            while (!s[0].ls.empty()) { both("detach", [&](Stack_ &x) { detach(x, dill_now() + 3000000, false); }); if (pick(W, 3) == 0 && s[0].top() != HTTPS_) talk(); }
            talk(); int fds0 = open_fds(); both("close", [&](Stack_ &x) { x.old.push_back(x.h); int rc = x.tcp ? dill_tcp_close(x.h, dill_now() + 3000000) : dill_ipc_close(x.h, dill_now() + 3000000); if (rc) viol("C27 C12", "close", "closing the connection failed with %s", ename(errno)); }); if (open_fds() != fds0 - 2) viol(T, "not-closed", "the connection is still open after close"); for (auto &x : s) gone(x, "close", -1);
        } else { hclose(s[0]); if (pick(W, 2)) survivor(s[1]); else hclose(s[1]); }
        dill_msleep(dill_now() + 2000); probe("layers.attached", nat); probe("layers.detached", ndet); probe("layers.failed", nfail); if (depth >= 3) probe("layers.depth3"); if (depth) nontrivial();
    }
};
}
SCENARIO(layers) { randomize_common(true); cfg.loss_pm = 0; if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; cfg.stall_max = std::min<int64_t>(cfg.stall_max, 20 * MSG); auto *r = new Layers; r->run(); delete r; final_census("C27"); }
