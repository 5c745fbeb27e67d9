// Resource failures in every public call (C26, C27).
#include "tlsenv.h"
extern "C" {
#include <libdillimpl.h>
}
#include <netinet/in.h>
#include <sys/un.h>
extern "C" { int sim_socket(int, int, int); int sim_bind(int, const struct sockaddr *, socklen_t); int sim_listen(int, int); }
namespace {
const char *T = "C26 C27";
const char *rn[] = {"memory", "descriptors", "guard pages", "epoll registrations"};
bool on_heap_stack() { char c; return in_heap(&c); }
// A program which works all the time next to the calls that fail.
struct Bg {
    int b = -1, s[2] = {-1, -1}, ch[2] = {-1, -1}, pp[2] = {-1, -1}; bool stop = false, streams; std::vector<char *> stacks; int64_t n = 0, pings = 0, timers = 0, pipes = 0;
    std::unique_ptr<Mem> um;
    void mine() { char c; stacks.push_back(&c); }
    bool is_mine() { char c; for (char *p : stacks) if (&c > p - 200000 && &c < p + 60000) return true; return false; }
    void start(bool streams_) {
        streams = streams_; if (dill_chmake(ch)) viol(T, "setup", "chmake failed"); if (dill_ipc_pair(s)) viol(T, "setup", "ipc_pair failed"); mk_pipe(pp); b = dill_bundle();
        co_bgo(b, [this] { mine(); while (!stop) { int64_t d = dill_now() + 1 + pick(S, 20); Watch w; int rc = dill_msleep(d); if (rc) { if (errno != ECANCELED) viol(T, "bg-sleep", "msleep failed with %s", ename(errno)); return; } if (!in_time(w, d)) viol("C26 C04", "bg-late", "msleep woke up too late"); ++timers; int v = (int)timers; if (dill_chsend(ch[0], &v, sizeof v, -1)) { if (errno != ECANCELED) viol(T, "bg-chan", "chsend failed with %s", ename(errno)); return; } } });
        co_bgo(b, [this] { mine(); for (int i = 1;; ++i) { int v; if (dill_chrecv(ch[1], &v, sizeof v, -1)) { if (errno != ECANCELED) viol(T, "bg-chan", "chrecv failed with %s", ename(errno)); return; } if (v != i) viol(T, "bg-chan-data", "a channel that had existed before lost or changed a message"); } });
        if (streams) for (int i = 0; i < 2; ++i) co_bgo(b, [this, i] { mine(); for (int k = 0;; ++k) { char x[40]; size_t l = 1 + k % 37; if ((k & 1) == i) { Str d = pattern(l, 1000 + k); if (dill_bsend(s[i], d.data(), l, -1)) { if (errno != ECANCELED) viol(T, "bg-send", "bsend on a connection which had existed before failed with %s", ename(errno)); return; } } else { if (dill_brecv(s[i], x, l, -1)) { if (errno != ECANCELED) viol(T, "bg-recv", "brecv on a connection which had existed before failed with %s", ename(errno)); return; } if (Str(x, l) != pattern(l, 1000 + k)) viol(T, "bg-data", "data on a connection which had existed before changed"); ++pings; if (dill_msleep(dill_now() + 1 + pick(S, 8))) return; } } });
        else { // waits for a pipe; a wait may report that the kernel has no resources and is then repeated
            co_bgo(b, [this] { mine(); for (;;) { int rc = dill_fdin(pp[0], -1); if (rc) { if (errno == ENOMEM || errno == ENOSPC) { probe("res.bg-wait-failed"); if (dill_yield()) return; continue; } if (errno != ECANCELED) viol(T, "bg-fdin", "fdin failed with %s", ename(errno)); return; } char c; if (sys_read(pp[0], &c, 1) != 1) { viol(T, "bg-fdin", "fdin reported a descriptor that cannot be read"); } ++pipes; if (pick(S, 2) && dill_msleep(dill_now() + 1 + pick(S, 4))) return; } });
            co_bgo(b, [this] { mine(); while (!stop) { if (dill_msleep(dill_now() + pick(S, 6))) return; char c = 1; sys_write(pp[1], &c, 1); } }); }
    }
    void check() { // still alive?
        int64_t a = timers, p = pings, q = pipes; for (int i = 0; i < 40 && (timers == a || (streams ? pings == p : pipes == q)); ++i) dill_msleep(dill_now() + 50);
        if (timers == a) viol("C26 C08", "bg-dead", "a coroutine which had existed before does not run any more"); if (streams ? pings == p : pipes == q) viol("C26 C08", "bg-stuck", "a connection or wait which had existed before does not make progress");
    }
    void end() { stop = true; int r = dill_hclose(b); if (r) viol(T, "bg-close", "closing failed"); dill_hclose(s[0]); dill_hclose(s[1]); dill_hclose(ch[0]); dill_hclose(ch[1]); dill_fdclean(pp[0]); dill_fdclean(pp[1]); sys_close(pp[0]); sys_close(pp[1]); }
};
struct Res_ {
    Bg bg; Res cls; int fails = 0, survived = 0, okc = 0; bool anyw = false; std::vector<int> filler; std::deque<Mem> fillmem; Str keyf, certf; int uniq = 0; bool tlsdone = false;
    std::vector<std::unique_ptr<Mem>> mems;
    template <class S> S *mem() { mems.emplace_back(new Mem(sizeof(S))); return (S *)mems.back()->p; }
    static bool stale(int h) { static int t; errno = 0; return !dill_hquery(h, &t) && errno == EBADF; }
    // the table of handles is full: the next handle needs memory
    void fill() {
        if (filler.size() > 1100) return; auto f = res_filter; res_filter = nullptr; arm(R_MEM, 0, 1000);
        for (int i = 0; i < 600; ++i) { fillmem.emplace_back(sizeof(dill_bundle_storage)); int h = dill_bundle_mem((dill_bundle_storage *)fillmem.back().p); if (h < 0) { if (errno != ENOMEM) viol(T, "errno:bundle_mem", "bundle_mem failed with %s when there is no memory", ename(errno)); fillmem.pop_back(); break; } filler.push_back(h); }
        disarm(); res_filter = f; probe("res.table-full");
    }
    // prep: creates what the call needs; exec: the call; ok/fail: afterwards
    void op(const char *name, Fn prep, std::function<int()> exec, Fn ok, Fn fail, bool any = false, bool any_errno = false) {
        bool sweep = pick(W, 2); int n = sweep ? 60 : 1 + pick(W, 4); bool full = cls == R_MEM && pick(W, 3) == 0; ev(name, sweep, n, full);
        for (int i = 1; i <= n + 1; ++i) {
            bool last = i > n; int fds0 = open_fds(); size_t mark = alloc_mark(); prep(); bool f = full && (!last || pick(W, 2)); if (f) fill();
            anyw = any; uint32_t pm = sweep ? 0 : oneofu(F, {1000, 500, 200, 50}); int64_t k = sweep ? i : pick(F, 2) ? 0 : 1 + pick(F, 12); if (!sweep && k) pm = 0;
            if (!last) arm(cls, k, pm); else { disarm(); arm(cls, 0, 0); }
            errno = 0; int rc = exec(), e = errno; int64_t fired = last ? 0 : res_fired(); disarm(); ev("res", rc < 0 ? e : 0, fired, i);
            if (rc < 0) {
                if (!fired) viol("C26", Str("no-reason:").append(name).c_str(), "%s failed with %s although no resource was missing%s", name, ename(e), i > 1 ? " any more" : "");
                if (!any_errno && e != ENOMEM && e != EMFILE && e != ENFILE && e != ENOSPC && e != ENOBUFS) viol("C26", Str("errno:").append(name).c_str(), "%s failed with %s for lack of %s", name, ename(e), rn[cls]);
                ++fails; probe((Str("res.failed.") + name).c_str()); fail();
            } else { if (fired) { ++survived; probe((Str("res.survived.") + name).c_str()); } ++okc; ok(); }
            mems.clear(); if (verbose()) { Str x = describe_allocs(mark); if (!x.empty()) note("kept by %s: %s", name, x.c_str()); }
            if (open_fds() != fds0) viol("C26 C27", Str("leak-fd:").append(name).c_str(), "%s %s (%s) for lack of %s and %d descriptors are open, %d before: %s", name, rc < 0 ? "failed" : "succeeded", ename(rc < 0 ? e : 0), rn[cls], open_fds(), fds0, describe_fds().c_str());
            if (sweep && !fired && rc >= 0) break;
        }
        if (pick(W, 4) == 0) bg.check();
    }
    void leave(std::initializer_list<int> hs) { for (int h : hs) if (h >= 0 && dill_hclose(h)) viol(T, "close", "hclose failed with %s", ename(errno)); }
    static void talk(int a, int b, const char *what) { // bytes get through both ways
        for (int d = 0; d < 2; ++d) { int x = d ? b : a, y = d ? a : b; char r[5]; if (dill_bsend(x, "hello", 5, dill_now() + 20000)) viol("C26", Str("broken:").append(what).c_str(), "the socket returned by %s cannot send: %s", what, ename(errno)); if (dill_brecv(y, r, 5, dill_now() + 20000) || memcmp(r, "hello", 5)) viol("C26", Str("broken:").append(what).c_str(), "the socket returned by %s cannot receive: %s", what, ename(errno)); }
    }
    static void mtalk(int a, int b, const char *what) {
        for (int d = 0; d < 2; ++d) { int x = d ? b : a, y = d ? a : b; char r[20]; if (dill_msend(x, "hello", 5, dill_now() + 20000)) viol("C26", Str("broken:").append(what).c_str(), "the socket returned by %s cannot send: %s", what, ename(errno)); if (dill_mrecv(y, r, 20, dill_now() + 20000) != 5 || memcmp(r, "hello", 5)) viol("C26", Str("broken:").append(what).c_str(), "the socket returned by %s cannot receive: %s", what, ename(errno)); }
    }
    void gone(int h, const char *what) { if (!stale(h)) viol("C27 C26", Str("not-closed:").append(what).c_str(), "%s failed but the socket passed to it is still open", what); }
    void chan() {
        int c[2]; bool um = pick(W, 2);
        op(um ? "chmake_mem" : "chmake", [] {}, [&] { return um ? dill_chmake_mem(mem<dill_chstorage>(), c) : dill_chmake(c); }, [&] { if (dill_chdone(c[0])) viol("C26", "broken:chmake", "chdone failed"); char x; if (!dill_chrecv(c[1], &x, 1, 0) || errno != EPIPE) viol("C26", "broken:chmake", "the channel does not work"); leave({c[0], c[1]}); }, [] {});
    }
    void go() {
        int k = pick(W, 4), b = -1, h = -1; bool ran = false, hold = pick(W, 2); std::vector<int> many; size_t sz = 65536;
        static const char *nm[] = {"go", "go_mem", "bundle_go", "bundle_go_mem"}; int nmany = oneofu(W, {0, 3, 70}); std::unique_ptr<Mem> st;
        if (pick(W, 2)) for (int i = 0; i < nmany; ++i) many.push_back(co_go([] { dill_msleep(-1); })); // cached stacks are in use or many
        op(nm[k], [&] { ran = false; st.reset(k & 1 ? new Mem(sz) : NULL); if (k >= 2) b = dill_bundle(); }, [&] { Fn f = [&ran, hold] { ran = true; if (hold) dill_msleep(-1); }; h = k == 0 ? co_go(f) : k == 1 ? co_go_mem(f, st->p, sz) : k == 2 ? co_bgo(b, f) : co_bgo_mem(b, f, st->p, sz); return h; },
           [&] { if (!ran) viol("C26", "broken:go", "the coroutine did not run"); leave({k < 2 ? h : b}); }, [&] { if (ran) viol("C26", "go-ran", "go failed but the coroutine ran"); if (k >= 2) { bool r2 = false; int rc = dill_bundle_wait(b, 0); if (rc) viol("C26", "bundle-broken", "waiting for an empty bundle failed with %s after bundle_go had failed", ename(errno)); (void)r2; leave({b}); } });
        for (int x : many) leave({x});
    }
    void bundle() { int h; bool um = pick(W, 2); op(um ? "bundle_mem" : "bundle", [] {}, [&] { return h = um ? dill_bundle_mem(mem<dill_bundle_storage>()) : dill_bundle(); }, [&] { if (dill_bundle_wait(h, 0)) viol("C26", "broken:bundle", "bundle_wait failed"); leave({h}); }, [] {}); }
    void hown() { int h, o; op("hown", [&] { o = dill_bundle(); }, [&] { return h = dill_hown(o); }, [&] { leave({h}); }, [&] { gone(o, "hown"); }); }
    dill_ipaddr addr(int port) { dill_ipaddr a; dill_ipaddr_remote(&a, "127.0.0.1", port, DILL_IPADDR_IPV4, -1); return a; }
    void tcp() {
        int k = pick(W, 3), l = -1, c = -1, a = -1; dill_ipaddr la; bool um = pick(W, 2); static const char *nm[] = {"tcp_listen", "tcp_connect", "tcp_accept"};
        op(nm[k], [&] { l = c = a = -1; la = addr(k == 0 && pick(W, 2) ? 4321 : 0); if (k >= 1) l = dill_tcp_listen(&la, 10); if (k == 2) c = dill_tcp_connect(&la, dill_now() + 5000); },
           [&] { switch (k) { case 0: return l = um ? dill_tcp_listen_mem(&la, 10, mem<dill_tcp_listener_storage>()) : dill_tcp_listen(&la, 10); case 1: return c = um ? dill_tcp_connect_mem(&la, mem<dill_tcp_storage>(), dill_now() + 5000) : dill_tcp_connect(&la, dill_now() + 5000); default: return a = um ? dill_tcp_accept_mem(l, NULL, mem<dill_tcp_storage>(), dill_now() + 5000) : dill_tcp_accept(l, NULL, dill_now() + 5000); } },
           [&] { if (k == 0) c = dill_tcp_connect(&la, dill_now() + 5000); if (k <= 1) a = dill_tcp_accept(l, NULL, dill_now() + 5000); if (c < 0 || a < 0) viol("C26", "broken:tcp", "connecting failed afterwards: %s", ename(errno)); talk(c, a, nm[k]); leave({l, c, a}); dill_msleep(dill_now() + 5); },
           [&] { if (k == 1 && pick(W, 2)) { // the listener still works
                   // an abandoned connection may be in the queue
                   c = dill_tcp_connect(&la, dill_now() + 5000); if (c < 0) viol("C26", "broken:tcp", "connecting failed: %s", ename(errno)); bool good = false; for (int i = 0; i < 3 && !good; ++i) { a = dill_tcp_accept(l, NULL, dill_now() + 5000); if (a < 0) viol("C26", "broken:tcp", "accepting failed: %s", ename(errno)); char x; if (dill_bsend(c, "x", 1, -1)) break; if (!dill_brecv(a, &x, 1, dill_now() + 5000)) good = true; else { leave({a}); a = -1; } } if (!good) viol("C26", "broken:tcp", "the listener does not give the connection out"); }
                 leave({l, c, a}); dill_msleep(dill_now() + 5); });
    }
    void ipc() {
        int k = pick(W, 4), l = -1, c = -1, a = -1, s[2]; Str p; bool um = pick(W, 2); static const char *nm[] = {"ipc_listen", "ipc_connect", "ipc_accept", "ipc_pair"}; bool same = pick(W, 2); p = "/s" + std::to_string(uniq++);
        op(nm[k], [&] { l = c = a = s[0] = s[1] = -1; if (!same || k) p = "/s" + std::to_string(uniq++); if (k == 1 || k == 2) l = dill_ipc_listen(p.c_str(), 10); if (k == 2) c = dill_ipc_connect(p.c_str(), dill_now() + 5000); },
           [&] { switch (k) { case 0: return l = um ? dill_ipc_listen_mem(p.c_str(), 10, mem<dill_ipc_listener_storage>()) : dill_ipc_listen(p.c_str(), 10); case 1: return c = um ? dill_ipc_connect_mem(p.c_str(), mem<dill_ipc_storage>(), dill_now() + 5000) : dill_ipc_connect(p.c_str(), dill_now() + 5000); case 2: return a = um ? dill_ipc_accept_mem(l, mem<dill_ipc_storage>(), dill_now() + 5000) : dill_ipc_accept(l, dill_now() + 5000); default: return um ? dill_ipc_pair_mem(mem<dill_ipc_pair_storage>(), s) : dill_ipc_pair(s); } },
           [&] { if (k == 0) c = dill_ipc_connect(p.c_str(), dill_now() + 5000); if (k <= 1) a = dill_ipc_accept(l, dill_now() + 5000); if (k == 3) c = s[0], a = s[1]; if (c < 0 || a < 0) viol("C26", "broken:ipc", "connecting failed afterwards: %s", ename(errno)); talk(c, a, nm[k]); leave({l, c, a}); if (k == 0 && same) p = "/s" + std::to_string(uniq++); },
           [&] { if (k == 2) { gone(-1, "x"); } leave({l, c, a}); });
    }
    void fromfd() {
        int k = pick(W, 4), f[2] = {-1, -1}, h = -1; uint64_t id = 0; bool um = pick(W, 2); static const char *nm[] = {"tcp_fromfd", "ipc_fromfd", "tcp_listener_fromfd", "ipc_listener_fromfd"};
        op(nm[k], [&] { f[0] = f[1] = -1; if (k == 0) mk_tcppair(f); else if (k == 1) mk_socketpair(f); else f[0] = k == 2 ? mk_listener(true) : mk_listener(false); id = file_id(f[0]); },
           [&] { switch (k) { case 0: return h = um ? dill_tcp_fromfd_mem(f[0], mem<dill_tcp_storage>()) : dill_tcp_fromfd(f[0]); case 1: return h = um ? dill_ipc_fromfd_mem(f[0], mem<dill_ipc_storage>()) : dill_ipc_fromfd(f[0]); case 2: return h = um ? dill_tcp_listener_fromfd_mem(f[0], mem<dill_tcp_listener_storage>()) : dill_tcp_listener_fromfd(f[0]); default: return h = um ? dill_ipc_listener_fromfd_mem(f[0], mem<dill_ipc_listener_storage>()) : dill_ipc_listener_fromfd(f[0]); } },
           [&] { if (k < 2) { if (dill_bsend(h, "hello", 5, dill_now() + 5000)) viol("C26", "broken:fromfd", "cannot send: %s", ename(errno)); char x[5]; int got = 0; while (got < 5) { if (dill_fdin(f[1], dill_now() + 5000)) viol("C26", "broken:fromfd", "the data did not arrive"); int r = sys_read(f[1], x + got, 5 - got); if (r == 0) viol("C26", "broken:fromfd", "the stream ended"); if (r > 0) got += r; } dill_fdclean(f[1]); sys_close(f[1]); } leave({h}); },
           [&] { if (!fd_is_open(f[0]) || file_id(f[0]) != id) viol("C26", Str("taken:").append(nm[k]).c_str(), "%s failed but took the descriptor away: the call cannot be repeated", nm[k]); if (pick(W, 2)) dill_fdclean(f[0]); sys_close(f[0]); if (f[1] >= 0) sys_close(f[1]); });
    }
    int mk_listener(bool tcp); bool dns_loaded = false; size_t dns_kept = 0;
    void udp() {
        int h = -1; bool um = pick(W, 2); dill_ipaddr a;
        op("udp_open", [&] { a = addr(pick(W, 2) ? 5555 : 0); }, [&] { return h = um ? dill_udp_open_mem(&a, NULL, mem<dill_udp_storage>()) : dill_udp_open(&a, NULL); }, [&] { bool ok = false; for (int i = 0; i < 30 && !ok; ++i) { if (dill_udp_send(h, &a, "x", 1)) viol("C26", "broken:udp_open", "cannot send: %s", ename(errno)); char x; ok = dill_udp_recv(h, NULL, &x, 1, dill_now() + 2000) == 1; } if (!ok) viol("C26", "broken:udp_open", "nothing arrives"); leave({h}); }, [] {});
    }
    void udprecv() { // skipped parts need memory
        int h = -1; dill_ipaddr a = addr(0); h = dill_udp_open(&a, NULL); char x[10]; dill_iolist l[3]; ssize_t n = -1; if (h < 0) viol("C26", "setup", "udp_open failed: %s", ename(errno));
        op("udp_recvl", [&] { dill_udp_send(h, &a, "hello", 5); dill_msleep(dill_now() + 1000); l[0] = {x, 2, &l[1], 0}; l[1] = {NULL, 2, &l[2], 0}; l[2] = {x + 4, 5, NULL, 0}; }, [&] { n = dill_udp_recvl(h, NULL, &l[0], &l[2], dill_now() + 50); if (n < 0 && errno == ETIMEDOUT) { n = -2; return 0; } return (int)n; },
           [&] { if (n != -2 && n != 5) viol("C26", "broken:udp_recvl", "received %zd bytes", n); if (n == 5 && (memcmp(x, "he", 2) || x[4] != 'o')) viol("C26", "broken:udp_recvl", "content differs"); }, [] {}); leave({h});
    }
    // ---- layers ----
    void pair(int s[2], bool tcp) { int f[2]; if (tcp) { mk_tcppair(f); for (int i = 0; i < 2; ++i) if ((s[i] = dill_tcp_fromfd(f[i])) < 0) viol(T, "setup", "tcp_fromfd failed: %s", ename(errno)); } else if (dill_ipc_pair(s)) viol(T, "setup", "ipc_pair failed: %s", ename(errno)); }
    void attach() {
        int k = pick(W, 4), s[2], h = -1, o = -1; bool um = pick(W, 2), tcp = pick(W, 2); static const char *nm[] = {"prefix_attach", "suffix_attach", "term_attach", "http_attach"};
        auto other = [&](int u) { int r = k == 0 ? dill_prefix_attach(u, 2, 0) : k == 1 ? dill_suffix_attach(u, "\r\n", 2) : k == 2 ? dill_term_attach(u, "STOP", 4) : dill_http_attach(u); if (r < 0) viol(T, "setup", "attach failed: %s", ename(errno)); return r; };
        op(nm[k], [&] { pair(s, tcp); if (k == 2) for (int i = 0; i < 2; ++i) if ((s[i] = dill_prefix_attach(s[i], 2, 0)) < 0) viol(T, "setup", "prefix_attach failed: %s", ename(errno)); },
           [&] { int u = s[0]; switch (k) { case 0: return h = um ? dill_prefix_attach_mem(u, 2, 0, mem<dill_prefix_storage>()) : dill_prefix_attach(u, 2, 0); case 1: return h = um ? dill_suffix_attach_mem(u, "\r\n", 2, mem<dill_suffix_storage>()) : dill_suffix_attach(u, "\r\n", 2); case 2: return h = um ? dill_term_attach_mem(u, "STOP", 4, mem<dill_term_storage>()) : dill_term_attach(u, "STOP", 4); default: return h = um ? dill_http_attach_mem(u, mem<dill_http_storage>()) : dill_http_attach(u); } },
           [&] { o = other(s[1]); if (k < 3) mtalk(h, o, nm[k]); else { char c[20], r[20]; if (dill_http_sendrequest(h, "GET", "/x", dill_now() + 5000) || dill_http_recvrequest(o, c, 20, r, 20, dill_now() + 5000) || strcmp(c, "GET") || strcmp(r, "/x")) viol("C26", "broken:http_attach", "a request does not get through: %s", ename(errno)); } leave({h, o}); },
           [&] { gone(s[0], nm[k]); char c; int r = k == 2 ? (int)dill_mrecv(s[1], &c, 1, dill_now() + 5000) : dill_brecv(s[1], &c, 1, dill_now() + 5000); if (r >= 0 || errno == ETIMEDOUT) viol("C27 C26", "peer-open", "%s failed but the peer does not see the connection end: %s", nm[k], ename(r < 0 ? errno : 0)); leave({s[1]}); });
    }
    void handshake(bool tls) { // one side in this coroutine, the other next to it
        int s[2], h = -1, o = -1, b = -1; bool um = pick(W, 2), tcp = pick(W, 2), server = pick(W, 2), http = pick(W, 2), odone = false; const char *nm = tls ? server ? "tls_attach_server" : "tls_attach_client" : server ? "ws_attach_server" : "ws_attach_client"; int fl = http ? 0 : DILL_WS_NOHTTP;
        auto at = [&](int u, bool srv, bool m, int64_t dl) {
            char r[200], ho[200];
            if (tls) return srv ? m ? dill_tls_attach_server_mem(u, certf.c_str(), keyf.c_str(), mem<dill_tls_storage>(), dl) : dill_tls_attach_server(u, certf.c_str(), keyf.c_str(), dl) : m ? dill_tls_attach_client_mem(u, mem<dill_tls_storage>(), dl) : dill_tls_attach_client(u, dl);
            if (srv) return m ? dill_ws_attach_server_mem(u, fl, http ? r : NULL, 200, http ? ho : NULL, 200, mem<dill_ws_storage>(), dl) : dill_ws_attach_server(u, fl, http ? r : NULL, 200, http ? ho : NULL, 200, dl);
            return m ? dill_ws_attach_client_mem(u, fl, http ? "/" : NULL, http ? "example.org" : NULL, mem<dill_ws_storage>(), dl) : dill_ws_attach_client(u, fl, http ? "/" : NULL, http ? "example.org" : NULL, dl);
        };
        op(nm, [&] { pair(s, tcp); o = -1; odone = false; b = dill_bundle(); co_bgo(b, [&] { o = at(s[1], !server, false, dill_now() + 60000); odone = true; }); },
           [&] { return h = at(s[0], server, um, dill_now() + 60000); },
           [&] { dill_bundle_wait(b, dill_now() + 70000); if (o < 0) viol("C26", Str("broken:").append(nm).c_str(), "%s succeeded but its peer failed", nm); if (tls) talk(h, o, nm); else mtalk(h, o, nm); leave({h, o, b}); },
           [&] { if (o != s[0]) gone(s[0], nm); dill_bundle_wait(b, dill_now() + 70000); if (!odone) viol("C26 C27", Str("peer-open:").append(nm).c_str(), "%s failed but the peer does not learn about it", nm); if (o >= 0) { char x; int r = tls ? dill_brecv(o, &x, 1, dill_now() + 5000) : (int)dill_mrecv(o, &x, 1, dill_now() + 5000); if (r >= 0 || errno == ETIMEDOUT) viol("C27 C26", Str("peer-open:").append(nm).c_str(), "%s failed but the peer does not see the connection end: %s", nm, ename(r < 0 ? errno : 0)); leave({o}); } leave({b}); }, false, tls && server && cls == R_FD); // a certificate file that cannot be opened gives EFAULT
    }
    void recv() { // the first receive of a connection needs a buffer
        int s[2]; bool tcp = pick(W, 2), pre = pick(W, 2); char x[8]; std::vector<int> idle; Str d;
        op(pre ? "mrecv" : "brecv", [&] { pair(s, tcp); idle.clear(); if (pre) for (int i = 0; i < 2; ++i) s[i] = dill_suffix_attach(s[i], "\n", 1); int rc = pre ? dill_msend(s[1], "hello", 5, -1) : dill_bsend(s[1], "hello", 5, -1); if (rc) viol(T, "setup", "send failed: %s", ename(errno));
              for (int i = 0; i < 33; ++i) { int p[2]; if (dill_ipc_pair(p)) viol(T, "setup", "ipc_pair failed"); char y; dill_bsend(p[0], "y", 1, -1); if (dill_brecv(p[1], &y, 1, dill_now() + 1000)) viol(T, "setup", "brecv failed: %s", ename(errno)); idle.push_back(p[0]); idle.push_back(p[1]); } }, // the cache of buffers is empty
           [&] { return pre ? (int)dill_mrecv(s[0], x, 8, dill_now() + 20000) : dill_brecv(s[0], x, 5, dill_now() + 20000); }, [&] { if (memcmp(x, "hello", 5)) viol("C26", "broken:recv", "content differs"); for (int q : idle) leave({q}); leave({s[0], s[1]}); }, [&] { for (int q : idle) leave({q}); leave({s[0], s[1]}); });
    }
    void fdwait() {
        int p[2]; bool out = pick(W, 2), late = pick(W, 2), twice = pick(W, 2);
        op(out ? "fdout" : "fdin", [&] { mk_pipe(p); if (!out && !late) { sys_write(p[1], "x", 1); } if (twice) { out ? dill_fdout(p[1], 0) : dill_fdin(p[0], 0); if (pick(W, 2)) dill_msleep(dill_now() + 3); } if (!out && late) after(20 * MS, [p] { sys_write(p[1], "x", 1); }); },
           [&] { return out ? dill_fdout(p[1], dill_now() + 5000) : dill_fdin(p[0], dill_now() + 5000); }, [&] { close2(p); }, [&] { if (late) dill_msleep(dill_now() + 30); int rc = out ? dill_fdout(p[1], dill_now() + 5000) : dill_fdin(p[0], dill_now() + 5000); if (rc) viol("C26 C10", "broken:fdin", "waiting for a descriptor failed with %s after an attempt for which the kernel had no resources", ename(errno)); close2(p); });
    }
    void fdboth() { // two coroutines wait for a descriptor which cannot be added
        std::shared_ptr<RawPeer> q; int f = -1, b = -1; bool odone = false; int orc = 0, oe = 0; bool swap = pick(W, 2);
        op("fdin+fdout", [&] { f = mk_rawpair(true, q); odone = false; b = dill_bundle(); dill_fdout(f, 0); dill_msleep(dill_now() + 3); co_bgo(b, [&] { orc = swap ? dill_fdout(f, dill_now() + 5000) : dill_fdin(f, dill_now() + 5000); oe = orc ? errno : 0; odone = true; }); },
           [&] { return swap ? dill_fdin(f, dill_now() + 3000) && errno != ETIMEDOUT ? -1 : 0 : dill_fdout(f, dill_now() + 5000); },
           [&] { if (dill_hclose(b)) viol(T, "close", "hclose failed"); drop(f, q); },
           [&] { for (int i = 0; i < 3; ++i) dill_yield(); bool one = !strcmp(variant(), "kqueue"); /* registers the directions separately */ if (!one && !odone) viol("C26 C10", "wait-lost", "a coroutine waiting for a descriptor which could not be registered is not told"); if (!one && (!orc || (oe != ENOMEM && oe != ENOSPC))) viol("C26 C10", "wait-lost", "a coroutine waiting for a descriptor which could not be registered got %d, %s", orc, ename(oe)); dill_hclose(b); drop(f, q); });
    }
    void drop(int f, std::shared_ptr<RawPeer> &q) { if (dill_fdclean(f)) viol("C26 C10", "fdclean", "fdclean failed: %s", ename(errno)); sys_close(f); q->close(); q.reset(); dill_msleep(dill_now() + 5); }
    void close2(int *p) { for (int i = 0; i < 2; ++i) { if (dill_fdclean(p[i])) viol("C26 C10", "fdclean", "fdclean failed: %s", ename(errno)); sys_close(p[i]); } }
    void connect_he() {
        if (!dns_loaded) resolve();
        int h = -1; int kind = pick(W, 2); Str name = kind ? "10.9.9.9" : "srv.test"; std::vector<std::shared_ptr<RawPeer>> ps; Remote r; r.kind = Remote::ACCEPT; r.delay = 1 * MS; r.on_accept = [&](std::shared_ptr<RawPeer> p) { ps.push_back(p); }; remotes[ip4(0x0a090909, 80)] = r; files["/etc/hosts"] = "127.0.0.1 localhost\n10.9.9.9 srv.test\n"; files["/etc/resolv.conf"] = "nameserver 10.0.0.53\nlookup file bind\noptions timeout:1 attempts:1\n";
        op("happyeyeballs_connect", [&] { ps.clear(); }, [&] { return h = dill_happyeyeballs_connect(name.c_str(), 80, dill_now() + 10000); }, [&] { if (dill_bsend(h, "x", 1, -1)) viol("C26", "broken:he", "cannot send: %s", ename(errno)); leave({h}); dill_msleep(dill_now() + 1000); for (auto &p : ps) p->close(); }, [&] { dill_msleep(dill_now() + 1000); for (auto &p : ps) p->close(); }, true, !kind);
        remotes.erase(ip4(0x0a090909, 80));
    }
    void resolve() {
        int k = pick(W, 3); dill_ipaddr a; files["/etc/hosts"] = "127.0.0.1 localhost\n10.9.9.9 srv.test\n"; files["/etc/resolv.conf"] = "nameserver 10.0.0.53\nlookup file bind\noptions timeout:1 attempts:1\n"; dill_ipaddr as[4]; int n = 0;
        static const char *nm[] = {"ipaddr_remote", "ipaddr_remotes", "ipaddr_local"};
        if (!dns_loaded) k = 1; bool first = !dns_loaded; size_t l0 = live_allocs(); std::vector<size_t> seen;
        op(nm[k], [] {}, [&] { if (k == 2) return dill_ipaddr_local(&a, pick(W, 2) ? "127.0.0.1" : NULL, 33, 0); if (k == 1) { n = dill_ipaddr_remotes(as, 4, "srv.test", 80, 0, dill_now() + 10000); return n; } return dill_ipaddr_remote(&a, "srv.test", 80, 0, dill_now() + 10000); },
           [&] { if (k == 2) return; if (k == 1) { if (n != 1) { viol("C26 C25", "wrong:ipaddr_remotes", "%d addresses instead of one", n); } a = as[0]; } char b[DILL_IPADDR_MAXSTRLEN]; if (strcmp(dill_ipaddr_str(&a, b), "10.9.9.9")) viol("C26 C25", "wrong:ipaddr_remote", "wrong address %s", b); seen.push_back(live_allocs()); }, [&] { seen.push_back(live_allocs()); }, false, true);
        // the configuration is loaded once and kept
        size_t l1 = live_allocs(); if (first) { dns_loaded = true; dns_kept = l1 - l0; } else if (l1 != l0) viol(T, "leak-memory:dns", "lookups kept memory: %zu blocks", l1 - l0);
        for (size_t x : seen) if (x != l0 && x != l1) viol(T, "leak-memory:dns", "a lookup that failed kept memory: %zd blocks, a successful one %zd", (ssize_t)(x - l0), (ssize_t)(l1 - l0));
    }
    void detach() { // needs no resources but must not depend on any
        int k = pick(W, 4), s[2], h[2], u[2]; bool tcp = pick(W, 2); static const char *nm[] = {"prefix_detach", "suffix_detach", "term_detach", "http_detach"}; int b = -1; bool odone = false;
        op(nm[k], [&] { pair(s, tcp); for (int i = 0; i < 2; ++i) { h[i] = s[i]; if (k == 2) h[i] = dill_prefix_attach(h[i], 4, 0); h[i] = k == 0 ? dill_prefix_attach(h[i], 2, 0) : k == 1 ? dill_suffix_attach(h[i], "\r\n", 2) : k == 2 ? dill_term_attach(h[i], "STOP", 4) : dill_http_attach(h[i]); if (h[i] < 0) viol(T, "setup", "attach failed: %s", ename(errno)); }
              b = dill_bundle(); odone = false; u[1] = -1; co_bgo(b, [&] { u[1] = det(k, h[1]); odone = true; }); },
           [&] { return u[0] = det(k, h[0]); }, [&] { dill_bundle_wait(b, dill_now() + 20000); if (u[1] < 0) viol("C26", "broken:detach", "the peer's %s failed: %s", nm[k], ename(errno)); if (k == 2) mtalk(u[0], u[1], nm[k]); else talk(u[0], u[1], nm[k]); leave({u[0], u[1], b}); }, [&] { dill_bundle_wait(b, dill_now() + 20000); leave({u[1], b}); });
    }
    static int det(int k, int h) { int64_t dl = dill_now() + 20000; return k == 0 ? dill_prefix_detach(h) : k == 1 ? dill_suffix_detach(h, dl) : k == 2 ? dill_term_detach(h, dl) : dill_http_detach(h, dl); }
    void run() {
        g_rnd = 0x9e3779b97f4a7c15ull ^ ((uint64_t)pick(W, 1u << 30) << 20); certf = g_dir + "tlscert.pem"; keyf = g_dir + "tlskey.pem"; proto_net(); cfg.ucap = std::max<uint32_t>(cfg.ucap, 2048); cfg.scap = cfg.rcap = 8192; if (cfg.mss < 100) cfg.mss = 100; cfg.nofile = 512;
        cls = (Res)oneofu(W, {R_MEM, R_MEM, R_FD, R_EPOLLADD, R_MPROTECT}); if (cls == R_EPOLLADD && !strcmp(variant(), "poll")) cls = R_MEM;
        bg.start(cls != R_EPOLLADD); dill_msleep(dill_now() + 50);
        res_filter = [this] { if (bg.is_mine()) return false; return anyw || !on_heap_stack(); };
        int n = 1 + pick(W, 8);
        for (int i = 0; i < n; ++i) switch (cls == R_MPROTECT ? 1 : cls == R_EPOLLADD ? oneofu(W, {4, 5, 7, 9, 10, 11, 12, 12, 13}) : pick(W, 18)) {
            case 0: chan(); break; case 1: go(); break; case 2: bundle(); break; case 3: hown(); break; case 4: tcp(); break; case 5: ipc(); break; case 6: fromfd(); break; case 7: udp(); break; case 8: udprecv(); break;
            case 9: attach(); break; case 10: handshake(false); break; case 11: handshake(true); break; case 12: pick(W, 4) ? fdwait() : fdboth(); break; case 13: connect_he(); break; case 14: resolve(); break; case 15: recv(); break; case 16: detach(); break; default: hown(); break;
        }
        bg.check(); res_filter = nullptr; bg.end(); for (int h : filler) dill_hclose(h); filler.clear(); dill_msleep(dill_now() + 2000);
        probe("res.failed", fails); probe("res.survived", survived); probe("res.ok", okc); if (fails) nontrivial();
    }
};
int Res_::mk_listener(bool tcp) {
    auto f = res_filter; res_filter = [] { return false; }; int fd = sim_socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM, 0), rc;
    if (tcp) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); rc = sim_bind(fd, (sockaddr *)&a, sizeof a); }
    else { sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "/l%d", uniq++); rc = sim_bind(fd, (sockaddr *)&a, sizeof a); }
    if (rc || sim_listen(fd, 10)) viol(T, "setup", "harness: listen failed"); res_filter = f; return fd;
}
}
SCENARIO(res) { randomize_common(true); cfg.loss_pm = 0; if (cfg.cpu_cost > 1000) cfg.cpu_cost = 1000; cfg.stall_max = std::min<int64_t>(cfg.stall_max, 20 * MS); auto *r = new Res_; r->run(); size_t kept = r->dns_kept; delete r; final_census("C26 C27", 0, kept); }
// The very first call of the library in a program: nothing has been set up yet.
SCENARIO(resinit) {
    randomize_common(false); Res cls = pick(W, 2) ? R_FD : R_MEM; int k = pick(W, 8); if (k == 5) cls = R_MEM; arm(cls, 1 + pick(W, 2), 0); static const char *nm[] = {"chmake", "bundle", "go", "msleep", "tcp_listen", "ipc_pair", "fdin", "now"};
    int c[2] = {-1, -1}, h = -1, rc = 0, p[2]; dill_ipaddr a; auto f = res_filter; res_filter = [] { return false; }; mk_pipe(p); res_filter = f; ev(nm[k], cls); errno = 0;
    switch (k) { case 0: rc = dill_chmake(c); break; case 1: rc = h = dill_bundle(); break; case 2: rc = h = co_go([] {}); break; case 3: rc = dill_msleep(5); break; case 4: memset(&a, 0, sizeof a); ((sockaddr_in *)&a)->sin_family = AF_INET; ((sockaddr_in *)&a)->sin_addr.s_addr = htonl(0x7f000001); rc = h = dill_tcp_listen(&a, 10); break; case 5: rc = dill_ipc_pair(c); break; case 6: rc = dill_fdin(p[0], 0); break; default: if (dill_now() <= 0) rc = -1; }
    int e = errno; int64_t fired = res_fired(); disarm(); if (rc < 0 && !(k == 6 && e == ETIMEDOUT)) { if (!fired) viol("C26", "init-no-reason", "%s failed with %s", nm[k], ename(e)); if (e != ENOMEM && e != EMFILE && e != ENFILE) viol("C26", "init-errno", "%s failed with %s", nm[k], ename(e)); nontrivial(); }
    for (int x : {c[0], c[1], h}) if (x >= 0) dill_hclose(x); dill_fdclean(p[0]); sys_close(p[0]); sys_close(p[1]);
    int q[2]; if (dill_ipc_pair(q)) viol("C26", "init-retry", "ipc_pair failed with %s once resources were available", ename(errno)); char y = 0; if (dill_bsend(q[0], "y", 1, -1) || dill_brecv(q[1], &y, 1, -1) || y != 'y') viol("C26", "init-retry", "a connection does not work"); dill_hclose(q[0]); dill_hclose(q[1]);
    final_census("C26 C27");
}
