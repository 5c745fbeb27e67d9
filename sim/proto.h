// What the scenarios for the protocols on top of byte streams share.
#pragma once
#include "lib.h"
#include <sys/socket.h>
extern "C" {
#include <libdillimpl.h>
}
inline int64_t idle_ns() { return now_ns() - busy_ns(); }
// A byte stream the application implements itself.  Unlike the library's own ones it doesn't remember its errors: what
// was transferred before a deadline is gone, and the next call goes on from there.
struct Loose {
    dill_hvfs hvfs; dill_bsock_vfs bvfs; int fd;
    static void *query(dill_hvfs *v, const void *type) { if (type == dill_bsock_type) return &((Loose *)v)->bvfs; errno = ENOTSUP; return NULL; }
    static void close(dill_hvfs *v) { Loose *l = (Loose *)v; if (dill_fdclean(l->fd)) viol("C10", "clean-busy", "fdclean failed with %s", ename(errno)); sys_close(l->fd); delete l; }
    static Loose *of(dill_bsock_vfs *b) { return (Loose *)((char *)b - offsetof(Loose, bvfs)); }
    static int sendl(dill_bsock_vfs *b, dill_iolist *f, dill_iolist *la, int64_t dl) {
        int fd = of(b)->fd; if (!f || !la || la->iol_next) { errno = EINVAL; return -1; }
        for (dill_iolist *i = f; i; i = i->iol_next) for (size_t o = 0; o < i->iol_len;) {
            long n = sys_write(fd, (char *)i->iol_base + o, i->iol_len - o); if (n > 0) { o += (size_t)n; continue; }
            if (errno != EAGAIN) { if (errno == EPIPE || errno == ETIMEDOUT) errno = ECONNRESET; return -1; } if (dill_fdout(fd, dl)) return -1; }
        return 0;
    }
    static int recvl(dill_bsock_vfs *b, dill_iolist *f, dill_iolist *la, int64_t dl) {
        int fd = of(b)->fd; char skip[256]; dill_iolist all = {NULL, SIZE_MAX, NULL, 0}; if (!f && !la) f = la = &all; if (!f || !la || la->iol_next) { errno = EINVAL; return -1; }
        for (dill_iolist *i = f; i; i = i->iol_next) for (size_t o = 0; o < i->iol_len;) {
            size_t k = i->iol_len - o; long n = i->iol_base ? sys_read(fd, (char *)i->iol_base + o, k) : sys_read(fd, skip, std::min(k, sizeof skip)); if (n > 0) { o += (size_t)n; continue; }
            if (n == 0) { errno = EPIPE; return -1; } if (errno != EAGAIN) { if (errno == EPIPE || errno == ETIMEDOUT) errno = ECONNRESET; return -1; } if (dill_fdin(fd, dl)) return -1; }
        return 0;
    }
    static int make(int fd, const char *tags) { Loose *l = new Loose; l->hvfs.query = query; l->hvfs.close = close; l->bvfs.bsendl = sendl; l->bvfs.brecvl = recvl; l->fd = fd; int h = dill_hmake(&l->hvfs); if (h < 0) viol(tags, "hmake", "hmake failed with %s", ename(errno)); return h; }
};
// Two connected byte streams of the library. kind: 0 IPC, 1 TCP.
struct Base {
    int h[2] = {-1, -1}; std::vector<std::unique_ptr<Mem>> mems;
    void pair(const char *tags, bool own = true) {
        if (own && chance(W, 1, 5)) { int f[2]; if (pick(W, 2)) mk_tcppair(f); else mk_socketpair(f); for (int i = 0; i < 2; ++i) h[i] = Loose::make(f[i], tags); probe("proto.own-bytestream"); }
        else if (pick(W, 2)) { int f[2]; mk_tcppair(f); for (int i = 0; i < 2; ++i) { if (pick(W, 2)) { mems.emplace_back(new Mem(sizeof(dill_tcp_storage))); h[i] = dill_tcp_fromfd_mem(f[i], (dill_tcp_storage *)mems.back()->p); } else h[i] = dill_tcp_fromfd(f[i]); if (h[i] < 0) viol(tags, "fromfd", "tcp_fromfd failed with %s", ename(errno)); } }
        else if (pick(W, 2)) { mems.emplace_back(new Mem(sizeof(dill_ipc_pair_storage))); if (dill_ipc_pair_mem((dill_ipc_pair_storage *)mems.back()->p, h)) viol(tags, "ipc_pair", "ipc_pair_mem failed with %s", ename(errno)); }
        else if (dill_ipc_pair(h)) viol(tags, "ipc_pair", "ipc_pair failed with %s", ename(errno));
    }
    // one end is the library's, the other a script
    std::shared_ptr<RawPeer> raw(const char *tags) {
        std::shared_ptr<RawPeer> p; bool tcp = pick(W, 2); int f = mk_rawpair(tcp, p); h[0] = tcp ? dill_tcp_fromfd(f) : dill_ipc_fromfd(f); if (h[0] < 0) viol(tags, "fromfd", "fromfd failed with %s", ename(errno)); return p;
    }
};
// The script sends these bytes in random fragments at random times; returns when the last one goes.
inline int64_t send_fragmented(std::shared_ptr<RawPeer> p, const Str &d, int64_t start = 0, std::function<void()> then = nullptr) {
    int64_t t = start; size_t o = 0; uint32_t piece = oneofu(N, {1000000, 1, 7, 100, 2000}); uint32_t gap = oneofu(N, {0, 1000, 50000000});
    int n = 0;
    while (o < d.size()) { size_t k = std::min<size_t>(d.size() - o, piece == 1000000 ? piece : 1 + pick(N, piece)); if (++n > 60) k = d.size() - o; Str x = d.substr(o, k); after(t, [p, x] { p->send(x); }); o += k; t += gap ? 1 + pick(N, gap) : 0; }
    if (then) after(t + 1, then);
    return t;
}
struct NoThrow {};
// small swarm of network settings suitable for protocols
inline void proto_net() {
    static const uint32_t caps[] = {65536, 1, 16, 2000, 300}; if (cfg.scap < 1) cfg.scap = 1;
    cfg.ucap = caps[pick(N, 5)]; if (cfg.mss < 3) cfg.mss = 3; if (cfg.scap < 16) cfg.scap = 16; if (cfg.rcap < 16) cfg.rcap = 16;
}
// a message buffer of the wanted size: one piece or a list
struct RBuf {
    size_t cap; bool list, drop; Iol l; std::unique_ptr<Mem> m;
    RBuf(size_t cap_, bool allow_drop = true) : cap(cap_) { list = pick(W, 2); drop = allow_drop && chance(W, 1, 10); if (!drop) { if (list) l.make(cap, NULL, 6, chance(W, 1, 3)); else m.reset(new Mem(cap)); } }
    ssize_t recv(int h, int64_t dl) { if (drop) return dill_mrecvl(h, NULL, NULL, dl); return list ? dill_mrecvl(h, l.first(), l.last(), dl) : dill_mrecv(h, m->p, cap, dl); }
    // 0 ok; the first n bytes equal s (skipped ones aside)
    bool same(const Str &s) {
        if (drop) return true;
        if (!list) return !memcmp(m->p, s.data(), s.size());
        size_t o = 0; for (size_t i = 0; i < l.bufs.size() && o < s.size(); ++i) { size_t k = std::min(l.lens[i], s.size() - o); if (l.bufs[i] && memcmp(l.bufs[i], s.data() + o, k)) return false; o += k; }
        return true;
    }
    void after_call(const char *tags, const char *what) { if (list && !drop) l.check_unchanged(tags, what); }
};
struct SBuf {
    Str d; bool list; Iol l; std::unique_ptr<Mem> m;
    SBuf(const Str &s) : d(s) { list = pick(W, 2); if (list) l.make(s.size(), s.data(), chance(W, 1, 150) ? -(1000 + (int)pick(W, 50) + (pick(W, 2) ? 20000 : 0)) : 6); else { m.reset(new Mem(s.size())); memcpy(m->p, s.data(), s.size()); } }
    int send(int h, int64_t dl) { return list ? dill_msendl(h, l.first(), l.last(), dl) : dill_msend(h, m->p, d.size(), dl); }
    void after_call(const char *tags, const char *what) { if (list) { l.check_unchanged(tags, what); if (l.bytes() != d) viol(tags, "sender-changed", "%s changed the data being sent", what); } else if (memcmp(m->p, d.data(), d.size())) viol(tags, "sender-changed", "%s changed the data being sent", what); }
};
// an invalid list
struct BadList {
    Iol l; dill_iolist other = {NULL, 0, NULL, 0}, *f, *la; std::vector<dill_iolist> sv; Str before;
    BadList() {
        l.make(1 + pick(W, 50), NULL, 5); f = l.first(); la = l.last(); before = l.bytes();
        switch (pick(W, 5)) { case 0: if (pick(W, 2)) f = NULL; else la = NULL; break; case 1: l.v[pick(W, (uint32_t)l.v.size())].iol_rsvd = 1; break; case 2: l.v.back().iol_next = &l.v[pick(W, (uint32_t)l.v.size())]; la = &other; break; case 3: la = &other; break; default: if (l.v.size() > 1) la = &l.v[0]; else la = &other; }
        sv = l.v;
    }
    void check(const char *tags, const char *what, int rc, int e) {
        for (size_t i = 0; i < sv.size(); ++i) if (sv[i].iol_base != l.v[i].iol_base || sv[i].iol_len != l.v[i].iol_len || sv[i].iol_next != l.v[i].iol_next || sv[i].iol_rsvd != l.v[i].iol_rsvd) viol(tags, "iolist-modified", "%s with an invalid list left it modified", what);
        if (rc >= 0) viol(tags, "invalid-accepted", "%s with an invalid list succeeded", what);
        if (e != EINVAL) viol(tags, "invalid-errno", "%s with an invalid list failed with %s", what, ename(e));
        if (l.bytes() != before) viol(tags, "invalid-transferred", "%s with an invalid list transferred data", what);
    }
};
