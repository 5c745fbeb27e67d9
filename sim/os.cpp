// Simulated operating system: descriptors, pipes, sockets, network, epoll/poll, clocks.
#include "rt.h"
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include "kq/sys/event.h"
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace sim {
extern int64_t g_rt_off;
struct Errno { int e = errno; bool set = false; ~Errno() { errno = e; } int fail(int c) { e = c; return -1; } };

// ---- byte queue -------------------------------------------------------------
struct Bytes {
    std::string d; size_t off = 0;
    size_t size() const { return d.size() - off; }
    const char *data() const { return d.data() + off; }
    void append(const char *p, size_t n) { d.append(p, n); }
    void eat(size_t n) { off += n; if (off == d.size()) { d.clear(); off = 0; } else if (off > 65536 && off > d.size() / 2) { d.erase(0, off); off = 0; } }
    void clear() { d.clear(); off = 0; }
};

// ---- files --------------------------------------------------------------------
struct File {
    int refs = 0; bool nonblock = false; uint64_t id; int kind = 0; int thr = 0;
    File();
    virtual ~File() {}
    virtual short poll() { return POLLIN | POLLOUT; }
    virtual bool is_random() { return false; }
    virtual bool pollable() { return true; }
    virtual ssize_t read(const struct iovec *, int, int flags, struct msghdr *, int &err) { (void)flags; err = EINVAL; return -1; }
    virtual ssize_t write(const struct iovec *, int, int flags, const struct msghdr *, int &err) { (void)flags; err = EINVAL; return -1; }
    virtual void last_close() {}
};
enum { K_FILE, K_PIPE, K_SOCK, K_UDP, K_EPOLL, K_EVENTFD };
static uint64_t g_fileid;
File::File() { id = ++g_fileid; }
static std::set<File *> &all_epolls() { static std::set<File *> s; return s; }
struct EpollFile;
static void forget_in_epolls(File *f);
static void hold(File *f) { f->refs++; }
static void drop(File *f) {
    if (--f->refs > 0) return;
    forget_in_epolls(f);
    f->last_close();
    delete f;
}
struct Slot { int thr = 0; File *f = NULL; bool cloexec = false; };
static std::vector<Slot> g_fds;
static int off() { static int o = -1; if (o < 0) o = cfg.fdbase - 3; return o; } // g_fds[0] is this descriptor
static Slot &slot(int fd) { fd -= off(); if (fd >= (int)g_fds.size()) g_fds.resize(fd + 1); return g_fds[fd]; }
static File *get(int fd) { fd -= g_fds.empty() ? 0 : off(); return fd >= 0 && fd < (int)g_fds.size() ? g_fds[fd].f : NULL; }
static int limit() { return cfg.nofile + cfg.fdbase - 3; }
static int put(File *f, int lowest = 3) { // -1 if the table is full
    for (int i = std::max(lowest, cfg.fdbase); i < limit(); ++i) {
        if (i < off()) continue;
        Slot &s = slot(i);
        if (!s.f) { s.f = f; s.cloexec = false; s.thr = cur_thread(); hold(f); return i; }
    }
    return -1;
}
static bool table_full(int n = 1) {
    int used = cfg.fdbase; for (auto &s : g_fds) used += s.f != NULL;
    return used + n > limit();
}
static void forget_in_kqueues(int fd);
static int do_close(int fd) {
    File *f = get(fd);
    if (!f) return EBADF;
    forget_in_kqueues(fd);
    slot(fd).f = NULL;
    drop(f);
    return 0;
}
// the random device stays open for the life of the process: one descriptor of it is not counted
int open_fds() { int n = 0, rnd = 0; for (auto &s : g_fds) { n += s.f != NULL; rnd += s.f && s.f->is_random(); } return n - (rnd > 0); }
int open_fds_of_thread(int t) { int n = 0; for (auto &s : g_fds) n += s.f && !s.f->is_random() && s.thr == t; return n; }
bool fd_is_open(int fd) { return get(fd) != NULL; }
uint64_t file_id(int fd) { File *f = get(fd); return f ? f->id : 0; }

struct PlainFile : File { // regular file: not pollable by epoll
    PlainFile() { kind = K_FILE; nonblock = true; }
    bool pollable() override { return false; }
    ssize_t read(const struct iovec *, int, int, struct msghdr *, int &) override { return 0; }
    ssize_t write(const struct iovec *v, int n, int, const struct msghdr *, int &) override { size_t s = 0; for (int i = 0; i < n; ++i) s += v[i].iov_len; return s; }
};
static uint64_t g_rand;
static uint64_t nextrand() { g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = g_rand; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; return x ^ (x >> 29); }
static void randfill(void *p, size_t n) { for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)(nextrand() >> 24); }
struct RandFile : File {
    bool is_random() override { return true; }
    RandFile() { kind = K_FILE; nonblock = true; }
    bool pollable() override { return false; }
    ssize_t read(const struct iovec *v, int n, int, struct msghdr *, int &) override { size_t s = 0; for (int i = 0; i < n; ++i) { randfill(v[i].iov_base, v[i].iov_len); s += v[i].iov_len; } return s; }
};
struct PipeBuf { Bytes b; size_t cap = 65536; int rd = 1, wr = 1; };
struct PipeFile : File {
    std::shared_ptr<PipeBuf> p; bool w;
    PipeFile(std::shared_ptr<PipeBuf> pb, bool wr) : p(pb), w(wr) { kind = K_PIPE; }
    short poll() override {
        if (w) return p->rd == 0 ? POLLOUT | POLLERR : (p->b.size() + 4096 <= p->cap ? POLLOUT : 0);
        return (p->b.size() ? POLLIN : 0) | (p->wr == 0 ? POLLHUP : 0);
    }
    ssize_t read(const struct iovec *v, int n, int, struct msghdr *, int &err) override {
        if (w) { err = EBADF; return -1; }
        if (!p->b.size()) { if (!p->wr) return 0; err = EAGAIN; return -1; }
        size_t got = 0;
        for (int i = 0; i < n && p->b.size(); ++i) { size_t k = std::min(v[i].iov_len, p->b.size()); memcpy(v[i].iov_base, p->b.data(), k); p->b.eat(k); got += k; }
        return got;
    }
    ssize_t write(const struct iovec *v, int n, int, const struct msghdr *, int &err) override {
        if (!w) { err = EBADF; return -1; }
        if (!p->rd) { viol("*", "crash:sigpipe", "write to a broken pipe: the process gets SIGPIPE"); }
        size_t room = p->cap - p->b.size(), put = 0;
        if (!room) { err = EAGAIN; return -1; }
        for (int i = 0; i < n && room; ++i) { size_t k = std::min(v[i].iov_len, room); p->b.append((char *)v[i].iov_base, k); room -= k; put += k; }
        return put;
    }
    void last_close() override { if (w) p->wr = 0; else p->rd = 0; }
};
struct EventFile : File {
    uint64_t v; EventFile(uint64_t x) : v(x) { kind = K_EVENTFD; }
    short poll() override { return (v ? POLLIN : 0) | POLLOUT; }
    ssize_t read(const struct iovec *io, int, int, struct msghdr *, int &err) override { if (!v) { err = EAGAIN; return -1; } memcpy(io[0].iov_base, &v, 8); v = 0; return 8; }
    ssize_t write(const struct iovec *io, int, int, const struct msghdr *, int &) override { uint64_t x; memcpy(&x, io[0].iov_base, 8); v += x; return 8; }
};

// ---- addresses ------------------------------------------------------------------
bool Addr::operator<(const Addr &o) const {
    if (fam != o.fam) return fam < o.fam;
    int c = memcmp(b, o.b, 16); if (c) return c < 0;
    if (port != o.port) return port < o.port;
    return path < o.path;
}
bool Addr::operator==(const Addr &o) const { return fam == o.fam && !memcmp(b, o.b, 16) && port == o.port && path == o.path; }
std::string Addr::str() const {
    char s[64] = "";
    if (fam == AF_INET) inet_ntop(AF_INET, b, s, sizeof s);
    else if (fam == AF_INET6) inet_ntop(AF_INET6, b, s, sizeof s);
    else return "unix:" + path;
    return std::string(s) + "#" + std::to_string(port);
}
Addr ip4(uint32_t a, int port) { Addr r; r.fam = AF_INET; uint32_t n = htonl(a); memcpy(r.b, &n, 4); r.port = port; return r; }
Addr ip6(const uint8_t b[16], int port) { Addr r; r.fam = AF_INET6; memcpy(r.b, b, 16); r.port = port; return r; }
static bool parse_addr(const struct sockaddr *sa, socklen_t n, Addr &a) {
    if (!sa || n < 2) return false;
    a = Addr(); a.fam = sa->sa_family;
    if (sa->sa_family == AF_INET) { if (n < sizeof(sockaddr_in)) return false; auto s = (const sockaddr_in *)sa; memcpy(a.b, &s->sin_addr, 4); a.port = ntohs(s->sin_port); return true; }
    if (sa->sa_family == AF_INET6) { if (n < 24) return false; auto s = (const sockaddr_in6 *)sa; memcpy(a.b, &s->sin6_addr, 16); a.port = ntohs(s->sin6_port); return true; }
    if (sa->sa_family == AF_UNIX) { auto s = (const sockaddr_un *)sa; size_t m = n - offsetof(sockaddr_un, sun_path); a.path.assign(s->sun_path, strnlen(s->sun_path, m)); return true; }
    return false;
}
static void fill_addr(const Addr &a, struct sockaddr *sa, socklen_t *n) {
    if (!sa || !n) return;
    struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t len;
    if (a.fam == AF_INET) { auto s = (sockaddr_in *)&ss; s->sin_family = AF_INET; memcpy(&s->sin_addr, a.b, 4); s->sin_port = htons(a.port); len = sizeof *s; }
    else if (a.fam == AF_INET6) { auto s = (sockaddr_in6 *)&ss; s->sin6_family = AF_INET6; memcpy(&s->sin6_addr, a.b, 16); s->sin6_port = htons(a.port); len = sizeof *s; }
    else { auto s = (sockaddr_un *)&ss; s->sun_family = AF_UNIX; strncpy(s->sun_path, a.path.c_str(), sizeof s->sun_path - 1); len = a.path.empty() ? 2 : offsetof(sockaddr_un, sun_path) + a.path.size() + 1; }
    memcpy(sa, &ss, std::min(len, *n)); *n = len;
}
static bool is_any(const Addr &a) { static const uint8_t z[16] = {0}; return !memcmp(a.b, z, 16); }
static bool is_local(const Addr &a) {
    if (a.fam == AF_INET) return a.b[0] == 127 || is_any(a) || (a.b[0] == 10 && a.b[1] == 0 && a.b[2] == 0 && a.b[3] == 1);
    if (a.fam == AF_INET6) { static const uint8_t lo[16] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1}; return !memcmp(a.b, lo, 16) || is_any(a); }
    return true;
}
static int g_eph;
std::map<Addr, Remote> remotes;
std::vector<ConnAttempt> attempts;
std::map<Addr, std::function<void(const Dgram &)>> udp_servers;
std::set<Addr> udp_unreach;
std::vector<DgramRec> dgrams;
std::map<std::string, std::string> files;

// ---- byte streams -----------------------------------------------------------------
struct USeg { std::string d; size_t off = 0; std::vector<File *> fds; };
struct End {
    // outgoing
    Bytes sq; size_t inflight = 0; bool shut_wr = false, fin_sent = false, fin_acked = false;
    int64_t last_arr = 0; bool pumping_later = false;
    // incoming
    Bytes rb; std::deque<USeg> ub; size_t ubytes = 0; bool rfin = false, rfin_first = false, shut_rd = false;
    int err = 0; bool reset = false, closed = false;
    size_t rcap = 0, scap = 0; int64_t total_in = 0;
    std::function<void()> notify;  // scripted side
    size_t avail() const { return rb.size() + ubytes; }
};
struct Stream_ : std::enable_shared_from_this<Stream_> {
    End e[2]; bool tcp = true; int64_t lat = 0, jit = 1; uint32_t mss = 1460;
    Addr addr[2];
    ~Stream_() { for (auto &x : e) for (auto &u : x.ub) for (File *f : u.fds) drop(f); }
    static std::shared_ptr<Stream_> make(bool tcp) {
        auto s = std::make_shared<Stream_>(); s->tcp = tcp; s->lat = cfg.lat_min; s->jit = cfg.lat_jit; s->mss = cfg.mss;
        for (auto &x : s->e) { x.rcap = tcp ? cfg.rcap : cfg.ucap; x.scap = cfg.scap; }
        return s;
    }
    void touch(int side) { if (e[side].notify) e[side].notify(); }
    int64_t delay() {
        int64_t d = lat + (jit > 1 ? pick(N, (uint32_t)std::min<int64_t>(jit / 1000 + 1, 4000000000)) * 1000ll : 0);
        if (cfg.loss_pm) { int64_t rto = 200 * MS; while (chance(N, cfg.loss_pm, 1000)) { probe("fault.tcp-segment-lost"); d += rto; rto = std::min<int64_t>(rto * 2, 5 * SEC); } }
        return d;
    }
    int64_t arrival(int from) { int64_t t = std::max(e[from].last_arr, now_ns() + delay()); e[from].last_arr = t; return t; }
    void pump(int from) {
        End &a = e[from], &b = e[1 - from];
        if (!tcp || a.reset) return;
        while (a.sq.size()) {
            size_t used = a.inflight + b.rb.size();
            size_t win = used < b.rcap ? b.rcap - used : 0;
            if (b.closed) win = 65536; // data to a closed socket: provokes a reset
            size_t n = std::min<size_t>(std::min<size_t>(a.sq.size(), mss), win);
            if (!n) break;
            std::string seg(a.sq.data(), n); a.sq.eat(n); a.inflight += n;
            auto self = shared_from_this();
            at(arrival(from), [self, from, seg] { self->arrived(from, seg); });
        }
        if (a.shut_wr && !a.fin_sent && !a.sq.size()) {
            a.fin_sent = true;
            auto self = shared_from_this();
            at(arrival(from), [self, from] {
                End &a = self->e[from], &b = self->e[1 - from];
                if (b.reset || a.reset) return;
                a.fin_acked = true; if (!b.rfin) { b.rfin = true; b.rfin_first = !b.shut_wr; } self->touch(1 - from); self->touch(from);
            });
        }
    }
    void arrived(int from, const std::string &seg) {
        End &a = e[from], &b = e[1 - from];
        a.inflight -= std::min(a.inflight, seg.size());
        if (b.reset) return;
        if (b.closed) { send_rst(1 - from); return; }
        b.rb.append(seg.data(), seg.size()); b.total_in += seg.size();
        touch(1 - from); touch(from);
        pump(from);
    }
    // side 'from' breaks the connection
    void send_rst(int from) {
        if (e[from].reset && !e[from].closed) {}
        End &a = e[from];
        a.sq.clear();
        auto self = shared_from_this();
        at(arrival(from), [self, from] { self->do_rst(1 - from); });
    }
    void do_rst(int side) {
        End &b = e[side];
        if (b.reset) return;
        b.reset = true; b.err = (b.rfin && !b.shut_wr) ? EPIPE : ECONNRESET;
        if (chance(F, 1, 5)) { b.err = ETIMEDOUT; probe("fault.net-timeout"); } // no reset: the network gave up on a silent peer
        b.sq.clear(); b.shut_wr = true; b.fin_sent = true;
        probe("net.rst");
        touch(side);
    }
    void after_read(int side) { if (tcp && e[1 - side].sq.size()) { // window update
        auto self = shared_from_this(); int o = 1 - side;
        if (e[o].pumping_later) return;
        e[o].pumping_later = true;
        at(now_ns() + lat, [self, o] { self->e[o].pumping_later = false; self->pump(o); self->touch(o); });
    } else touch(1 - side); }
    size_t room(int side) {
        End &a = e[side];
        if (tcp) { size_t u = a.sq.size() + a.inflight; return u < a.scap ? a.scap - u : 0; }
        End &b = e[1 - side]; return b.ubytes < b.rcap ? b.rcap - b.ubytes : 0;
    }
    void shutdown_wr(int side) {
        End &a = e[side];
        if (a.shut_wr) return;
        a.shut_wr = true;
        if (tcp) pump(side);
        else { e[1 - side].rfin = true; touch(1 - side); }
    }
    void close_side(int side, bool linger0) {
        End &a = e[side], &b = e[1 - side];
        if (a.closed) return;
        a.closed = true;
        if (!tcp) {
            bool unread = a.ubytes > 0;
            for (auto &u : a.ub) { for (File *f : u.fds) drop(f); u.fds.clear(); }
            a.ub.clear(); a.ubytes = 0;
            b.rfin = true; if (unread && !b.err) b.err = ECONNRESET;
            a.shut_wr = true; b.shut_wr = b.shut_wr || false;
            touch(1 - side);
            return;
        }
        if (a.reset) return;
        if (a.rb.size()) { probe("net.close-unread-rst"); a.rb.clear(); send_rst(side); a.reset = true; return; }
        if (linger0) {
            bool unsent = a.sq.size() || (a.shut_wr && !a.fin_sent);
            bool need = !a.rfin || !a.shut_wr || unsent;
            if (a.rfin && a.shut_wr && !unsent) need = false;
            a.sq.clear();
            if (need) { probe("net.linger0-rst"); send_rst(side); a.reset = true; }
            return;
        }
        if (!a.shut_wr) shutdown_wr(side);
    }
    short poll(int side) {
        End &a = e[side]; short m = 0;
        if (tcp) {
            bool rd = a.rfin || a.shut_rd || a.reset, wr = a.shut_wr || a.reset;
            if (a.rb.size() || rd) m |= POLLIN;
            if (rd) m |= POLLRDHUP;
            if (rd && wr) m |= POLLHUP;
            if (wr || room(side) * 3 >= a.scap) m |= POLLOUT;
            if (a.err) m |= POLLERR;
        } else {
            bool rd = a.rfin || a.shut_rd, gone = e[1 - side].closed;
            if (a.ubytes || rd) m |= POLLIN;
            if (rd) m |= POLLRDHUP;
            if (gone || (rd && a.shut_wr)) m |= POLLHUP;
            if (room(side) * 4 >= e[1 - side].rcap || gone) m |= POLLOUT;
            if (a.err) m |= POLLERR;
        }
        return m;
    }
};

struct SockFile;
struct Pending { std::shared_ptr<Stream_> s; Addr peer; bool dead = false; };
static std::map<Addr, SockFile *> g_listeners;
static std::set<Addr> g_ubound;
struct SockFile : File {
    int fam, proto_unix; std::shared_ptr<Stream_> s; int side = 0;
    bool listening = false, connecting = false, bound = false, linger0 = false, tcp; int backlog = 0; int conn_err = 0; bool failed = false;
    Addr local, peer; std::deque<Pending> acceptq; int attempt = -1; uint64_t gen = 0;
    std::shared_ptr<int> alive = std::make_shared<int>(1);
    SockFile(int f) : fam(f) { kind = K_SOCK; tcp = f != AF_UNIX; local.fam = f; peer.fam = f; }
    short poll() override {
        if (listening) return acceptq.empty() ? 0 : POLLIN;
        if (connecting) return 0;
        if (!s) { short m = tcp ? POLLOUT | POLLHUP : POLLOUT | POLLHUP; if (conn_err) m |= POLLERR | POLLIN; return m; }
        return s->poll(side);
    }
    ssize_t read(const struct iovec *v, int n, int flags, struct msghdr *hdr, int &err) override;
    ssize_t write(const struct iovec *v, int n, int flags, const struct msghdr *hdr, int &err) override;
    void last_close() override {
        *alive = 0;
        if (listening) {
            g_listeners.erase(local);
            for (auto &p : acceptq) {
                if (p.s->tcp) { p.s->e[1].closed = true; p.s->send_rst(1); p.s->e[1].reset = true; }
                else { p.s->e[0].err = ECONNRESET; p.s->close_side(1, false); }
            }
        }
        if (!tcp && bound && !listening) g_listeners.erase(local);
        if (attempt >= 0 && attempts[attempt].outcome == 0) attempts[attempt].outcome = 3;
        if (s) s->close_side(side, linger0);
    }
};
bool stream_in(uint64_t id, StreamIn &r) {
    for (auto &x : g_fds) if (x.f && x.f->id == id && x.f->kind == K_SOCK) { auto k = (SockFile *)x.f; if (!k->s) return false; End &a = k->s->e[k->side]; r.arrived = a.total_in; r.fin = a.rfin || a.reset; return true; }
    return false;
}
size_t pending_accepts() { size_t n = 0; for (auto &g : g_listeners) if (g.second->listening) n += g.second->acceptq.size(); return n; }
int tcp_conns_open() {
    std::set<File *> c; for (auto &x : g_fds) if (x.f && x.f->kind == K_SOCK) { auto k = (SockFile *)x.f; if (k->tcp && !k->listening && (k->s || k->connecting)) c.insert(x.f); }
    return (int)c.size();
}
ssize_t SockFile::read(const struct iovec *v, int n, int flags, struct msghdr *hdr, int &err) {
    size_t control = hdr ? hdr->msg_controllen : 0;
    auto okhdr = [&] { if (hdr) { hdr->msg_flags = 0; hdr->msg_namelen = 0; hdr->msg_controllen = 0; } }; // a failed call leaves the header alone
    if (conn_err) { err = conn_err; conn_err = 0; return -1; }
    if (!s) { err = connecting ? EAGAIN : listening ? (tcp ? ENOTCONN : EINVAL) : (tcp ? ENOTCONN : EINVAL); return -1; }
    End &a = s->e[side];
    size_t want = 0; for (int i = 0; i < n; ++i) want += v[i].iov_len;
    if (!want) { okhdr(); return 0; }
    if (!a.avail()) {
        if (a.err) { err = a.err; a.err = 0; return -1; }
        if (a.rfin || a.shut_rd || a.reset) { okhdr(); return 0; }
        err = EAGAIN; return -1;
    }
    okhdr();
    size_t lim = want;
    if (cfg.spurious_pm && want > 1 && chance(F, cfg.spurious_pm, 1000)) { lim = 1 + pick(F, (uint32_t)std::min<size_t>(want - 1, 2000)); probe("fault.short-read"); }
    size_t got = 0;
    int vi = 0; size_t vo = 0;
    auto out = [&](const char *p, size_t k) { while (k) { size_t c = std::min(k, v[vi].iov_len - vo); if (c) memcpy((char *)v[vi].iov_base + vo, p, c); p += c; k -= c; vo += c; if (vo == v[vi].iov_len && k) { ++vi; vo = 0; } else if (vo == v[vi].iov_len) { ++vi; vo = 0; } } };
    if (tcp) {
        got = std::min(lim, a.rb.size()); out(a.rb.data(), got);
        if (!(flags & MSG_PEEK)) { a.rb.eat(got); s->after_read(side); }
        return got;
    }
    // unix: descriptors travel with the first byte of their segment; stop after such a segment
    while (got < lim && !a.ub.empty()) {
        USeg &u = a.ub.front(); bool hadfd = false;
        if (!u.fds.empty() && !(flags & MSG_PEEK)) {
            hadfd = true;
            size_t fit = control >= sizeof(cmsghdr) ? (control - CMSG_LEN(0)) / sizeof(int) : 0;
            std::vector<int> nums;
            for (File *f : u.fds) {
                int d = -1;
                if (hdr && nums.size() < fit && !res_hit(R_FD)) d = put(f);
                if (d < 0) { if (hdr) hdr->msg_flags |= MSG_CTRUNC; } else { nums.push_back(d); if (flags & MSG_CMSG_CLOEXEC) slot(d).cloexec = true; }
                drop(f);
            }
            u.fds.clear();
            if (!nums.empty()) {
                cmsghdr *c = (cmsghdr *)hdr->msg_control; c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(nums.size() * sizeof(int));
                memcpy(CMSG_DATA(c), nums.data(), nums.size() * sizeof(int));
                hdr->msg_controllen = std::min<size_t>(CMSG_SPACE(nums.size() * sizeof(int)), control);
            }
        }
        size_t k = std::min(lim - got, u.d.size() - u.off);
        out(u.d.data() + u.off, k); got += k;
        if (flags & MSG_PEEK) break;
        u.off += k; a.ubytes -= k;
        if (u.off == u.d.size()) a.ub.pop_front();
        if (hadfd) break;
    }
    s->after_read(side);
    return got;
}
ssize_t SockFile::write(const struct iovec *v, int n, int flags, const struct msghdr *hdr, int &err) {
    if (conn_err) { err = conn_err; conn_err = 0; return -1; }
    if (!s) {
        if (connecting) { err = EAGAIN; return -1; }
        if (tcp) { if (!(flags & MSG_NOSIGNAL)) viol("*", "crash:sigpipe", "send on a socket that is not connected without MSG_NOSIGNAL: the process gets SIGPIPE"); err = EPIPE; return -1; }
        err = ENOTCONN; return -1;
    }
    End &a = s->e[side];
    if (tcp && a.err && (a.reset || a.shut_wr)) { err = a.err; a.err = 0; return -1; }
    if (!tcp && a.err) { err = a.err; a.err = 0; return -1; }
    if (a.shut_wr || a.reset || (!tcp && s->e[1 - side].closed)) {
        if (!(flags & MSG_NOSIGNAL)) viol("*", "crash:sigpipe", "send to a connection broken by the peer without MSG_NOSIGNAL: the process gets SIGPIPE");
        err = EPIPE; return -1;
    }
    size_t want = 0; for (int i = 0; i < n; ++i) want += v[i].iov_len;
    if (!want) return 0;
    size_t room = s->room(side);
    if (!room) { err = EAGAIN; return -1; }
    if (cfg.spurious_pm && room > 1 && chance(F, cfg.spurious_pm, 1000)) { room = 1 + pick(F, (uint32_t)std::min<size_t>(room - 1, 2000)); probe("fault.short-write"); }
    std::vector<File *> fl;
    if (!tcp && hdr && hdr->msg_control && hdr->msg_controllen >= sizeof(cmsghdr)) {
        for (cmsghdr *c = CMSG_FIRSTHDR((msghdr *)hdr); c; c = CMSG_NXTHDR((msghdr *)hdr, c)) {
            if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS || c->cmsg_len < CMSG_LEN(0)) { err = EINVAL; return -1; }
            size_t m = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
            for (size_t i = 0; i < m; ++i) { int d; memcpy(&d, CMSG_DATA(c) + i * sizeof(int), sizeof d); File *f = get(d); if (!f) { for (File *x : fl) drop(x); err = EBADF; return -1; } hold(f); fl.push_back(f); }
        }
    }
    size_t put_ = 0; USeg u;
    for (int i = 0; i < n && room; ++i) {
        size_t k = std::min(v[i].iov_len, room); if (!k) continue;
        if (tcp) a.sq.append((char *)v[i].iov_base, k); else u.d.append((char *)v[i].iov_base, k);
        room -= k; put_ += k;
    }
    if (tcp) s->pump(side);
    else { u.fds = fl; s->e[1 - side].ub.push_back(u); s->e[1 - side].ubytes += put_; s->e[1 - side].total_in += put_; s->touch(1 - side); }
    return put_;
}

// ---- scripted peers -------------------------------------------------------------------
static std::shared_ptr<RawPeer> attach_peer(std::shared_ptr<Stream_> s, int side) {
    auto p = std::make_shared<RawPeer>(); p->s = s;
    std::weak_ptr<RawPeer> w = p; Stream_ *sp = s.get();
    (void)side;
    s->e[1].notify = [w, sp] {
        auto p = w.lock(); if (!p || p->dead) return;
        End &a = sp->e[1]; bool ch = false;
        if (p->autoread && a.avail()) p->read_some(a.avail()), ch = true;
        if (a.rfin && !p->fin && !a.avail()) p->fin = true, ch = true;
        if (a.reset && !p->rst) p->rst = true, ch = true;
        if (ch && p->on_data) p->on_data();
    };
    s->e[1].notify();
    return p;
}
size_t RawPeer::avail() { return s->e[1].avail(); }
void RawPeer::read_some(size_t n) {
    End &a = s->e[1];
    if (s->tcp) { n = std::min(n, a.rb.size()); rx.append(a.rb.data(), n); a.rb.eat(n); auto k = s; k->after_read(1); if (a.rfin && !fin && !a.avail()) { fin = true; if (on_data) on_data(); } return; }
    while (n && !a.ub.empty()) {
        USeg &u = a.ub.front(); size_t k = std::min(n, u.d.size() - u.off);
        for (File *f : u.fds) drop(f); u.fds.clear();
        rx.append(u.d, u.off, k); u.off += k; n -= k; a.ubytes -= k;
        if (u.off == u.d.size()) a.ub.pop_front();
    }
    s->after_read(1);
    if (a.rfin && !fin && !a.avail()) { fin = true; if (on_data) on_data(); }
}
void RawPeer::send(const void *p, size_t n) {
    if (dead || !n) return;
    End &a = s->e[1];
    if (a.shut_wr || a.reset) return;
    if (s->tcp) { a.sq.append((const char *)p, n); s->pump(1); }
    else { if (s->e[0].closed) return; USeg u; u.d.assign((const char *)p, n); s->e[0].ub.push_back(u); s->e[0].ubytes += n; s->e[0].total_in += n; }
}
void RawPeer::send_fds(const std::string &d, int nfds) {
    if (dead || s->tcp || s->e[0].closed || s->e[1].shut_wr || d.empty()) return;
    USeg u; u.d = d;
    for (int i = 0; i < nfds; ++i) { File *f = new PlainFile; hold(f); u.fds.push_back(f); }
    s->e[0].ub.push_back(u); s->e[0].ubytes += d.size(); s->e[0].total_in += d.size();
}
void RawPeer::shut() { if (!dead) s->shutdown_wr(1); }
void RawPeer::close() { if (dead) return; dead = true; s->close_side(1, false); }
void RawPeer::reset() { if (dead) return; dead = true; if (s->tcp) { End &a = s->e[1]; a.closed = true; a.rb.clear(); s->send_rst(1); a.reset = true; } else { s->e[0].err = ECONNRESET; s->close_side(1, false); } }

std::vector<Iface> ifaces = {{"lo", AF_INET, {127, 0, 0, 1}, 0}, {"eth0", AF_INET, {10, 0, 0, 1}, 0}, {"lo", AF_INET6, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, 0}, {"eth0", AF_INET6, {0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7}, 0}};
int ifaces_error, ifaces_live;
// ---- UDP ---------------------------------------------------------------------------------
struct UdpFile;
static std::map<Addr, UdpFile *> g_udp;
static uint64_t g_dgid;
struct UdpFile : File {
    int fam; Addr local, peer; bool bound = false, connected = false, reuse = false; std::deque<Dgram> rq; size_t rqbytes = 0; int err = 0; bool shut_rd = false;
    UdpFile(int f) : fam(f) { kind = K_UDP; local.fam = f; peer.fam = f; }
    short poll() override { return (rq.empty() ? 0 : POLLIN) | POLLOUT | (err ? POLLERR : 0); }
    void last_close() override { if (bound) { auto it = g_udp.find(local); if (it != g_udp.end() && it->second == this) g_udp.erase(it); } }
    ssize_t read(const struct iovec *v, int n, int flags, struct msghdr *hdr, int &e) override {
        if (err) { e = err; err = 0; return -1; }
        if (rq.empty() || (cfg.spurious_pm && chance(F, cfg.spurious_pm, 1000))) { if (!rq.empty()) probe("fault.spurious-eagain"); e = EAGAIN; return -1; }
        Dgram d = rq.front(); if (!(flags & MSG_PEEK)) { rq.pop_front(); rqbytes -= d.data.size() + 100; }
        size_t o = 0; for (auto &r : dgrams) if (r.id == d.id) r.delivered++;
        for (int i = 0; i < n && o < d.data.size(); ++i) { size_t k = std::min(v[i].iov_len, d.data.size() - o); if (k && !v[i].iov_base) { e = EFAULT; return -1; } memcpy(v[i].iov_base, d.data.data() + o, k); o += k; }
        if (hdr) { hdr->msg_flags = o < d.data.size() ? MSG_TRUNC : 0; hdr->msg_controllen = 0; if (hdr->msg_name) fill_addr(d.from, (sockaddr *)hdr->msg_name, &hdr->msg_namelen); }
        return flags & MSG_TRUNC ? d.data.size() : o;
    }
    bool autobind() {
        if (bound) return true;
        for (int i = 0; i < 20000; ++i) { Addr a = local; a.port = 32768 + (g_eph++ % 20000); if (g_udp.count(a)) continue; local = a; bound = true; g_udp[a] = this; return true; }
        return false;
    }
    ssize_t write(const struct iovec *v, int n, int, const struct msghdr *hdr, int &e) override;
};
void udp_occupy(const Addr &a) { auto *u = new UdpFile(a.fam); u->local = a; u->bound = true; g_udp[a] = u; }
static UdpFile *udp_find(const Addr &to) {
    auto it = g_udp.find(to); if (it != g_udp.end()) return it->second;
    Addr any; any.fam = to.fam; any.port = to.port;
    it = g_udp.find(any); return it != g_udp.end() ? it->second : NULL;
}
// a port unreachable message: reported to connected senders
void udp_icmp(const Addr &from, const Addr &to) {
    UdpFile *s = udp_find(from);
    if (s && s->connected && s->peer == to) { uint64_t id = s->id; at(now_ns() + cfg.lat_min, [from, id] { UdpFile *s = udp_find(from); if (s && s->id == id) { s->err = ECONNREFUSED; probe("net.icmp-refused"); } }); }
}
static void udp_deliver(const Dgram &d) {
    auto sv = udp_servers.find(d.to);
    if (sv != udp_servers.end()) { sv->second(d); return; }
    UdpFile *u = is_local(d.to) ? udp_find(d.to) : NULL;
    if (!u) {
        udp_icmp(d.from, d.to);
        return;
    }
    if (u->connected && !(u->peer == d.from)) return;
    if (u->rqbytes + d.data.size() + 100 > 212992) { probe("net.udp-rcvbuf-full"); return; }
    u->rq.push_back(d); u->rqbytes += d.data.size() + 100;
}
void udp_inject(const Addr &from, const Addr &to, const std::string &data, int64_t delay) {
    Dgram d{from, to, data, ++g_dgid};
    dgrams.push_back(DgramRec{from, to, data, d.id, 0});
    at(now_ns() + delay, [d] { udp_deliver(d); });
}
ssize_t UdpFile::write(const struct iovec *v, int n, int, const struct msghdr *hdr, int &e) {
    Addr to = peer;
    if (hdr && hdr->msg_name) { if (!parse_addr((sockaddr *)hdr->msg_name, hdr->msg_namelen, to)) { e = EINVAL; return -1; } if (to.fam != fam) { e = fam == AF_INET ? EAFNOSUPPORT : EINVAL; return -1; } }
    else if (!connected) { e = EDESTADDRREQ; return -1; }
    if (err) { e = err; err = 0; return -1; }
    size_t sz = 0; for (int i = 0; i < n; ++i) { sz += v[i].iov_len; if (v[i].iov_len && !v[i].iov_base) { e = EFAULT; return -1; } }
    if (sz > 65507) { e = EMSGSIZE; return -1; }
    if (to.port == 0) { e = EINVAL; return -1; }
    if (cfg.spurious_pm && chance(F, cfg.spurious_pm, 2000)) { probe("fault.udp-sndbuf-full"); e = EAGAIN; return -1; }
    if (!autobind()) { e = EAGAIN; return -1; }
    Dgram d; for (int i = 0; i < n; ++i) d.data.append((char *)v[i].iov_base, v[i].iov_len);
    d.from = local; if (is_any(local)) { if (fam == AF_INET) { d.from = ip4(is_local(to) ? 0x7f000001 : 0x0a000001, local.port); } else d.from.b[15] = 1; }
    if (is_any(to)) { if (fam == AF_INET) to = ip4(0x7f000001, to.port); else to.b[15] = 1; }
    d.to = to; d.id = ++g_dgid;
    dgrams.push_back(DgramRec{d.from, d.to, d.data, d.id, 0});
    int copies = 1;
    if (chance(N, cfg.loss_pm, 1000)) { copies = 0; probe("fault.udp-lost"); }
    else if (chance(N, cfg.dup_pm, 1000)) { copies = 2; probe("fault.udp-duplicated"); }
    for (int i = 0; i < copies; ++i) {
        int64_t dl = cfg.lat_min + (cfg.lat_jit > 1 ? pick(N, (uint32_t)(cfg.lat_jit / 1000 + 1)) * 1000ll : 0);
        if (chance(N, cfg.reorder_pm, 1000)) { dl += (1 + pick(N, 50)) * MS; probe("fault.udp-reordered"); }
        at(now_ns() + dl, [d] { udp_deliver(d); });
    }
    return sz;
}

// ---- epoll ------------------------------------------------------------------------------------
struct Reg { int fd; File *f; uint32_t events; epoll_data_t data; bool off = false; };
struct EpollFile : File {
    std::vector<Reg> regs; bool kq = false; // kqueue: one entry per descriptor and filter
    EpollFile() { kind = K_EPOLL; all_epolls().insert(this); }
    ~EpollFile() { all_epolls().erase(this); }
    int collect(std::vector<std::pair<int, uint32_t>> *out) {
        int n = 0;
        for (size_t i = 0; i < regs.size(); ++i) {
            Reg &r = regs[i]; if (r.off) continue;
            uint32_t m = (uint16_t)r.f->poll() & (r.events | EPOLLERR | EPOLLHUP);
            if (m) { ++n; if (out) out->push_back({(int)i, m}); }
        }
        return n;
    }
    short poll() override { return collect(NULL) ? POLLIN : 0; }
};
static void forget_in_epolls(File *f) {
    for (File *e : all_epolls()) { auto &r = ((EpollFile *)e)->regs; for (size_t i = 0; i < r.size();) if (r[i].f == f) r.erase(r.begin() + i); else ++i; }
}
static void forget_in_kqueues(int fd) { // closing a descriptor removes its filters
    for (File *e : all_epolls()) if (((EpollFile *)e)->kq) { auto &r = ((EpollFile *)e)->regs; for (size_t i = 0; i < r.size();) if (r[i].fd == fd) r.erase(r.begin() + i); else ++i; }
}
std::string describe_fds() {
    std::string r;
    for (size_t i = 0; i < g_fds.size(); ++i) if (g_fds[i].f) {
        static const char *kn[] = {"file", "pipe", "socket", "udp", "epoll", "eventfd"};
        std::string k = kn[g_fds[i].f->kind];
        if (g_fds[i].f->kind == K_SOCK) { auto s = (SockFile *)g_fds[i].f; k = s->listening ? "listener" : s->tcp ? "tcp" : "unix"; }
        r += std::to_string(i + off()) + ":" + k + " ";
    }
    return r;
}
static std::vector<void (*)(void)> g_atexit;
void run_exit_handlers() { while (!g_atexit.empty()) { auto f = g_atexit.back(); g_atexit.pop_back(); f(); } }

void os_reset() {
    g_eph = 0; g_rand = ((uint64_t)pick(W, 1u << 30) << 20) ^ 0x1234567;
}
static bool maybe_eintr(int64_t deadline) {
    if (!cfg.eintr_pm || !chance(F, cfg.eintr_pm, 1000)) return false;
    int64_t t = now_ns() + (int64_t)pick(F, 2000) * 100000, nx = next_event_ns();
    if (deadline >= 0) t = std::min(t, deadline);
    if (nx >= 0) t = std::min(t, nx);
    probe("fault.eintr"); ev("eintr");
    if (mt) mt_block([] { return false; }, t); else idle_until(t);
    return true;
}
// waits until ready() or the deadline; false on timeout
template <class R> static bool wait_for(int64_t deadline, R ready) {
    while (1) {
        run_due();
        if (ready()) return true;
        if (deadline >= 0 && now_ns() >= deadline) return false;
        int64_t t = next_event_ns();
        if (deadline >= 0 && (t < 0 || deadline < t)) t = deadline;
        if (mt) { mt_block(ready, deadline); continue; }
        if (t < 0) call_deadlock();
        idle_until(t);
    }
}
static int do_epoll_wait(int efd, struct epoll_event *evs, int maxev, int timeout) {
    Errno e;
    enter("epoll_wait");
    File *f = get(efd);
    if (!f) return e.fail(EBADF);
    if (f->kind != K_EPOLL || maxev <= 0) return e.fail(EINVAL);
    EpollFile *ep = (EpollFile *)f;
    int64_t dl = timeout < 0 ? -1 : now_ns() + timeout * MS;
    run_due();
    if (timeout != 0 && !ep->collect(NULL) && maybe_eintr(dl)) return e.fail(EINTR);
    if (timeout == 0) { if (!ep->collect(NULL)) { if (on_scan) on_scan(true); return 0; } }
    else if (!wait_for(dl, [ep] { return ep->collect(NULL) > 0; })) { if (on_scan) on_scan(true); return 0; }
    std::vector<std::pair<int, uint32_t>> rdy; ep->collect(&rdy);
    if (cfg.shuffle_events) for (size_t i = rdy.size(); i > 1; --i) std::swap(rdy[i - 1], rdy[pick(S, (uint32_t)i)]);
    int n = std::min<int>(std::min<int>((int)rdy.size(), maxev), cfg.maxevents_cap);
    if (on_scan) on_scan(n == (int)rdy.size());
    std::vector<Reg> back; std::set<int> used;
    for (int i = 0; i < n; ++i) {
        Reg &r = ep->regs[rdy[i].first];
        evs[i].events = rdy[i].second; evs[i].data = r.data;
        if (r.events & EPOLLONESHOT) r.off = true;
        used.insert(rdy[i].first);
        ev("epoll", r.fd, rdy[i].second);
    }
    if (n < (int)rdy.size()) { // the kernel's ready list rotates
        std::vector<Reg> a, b;
        for (size_t i = 0; i < ep->regs.size(); ++i) (used.count((int)i) ? b : a).push_back(ep->regs[i]);
        a.insert(a.end(), b.begin(), b.end()); ep->regs.swap(a);
        probe("net.epoll-truncated");
    }
    return n;
}
static int do_kevent(int kfd, const struct kevent *ch, int nch, struct kevent *evs, int maxev, const struct timespec *ts) {
    Errno e; enter("kevent"); File *f = get(kfd);
    if (!f) return e.fail(EBADF);
    if (f->kind != K_EPOLL || !((EpollFile *)f)->kq || nch < 0 || maxev < 0) return e.fail(EINVAL);
    EpollFile *kq = (EpollFile *)f; int nerr = 0;
    for (int k = 0; k < nch; ++k) {
        int fd = (int)ch[k].ident, err = 0; File *t = get(fd); uint32_t m = ch[k].filter == EVFILT_READ ? POLLIN : POLLOUT; size_t i = 0;
        for (; i < kq->regs.size(); ++i) if (kq->regs[i].fd == fd && kq->regs[i].events == m) break;
        ev("kevent", ch[k].flags, fd, m);
        if (!t) err = EBADF;
        else if ((ch[k].filter != EVFILT_READ && ch[k].filter != EVFILT_WRITE) || !t->pollable()) err = EINVAL;
        else if (ch[k].flags & EV_ADD) { if (i == kq->regs.size()) { if (res_hit(R_EPOLLADD)) err = ENOMEM; else { Reg r; r.fd = fd; r.f = t; r.events = m; r.data.ptr = ch[k].udata; kq->regs.push_back(r); } } }
        else if (ch[k].flags & EV_DELETE) { if (i == kq->regs.size()) err = ENOENT; else kq->regs.erase(kq->regs.begin() + i); }
        if (!err) continue;
        if (nerr == maxev) return e.fail(err);
        evs[nerr] = ch[k]; evs[nerr].flags = EV_ERROR; evs[nerr].data = err; ++nerr;
    }
    if (nerr) return nerr;
    if (!maxev) return 0;
    int64_t tmo = ts ? ts->tv_sec * SEC + ts->tv_nsec : -1, dl = tmo < 0 ? -1 : now_ns() + tmo;
    run_due();
    if (tmo != 0 && !kq->collect(NULL) && maybe_eintr(dl)) return e.fail(EINTR);
    if (tmo == 0) { if (!kq->collect(NULL)) { if (on_scan) on_scan(true); return 0; } }
    else if (!wait_for(dl, [kq] { return kq->collect(NULL) > 0; })) { if (on_scan) on_scan(true); return 0; }
    std::vector<std::pair<int, uint32_t>> rdy; kq->collect(&rdy);
    if (cfg.shuffle_events) for (size_t i = rdy.size(); i > 1; --i) std::swap(rdy[i - 1], rdy[pick(S, (uint32_t)i)]);
    int n = std::min<int>(std::min<int>((int)rdy.size(), maxev), cfg.maxevents_cap);
    if (on_scan) on_scan(n == (int)rdy.size());
    std::vector<Reg> a, b; std::set<int> used;
    for (int i = 0; i < n; ++i) {
        Reg &r = kq->regs[rdy[i].first]; short all = r.f->poll();
        evs[i].ident = r.fd; evs[i].filter = r.events == POLLIN ? EVFILT_READ : EVFILT_WRITE; evs[i].fflags = 0; evs[i].data = 1; evs[i].udata = r.data.ptr;
        evs[i].flags = all & (r.events == POLLIN ? POLLRDHUP | POLLHUP | POLLERR : POLLHUP | POLLERR) ? EV_EOF : 0;
        used.insert(rdy[i].first); ev("kq", r.fd, evs[i].filter, evs[i].flags);
    }
    if (n < (int)rdy.size()) {
        for (size_t i = 0; i < kq->regs.size(); ++i) (used.count((int)i) ? b : a).push_back(kq->regs[i]);
        a.insert(a.end(), b.begin(), b.end()); kq->regs.swap(a);
        probe("net.epoll-truncated");
    }
    return n;
}
static int do_poll(struct pollfd *p, nfds_t n, int64_t timeout_ns) {
    Errno e;
    enter("poll");
    if ((int64_t)n > limit()) return e.fail(EINVAL);
    int64_t dl = timeout_ns < 0 ? -1 : now_ns() + timeout_ns;
    auto scan = [p, n](bool set) {
        int c = 0;
        for (nfds_t i = 0; i < n; ++i) {
            short m = 0;
            if (p[i].fd >= 0) { File *f = get(p[i].fd); m = f ? f->poll() & (p[i].events | POLLERR | POLLHUP) : POLLNVAL; }
            if (set) p[i].revents = m;
            if (m) ++c;
        }
        return c;
    };
    run_due();
    if (!scan(false) && maybe_eintr(timeout_ns == 0 ? now_ns() : dl)) return e.fail(EINTR);
    wait_for(dl, [scan] { return scan(false) > 0; });
    int c = scan(true);
    if (on_scan) on_scan(true);
    for (nfds_t i = 0; i < n; ++i) if (p[i].revents) ev("poll", p[i].fd, p[i].revents);
    return c;
}
static uint64_t g_cpu_skew;
short poll_mask(int fd) { File *f = get(fd); return f ? f->poll() & (POLLIN | POLLOUT | POLLHUP | POLLERR) : POLLNVAL; }

static ssize_t xread(const char *what, int fd, const struct iovec *v, int n, int flags, struct msghdr *hdr, bool raw = false) {
    Errno e;
    if (!raw) enter(what);
    File *f = get(fd);
    if (!f) return e.fail(EBADF);
    int err = 0;
    ssize_t r = f->read(v, n, flags, hdr, err);
    if (r < 0) {
        if (err == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT) && !raw)
            viol("*", "blocked-in-syscall", "%s() on a descriptor in blocking mode stops the whole thread", what);
        e.fail(err);
    }
    if (!raw) ev(what, fd, r, r < 0 ? err : 0);
    return r;
}
static ssize_t xwrite(const char *what, int fd, const struct iovec *v, int n, int flags, const struct msghdr *hdr, bool raw = false) {
    Errno e;
    if (!raw) enter(what);
    File *f = get(fd);
    if (!f) return e.fail(EBADF);
    int err = 0;
    ssize_t r = f->write(v, n, flags, hdr, err);
    if (r < 0) {
        if (err == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT) && !raw && f->kind != K_UDP)
            viol("*", "blocked-in-syscall", "%s() on a descriptor in blocking mode stops the whole thread", what);
        e.fail(err);
    }
    if (!raw) ev(what, fd, r, r < 0 ? err : 0);
    return r;
}
int mk_pipe(int fds[2]) {
    if (table_full(2)) { errno = EMFILE; return -1; }
    auto p = std::make_shared<PipeBuf>();
    File *a = new PipeFile(p, false), *b = new PipeFile(p, true); a->nonblock = b->nonblock = true;
    fds[0] = put(a); fds[1] = put(b); return 0;
}
static int mkpair(bool tcp, int fds[2], bool nb) {
    if (table_full(2)) { errno = EMFILE; return -1; }
    auto s = Stream_::make(tcp);
    for (int i = 0; i < 2; ++i) {
        SockFile *k = new SockFile(tcp ? AF_INET : AF_UNIX); k->s = s; k->side = i; k->nonblock = nb;
        if (tcp) { k->local = ip4(0x7f000001, 40000 + i); k->peer = ip4(0x7f000001, 40001 - i); }
        fds[i] = put(k);
    }
    return 0;
}
int mk_socketpair(int fds[2]) { return mkpair(false, fds, true); }
int mk_tcppair(int fds[2]) { return mkpair(true, fds, true); }
int mk_rawpair(bool tcp, std::shared_ptr<RawPeer> &peer) {
    auto s = Stream_::make(tcp);
    SockFile *k = new SockFile(tcp ? AF_INET : AF_UNIX); k->s = s; k->side = 0; k->nonblock = true;
    if (tcp) { k->local = ip4(0x7f000001, 40000); k->peer = ip4(0x7f000001, 40001); }
    int fd = put(k);
    if (fd < 0) { errno = EMFILE; return -1; }
    peer = attach_peer(s, 1);
    return fd;
}
int sys_close(int fd) { Errno e; int r = do_close(fd); return r ? e.fail(r) : 0; }
long sys_read(int fd, void *buf, size_t n) { struct iovec v = {buf, n}; return xread("read", fd, &v, 1, 0, NULL, true); }
long sys_write(int fd, const void *buf, size_t n) { struct iovec v = {(void *)buf, n}; return xwrite("write", fd, &v, 1, MSG_NOSIGNAL, NULL, true); }
int mk_plain_file() { File *f = new PlainFile; int fd = put(f); if (fd < 0) { delete f; errno = EMFILE; } return fd; }

// ---- connecting ------------------------------------------------------------------------------
static SockFile *find_listener(const Addr &to) {
    auto it = g_listeners.find(to); if (it != g_listeners.end() && it->second->listening) return it->second;
    if (to.fam == AF_UNIX) return NULL;
    Addr any; any.fam = to.fam; any.port = to.port;
    it = g_listeners.find(any); return it != g_listeners.end() && it->second->listening ? it->second : NULL;
}
static void conn_done(SockFile *k, int err) {
    k->connecting = false;
    if (err) { k->conn_err = err; k->s.reset(); }
    if (k->attempt >= 0) attempts[k->attempt].outcome = err ? 2 : 1;
    ev("conn", k->id, err);
}
static void syn_arrives(SockFile *k, std::weak_ptr<int> w, Addr to, int tries, int64_t d1) {
    auto al = w.lock(); if (!al || !*al) return;
    SockFile *l = find_listener(to);
    if (!l) { at(now_ns() + d1, [k, w] { auto a = w.lock(); if (a && *a && k->connecting) conn_done(k, ECONNREFUSED); }); return; }
    if ((int)l->acceptq.size() > l->backlog) {
        probe("net.backlog-full");
        if (tries >= 7) { conn_done(k, ETIMEDOUT); return; }
        at(now_ns() + (1ll << tries) * SEC, [k, w, to, tries, d1] { syn_arrives(k, w, to, tries + 1, d1); });
        return;
    }
    auto s = Stream_::make(true);
    s->addr[0] = k->local; s->addr[1] = to;
    l->acceptq.push_back(Pending{s, k->local});
    at(now_ns() + d1, [k, w, s] {
        auto a = w.lock();
        if (!a || !*a || !k->connecting) { s->e[0].closed = true; s->send_rst(0); s->e[0].reset = true; return; }
        k->s = s; k->side = 0; conn_done(k, 0);
    });
}
} // namespace sim
using namespace sim;

extern "C" {
#define GETF(T, k, var) File *f_ = get(fd); if (!f_) return e.fail(EBADF); if (f_->kind != k) return e.fail(ENOTSOCK); T *var = (T *)f_;
int sim_socket(int dom, int type, int) {
    Errno e; enter("socket");
    if (res_hit(R_FD)) return e.fail(pick(F, 2) ? ENFILE : EMFILE);
    if (table_full()) return e.fail(EMFILE);
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC); File *f;
    if (dom != AF_INET && dom != AF_INET6 && dom != AF_UNIX) return e.fail(EAFNOSUPPORT);
    if (t == SOCK_STREAM) f = new SockFile(dom);
    else if (t == SOCK_DGRAM && dom != AF_UNIX) f = new UdpFile(dom);
    else return e.fail(EPROTONOSUPPORT);
    f->nonblock = type & SOCK_NONBLOCK;
    int fd = put(f); ev("socket", fd, dom, t); return fd;
}
int sim_socketpair(int dom, int type, int, int sv[2]) {
    Errno e; enter("socketpair");
    if (dom != AF_UNIX || (type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) != SOCK_STREAM) return e.fail(EOPNOTSUPP);
    if (res_hit(R_FD) || table_full(2)) return e.fail(EMFILE);
    mkpair(false, sv, type & SOCK_NONBLOCK); return 0;
}
int sim_pipe(int fds[2]) { Errno e; enter("pipe"); if (res_hit(R_FD) || table_full(2)) return e.fail(EMFILE); mk_pipe(fds); get(fds[0])->nonblock = get(fds[1])->nonblock = false; return 0; }
int sim_pipe2(int fds[2], int fl) { int r = sim_pipe(fds); if (!r && (fl & O_NONBLOCK)) get(fds[0])->nonblock = get(fds[1])->nonblock = true; return r; }
int sim_eventfd(unsigned v, int fl) { Errno e; enter("eventfd"); if (res_hit(R_FD) || table_full()) return e.fail(EMFILE); File *f = new EventFile(v); f->nonblock = fl & EFD_NONBLOCK; return put(f); }
int sim_close(int fd) {
    Errno e; enter("close"); ev("close", fd, get(fd) != NULL);
    int r = do_close(fd);
    if (r) probe("close-bad-fd");
    return r ? e.fail(r) : 0;
}
int sim_dup(int fd) {
    Errno e; enter("dup"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (res_hit(R_FD) || table_full()) return e.fail(EMFILE);
    int n = put(f); ev("dup", fd, n); return n;
}
int sim_dup2(int fd, int to) {
    Errno e; enter("dup2"); File *f = get(fd); if (!f || to < off() || to < 0 || to >= limit()) return e.fail(EBADF);
    if (fd == to) return to;
    hold(f); if (get(to)) do_close(to);
    slot(to).f = f; return to;
}
int sim_dup3(int fd, int to, int) { return sim_dup2(fd, to); }
int sim_fcntl(int fd, int cmd, ...) {
    Errno e; va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    enter("fcntl"); File *f = get(fd); if (!f) return e.fail(EBADF);
    switch (cmd) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
    case F_GETFD: return slot(fd).cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: slot(fd).cloexec = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { if (res_hit(R_FD) || table_full()) return e.fail(EMFILE); int n = put(f, (int)std::max(3l, arg)); return n < 0 ? e.fail(EMFILE) : n; }
    }
    return e.fail(EINVAL);
}
int sim_fcntl64(int fd, int cmd, long arg) { return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int fd, unsigned long req, ...) {
    Errno e; va_list ap; va_start(ap, req); int *arg = va_arg(ap, int *); va_end(ap);
    enter("ioctl"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (req == FIONBIO) { f->nonblock = *arg; return 0; }
    if (req == FIONREAD && f->kind == K_SOCK && ((SockFile *)f)->s) { auto k = (SockFile *)f; *arg = (int)k->s->e[k->side].avail(); return 0; }
    return e.fail(ENOTTY);
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t n) {
    Errno e; enter("bind"); Addr a; File *f = get(fd); if (!f) return e.fail(EBADF);
    if (!parse_addr(sa, n, a)) return e.fail(EINVAL);
    ev("bind", fd, a.port);
    if (f->kind == K_UDP) {
        UdpFile *u = (UdpFile *)f; if (a.fam != u->fam) return e.fail(EAFNOSUPPORT); if (u->bound) return e.fail(EINVAL);
        if (!is_local(a)) return e.fail(EADDRNOTAVAIL);
        if (a.port == 0) { u->local = a; u->autobind(); return 0; }
        Addr any; any.fam = a.fam; any.port = a.port;
        for (auto &g : g_udp) if (g.first.port == a.port && g.first.fam == a.fam && (g.first == a || is_any(g.first) || is_any(a))) { if (!(u->reuse && g.second->reuse)) return e.fail(EADDRINUSE); }
        u->local = a; u->bound = true; g_udp[a] = u; return 0;
    }
    if (f->kind != K_SOCK) return e.fail(ENOTSOCK);
    SockFile *k = (SockFile *)f; if (a.fam != k->fam) return e.fail(EAFNOSUPPORT); if (k->bound) return e.fail(EINVAL);
    if (a.fam == AF_UNIX) {
        if (a.path.empty()) return e.fail(EINVAL);
        if (g_ubound.count(a)) return e.fail(EADDRINUSE);
        g_ubound.insert(a); k->local = a; k->bound = true; return 0;
    }
    if (!is_local(a)) return e.fail(EADDRNOTAVAIL);
    if (a.port) for (auto &g : g_listeners) if (g.second->listening && g.first.port == a.port && g.first.fam == a.fam && (g.first == a || is_any(g.first) || is_any(a))) return e.fail(EADDRINUSE);
    if (!a.port) { do a.port = 32768 + (g_eph++ % 20000); while (g_listeners.count(a)); }
    k->local = a; k->bound = true; return 0;
}
int sim_unlink(const char *path) { Errno e; Addr a; a.fam = AF_UNIX; a.path = path; enter("unlink"); if (!g_ubound.erase(a)) return e.fail(ENOENT); auto it = g_listeners.find(a); if (it != g_listeners.end()) g_listeners.erase(it); return 0; }
int sim_listen(int fd, int backlog) {
    Errno e; enter("listen"); GETF(SockFile, K_SOCK, k);
    if (k->s || k->connecting) return e.fail(EINVAL);
    if (!k->bound) { if (!k->tcp) return e.fail(EINVAL); do k->local.port = 32768 + (g_eph++ % 20000); while (g_listeners.count(k->local)); k->bound = true; }
    for (auto &g : g_listeners) if (g.second != k && g.second->listening && k->tcp && g.first.port == k->local.port && g.first.fam == k->fam && (g.first == k->local || is_any(g.first) || is_any(k->local))) return e.fail(EADDRINUSE);
    k->listening = true; k->backlog = std::max(0, std::min(backlog, 4096)); g_listeners[k->local] = k;
    ev("listen", fd, backlog); return 0;
}
static int accept_common(int fd, struct sockaddr *sa, socklen_t *n, int fl) {
    Errno e; enter("accept"); GETF(SockFile, K_SOCK, k);
    if (!k->listening) return e.fail(EINVAL);
    if (k->acceptq.empty() || (cfg.spurious_pm && chance(F, cfg.spurious_pm, 1000))) {
        if (!k->nonblock) { if (k->acceptq.empty()) viol("*", "blocked-in-syscall", "accept() on a listener in blocking mode stops the whole thread"); }
        else { if (!k->acceptq.empty()) probe("fault.spurious-eagain"); return e.fail(EAGAIN); }
    }
    if (res_hit(R_FD) || table_full()) return e.fail(pick(F, 2) ? ENFILE : EMFILE);
    if (cfg.accept_abort_pm && k->tcp && chance(F, cfg.accept_abort_pm, 1000)) { probe("fault.accept-aborted"); ev("accept-aborted", fd); return e.fail(ECONNABORTED); }
    Pending p = k->acceptq.front(); k->acceptq.pop_front();
    SockFile *c = new SockFile(k->fam); c->s = p.s; c->side = 1; c->peer = p.peer; c->local = k->local; c->nonblock = fl & SOCK_NONBLOCK;
    if (k->tcp && p.s->addr[1].fam) c->local = p.s->addr[1];
    int a = put(c); fill_addr(p.peer, sa, n);
    ev("accept", fd, a, p.peer.port); return a;
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *n) { return accept_common(fd, sa, n, 0); }
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *n, int fl) { return accept_common(fd, sa, n, fl); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t n) {
    Errno e; enter("connect"); File *f = get(fd); Addr to; if (!f) return e.fail(EBADF);
    if (sa && sa->sa_family == AF_UNSPEC && f->kind == K_UDP) { ((UdpFile *)f)->connected = false; return 0; }
    if (!parse_addr(sa, n, to)) return e.fail(EINVAL);
    ev("connect", fd, to.port, to.b[3]);
    if (f->kind == K_UDP) {
        UdpFile *u = (UdpFile *)f; if (to.fam != u->fam) return e.fail(EAFNOSUPPORT);
        if (udp_unreach.count(to)) { probe("net.unreachable"); return e.fail(ENETUNREACH); }
        if (!u->autobind()) return e.fail(EAGAIN);
        if (is_any(u->local)) { auto it = g_udp.find(u->local); if (it != g_udp.end() && it->second == u) g_udp.erase(it); if (u->fam == AF_INET) u->local = ip4(is_local(to) ? 0x7f000001 : 0x0a000001, u->local.port); else u->local.b[15] = 1; g_udp[u->local] = u; }
        u->peer = to; u->connected = true; return 0;
    }
    if (f->kind != K_SOCK) return e.fail(ENOTSOCK);
    SockFile *k = (SockFile *)f;
    if (to.fam != k->fam) return e.fail(EAFNOSUPPORT);
    if (k->connecting) return e.fail(EALREADY);
    if (k->s) return e.fail(EISCONN);
    if (k->listening) return e.fail(EISCONN);
    if (k->conn_err) { int c = k->conn_err; k->conn_err = 0; return e.fail(c); }
    if (!k->tcp) {
        SockFile *l = find_listener(to);
        if (!l) return e.fail(g_ubound.count(to) ? ECONNREFUSED : ENOENT);
        if ((int)l->acceptq.size() > l->backlog) { if (!k->nonblock) viol("*", "blocked-in-syscall", "connect() on a blocking descriptor"); return e.fail(EAGAIN); }
        auto s = Stream_::make(false); Addr me = k->local; me.fam = AF_UNIX;
        k->s = s; k->side = 0; k->peer = to; l->acceptq.push_back(Pending{s, me}); return 0;
    }
    if (is_any(to)) { if (to.fam == AF_INET) to = ip4(0x7f000001, to.port); else to.b[15] = 1; }
    if (!k->nonblock) viol("*", "blocked-in-syscall", "connect() on a descriptor in blocking mode stops the whole thread");
    if (!k->bound) { k->local.fam = k->fam; k->local.port = 32768 + (g_eph++ % 20000); k->bound = true; }
    if (is_any(k->local)) { if (k->fam == AF_INET) { int p = k->local.port; k->local = ip4(is_local(to) ? 0x7f000001 : 0x0a000001, p); } else k->local.b[15] = 1; }
    k->peer = to;
    std::weak_ptr<int> w = k->alive;
    attempts.push_back(ConnAttempt{to, now_ns(), 0, k->local}); k->attempt = (int)attempts.size() - 1;
    auto r = remotes.find(to);
    if (r != remotes.end()) {
        Remote &m = r->second; m.attempts++; m.attempt_times.push_back(now_ns());
        if (m.kind == Remote::UNREACH) { attempts[k->attempt].outcome = 2; return e.fail(ENETUNREACH); }
        k->connecting = true;
        if (m.kind == Remote::BLACKHOLE) at(now_ns() + 127 * SEC, [k, w] { auto a = w.lock(); if (a && *a && k->connecting) conn_done(k, ETIMEDOUT); });
        else if (m.kind == Remote::REFUSE) at(now_ns() + m.delay, [k, w] { auto a = w.lock(); if (a && *a && k->connecting) conn_done(k, ECONNREFUSED); });
        else {
            auto cb = m.on_accept;
            at(now_ns() + m.delay, [k, w, cb] {
                auto a = w.lock(); if (!a || !*a || !k->connecting) return;
                auto s = Stream_::make(true); k->s = s; k->side = 0; conn_done(k, 0);
                auto p = attach_peer(s, 1);
                if (cb) cb(p);
            });
        }
        return e.fail(EINPROGRESS);
    }
    if (!is_local(to)) { attempts[k->attempt].outcome = 2; return e.fail(ENETUNREACH); }
    k->connecting = true;
    int64_t d1 = cfg.lat_min + (cfg.lat_jit > 1 ? pick(N, (uint32_t)(cfg.lat_jit / 1000 + 1)) * 1000ll : 0);
    if (cfg.loss_pm) { int64_t rto = SEC; while (chance(N, cfg.loss_pm, 1000)) { probe("fault.tcp-segment-lost"); d1 += rto; rto *= 2; } }
    at(now_ns() + d1, [k, w, to, d1] { syn_arrives(k, w, to, 0, d1); });
    return e.fail(EINPROGRESS);
}
int sim_shutdown(int fd, int how) {
    Errno e; enter("shutdown"); File *f = get(fd); if (!f) return e.fail(EBADF);
    ev("shutdown", fd, how);
    if (f->kind == K_UDP) return ((UdpFile *)f)->connected ? 0 : e.fail(ENOTCONN);
    if (f->kind != K_SOCK) return e.fail(ENOTSOCK);
    SockFile *k = (SockFile *)f;
    if (!k->s) return e.fail(ENOTCONN);
    End &a = k->s->e[k->side];
    if (k->tcp && (a.reset)) return e.fail(ENOTCONN);
    if (k->tcp && a.rfin && a.shut_wr && a.fin_acked) return e.fail(ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) k->s->shutdown_wr(k->side);
    if (how == SHUT_RD || how == SHUT_RDWR) a.shut_rd = true;
    return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void *val, socklen_t *n) {
    Errno e; enter("getsockopt"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (f->kind != K_SOCK && f->kind != K_UDP) return e.fail(ENOTSOCK);
    int v = 0;
    if (lvl != SOL_SOCKET) { v = 0; if (lvl != IPPROTO_TCP && lvl != IPPROTO_IP && lvl != IPPROTO_IPV6) return e.fail(ENOPROTOOPT); }
    else switch (opt) {
    case SO_ERROR:
        if (f->kind == K_UDP) { v = ((UdpFile *)f)->err; ((UdpFile *)f)->err = 0; }
        else { auto k = (SockFile *)f; if (k->conn_err) { v = k->conn_err; k->conn_err = 0; } else if (k->s) { v = k->s->e[k->side].err; k->s->e[k->side].err = 0; } }
        break;
    case SO_TYPE: v = f->kind == K_UDP ? SOCK_DGRAM : SOCK_STREAM; break;
    case SO_ACCEPTCONN: v = f->kind == K_SOCK && ((SockFile *)f)->listening; break;
    case SO_DOMAIN: v = f->kind == K_UDP ? ((UdpFile *)f)->fam : ((SockFile *)f)->fam; break;
    case SO_REUSEADDR: case SO_KEEPALIVE: v = 0; break;
    case SO_SNDBUF: v = (int)cfg.scap; break;
    case SO_RCVBUF: v = (int)cfg.rcap; break;
    default: return e.fail(ENOPROTOOPT);
    }
    if (*n >= sizeof(int)) { memcpy(val, &v, sizeof v); *n = sizeof v; } else memcpy(val, &v, *n);
    return 0;
}
int sim_setsockopt(int fd, int lvl, int opt, const void *val, socklen_t n) {
    Errno e; enter("setsockopt"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (f->kind != K_SOCK && f->kind != K_UDP) return e.fail(ENOTSOCK);
    if (lvl == SOL_SOCKET && opt == SO_LINGER && f->kind == K_SOCK) { if (n < sizeof(linger)) return e.fail(EINVAL); auto l = (const linger *)val; ((SockFile *)f)->linger0 = l->l_onoff && l->l_linger == 0; ev("linger", fd, l->l_onoff, l->l_linger); }
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR && f->kind == K_UDP) { int v; memcpy(&v, val, sizeof v); ((UdpFile *)f)->reuse = v; }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *n) {
    Errno e; enter("getsockname"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (f->kind == K_UDP) fill_addr(((UdpFile *)f)->local, sa, n);
    else if (f->kind == K_SOCK) fill_addr(((SockFile *)f)->local, sa, n);
    else return e.fail(ENOTSOCK);
    return 0;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *n) {
    Errno e; enter("getpeername"); File *f = get(fd); if (!f) return e.fail(EBADF);
    if (f->kind == K_UDP) { if (!((UdpFile *)f)->connected) return e.fail(ENOTCONN); fill_addr(((UdpFile *)f)->peer, sa, n); }
    else if (f->kind == K_SOCK) { auto k = (SockFile *)f; if (!k->s || (k->tcp && k->s->e[k->side].reset)) return e.fail(ENOTCONN); fill_addr(k->peer, sa, n); }
    else return e.fail(ENOTSOCK);
    return 0;
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
    File *f = get(fd); if (f && f->kind != K_SOCK && f->kind != K_UDP) { errno = ENOTSOCK; return -1; }
    struct iovec v = {b, n}; return xread("recv", fd, &v, 1, fl, NULL); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *sl) {
    struct iovec v = {b, n}; struct msghdr h; memset(&h, 0, sizeof h); h.msg_iov = &v; h.msg_iovlen = 1; h.msg_name = sa; h.msg_namelen = sl ? *sl : 0;
    ssize_t r = xread("recvfrom", fd, &v, 1, fl, &h); if (r >= 0 && sl) *sl = h.msg_namelen; return r; }
ssize_t sim_recvmsg(int fd, struct msghdr *h, int fl) { if (h->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; } return xread("recvmsg", fd, h->msg_iov, (int)h->msg_iovlen, fl, h); }
ssize_t sim_read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return xread("read", fd, &v, 1, 0, NULL); }
ssize_t sim_readv(int fd, const struct iovec *v, int n) { return xread("readv", fd, v, n, 0, NULL); }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) {
    struct iovec v = {(void *)b, n}; struct msghdr h; memset(&h, 0, sizeof h); return xwrite("send", fd, &v, 1, fl, &h); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t sl) {
    struct iovec v = {(void *)b, n}; struct msghdr h; memset(&h, 0, sizeof h); h.msg_name = (void *)sa; h.msg_namelen = sl; return xwrite("sendto", fd, &v, 1, fl, &h); }
ssize_t sim_sendmsg(int fd, const struct msghdr *h, int fl) { if (h->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; } return xwrite("sendmsg", fd, h->msg_iov, (int)h->msg_iovlen, fl, h); }
ssize_t sim_write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return xwrite("write", fd, &v, 1, 0, NULL); }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { return xwrite("writev", fd, v, n, 0, NULL); }

int sim_epoll_create1(int) { Errno e; enter("epoll_create"); if (res_hit(R_FD) || table_full()) return e.fail(EMFILE); return put(new EpollFile); }
int sim_epoll_create(int n) { if (n <= 0) { errno = EINVAL; return -1; } return sim_epoll_create1(0); }
int sim_epoll_ctl(int efd, int op, int fd, struct epoll_event *evp) {
    Errno e; enter("epoll_ctl"); File *g = get(efd), *f = get(fd);
    if (!g || !f) return e.fail(EBADF);
    if (g->kind != K_EPOLL || g == f) return e.fail(EINVAL);
    if (!f->pollable()) return e.fail(EPERM);
    EpollFile *ep = (EpollFile *)g; size_t i = 0;
    for (; i < ep->regs.size(); ++i) if (ep->regs[i].fd == fd && ep->regs[i].f == f) break;
    bool have = i < ep->regs.size();
    ev("epoll_ctl", op, fd, evp ? evp->events : 0);
    if (op == EPOLL_CTL_ADD) { if (have) return e.fail(EEXIST); if (res_hit(R_EPOLLADD)) return e.fail(pick(F, 2) ? ENOMEM : ENOSPC); Reg r; r.fd = fd; r.f = f; r.events = evp->events; r.data = evp->data; ep->regs.push_back(r); return 0; }
    if (!have) return e.fail(ENOENT);
    if (op == EPOLL_CTL_MOD) { ep->regs[i].events = evp->events; ep->regs[i].data = evp->data; ep->regs[i].off = false; return 0; }
    if (op == EPOLL_CTL_DEL) { ep->regs.erase(ep->regs.begin() + i); return 0; }
    return e.fail(EINVAL);
}
int sim_epoll_wait(int efd, struct epoll_event *evs, int n, int t) { return do_epoll_wait(efd, evs, n, t); }
int sim_epoll_pwait(int efd, struct epoll_event *evs, int n, int t, const sigset_t *) { return do_epoll_wait(efd, evs, n, t); }
int sim_kqueue(void) { Errno e; enter("kqueue"); if (res_hit(R_FD) || table_full()) return e.fail(EMFILE); EpollFile *f = new EpollFile; f->kq = true; return put(f); }
int sim_kevent(int kq, const struct kevent *ch, int nch, struct kevent *evs, int nev, const struct timespec *ts) { return do_kevent(kq, ch, nch, evs, nev, ts); }
int sim_poll(struct pollfd *p, nfds_t n, int t) { return do_poll(p, n, t < 0 ? -1 : t * MS); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return do_poll(p, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1); }
int sim_select(int nf, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    Errno e; enter("select");
    fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
    int64_t dl = tv ? now_ns() + tv->tv_sec * SEC + tv->tv_usec * 1000ll : -1;
    auto scan = [&](fd_set *ro, fd_set *wo) { int c = 0; for (int i = 0; i < nf && i < FD_SETSIZE; ++i) { File *f = get(i); short m = f ? f->poll() : 0; if (FD_ISSET(i, &ri) && (m & (POLLIN | POLLHUP | POLLERR))) { ++c; if (ro) FD_SET(i, ro); } if (FD_ISSET(i, &wi) && (m & (POLLOUT | POLLERR))) { ++c; if (wo) FD_SET(i, wo); } } return c; };
    wait_for(dl, [&] { return scan(NULL, NULL) > 0; });
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    return scan(r, w);
}
// ---- clocks
static void light(const char *w) { if (getenv("SIM_TRACE")) printf("%.6f %s\n", now_ns()/1e6, w);
    if (cfg.stall_pm && chance(F, cfg.stall_pm, 1000)) { int64_t d = (int64_t)range(F, 1, 1000) * cfg.stall_max / 1000; ev("stall", d); probe("fault.stall"); charge(d, true); }
    charge(cfg.cpu_cost / 8 + 1, true);
    if (shm->calls++ > (uint64_t)cfg.max_calls * 4) viol("*", "livelock", "the clock was read %lld times", (long long)cfg.max_calls * 4);
}
int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    Errno e; light("clock");
    int64_t t = now_ns();
    switch (id) {
    case CLOCK_MONOTONIC_COARSE: t -= t % cfg.tick_ns; break;
    case CLOCK_REALTIME: t += g_rt_off; break;
    case CLOCK_REALTIME_COARSE: t -= t % cfg.tick_ns; t += g_rt_off; break;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: t = busy_ns(); break;
    default: return e.fail(EINVAL);
    }
    ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0;
}
int sim_clock_getres(clockid_t id, struct timespec *ts) { ts->tv_sec = 0; ts->tv_nsec = id == CLOCK_MONOTONIC_COARSE ? cfg.tick_ns : 1; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { Errno e; light("clock"); int64_t t = now_ns() + g_rt_off; tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000; return 0; }
time_t sim_time(time_t *p) { Errno e; light("clock"); time_t t = (now_ns() + g_rt_off) / SEC; if (p) *p = t; return t; }
uint64_t sim_rdtsc(void) {
    Errno e; light("tsc");
    if (cfg.tsc_migrate_pm && chance(T, cfg.tsc_migrate_pm, 1000)) { g_cpu_skew = pick(T, 4) * (uint64_t)cfg.tsc_skew; probe("fault.tsc-jump"); }
    return 5000000000ull + (uint64_t)((unsigned __int128)(now_ns()) * cfg.tsc_hz / SEC) + g_cpu_skew;
}
int sim_nanosleep(const struct timespec *ts, struct timespec *) { enter("nanosleep"); int64_t d = ts->tv_sec * SEC + ts->tv_nsec; charge(d, true); run_due(); return 0; }
int sim_usleep(useconds_t us) { enter("usleep"); charge(us * 1000ll, true); run_due(); return 0; }
unsigned sim_sleep(unsigned s) { enter("sleep"); charge(s * SEC, true); run_due(); return 0; }
// ---- misc
int sim_getrlimit(int, struct rlimit *r) { enter("getrlimit"); r->rlim_cur = limit(); r->rlim_max = limit() < 4096 ? 4096 : limit(); return 0; }
int sim_getrlimit64(int a, struct rlimit *r) { return sim_getrlimit(a, r); }
long sim_sysconf(int n) { if (n == _SC_OPEN_MAX) return limit(); return sysconf(n); }
int sim_getpid(void) { return 4242; }
long sim_syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long); va_end(ap);
    if (n == SYS_gettid) return 4242 + cur_thread();
    if (n == SYS_getrandom) { randfill((void *)a, b); return b; }
    return syscall(n, a, b, c, d);
}
long sim_gettid(void) { return 4242 + cur_thread(); }
int sim_atexit(void (*f)(void)) { g_atexit.push_back(f); return 0; }
int sim_on_exit(void (*)(int, void *), void *) { return 0; }
long sim_random(void) { return (long)(nextrand() & 0x7fffffff); }
void sim_srandom(unsigned s) { (void)s; }
int sim_rand(void) { return (int)(nextrand() & 0x7fffffff); }
void sim_srand(unsigned) {}
uint32_t sim_arc4random(void) { return (uint32_t)nextrand(); }
ssize_t sim_getrandom(void *p, size_t n, unsigned) { randfill(p, n); return n; }
int sim_getentropy(void *p, size_t n) { randfill(p, n); return 0; }
int sim_open(const char *path, int fl, ...) {
    Errno e; enter("open"); if (res_hit(R_FD) || table_full()) return e.fail(EMFILE);
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) return put(new RandFile);
    if (files.count(path)) return put(new PlainFile);
    return e.fail(ENOENT);
}
int sim_open64(const char *path, int fl, ...) { return sim_open(path, fl); }
FILE *sim_fopen(const char *path, const char *mode) {
    Errno e; enter("fopen");
    if (res_hit(R_FD)) { e.fail(EMFILE); return NULL; }
    auto it = files.find(path);
    if (it == files.end()) { e.fail(ENOENT); return NULL; }
    if (it->second.empty()) return fmemopen((void *)"\n", 1, mode);
    return fmemopen((void *)it->second.data(), it->second.size(), mode);
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_gethostname(char *p, size_t n) { snprintf(p, n, "simhost"); return 0; }
int sim_getifaddrs(struct ifaddrs **out) {
    Errno e; enter("getifaddrs"); if (ifaces_error) return e.fail(ifaces_error); if (res_hit(R_MEM)) return e.fail(ENOMEM);
    struct ifaddrs *first = NULL, **last = &first;
    for (auto &f : ifaces) {
        auto *a = (struct ifaddrs *)heap_alloc(sizeof(struct ifaddrs)); memset(a, 0, sizeof *a); a->ifa_name = (char *)heap_alloc(f.name.size() + 1); strcpy(a->ifa_name, f.name.c_str()); *last = a; last = &a->ifa_next; if (!f.fam) continue;
        size_t n = f.fam == AF_INET ? sizeof(sockaddr_in) : f.fam == AF_INET6 ? sizeof(sockaddr_in6) : 20; a->ifa_addr = (sockaddr *)heap_alloc(n); memset(a->ifa_addr, 0, n); a->ifa_addr->sa_family = f.fam;
        if (f.fam == AF_INET) memcpy(&((sockaddr_in *)a->ifa_addr)->sin_addr, f.b, 4); else if (f.fam == AF_INET6) { memcpy(&((sockaddr_in6 *)a->ifa_addr)->sin6_addr, f.b, 16); ((sockaddr_in6 *)a->ifa_addr)->sin6_scope_id = f.scope; }
    }
    ++ifaces_live; *out = first; return 0;
}
void sim_freeifaddrs(struct ifaddrs *p) { --ifaces_live; while (p) { auto *n = p->ifa_next; heap_free(p->ifa_name); heap_free(p->ifa_addr); heap_free(p); p = n; } }
}
