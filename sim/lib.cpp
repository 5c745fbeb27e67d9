#include "lib.h"
extern "C" {
#include <libdillimpl.h>
}
extern "C" {
int tramp_go(void (*f)(void *), void *a);
int tramp_go_mem(void (*f)(void *), void *a, void *mem, size_t len);
int tramp_bundle_go(int b, void (*f)(void *), void *a);
int tramp_bundle_go_mem(int b, void (*f)(void *), void *a, void *mem, size_t len);
}
namespace { struct Box { Fn f; }; }
static void tramp(void *a) { Box *b = (Box *)a; b->f(); delete b; }
static int done(int rc, Box *b) { if (rc < 0) { int e = errno; delete b; errno = e; } return rc; }
int co_go(Fn f) { Box *b = new Box{std::move(f)}; return done(tramp_go(tramp, b), b); }
int co_go_mem(Fn f, void *m, size_t n) { Box *b = new Box{std::move(f)}; return done(tramp_go_mem(tramp, b, m, n), b); }
int co_bgo(int h, Fn f) { Box *b = new Box{std::move(f)}; return done(tramp_bundle_go(h, tramp, b), b); }
int co_bgo_mem(int h, Fn f, void *m, size_t n) { Box *b = new Box{std::move(f)}; return done(tramp_bundle_go_mem(h, tramp, b, m, n), b); }

// Coarse clock granularity + rounding to milliseconds at both ends + the wait's own rounding.
static int64_t slack_ns() { return 2 * cfg.tick_ns + 3 * MS; }
bool in_time(const Watch &w, int64_t dl) {
    if (dl < 0) return true;
    int64_t lim = std::max(dl * MS, w.t0) + w.busy() + slack_ns();
    return now_ns() <= lim;
}
void check_timedout(const char *tags, const char *what, const Watch &w, int64_t dl) {
    if (dl < 0) viol(tags, "timeout-infinite", "%s timed out although its deadline was infinite (%lld)", what, (long long)dl);
    int64_t n = now_ns() / MS;
    if (n < dl) viol(tags, "timeout-early", "%s returned ETIMEDOUT at %lld ms, before its deadline %lld ms", what, (long long)n, (long long)dl);
    if (!in_time(w, dl)) viol(tags, "timeout-late", "%s returned ETIMEDOUT at %lld.%03lld ms; deadline %lld ms, called at %lld ms, process busy %lld us since", what,
        (long long)n, (long long)(now_ns() / 1000 % 1000), (long long)dl, (long long)(w.t0 / MS), (long long)(w.busy() / 1000));
}
int64_t rnd_deadline(Stream s, uint32_t maxms) {
    switch (pick(s, 4)) {
    case 0: return -1;
    case 1: return 0;
    default: return dill_now() + pick(s, maxms + 1);
    }
}
void handle_census(const char *tags) {
    static int t; Str r; int n = 0;
    for (int h = 0; h < 5000; ++h) { errno = 0; if (dill_hquery(h, &t) || errno != EBADF) { if (n++ < 10) r += std::to_string(h) + " "; } }
    if (n) viol(tags, "leak-handle", "%d handles are still valid after everything was closed: %s", n, r.c_str());
}
void final_census(const char *tags, int fds, size_t kept) {
    handle_census(tags);
    run_exit_handlers();
    if (live_allocs() > kept) viol(tags, "leak-memory", "memory still allocated after everything was closed and the context was terminated: %s", describe_allocs().c_str());
    if (ssl_live()) viol(tags, "leak-ssl", "OpenSSL objects still allocated after everything was closed: %s", describe_ssl().c_str());
    if (open_fds() != fds) viol(tags, open_fds() > fds ? "leak-fd" : "closed-fd", "%d descriptors open at the end, expected %d: %s", open_fds(), fds, describe_fds().c_str());
}
Iol::~Iol() { if (block) heap_free(block); else for (char *p : bufs) if (p) heap_free(p); }
void Iol::make(size_t n, const void *content, int maxparts, bool skip) {
    total = n;
    if (maxparts < 0) { // very many tiny pieces of one block
        size_t parts = -maxparts, o = 0; block = (char *)heap_alloc(n ? n : 1); if (content) memcpy(block, content, n); v.resize(parts);
        for (size_t i = 0; i < parts; ++i) { size_t l = i + 1 == parts ? n - o : std::min<size_t>(1, n - o); bufs.push_back(block + o); lens.push_back(l); v[i] = {block + o, l, i + 1 < parts ? &v[i + 1] : NULL, 0}; o += l; }
        saved = v; return;
    }
    int parts = 1 + pick(W, maxparts);
    std::vector<size_t> cut; for (int i = 0; i < parts - 1; ++i) cut.push_back(pick(W, (uint32_t)n + 1));
    cut.push_back(0); cut.push_back(n); std::sort(cut.begin(), cut.end());
    v.resize(parts);
    for (int i = 0; i < parts; ++i) {
        size_t l = cut[i + 1] - cut[i];
        bool null = skip && l && chance(W, 1, 5);
        char *p = null ? NULL : (char *)heap_alloc(l ? l : 1);
        if (null) has_null = true;
        if (p && content) memcpy(p, (const char *)content + cut[i], l);
        bufs.push_back(p); lens.push_back(l);
        v[i].iol_base = l == 0 && chance(W, 1, 3) ? NULL : p; v[i].iol_len = l; v[i].iol_next = i + 1 < parts ? &v[i + 1] : NULL; v[i].iol_rsvd = 0;
    }
    saved = v;
}
std::string Iol::bytes() const { std::string r; for (size_t i = 0; i < bufs.size(); ++i) r += bufs[i] ? std::string(bufs[i], lens[i]) : std::string(lens[i], '\0'); return r; }
void Iol::check_unchanged(const char *tags, const char *what) {
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i].iol_base != saved[i].iol_base || v[i].iol_len != saved[i].iol_len || v[i].iol_next != saved[i].iol_next || v[i].iol_rsvd)
            viol(tags, "iolist-modified", "%s left the caller's iolist modified (element %zu of %zu)", what, i, v.size());
}
std::string pattern(size_t n, uint64_t key) { std::string s(n, '\0'); fill_pattern(&s[0], n, key); return s; }
const char *ename(int e) {
    switch (e) {
#define E(x) case x: return #x;
    E(0) E(EPERM) E(EAGAIN) E(EBADF) E(ENOTSUP) E(EINVAL) E(ENOMEM) E(EMFILE) E(EPIPE) E(ECONNRESET) E(ETIMEDOUT) E(ECANCELED) E(EMSGSIZE) E(EBUSY) E(EPROTO)
    E(ECONNREFUSED) E(EADDRINUSE) E(EADDRNOTAVAIL) E(EINTR) E(ENOTCONN) E(EACCES) E(ENOENT) E(EEXIST) E(ENOSPC) E(EISCONN) E(EHOSTUNREACH) E(ENETUNREACH) E(ENAMETOOLONG) E(EFAULT) E(ENOTSOCK) E(ENFILE) E(ECONNABORTED)
    }
    static char b[20]; snprintf(b, sizeof b, "errno %d", e); return b;
}
