#include <fnmatch.h>
// Runtime of the simulator: decisions, log, clock, event queue, heap, threads, batch runner.
#include "rt.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "abort_on_error=0:exitcode=66:print_legend=0:print_full_thread_history=0:"
           "handle_abort=0:allow_user_segv_handler=1";
}
#else
#define POISON(p, n) ((void)(p), (void)(n))
#define UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace sim {
Shm *shm;
uint32_t *chbuf[NSTREAMS];
Config cfg;
static const char *g_prop = "";
static bool g_verbose = false;
static bool g_replay = false;
static std::vector<uint32_t> g_script[NSTREAMS];
static uint64_t g_rng[NSTREAMS];
const char *property() { return g_prop; }
bool verbose() { return g_verbose; }

// ---- decisions ------------------------------------------------------------------
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint32_t draw(Stream s, uint32_t n, uint32_t gen) {
    uint32_t i = shm->nch[s], v;
    if (g_replay) v = i < g_script[s].size() ? g_script[s][i] % n : 0;
    else v = gen;
    if (i < MAXCH) chbuf[s][i] = v;
    shm->nch[s] = i + 1;
    if (i + 1 >= MAXCH) discard("too many decisions");
    return v;
}
uint32_t pick(Stream s, uint32_t n) {
    if (n <= 1) return 0;
    return draw(s, n, g_replay ? 0 : (uint32_t)(splitmix(g_rng[s]) % n));
}
bool chance(Stream s, uint32_t num, uint32_t den) {
    if (num == 0) return false;
    return draw(s, 2, g_replay ? 0 : (splitmix(g_rng[s]) % den) < num) != 0;
}
uint32_t skewed(Stream s, uint32_t max) {
    switch (pick(s, 4)) {
    case 0: return pick(s, std::min<uint32_t>(max, 4) + 1);
    case 1: return pick(s, std::min<uint32_t>(max, 32) + 1);
    case 2: return pick(s, std::min<uint32_t>(max, 600) + 1);
    default: return pick(s, max + 1);
    }
}
uint32_t oneofu(Stream s, std::initializer_list<uint32_t> l) { return l.begin()[pick(s, (uint32_t)l.size())]; }

// ---- log ---------------------------------------------------------------------------
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x100000001b3ull; return h ^ (h >> 29); }
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const uint8_t *c = (const uint8_t *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
void fill_pattern(void *p, size_t n, uint64_t key) {
    uint8_t *c = (uint8_t *)p;
    uint64_t x = key * 0x9e3779b97f4a7c15ull + 12345, w = 0;
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) w = splitmix(x); c[i] = (uint8_t)(w >> (8 * (i % 8))); }
}
void ev(const char *name, int64_t a, int64_t b, int64_t c, int64_t d) {
    uint64_t h = shm->hash, ih = shm->ihash;
    for (const char *p = name; *p; ++p) { h = mix(h, (uint8_t)*p); }
    h = mix(mix(mix(mix(h, a), b), c), d);
    h = mix(h, now_ns());
    ih = mix(mix(mix(ih, name[0] * 131 + (name[0] ? name[1] : 0)), a), b);
    shm->hash = h; shm->ihash = ih; shm->events = shm->events + 1;
    if (g_verbose) printf("%14.6fms [%d] %s %lld %lld %lld %lld\n", now_ns() / 1e6, cur_thread(), name,
        (long long)a, (long long)b, (long long)c, (long long)d);
}
void note(const char *fmt, ...) {
    if (!g_verbose) return;
    va_list ap; va_start(ap, fmt);
    printf("%14.6fms [%d]   ", now_ns() / 1e6, cur_thread()); vprintf(fmt, ap); printf("\n");
    va_end(ap);
}
void probe(const char *name, int64_t n) {
    for (int i = 0; i < shm->ncnt; ++i)
        if (!strncmp(shm->cname[i], name, 55)) { shm->cval[i] += n; return; }
    if (shm->ncnt == 400) return;
    strncpy(shm->cname[shm->ncnt], name, 55); shm->cval[shm->ncnt++] = n;
}
static void finish_child(int status) {
    shm->sim_ns = now_ns() - time_base();
    shm->status = status;
    if (g_verbose) fflush(stdout);
    _exit(0);
}
const char *extra_tags = "";
void viol(const char *tags, const char *cls, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    std::string tt = std::string(tags) + " " + extra_tags; if (strcmp(tags, "*") && *extra_tags) tags = tt.c_str();
    snprintf(shm->tags, sizeof shm->tags, "%s", tags);
    bool mine = !strcmp(tags, "*") || !*g_prop;
    std::string t = std::string(" ") + tags + " ";
    if (t.find(std::string(" ") + g_prop + " ") != std::string::npos) mine = true;
    if (g_verbose) printf("VIOLATION [%s] %s: %s\n", tags, cls, shm->msg);
    finish_child(mine ? 2 : 3);
    __builtin_unreachable();
}
void discard(const char *why) {
    snprintf(shm->msg, sizeof shm->msg, "%s", why);
    if (g_verbose) printf("DISCARD %s\n", why);
    finish_child(4);
    __builtin_unreachable();
}
void nontrivial(uint64_t key) { shm->nontriv = 1; shm->ntkey = mix(shm->ntkey, key); }

// ---- clock and events ----------------------------------------------------------------
static int64_t g_now = 1000 * SEC, g_base = 1000 * SEC, g_busy = 0;
int64_t now_ns() { return g_now; }
int64_t now_ms() { return g_now / MS; }
int64_t busy_ns() { return g_busy; }
int64_t time_base() { return g_base; }
int64_t tick_ms() { return (cfg.tick_ns + MS - 1) / MS; }
extern int64_t g_rt_off;
int64_t g_rt_off = 1700000000ll * SEC;
void start_clock(int64_t mono, int64_t real) { g_now = g_base = mono; g_rt_off = real - mono; }
struct Event { int64_t t; uint64_t seq; std::function<void()> f; };
struct EvLess { bool operator()(const Event &a, const Event &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Event> g_q; static uint64_t g_seq = 0;
void at(int64_t t, std::function<void()> f) {
    if (t < g_now) t = g_now;
    g_q.push_back(Event{t, ++g_seq, std::move(f)});
    std::push_heap(g_q.begin(), g_q.end(), EvLess());
}
int64_t next_event_ns() { return g_q.empty() ? -1 : g_q.front().t; }
int64_t earliest_event() { return next_event_ns(); }
static bool g_in_events = false;
std::function<void()> after_event;
std::function<void(bool)> on_scan;
void run_due() {
    if (g_in_events) return;
    g_in_events = true;
    while (!g_q.empty() && g_q.front().t <= g_now) {
        std::pop_heap(g_q.begin(), g_q.end(), EvLess());
        Event e = std::move(g_q.back()); g_q.pop_back();
        e.f();
        if (after_event) after_event();
    }
    g_in_events = false;
}
void charge(int64_t ns, bool busy) { g_now += ns; if (busy) g_busy += ns; }
void idle_until(int64_t t) { if (t > g_now) g_now = t; run_due(); }
void burn(int64_t ns) { charge(ns, true); run_due(); }
static std::function<void()> g_deadlock;
void deadlock_handler(std::function<void()> f) { g_deadlock = f; }
void call_deadlock() {
    if (g_deadlock) g_deadlock();
    viol("*", "deadlock", "every coroutine is blocked forever and nothing can happen any more");
}
uint64_t counters_syscalls;

void randomize_common(bool faults) {
    // origin of the clocks: just booted, long uptime, around 2^31 and 2^32 ms
    static const int64_t origins[] = {1000, 50, 60000, 86400000ll, 2147483648ll - 500, 4294967296ll - 700, 4000000000000ll};
    int64_t o = origins[pick(T, 7)];
    start_clock(o * MS + pick(T, 1000) * 1000, (1700000000ll + pick(T, 1000)) * SEC);
    static const int64_t ticks[] = {4 * MS, 1 * MS, 10 * MS, 3333333};
    cfg.tick_ns = ticks[pick(T, 4)];
    static const uint64_t hz[] = {2500000000ull, 1000000000ull, 4000000000ull, 600000000ull, 3100000000ull};
    cfg.tsc_hz = hz[pick(T, 5)];
    if (faults && chance(T, 1, 25)) { static const int base[] = {254, 1020, 4090, 32764, 65532, 70000}; cfg.fdbase = base[pick(T, 6)]; } // many descriptors are open already
    cfg.cpu_cost = oneofu(T, {200, 1000, 20, 5000});
    static const int64_t lat[] = {20000, 0, 1 * MS, 40 * MS, 300 * MS};
    cfg.lat_min = lat[pick(N, 5)];
    cfg.lat_jit = chance(N, 1, 2) ? cfg.lat_min * 2 + 1000 : 1;
    cfg.mss = oneofu(N, {1460, 1, 3, 100, 65536, 17});
    cfg.scap = oneofu(N, {65536, 1, 16, 2000, 300000, 4096});
    cfg.rcap = oneofu(N, {65536, 16, 2000, 300000, 4096, 1});
    cfg.ucap = oneofu(N, {65536, 1, 16, 2000, 200000});
    cfg.eager_reuse = chance(M, 1, 3);
    cfg.fill = (uint8_t)oneofu(M, {0xa5, 0x00, 0xff, 0x5a, 0x01});
    cfg.shuffle_events = chance(S, 2, 3);
    if (chance(S, 1, 6)) cfg.maxevents_cap = range(S, 1, 4);
    if (chance(S, 1, 4)) cfg.nofile = oneofu(S, {256, 128, 65536});
    if (!faults) return;
    if (chance(F, 1, 3)) { cfg.stall_pm = oneofu(F, {1, 5, 20}); cfg.stall_max = oneofu(F, {5, 50, 1500}) * MS; }
    if (chance(F, 1, 3)) cfg.eintr_pm = oneofu(F, {20, 100, 300});
    if (chance(F, 1, 3)) cfg.loss_pm = oneofu(F, {5, 50, 200});
    if (chance(F, 1, 4)) cfg.spurious_pm = oneofu(F, {10, 50, 200});
    if (chance(F, 1, 4)) cfg.accept_abort_pm = oneofu(F, {50, 300});
    if (chance(F, 1, 4)) { cfg.tsc_migrate_pm = oneofu(F, {5, 100}); static const int64_t sk[] = {1000, 300000, 1000000000000000ll, 4000000000000000ll}; cfg.tsc_skew = sk[pick(F, 4)]; }
}

// ---- threads ---------------------------------------------------------------------------
bool mt = false;
static thread_local int t_id = 0;
int cur_thread() { return t_id; }
struct Thr { bool done = false, blocked = false, started = false, joined = false; std::function<bool()> ready; int64_t wake = -1; pthread_t th; std::function<void()> fn; };
static std::vector<Thr> g_thr;      // [0] is the main thread
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_cv = PTHREAD_COND_INITIALIZER;
static int g_token = -1;
std::function<void(int)> on_thread_end;
static int64_t g_quantum = 0, g_blocks = 0; static uint32_t g_mean = 0; static uint64_t g_switches = 0, g_preempts = 0;
static void *thr_main(void *p);
static void hand_over(int to) { // caller holds g_mx
    g_token = to; ++g_switches;
    Thr &t = g_thr[to];
    if (!t.started) {
        // the stacks and thread-local storage of ended threads may be reused, in a repeatable manner
        for (auto &o : g_thr) if (o.done && !o.joined && o.started && !pthread_equal(o.th, pthread_self())) { pthread_join(o.th, NULL); o.joined = true; }
        t.started = true; t.blocked = false;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
        if (pthread_create(&t.th, &a, thr_main, (void *)(intptr_t)to) != 0) discard("pthread_create");
        pthread_attr_destroy(&a);
    }
    pthread_cond_broadcast(&g_cv);
}
static int choose_next() { // picks a thread which can run; advances time if needed
    int64_t guard = 0;
    while (1) {
        std::vector<int> can;
        bool any = false;
        for (size_t i = 0; i < g_thr.size(); ++i) {
            Thr &t = g_thr[i];
            if (t.done) continue;
            any = true;
            if (!t.blocked || (t.wake >= 0 && t.wake <= g_now) || (t.ready && t.ready())) can.push_back((int)i);
        }
        if (!any) return -1;
        if (!can.empty()) return can[pick(S, (uint32_t)can.size())];
        int64_t nx = next_event_ns();
        for (auto &t : g_thr) if (!t.done && t.wake >= 0 && (nx < 0 || t.wake < nx)) nx = t.wake;
        if (nx < 0) call_deadlock();
        if (++guard > 10000000) viol("*", "livelock", "no thread can proceed");
        idle_until(nx);
    }
}
static void take_token(int me) { while (g_token != me) pthread_cond_wait(&g_cv, &g_mx); }
static void next_quantum() { g_quantum = g_mean ? 1 + pick(S, 2 * g_mean) : 200000; }
static void switch_now() {
    pthread_mutex_lock(&g_mx);
    int me = t_id, nx = choose_next();
    if (nx != me) { hand_over(nx); take_token(me); }
    pthread_mutex_unlock(&g_mx);
}
static void maybe_switch() { if (chance(S, 1, 3)) switch_now(); }
void mt_block(std::function<bool()> ready, int64_t wake) {
    pthread_mutex_lock(&g_mx);
    int me = t_id;
    g_thr[me].blocked = true; g_thr[me].ready = ready; g_thr[me].wake = wake;
    int nx = choose_next();
    if (nx != me) { hand_over(nx); take_token(me); }
    g_thr[me].blocked = false; g_thr[me].wake = -1; g_thr[me].ready = nullptr;
    pthread_mutex_unlock(&g_mx);
}
// Called at the beginning of every basic block of the library in the variants built for it.
extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!mt || g_in_events) return;
    if (--g_quantum > 0) return;
    int e = errno; ++g_preempts; next_quantum(); switch_now(); errno = e;
}
static void thr_end(int me) { // last destructor of the thread: passes the token on
    if (on_thread_end) on_thread_end(me);
    pthread_mutex_lock(&g_mx);
    g_thr[me].done = true;
    hand_over(choose_next());
    pthread_mutex_unlock(&g_mx);
}
static pthread_key_t g_endkey;
static void endkey_dtor(void *p) {
    // re-arm so that this runs in the last destructor round, after the library's own destructors
    intptr_t v = (intptr_t)p;
    if (v >= 0x1000) { pthread_setspecific(g_endkey, (void *)(v - 0x1000)); return; }
    thr_end((int)v);
}
static void *thr_main(void *p) {
    t_id = (int)(intptr_t)p;
    pthread_mutex_lock(&g_mx);
    take_token(t_id);
    pthread_mutex_unlock(&g_mx);
    pthread_setspecific(g_endkey, (void *)(intptr_t)(t_id + 0x2000));
    ev("thread-start", t_id);
    g_thr[t_id].fn();
    ev("thread-exit", t_id);
    return NULL;
}
void run_threads(const std::vector<std::pair<int64_t, std::function<void()>>> &fns, std::function<void()> mainfn) {
    pthread_key_create(&g_endkey, endkey_dtor);
    g_thr.clear(); g_thr.resize(fns.size() + 1);
    g_thr[0].started = true; g_token = 0; g_mean = cfg.preempt; next_quantum();
    for (size_t i = 0; i < fns.size(); ++i) { Thr &t = g_thr[i + 1]; t.fn = fns[i].second; t.blocked = true; t.wake = g_now + fns[i].first; }
    mt = true;
    mainfn();
    mt_block([] { for (size_t i = 1; i < g_thr.size(); ++i) if (!g_thr[i].done) return false; return true; }, -1);
    for (size_t i = 1; i < g_thr.size(); ++i) if (!g_thr[i].joined) { pthread_join(g_thr[i].th, NULL); g_thr[i].joined = true; }
    mt = false; probe("thread.switches", g_switches); probe("thread.preemptions", g_preempts); probe("thread.threads", fns.size());
}
// what the library may use to synchronize threads
extern "C" {
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
    static std::map<void *, int> st;
    while (st[o] == 1) { if (!mt) viol("*", "deadlock", "pthread_once called by the function it runs"); mt_block([o] { return st[o] == 2; }, -1); }
    if (st[o] == 0) { st[o] = 1; f(); st[o] = 2; }
    return 0;
}
static std::map<void *, int> g_owner; // 1 + thread
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    if (mt) maybe_switch();
    while (g_owner[m]) { if (!mt) viol("*", "deadlock", "the only thread locks a mutex twice"); mt_block([m] { return !g_owner[m]; }, -1); }
    g_owner[m] = 1 + t_id; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (mt) maybe_switch(); if (g_owner[m]) return EBUSY; g_owner[m] = 1 + t_id; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { g_owner[m] = 0; if (mt) maybe_switch(); return 0; }
int sim_sched_yield(void) { if (mt) switch_now(); return 0; }
}

void enter(const char *what) {
    if (getenv("SIM_TRACE")) printf("%.6f %s\n", now_ns()/1e6, what);
    if (mt) maybe_switch();
    ++counters_syscalls;
    shm->calls = shm->calls + 1;
    if ((int64_t)shm->calls > cfg.max_calls)
        viol("*", "livelock", "more than %lld calls into the operating system (last: %s)", (long long)cfg.max_calls, what);
    charge(cfg.cpu_cost, true);
    if (cfg.stall_pm && chance(F, cfg.stall_pm, 1000)) {
        int64_t d = (int64_t)range(F, 1, 1000) * cfg.stall_max / 1000;
        ev("stall", d); probe("fault.stall"); charge(d, true);
    }
    run_due();
}

// ---- heap ---------------------------------------------------------------------------------
static char *const ARENA = (char *)0x200000000000ull;
static const size_t ARENA_SZ = 3ull << 30;
static size_t g_brk = 0;
struct Chunk { size_t n; uint64_t seq; int thr; bool live; bool lib; };
static std::map<char *, Chunk> g_chunks;
static std::map<size_t, std::vector<char *>> g_reuse;
static std::map<char *, size_t> g_prot;
static uint64_t g_aseq = 0;
static std::atomic_flag g_hlock = ATOMIC_FLAG_INIT;
struct HLock { HLock() { while (g_hlock.test_and_set()) ; } ~HLock() { g_hlock.clear(); } };
static const size_t RZ = 64;
void heap_init() {
    void *p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA) { fprintf(stderr, "cannot map the simulated heap\n"); exit(70); }
}
bool in_heap(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SZ; }
static void canary_set(char *p, size_t n) {
#if !defined(__SANITIZE_ADDRESS__)
    memset(p - 32, 0xcb, 32); memset(p + n, 0xcb, 32);
#endif
}
static bool canary_ok(char *p, size_t n) {
#if !defined(__SANITIZE_ADDRESS__)
    for (int i = 0; i < 32; ++i) if ((uint8_t)p[-1 - i] != 0xcb || (uint8_t)p[n + i] != 0xcb) return false;
#endif
    return true;
}
static char *raw_alloc(size_t n, size_t align, bool lib) {
    HLock l;
    if (align < 16) align = 16;
    char *p = NULL;
    if (cfg.eager_reuse) {
        auto it = g_reuse.find(n * 8 + (align > 16));
        if (it != g_reuse.end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); }
    }
    if (!p) {
        size_t a = (g_brk + RZ + align - 1) / align * align;
        if (a + n + 2 * RZ > ARENA_SZ) return NULL;
        p = ARENA + a;
        POISON(ARENA + g_brk, a - g_brk);
        g_brk = (a + n + 7) / 8 * 8;
        POISON(p + n, RZ + 8);
        g_brk += RZ;
    }
    UNPOISON(p, n);
    if (n <= 65536) memset(p, cfg.fill, n);
    else { memset(p, cfg.fill, 64); memset(p + n - 16384, cfg.fill, 16384); }
    canary_set(p, n);
    g_chunks[p] = Chunk{n, ++g_aseq, t_id, true, lib};
    return p;
}
static void raw_free(char *p) {
    std::map<char *, Chunk>::iterator it;
    {
        HLock l;
        it = g_chunks.find(p);
    }
    if (it == g_chunks.end()) viol("*", "crash:bad-free", "free() of a pointer that was never allocated");
    if (!it->second.live) viol("*", "crash:double-free", "double free of block #%llu (%zu bytes)", (unsigned long long)it->second.seq, it->second.n);
    if (!canary_ok(p, it->second.n)) viol("*", "crash:heap-overflow", "bytes around block #%llu (%zu bytes) were overwritten", (unsigned long long)it->second.seq, it->second.n);
    char *sp = (char *)__builtin_frame_address(0);
    if (sp >= p && sp < p + it->second.n) viol("*", "crash:free-own-stack", "the stack that is being run on was freed");
    HLock l;
    size_t n = it->second.n;
    for (auto &pr : g_prot) if (pr.first >= p && pr.first < p + n)
        viol("*", "crash:free-protected", "memory is freed while one of its pages is inaccessible");
    it->second.live = false;
    if (n <= 65536) memset(p, 0xdd, n); else { memset(p, 0xdd, 4096); memset(p + n - 8192, 0xdd, 8192); }
    POISON(p, n);
    if (cfg.eager_reuse) g_reuse[n * 8 + (((uintptr_t)p & 4095) == 0)].push_back(p);
}
void *heap_alloc(size_t n) { void *p = raw_alloc(n, 16, false); if (!p) discard("simulated heap exhausted"); return p; }
void heap_free(void *p) { if (p) raw_free((char *)p); }
size_t live_allocs() { size_t c = 0; for (auto &e : g_chunks) c += e.second.live && e.second.lib; return c; }
size_t live_bytes() { size_t c = 0; for (auto &e : g_chunks) if (e.second.live && e.second.lib) c += e.second.n; return c; }
size_t live_allocs_of_thread(int t) { size_t c = 0; for (auto &e : g_chunks) c += e.second.live && e.second.lib && e.second.thr == t; return c; }
size_t alloc_mark() { return g_aseq; }
std::string describe_allocs(size_t mark) {
    std::string r; int k = 0;
    for (auto &e : g_chunks) if (e.second.live && e.second.lib && e.second.seq > mark && k++ < 12)
        r += "#" + std::to_string(e.second.seq) + ":" + std::to_string(e.second.n) + "B ";
    return r;
}
void heap_final_check() {
    for (auto &e : g_chunks) if (e.second.live && !canary_ok(e.first, e.second.n))
        viol("*", "crash:heap-overflow", "bytes around block #%llu (%zu bytes) were overwritten", (unsigned long long)e.second.seq, e.second.n);
}
// resource faults
static int64_t g_kth[R_NRES], g_calls[R_NRES], g_fired; static uint32_t g_rpm[R_NRES];
void arm(Res r, int64_t kth, uint32_t pm) {
    for (int i = 0; i < R_NRES; ++i) g_calls[i] = 0;
    g_fired = 0; g_kth[r] = kth; g_rpm[r] = pm;
}
void disarm() { for (int i = 0; i < R_NRES; ++i) g_kth[i] = 0, g_rpm[i] = 0; }
int64_t res_fired() { return g_fired; }
int64_t res_calls(Res r) { return g_calls[r]; }
std::function<bool()> res_filter;
bool res_hit(Res r) {
    if (!g_kth[r] && !g_rpm[r]) return false;
    if (res_filter && !res_filter()) return false;
    ++g_calls[r];
    bool hit = (g_kth[r] && g_calls[r] == g_kth[r]) || (g_rpm[r] && chance(F, g_rpm[r], 1000));
    if (hit) {
        ++g_fired;
        static const char *nm[] = {"fault.nomem", "fault.nofd", "fault.mprotect", "fault.epolladd"};
        probe(nm[r]); ev("resfault", r, g_calls[r]);
    }
    return hit;
}
} // namespace sim
using namespace sim;

extern "C" {
void *sim_malloc(size_t n) {
    if (res_hit(R_MEM)) { errno = ENOMEM; return NULL; }
    void *p = raw_alloc(n, 16, true); if (!p) errno = ENOMEM; return p;
}
void *sim_calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; }
    if (res_hit(R_MEM)) { errno = ENOMEM; return NULL; }
    void *p = raw_alloc(a * b, 16, true);
    if (p) memset(p, 0, a * b); else errno = ENOMEM;
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    if (!in_heap(p)) { free(p); return; }
    raw_free((char *)p);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!in_heap(p)) return realloc(p, n);
    if (n == 0) { sim_free(p); return NULL; }
    if (res_hit(R_MEM)) { errno = ENOMEM; return NULL; }
    auto it = g_chunks.find((char *)p);
    if (it == g_chunks.end() || !it->second.live) viol("*", "crash:bad-realloc", "realloc() of a pointer that is not allocated");
    size_t old = it->second.n;
    void *q = raw_alloc(n, 16, true);
    if (!q) { errno = ENOMEM; return NULL; }
    memcpy(q, p, old < n ? old : n);
    raw_free((char *)p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; }
    return sim_realloc(p, a * b);
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
    if (res_hit(R_MEM)) return ENOMEM;
    void *p = raw_alloc(n, al, true); if (!p) return ENOMEM; *out = p; return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) {
    if (res_hit(R_MEM)) { errno = ENOMEM; return NULL; }
    return raw_alloc(n, al, true);
}
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void *sim_valloc(size_t n) { return sim_aligned_alloc(4096, n); }
size_t sim_malloc_usable_size(void *p) { auto it = g_chunks.find((char *)p); return it == g_chunks.end() ? 0 : it->second.n; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_mprotect(void *a, size_t n, int prot) {
    if (prot == PROT_NONE && res_hit(R_MPROTECT)) { errno = ENOMEM; return -1; } // splits a mapping
    int rc = mprotect(a, n, prot);
    if (rc == 0) { HLock l; if (prot == PROT_NONE) { UNPOISON(a, n); g_prot[(char *)a] = n; } else g_prot.erase((char *)a); }
    return rc;
}
void *sim_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (a || !(flags & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; }
    if (res_hit(R_MEM)) { errno = ENOMEM; return MAP_FAILED; }
    char *p = raw_alloc((n + 4095) & ~4095ul, 4096, true);
    if (!p) { errno = ENOMEM; return MAP_FAILED; }
    memset(p, 0, n);
    if (!(prot & PROT_WRITE)) mprotect(p, (n + 4095) & ~4095ul, prot);
    return p;
}
int sim_munmap(void *a, size_t n) {
    if (!in_heap(a)) return munmap(a, n);
    mprotect(a, (n + 4095) & ~4095ul, PROT_READ | PROT_WRITE);
    { HLock l; for (auto it = g_prot.begin(); it != g_prot.end();) if (it->first >= (char *)a && it->first < (char *)a + n) it = g_prot.erase(it); else ++it; }
    raw_free((char *)a); return 0;
}
}

// ---- scenarios and runner -------------------------------------------------------------------
namespace sim {
static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
RegisterScenario::RegisterScenario(const char *n, ScenarioFn f) { scens().push_back(Scenario{n, f}); }
#ifndef SIM_VARIANT
#define SIM_VARIANT "?"
#endif
extern "C" const char *sim_variant;
const char *variant() { return sim_variant; }

struct Run { uint64_t seed; bool replay; std::vector<uint32_t> script[NSTREAMS]; };
struct Outcome {
    int status = 0; std::string cls, tags, msg; uint64_t hash = 0, ihash = 0, ntkey = 0; bool nontriv = false;
    int64_t sim_ns = 0; uint64_t calls = 0, events = 0; std::string err; double wall = 0;
    std::vector<uint32_t> rec[NSTREAMS];
};
static ScenarioFn g_fn; static const char *g_sname = "";
static int g_errfd = -1;
static bool g_keep_verbose = false;
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

static void child_main(const Run &r) {
    if (!getenv("SIM_NOREDIR")) dup2(g_errfd, 2);
    struct itimerval tv = {{0, 0}, {20, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, NULL);
    g_replay = r.replay;
    if (r.replay) for (int i = 0; i < NSTREAMS; ++i) g_script[i] = r.script[i];
    uint64_t x = r.seed * 0x2545f4914f6cdd1dull + 77;
    for (int i = 0; i < NSTREAMS; ++i) { splitmix(x); g_rng[i] = splitmix(x); }
    os_reset();
    errno = 0;
    g_fn();
    heap_final_check();
    finish_child(1);
}
static std::string slurp_err() {
    std::string s; char b[4096]; ssize_t n; off_t o = 0;
    while ((n = pread(g_errfd, b, sizeof b, o)) > 0 && s.size() < 60000) { s.append(b, n); o += n; }
    return s;
}
static Outcome execute(const Run &r, bool want_rec) {
    shm->status = 0; shm->cls[0] = shm->tags[0] = shm->msg[0] = 0;
    shm->hash = 14695981039346656037ull; shm->ihash = 7; shm->ntkey = 1; shm->nontriv = 0;
    shm->sim_ns = 0; shm->calls = 0; shm->events = 0;
    for (int i = 0; i < NSTREAMS; ++i) shm->nch[i] = 0;
    if (ftruncate(g_errfd, 0) != 0) {}
    lseek(g_errfd, 0, SEEK_SET);
    double t0 = wall();
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(70); }
    if (p == 0) { g_verbose = g_keep_verbose; child_main(r); _exit(71); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    Outcome o; o.wall = wall() - t0;
    o.status = shm->status; o.cls = shm->cls; o.tags = shm->tags; o.msg = shm->msg;
    o.hash = shm->hash; o.ihash = shm->ihash; o.ntkey = shm->ntkey; o.nontriv = shm->nontriv;
    o.sim_ns = shm->sim_ns; o.calls = shm->calls; o.events = shm->events;
    if (o.status == 0) { // died
        o.err = slurp_err();
        o.status = 2; o.tags = "*";
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.status = 4; o.msg = "killed"; return o; }
        size_t k;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { o.cls = "livelock-cpu"; o.msg = "run used 20 s of CPU without finishing"; o.hash = 0; o.ihash = 0; }
        else if ((k = o.err.find("Assert failed: ")) != std::string::npos) {
            std::string a = o.err.substr(k + 15, o.err.find('\n', k) - k - 15);
            o.msg = "the process aborts: assertion " + a;
            size_t q = a.rfind(" ("); if (q != std::string::npos) { std::string f = a.substr(q + 2); a = a.substr(0, q); size_t c = f.rfind('/'); if (c != std::string::npos) f = f.substr(c + 1); c = f.find(':'); a += "@" + f.substr(0, c); }
            o.cls = "crash:assert:" + a;
        } else if ((k = o.err.find("AddressSanitizer: ")) != std::string::npos) {
            std::string a = o.err.substr(k + 18); a = a.substr(0, a.find_first_of(" \n"));
            o.cls = "crash:asan:" + a; o.msg = "memory error: " + o.err.substr(k, std::min<size_t>(700, o.err.size() - k));
        } else if (WIFSIGNALED(st)) { o.cls = "crash:signal:" + std::to_string(WTERMSIG(st)); o.msg = "killed by signal; stderr: " + o.err.substr(0, 400); }
        else { o.cls = "crash:exit"; o.msg = "process exited with " + std::to_string(WEXITSTATUS(st)) + "; stderr: " + o.err.substr(0, 400); }
        if (o.cls.size() > 150) o.cls.resize(150);
    }
    if (want_rec) for (int i = 0; i < NSTREAMS; ++i) {
        uint32_t n = std::min<uint32_t>((uint32_t)shm->nch[i], MAXCH);
        o.rec[i].assign(chbuf[i], chbuf[i] + n);
        while (!o.rec[i].empty() && o.rec[i].back() == 0) o.rec[i].pop_back();
    }
    return o;
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void write_replay(const char *path, const std::vector<uint32_t> *rec, const Outcome &o, uint64_t seed) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(70); }
    fprintf(f, "simreplay 1\nscenario %s\nvariant %s\nproperty %s\nseed %llu\nclass %s\ntags %s\nhash %016llx\n", g_sname, variant(), g_prop,
        (unsigned long long)seed, o.cls.c_str(), o.tags.c_str(), (unsigned long long)o.hash);
    std::string m = o.msg; std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(f, "message %s\n", m.c_str());
    for (int i = 0; i < NSTREAMS; ++i) {
        fprintf(f, "stream %d %zu", i, rec[i].size());
        for (uint32_t v : rec[i]) fprintf(f, " %u", v);
        fprintf(f, "\n");
    }
    fclose(f);
}
static bool read_replay(const char *path, Run &r) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *line = NULL; size_t cap = 0;
    r.replay = true;
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "seed ", 5)) r.seed = strtoull(line + 5, NULL, 10);
        if (!strncmp(line, "stream ", 7)) {
            char *p = line + 7; int i = (int)strtol(p, &p, 10); size_t n = strtoul(p, &p, 10);
            if (i < 0 || i >= NSTREAMS) continue;
            r.script[i].clear();
            while (n--) r.script[i].push_back((uint32_t)strtoul(p, &p, 10));
        }
    }
    free(line); fclose(f); return true;
}
static void print_outcome(const Outcome &o) {
    printf("{\"status\":%d,\"class\":%s,\"tags\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"sim_ns\":%lld,\"calls\":%llu,\"events\":%llu,\"nontrivial\":%d,\"wall\":%.3f}\n",
        o.status, jstr(o.cls).c_str(), jstr(o.tags).c_str(), jstr(o.msg).c_str(), (unsigned long long)o.hash, (long long)o.sim_ns,
        (unsigned long long)o.calls, (unsigned long long)o.events, (int)o.nontriv, o.wall);
}
// Minimiser: removes blocks, then zeroes and lowers single decisions, keeping the violation class.
static void shrink(Run r, const std::string &cls, double tlimit, const char *out) {
    double t0 = wall(); int tries = 0;
    Outcome best = execute(r, true);
    if (best.cls != cls || best.status != 2) { printf("{\"error\":\"does not reproduce\"}\n"); exit(3); }
    std::vector<uint32_t> cur[NSTREAMS];
    for (int i = 0; i < NSTREAMS; ++i) cur[i] = best.rec[i];
    auto total = [](const std::vector<uint32_t> *v) { size_t n = 0; for (int i = 0; i < NSTREAMS; ++i) { n += v[i].size() * 3; for (uint32_t x : v[i]) n += x ? 1 + (x > 9) + (x > 999) : 0; } return n; };
    auto attempt = [&](std::vector<uint32_t> *cand) {
        ++tries;
        Run q; q.seed = r.seed; q.replay = true;
        for (int i = 0; i < NSTREAMS; ++i) q.script[i] = cand[i];
        Outcome o = execute(q, true);
        if (o.status == 2 && o.cls == cls && total(o.rec) < total(cur)) {
            for (int i = 0; i < NSTREAMS; ++i) cur[i] = o.rec[i];
            best = o; return true;
        }
        return false;
    };
    auto late = [&] { return wall() - t0 > tlimit; };
    bool progress = true;
    while (progress && !late()) {
        progress = false;
        const int order[] = {F, M, T, N, S, W};
        for (int s : order) { // whole stream to zero
            std::vector<uint32_t> c[NSTREAMS]; for (int i = 0; i < NSTREAMS; ++i) c[i] = cur[i];
            if (cur[s].empty()) continue;
            c[s].clear(); progress |= attempt(c);
            if (late()) break;
        }
        for (int s : order) {
            for (size_t len = std::max<size_t>(cur[s].size() / 2, 1); len >= 1 && !late(); len /= 2) {
                for (int mode = 0; mode < 2; ++mode)
                    for (size_t p = cur[s].size() >= len ? cur[s].size() - len : 0; !late();) {
                        if (p + len <= cur[s].size()) {
                            std::vector<uint32_t> c[NSTREAMS]; for (int i = 0; i < NSTREAMS; ++i) c[i] = cur[i];
                            bool any = false;
                            if (mode == 0) { c[s].erase(c[s].begin() + p, c[s].begin() + p + len); any = true; }
                            else for (size_t k = p; k < p + len; ++k) { if (c[s][k]) any = true; c[s][k] = 0; }
                            if (any && attempt(c)) progress = true;
                        }
                        if (p == 0) break;
                        p = p > len ? p - len : 0;
                    }
            }
            for (size_t p = 0; p < cur[s].size() && !late(); ++p) {
                uint32_t lo = 0;
                while (p < cur[s].size() && cur[s][p] > lo && !late()) {
                    std::vector<uint32_t> c[NSTREAMS]; for (int i = 0; i < NSTREAMS; ++i) c[i] = cur[i];
                    uint32_t mid = lo + (cur[s][p] - lo) / 2; c[s][p] = mid;
                    if (attempt(c)) progress = true; else lo = mid + 1;
                }
            }
        }
    }
    write_replay(out, cur, best, r.seed);
    size_t n = 0, nz = 0; for (int i = 0; i < NSTREAMS; ++i) { n += cur[i].size(); for (uint32_t x : cur[i]) nz += x != 0; }
    printf("{\"tries\":%d,\"decisions\":%zu,\"nonzero\":%zu,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\"}\n", tries, n, nz,
        jstr(best.cls).c_str(), jstr(best.msg).c_str(), (unsigned long long)best.hash);
}
struct Fail { uint64_t idx, seed; std::string cls, msg, tags; uint64_t hash; };
static bool glob(const std::string &pat, const std::string &s) { return fnmatch(pat.c_str(), s.c_str(), 0) == 0; }
struct Global { volatile int stop; volatile int nfail; };

static int batch(uint64_t seed0, uint64_t count, double tlimit, int jobs, const char *out, const std::vector<std::string> &known, int maxfail, int recheck) {
    Global *g = (Global *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wall();
    std::string base = std::string(out) + ".w";
    std::vector<pid_t> ws;
    for (int w = 0; w < jobs; ++w) {
        fflush(NULL);
        pid_t p = fork();
        if (p == 0) {
            // private shared memory of this worker
            shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (int i = 0; i < NSTREAMS; ++i) chbuf[i] = (uint32_t *)mmap(NULL, MAXCH * 4ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            g_errfd = memfd_create("err", 0);
            std::vector<Fail> fails; std::map<std::string, uint64_t> kn, other, disc;
            std::map<std::string, Fail> otherex;
            uint64_t runs = 0, nontriv = 0, simns = 0, calls = 0, events = 0, rechecks = 0, nondet = 0; std::string nd;
            std::unordered_set<uint64_t> ih, nk;
            int64_t maxns = 0;
            for (uint64_t i = w; i < count; i += jobs) {
                if (g->stop || wall() - t0 > tlimit) break;
                uint64_t x = seed0 * 1000003ull + i; x = splitmix(x) >> 1;
                Run r; r.seed = x; r.replay = false;
                Outcome o = execute(r, false);
                if (o.status == 4) { disc[o.msg]++; continue; }
                ++runs; simns += o.sim_ns; calls += o.calls; events += o.events; maxns = std::max(maxns, o.sim_ns);
                if (o.nontriv) { ++nontriv; ih.insert(o.ihash); nk.insert(o.ntkey); }
                if (recheck && (runs % recheck == 1)) {
                    // determinism: the same seed again must give the same log
                    int nc = shm->ncnt; int64_t save[400]; memcpy(save, shm->cval, sizeof save);
                    Outcome o2 = execute(r, false); ++rechecks;
                    shm->ncnt = nc; memcpy(shm->cval, save, sizeof save);
                    if (o2.hash != o.hash || o2.cls != o.cls || o2.status != o.status) { ++nondet; nd = std::to_string(x) + " " + o.cls + "/" + o2.cls; }
                }
                if (o.status == 3) { other[o.tags + std::string("|") + o.cls]++; otherex[o.cls] = Fail{i, x, o.cls, o.msg, o.tags, o.hash}; continue; }
                if (o.status == 2) {
                    bool k = false;
                    for (auto &c : known) if (glob(c, o.cls)) { kn[o.cls]++; if (kn[o.cls] == 1) otherex[o.cls] = Fail{i, x, o.cls, o.msg, o.tags, o.hash}; k = true; }
                    if (k) continue;
                    bool have = false; for (auto &f : fails) have |= f.cls == o.cls;
                    if (!have && fails.size() < 12) fails.push_back(Fail{i, x, o.cls, o.msg, o.tags, o.hash});
                    if (__sync_add_and_fetch(&g->nfail, 1) >= maxfail) g->stop = 1;
                }
            }
            FILE *f = fopen((base + std::to_string(w)).c_str(), "w");
            fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"sim_ns\":%llu,\"max_sim_ns\":%lld,\"calls\":%llu,\"events\":%llu,\"rechecks\":%llu,\"nondet\":%llu,\"nondet_ex\":%s",
                (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)simns, (long long)maxns, (unsigned long long)calls, (unsigned long long)events,
                (unsigned long long)rechecks, (unsigned long long)nondet, jstr(nd).c_str());
            fprintf(f, ",\"fails\":["); bool c = false;
            for (auto &x : fails) { fprintf(f, "%s{\"idx\":%llu,\"seed\":%llu,\"class\":%s,\"tags\":%s,\"msg\":%s,\"hash\":\"%016llx\"}", c ? "," : "", (unsigned long long)x.idx, (unsigned long long)x.seed, jstr(x.cls).c_str(), jstr(x.tags).c_str(), jstr(x.msg).c_str(), (unsigned long long)x.hash); c = true; }
            fprintf(f, "],\"examples\":["); c = false;
            for (auto &e : otherex) { auto &x = e.second; fprintf(f, "%s{\"idx\":%llu,\"seed\":%llu,\"class\":%s,\"tags\":%s,\"msg\":%s,\"hash\":\"%016llx\"}", c ? "," : "", (unsigned long long)x.idx, (unsigned long long)x.seed, jstr(x.cls).c_str(), jstr(x.tags).c_str(), jstr(x.msg).c_str(), (unsigned long long)x.hash); c = true; }
            auto dump = [&](const char *nm, std::map<std::string, uint64_t> &m) { fprintf(f, ",\"%s\":{", nm); bool c = false; for (auto &e : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(e.first).c_str(), (unsigned long long)e.second); c = true; } fprintf(f, "}"); };
            fprintf(f, "]"); dump("known", kn); dump("other", other); dump("discarded", disc);
            std::map<std::string, uint64_t> cnt; for (int i = 0; i < shm->ncnt; ++i) cnt[shm->cname[i]] = shm->cval[i];
            dump("counters", cnt);
            fprintf(f, "}\n"); fclose(f);
            f = fopen((base + std::to_string(w) + ".ih").c_str(), "w");
            for (uint64_t h : ih) fwrite(&h, 8, 1, f);
            fclose(f);
            f = fopen((base + std::to_string(w) + ".nk").c_str(), "w");
            for (uint64_t h : nk) fwrite(&h, 8, 1, f);
            fclose(f);
            _exit(0);
        }
        ws.push_back(p);
    }
    int bad = 0;
    for (pid_t p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; if (st != 0) bad = 1; }
    std::unordered_set<uint64_t> all, allk;
    for (int w = 0; w < jobs; ++w) {
        for (int z = 0; z < 2; ++z) {
            std::string fn = base + std::to_string(w) + (z ? ".nk" : ".ih");
            FILE *f = fopen(fn.c_str(), "r"); uint64_t h; if (!f) continue;
            while (fread(&h, 8, 1, f) == 1) (z ? allk : all).insert(h);
            fclose(f); unlink(fn.c_str());
        }
    }
    printf("{\"wall\":%.3f,\"workers_failed\":%d,\"distinct\":%zu,\"distinct_keys\":%zu}\n", wall() - t0, bad, all.size(), allk.size());
    return 0;
}
} // namespace sim

int main(int argc, char **argv) {
    if (!getenv("SIM_REEXEC")) {
        int pers = personality(0xffffffff);
        setenv("SIM_REEXEC", "1", 1);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::map<std::string, std::string> o; std::vector<std::string> known;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--known")) known.push_back(argv[i + 1]); else o[argv[i]] = argv[i + 1]; }
    if (cmd == "list") { for (auto &s : scens()) printf("%s\n", s.name); return 0; }
    for (auto &s : scens()) if (o["--scenario"] == s.name) { g_fn = s.fn; g_sname = s.name; }
    if (!g_fn) { fprintf(stderr, "unknown scenario\n"); return 70; }
    g_prop = strdup(o["--prop"].c_str());
    shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < NSTREAMS; ++i) chbuf[i] = (uint32_t *)mmap(NULL, MAXCH * 4ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_errfd = memfd_create("err", 0);
    heap_init();
    // pass over descriptor 0 so nothing ever waits for input
    if (cmd == "batch")
        return batch(strtoull(o["--seed"].c_str(), 0, 10), strtoull(o["--count"].c_str(), 0, 10), atof(o["--time"].c_str()), atoi(o["--jobs"].c_str()), o["--out"].c_str(), known,
            o.count("--maxfail") ? atoi(o["--maxfail"].c_str()) : 6, o.count("--recheck") ? atoi(o["--recheck"].c_str()) : 40);
    Run r; r.seed = 0; r.replay = false;
    if (o.count("--replay")) { if (!read_replay(o["--replay"].c_str(), r)) { fprintf(stderr, "cannot read replay\n"); return 70; } }
    else r.seed = strtoull(o["--seed"].c_str(), 0, 10);
    if (cmd == "one") {
        g_keep_verbose = o.count("--verbose");
        Outcome out = execute(r, true);
        if (g_keep_verbose && !out.err.empty()) fprintf(stderr, "%s\n", out.err.c_str());
        if (o.count("--record")) write_replay(o["--record"].c_str(), out.rec, out, r.seed);
        print_outcome(out);
        return out.status == 2 ? 1 : 0;
    }
    if (cmd == "shrink") {
        Outcome out = execute(r, true);
        if (out.status != 2) { printf("{\"error\":\"does not reproduce\"}\n"); return 3; }
        Run q; q.seed = r.seed; q.replay = true;
        for (int i = 0; i < NSTREAMS; ++i) q.script[i] = out.rec[i];
        shrink(q, o.count("--class") ? o["--class"] : out.cls, atof(o["--time"].c_str()), o["--out"].c_str());
        return 0;
    }
    fprintf(stderr, "usage\n"); return 70;
}
