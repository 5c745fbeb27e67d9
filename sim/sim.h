// Deterministic simulator: public interface for the harness code.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <memory>
#include <map>
#include <set>

namespace sim {

// ---- decisions -------------------------------------------------------------
// Every decision of a run comes from one of these streams. 0 always means "the
// simplest / nothing unusual", so shrinking a recorded run towards zeros removes faults.
enum Stream { W = 0, S, N, F, T, M, NSTREAMS };
uint32_t pick(Stream s, uint32_t n);                  // uniform in [0,n)
bool chance(Stream s, uint32_t num, uint32_t den);    // true with num/den
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + pick(s, hi - lo + 1); }
// n in [0,max], skewed to small values, sometimes large
uint32_t skewed(Stream s, uint32_t max);
// one of the listed values
template <class V> auto oneof(Stream s, const V &v) -> decltype(v[0]) { return v[pick(s, (uint32_t)v.size())]; }
uint32_t oneofu(Stream s, std::initializer_list<uint32_t> l);

// ---- log / results ---------------------------------------------------------
void ev(const char *name, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name, int64_t n = 1);          // coverage counter
// tags: space separated property ids this violates, "*" = whichever is being checked
extern const char *extra_tags;         // more ids every violation counts for
[[noreturn]] void viol(const char *tags, const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
[[noreturn]] void discard(const char *why);           // run is meaningless; not counted as explored
void nontrivial(uint64_t key = 0);                    // this run really exercised the property
bool verbose();
const char *property();

// ---- time ------------------------------------------------------------------
int64_t now_ns();        // true simulated monotonic time
int64_t now_ms();        // floor
int64_t busy_ns();       // total CPU/stall time so far (time not spent idle in a poll)
int64_t tick_ms();       // granularity of the coarse clock, in ms, rounded up
void burn(int64_t ns);   // computing coroutine: advances time without a call
void at(int64_t t_ns, std::function<void()> f);
inline void after(int64_t d_ns, std::function<void()> f) { at(now_ns() + d_ns, f); }
int64_t next_event_ns(); // -1 if none
extern std::function<void()> after_event;        // called after every simulator event
extern std::function<void(bool)> on_scan;        // the library asked the kernel which descriptors are ready (true: and was told about all of them)
const int64_t MS = 1000000;
const int64_t SEC = 1000 * MS;

// ---- run configuration (set by the scenario before it uses the library) -----
struct Config {
    // network
    int64_t lat_min = 20000, lat_jit = 30000;   // ns
    uint32_t mss = 1460;
    uint32_t scap = 65536, rcap = 65536;        // TCP buffers
    uint32_t ucap = 65536;                      // unix socket buffer
    uint32_t loss_pm = 0;                       // per mille (TCP: retransmission delay)
    uint32_t dup_pm = 0, reorder_pm = 0;        // UDP
    // process
    uint32_t stall_pm = 0; int64_t stall_max = 0;   // stalls at calls
    uint32_t eintr_pm = 0;                      // interrupted waits
    uint32_t spurious_pm = 0;                   // spurious EAGAIN on datagram receive/accept/send
    uint32_t accept_abort_pm = 0;
    int64_t cpu_cost = 200;                     // ns per call
    // clocks
    int64_t tick_ns = 4 * MS;
    uint64_t tsc_hz = 2500000000ull;
    uint32_t tsc_migrate_pm = 0; int64_t tsc_skew = 0;
    // memory
    bool eager_reuse = false;
    uint8_t fill = 0xa5;
    // resource limits
    int nofile = 1024;
    int fdbase = 3;            // lower descriptor numbers are taken by the program; nofile doesn't include them
    bool shuffle_events = false;
    uint32_t preempt = 0;                       // mean number of basic blocks between thread switches (0: none)
    int maxevents_cap = 1 << 30;                // epoll returns at most so many events per call
    // step limits
    int64_t max_calls = 3000000;
};
extern Config cfg;
void start_clock(int64_t mono_ns, int64_t realtime_ns); // set the origin of the clocks
// Draws a swarm configuration for clocks/network/process.
void randomize_common(bool faults);

// ---- resource faults ---------------------------------------------------------
// Fault k-th call of a class, or with a probability, while armed.
enum Res { R_MEM = 0, R_FD, R_MPROTECT, R_EPOLLADD, R_NRES };
void arm(Res r, int64_t kth, uint32_t per_mille = 0); // kth: 1 = next call; 0: use probability
void disarm();
extern std::function<bool()> res_filter; // only the calls for which it holds count and fail
int64_t res_fired();     // how many resource faults fired since arm()
int64_t res_calls(Res r);// calls of that class since arm()

// ---- census ------------------------------------------------------------------
size_t live_bytes();                  // and their total size
size_t live_allocs();                 // library allocations still live
size_t alloc_mark();                  // allocations made so far
std::string describe_allocs(size_t mark = 0);  // those made after the mark
int ssl_live();                       // OpenSSL objects the library has not released
std::string describe_ssl();
int open_fds();                       // simulated descriptors open (library and harness alike)
std::string describe_fds();
bool fd_is_open(int fd);
uint64_t file_id(int fd);             // identity of the open file behind a descriptor, 0 if none
bool in_heap(const void *p);
void *heap_alloc(size_t n);           // harness memory with red zones (from the simulated heap)
void heap_free(void *p);
void deadlock_handler(std::function<void()> f); // called when everything is blocked forever

// ---- simulated descriptors for the harness --------------------------------------
int mk_pipe(int fds[2]);
int mk_socketpair(int fds[2]);        // AF_UNIX stream
int mk_tcppair(int fds[2]);           // connected TCP, both ends descriptors
int mk_plain_file();                 // regular file (cannot be polled)
void run_exit_handlers();             // what exit() would run
int sys_close(int fd);
long sys_read(int fd, void *buf, size_t n);
long sys_write(int fd, const void *buf, size_t n);
struct StreamIn { int64_t arrived; bool fin; };
bool stream_in(uint64_t file, StreamIn &r);  // what has arrived at this end so far (read or not)
short poll_mask(int fd);              // POLLIN|POLLOUT|POLLHUP|POLLERR now

// ---- addresses -----------------------------------------------------------------
struct Addr {
    int fam = 0; uint8_t b[16] = {0}; int port = 0; std::string path;
    bool operator<(const Addr &o) const;
    bool operator==(const Addr &o) const;
    std::string str() const;
};
Addr ip4(uint32_t a, int port);
Addr ip6(const uint8_t b[16], int port);

// ---- network interfaces --------------------------------------------------------------
struct Iface { std::string name; int fam; uint8_t b[16]; uint32_t scope; }; // fam 0: no address
extern std::vector<Iface> ifaces; // what getifaddrs() reports
extern int ifaces_error;          // if set getifaddrs() fails with it
extern int ifaces_live;           // lists not freed

// ---- scripted peers ---------------------------------------------------------------
struct Stream_;
// The far end of a stream, operated by the scenario from simulator events.
struct RawPeer : std::enable_shared_from_this<RawPeer> {
    std::string rx;                   // everything received so far
    bool fin = false, rst = false;    // peer (libdill side) ended / broke its direction
    bool autoread = true;
    std::function<void()> on_data;    // called after rx/fin/rst changed
    std::shared_ptr<Stream_> s;
    void send(const void *p, size_t n);     // queued without limit
    void send(const std::string &d) { send(d.data(), d.size()); }
    void send_fds(const std::string &d, int nfds); // unix only: attach fresh files
    void shut();                      // FIN
    void close();                     // orderly close of both directions
    void reset();                     // RST
    void read_some(size_t n);         // with !autoread
    size_t avail();
    bool dead = false;
};
// descriptor of a stream whose other end is a scripted peer
int mk_rawpair(bool tcp, std::shared_ptr<RawPeer> &peer);

// remote hosts for TCP connects
struct Remote {
    enum Kind { ACCEPT, REFUSE, BLACKHOLE, UNREACH } kind = BLACKHOLE;
    int64_t delay = 1 * MS;
    std::function<void(std::shared_ptr<RawPeer>)> on_accept;
    int attempts = 0;
    std::vector<int64_t> attempt_times;
};
extern std::map<Addr, Remote> remotes;
struct ConnAttempt { Addr to; int64_t t; int outcome; Addr local; };  // outcome: 0 pending 1 ok 2 fail 3 abandoned
extern std::vector<ConnAttempt> attempts;
// UDP endpoint of the simulated world (e.g. a DNS server): handler gets each datagram
struct Dgram { Addr from, to; std::string data; uint64_t id; };
extern std::map<Addr, std::function<void(const Dgram &)>> udp_servers;
extern std::set<Addr> udp_unreach;     // connect() to these fails with ENETUNREACH
void udp_icmp(const Addr &from, const Addr &to); // the packet from "from" could not be delivered at "to"
void udp_occupy(const Addr &a); // somebody else has bound this address
void udp_inject(const Addr &from, const Addr &to, const std::string &data, int64_t delay);
// all datagrams ever accepted by the network / delivered to descriptors
struct DgramRec { Addr from, to; std::string data; uint64_t id; int delivered; };
extern std::vector<DgramRec> dgrams;

extern std::map<std::string, std::string> files;      // simulated config files for fopen()
size_t pending_accepts();              // connections waiting in listeners
int tcp_conns_open();                 // TCP connections with at least one live descriptor
extern uint64_t counters_syscalls;

// ---- threads -------------------------------------------------------------------------
// Runs the functions as real threads, each starting no earlier than the given delay, next to the
// main one. Only one of them runs at any time; the switches are decided at simulated calls and,
// in the variants compiled for it, at basic blocks of the library.
void run_threads(const std::vector<std::pair<int64_t, std::function<void()>>> &fns, std::function<void()> mainfn);
extern std::function<void(int)> on_thread_end;  // after the library's own cleanup
int open_fds_of_thread(int t);
int cur_thread();
size_t live_allocs_of_thread(int t);

// ---- scenarios ------------------------------------------------------------------------
typedef void (*ScenarioFn)();
struct Scenario { const char *name; ScenarioFn fn; };
struct RegisterScenario { RegisterScenario(const char *name, ScenarioFn fn); };
#define SCENARIO(name) \
    static void scenario_##name(); \
    static sim::RegisterScenario reg_##name(#name, scenario_##name); \
    static void scenario_##name()
const char *variant();
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
// deterministic content generator
void fill_pattern(void *p, size_t n, uint64_t key);
// run a piece of harness code without charging/perturbing (nestable)
}
#define PROBE(x) sim::probe(x)
