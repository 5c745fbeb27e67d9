// Harness helpers on top of the library under test.
#pragma once
#define DILL_DISABLE_RAW_NAMES
#include <libdill.h>
#include "sim.h"
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <algorithm>
#include <set>
using namespace sim;
typedef std::string Str;

// ---- coroutines -----------------------------------------------------------------
typedef std::function<void()> Fn;
int co_go(Fn f);                                   // go(); returns the bundle handle or -1
int co_go_mem(Fn f, void *mem, size_t len);
int co_bgo(int bndl, Fn f);                        // bundle_go()
int co_bgo_mem(int bndl, Fn f, void *mem, size_t len);
bool in_main();                                    // not inside a coroutine started by co_*

// ---- deadlines ------------------------------------------------------------------
// Time at the start of an operation; judges a later ETIMEDOUT or a late return.
struct Watch {
    int64_t t0, busy0;
    Watch() : t0(now_ns()), busy0(busy_ns()) {}
    // extra time the process itself spent (computing, stalled) since the start
    int64_t busy() const { return busy_ns() - busy0; }
};
// true if returning at this instant is not later than the deadline allows
bool in_time(const Watch &w, int64_t deadline_ms);
void check_timedout(const char *tags, const char *what, const Watch &w, int64_t deadline_ms);
// a finite random deadline helper: -1, 0, or now()+something
int64_t rnd_deadline(Stream s, uint32_t maxms);

// ---- end of run -----------------------------------------------------------------
// Terminates the library context of the main thread, then everything the library ever allocated
// must be released again, and only 'fds' descriptors may be open.
void final_census(const char *tags, int fds = 0, size_t kept = 0);

// No handle may be in use any more.
void handle_census(const char *tags);

// ---- scatter/gather lists ----------------------------------------------------------
struct Iol {
    std::vector<dill_iolist> v;
    std::vector<char *> bufs; std::vector<size_t> lens;
    std::string orig;
    ~Iol();
    // maxparts < 0: exactly that many pieces of a byte (or none) of one block
    // splits a buffer of n bytes into random pieces (some empty); each piece is heap memory with red zones
    void make(size_t n, const void *content = NULL, int maxparts = 6, bool skip = false);
    dill_iolist *first() { return &v[0]; }
    dill_iolist *last() { return &v.back(); }
    std::string bytes() const;       // current content
    void check_unchanged(const char *tags, const char *what); // list structure restored after the call
    size_t total = 0; bool has_null = false; char *block = NULL;
private:
    std::vector<dill_iolist> saved;
};
// heap memory with red zones, freed on scope exit
struct Mem { char *p; size_t n; Mem(size_t n_) : p((char *)heap_alloc(n_ ? n_ : 1)), n(n_) {} ~Mem() { heap_free(p); } Mem(const Mem &) = delete; };
std::string pattern(size_t n, uint64_t key);
const char *ename(int e);
