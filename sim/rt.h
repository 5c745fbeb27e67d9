// Internal interface between the runtime and the simulated OS.
#pragma once
#include "sim.h"
#include <signal.h>
namespace sim {
struct Shm {
    volatile int status;         // 0 running 1 ok 2 violation 3 other property 4 discarded
    char cls[200], tags[100], msg[900];
    volatile uint64_t hash, ihash;
    uint64_t ntkey; int nontriv;
    volatile int64_t sim_ns; volatile uint64_t calls, events;
    volatile uint32_t nch[NSTREAMS];
    int ncnt; char cname[400][56]; int64_t cval[400];
};
const uint32_t MAXCH = 4u << 20;
extern Shm *shm;
extern uint32_t *chbuf[NSTREAMS];
void enter(const char *what);      // beginning of every simulated call
void mt_block(std::function<bool()> ready, int64_t wake_ns); // used when mt
extern bool mt;
void heap_init();
void heap_final_check();
void os_reset();
int64_t time_base();
void charge(int64_t ns, bool busy);
void idle_until(int64_t t);        // advances the clock without counting as busy
void run_due();
bool res_hit(Res r);
int64_t earliest_event();
void call_deadlock();
}
