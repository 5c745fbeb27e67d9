/* go() is a macro: this is the only harness code that expands it. */
#include <stddef.h>
#include <libdill.h>
dill_coroutine static void run(void (*f)(void *), void *a) { f(a); }
int tramp_go(void (*f)(void *), void *a) { return dill_go(run(f, a)); }
int tramp_go_mem(void (*f)(void *), void *a, void *mem, size_t len) { return dill_go_mem(run(f, a), mem, len); }
int tramp_bundle_go(int b, void (*f)(void *), void *a) { return dill_bundle_go(b, run(f, a)); }
int tramp_bundle_go_mem(int b, void (*f)(void *), void *a, void *mem, size_t len) { return dill_bundle_go_mem(b, run(f, a), mem, len); }
