/* Included before every library source: routes the cycle counter to the simulator. */
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
#include <stdint.h>
uint64_t sim_rdtsc(void);
#undef __rdtsc
#undef _rdtsc
#define __rdtsc sim_rdtsc
#define _rdtsc sim_rdtsc
#define __builtin_ia32_rdtsc sim_rdtsc
#endif
