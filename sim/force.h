// Force-included into every file of the simulated system: the CPU
// primitives that are neither memory accesses nor library calls are redirected
// to the simulator (spin hint = yield, time-stamp counter = simulated clock, full fence = drain of
// the simulated store buffer).
#ifndef SPMP_SIM_FORCE_H
#define SPMP_SIM_FORCE_H
#include <x86intrin.h>
#ifdef __cplusplus
extern "C" {
#endif
void sim_pause(void);
void sim_mfence(void);
unsigned long long sim_rdtsc(void);
#ifdef __cplusplus
}
#endif
#undef _mm_pause
#undef __pause
#undef _mm_mfence
#undef __rdtsc
#undef _rdtsc
#undef __rdtscp
#define _mm_pause() sim_pause()
#define _mm_mfence() sim_mfence()
#define __builtin_ia32_mfence() sim_mfence()
#define __rdtsc() sim_rdtsc()
#define _rdtsc() sim_rdtsc()
#define __rdtscp(p) (*(p) = 0, sim_rdtsc())
#define __builtin_ia32_pause() sim_pause()
#define __builtin_ia32_rdtsc() sim_rdtsc()
#endif
