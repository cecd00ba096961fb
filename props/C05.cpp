// C05: synk::Barrier safety, reuse and liveness.
#include "sim.h"
#include "gen.h"
#include <vector>
using namespace sim;
const char *prop_id = "C05";
const char *prop_rule = "one run = one team shape (cores x threads per core), one number of episodes, one seeded schedule; non-trivial if the schedule preempted or deviated at least once";
void prop_setup() {}
void prop_case() {
  int mode = (int)pick(4);
  int big = chance(1, 8) ? chance(1, 8) ? 64 : 16 : 12, cores = range(1, big), tpc = range(1, big == 64 ? 9 : 4);
  if (big == 64) probe("more-than-16-threads");
  while (cores * tpc > big) { if (tpc > 1) tpc--; else cores--; }
  int n = cores * tpc;
  int ep = range(1, 9);
  if (chance(1, 300)) { ep = range(100, 700); probe("many-episodes"); }
  if (n <= 4 && chance(1, 4000)) { ep = range(65500, 65600); probe("huge"); sim::step_limit(4000000000ull); }
  if (mode == 3 && tpc == 1) { tpc = 0; }
  set_threads(mode >= 2 ? n : 1 + (int)pick(4));
  wl::BarLog log; log.nthreads = n; log.episodes = ep;
  log.arrive = (int *)sut_malloc(n * 4); log.depart = (int *)sut_malloc(n * 4); log.data = (wl_u64 *)sut_malloc(n * 8); log.bad = (int *)sut_malloc(n * 4);
  for (int i = 0; i < n; ++i) { log.arrive[i] = log.depart[i] = log.bad[i] = 0; log.data[i] = 0; }
  note("barrier cores=%d threadsPerCore=%d episodes=%d %s", cores, tpc, ep, mode >= 2 ? "singleton" : "object");
  uint64_t ser = alloc_serial();
  if (mode >= 2) { bool in = chance(1, 3); if (in) note(" initialised by the team"); wl::run_barrier_singleton(tpc, ep, &log, in); } else wl::run_barrier(cores, tpc, ep, &log);
  for (int i = 0; i < n; ++i) {
    if (log.bad[i]) fail("early-release", "thread %d of %d left episode %d before all had arrived (code %d)", i, n, log.bad[i] % 1000000, log.bad[i]);
    if (log.depart[i] != ep) fail("lost-episode", "thread %d completed %d of %d episodes", i, log.depart[i], ep);
  }
  coverage(cores * 100 + tpc); (void)ser;
}
