// C03: barrier-mode sweeps equal the sequential sweep.
#include "sweeps.h"
const char *prop_id = "C03";
const char *prop_rule = "One run = one structurally symmetric matrix, option combination and thread count in barrier mode, one schedule object, up to two sequences of 1-4 sweeps with a team barrier per level, one seeded interleaving of all of it.";
void prop_setup() {}
void prop_case() {
  sched::Opt o; o.barrier = 1; o.fuse = 0; o.maxn = 70; sched::Case c = sched::make(o);
  int rep = chance(1, 4) ? 2 : 1;
  for (int i = 0; i < rep; ++i) sched::run_sweeps(c);
  wl::ls_del(c.s); wl::csr_del(c.A);
  sim::coverage((uint64_t)c.h.nnz() * 64 + c.T);
}
