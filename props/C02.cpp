// C02: point-to-point scheduled sweeps equal the sequential sweep.
#include "sweeps.h"
const char *prop_id = "C02";
const char *prop_rule = "One run = one structurally symmetric matrix, option combination and thread count, one schedule object, up to two sequences of 1-4 forward/backward sweeps (triangular or Gauss-Seidel kernel, original or permuted order, separate regions or one region), one seeded interleaving of all of it.";
void prop_setup() {}
void prop_case() {
  sched::Opt o; o.barrier = 0; o.maxn = 70; sched::Case c = sched::make(o);
  int rep = chance(1, 4) ? 2 : 1;
  for (int i = 0; i < rep; ++i) sched::run_sweeps(c);
  wl::ls_del(c.s); wl::csr_del(c.A);
  sim::coverage((uint64_t)c.h.nnz() * 64 + c.T);
}
