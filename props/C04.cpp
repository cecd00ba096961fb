// C04: fused backward sweep then matrix-vector product.
#include "sweeps.h"
const char *prop_id = "C04";
const char *prop_rule = "One run = one structurally symmetric matrix, option combination and thread count with the fused option, 1-3 fused backward sweep + product executions on one schedule object, one seeded interleaving of all of it.";
void prop_setup() {}
void prop_case() {
  using namespace sched;
  Opt o; o.barrier = 0; o.fuse = 1; o.maxn = 70; Case c = make(o);
  if (!c.s->fusedSchedule) fail("no-fused-schedule", "fuseSpMV was set but no fused schedule was built");
  bool permuted = chance(1, 2); wl_u64 salt = 1 + pick(1000);
  SweepRun r; make_sweep(c, wl::SWEEP_GS, permuted, salt, r); Model mo(c.h, wl::SWEEP_GS, salt);
  wl_u64 *y = gen::sut_u64((size_t)c.h.m);
  int rep = range(1, 3);
  for (int k = 0; k < rep; ++k) {
    if (chance(1, 3)) { mo.sweep(0); wl::sweep_p2p(r.w, 0); }
    mo.sweep(1); wl::fused_bwd_spmv(r.w, y);
    compare(r, mo, "fused backward sweep");
    for (int i = 0; i < c.h.m; ++i) if (y[r.tonew[i]] != mo.spmv(i)) fail("fused-stale-read", "round %d: product row %d used a value that is not the swept vector's final one", k, i);
    if (k) probe("fused-reuse");
  }
  wl::ls_del(c.s); wl::csr_del(c.A);
  sim::coverage((uint64_t)c.h.nnz() * 64 + c.T);
}
