// C01: level schedules cover every row once and order every dependence.
#include "sched.h"
#ifndef TALL
#define TALL 20000
#endif
const char *prop_id = "C01";
const char *prop_rule = "One run = one structurally symmetric matrix (14 graph families, relabelled, either base, unsorted rows, halo columns), one option combination, one constructor overload, one thread count, one seeded schedule of the construction.";
void prop_setup() {}
// Two chains of more than 32767 levels on two threads, and one row coupled to the chains: a task with more
// neighbours on another thread than a short can count.
static void tall() { using namespace gen;
  int K = range(32700, 33200), where = (int)pick(2), n = 2 * K + 1, h0 = where ? 0 : 2 * K, off = where ? 1 : 0;
  bool both = chance(1, 2), red = chance(1, 6); int stride = red ? 2 : 1; if (red) { K *= 2; n = 2 * K + 1; h0 = where ? 0 : 2 * K; }
  Graph g; g.n = n; g.adj.resize((size_t)n); sim::step_limit(4000000000ull); g.name = "tall";
  for (int l = 0; l + 1 < K; ++l) for (int c = 0; c < 2; ++c) g.edge(off + 2 * l + c, off + 2 * l + 2 + c);
  for (int l = 0; l < K; l += stride) for (int c = 0; c < 2; ++c) if (both || c == where) g.edge(h0, off + 2 * l + c);
  sched::Case c; c.T = 2; sim::set_threads(2); c.h = from_graph(g, (int)pick(2), false, false); c.how = c.how2 = 2;
  c.A = to_sut(c.h, false, false); c.barrier = c.fuse = c.agg = false; c.red = red;
  note("tall: 2 chains of %d rows, hub row %d, nnz=%d%s", K, h0, c.h.nnz(), red ? "" : " no-reduction");
  c.s = wl::ls_new(); c.s->useBarrier = false; c.s->transitiveReduction = red; wl::construct(c.s, c.A, 2, false);
  probe("tall"); sched::check_structure(c);
}
void prop_case() {
  if (chance(1, TALL) && !wl::asserts()) return tall();
  sched::Opt o; sched::Case c = sched::make(o);
  sched::check_structure(c);
  if (chance(1, 6)) { // same object, same options, constructed by a later run of the same client: results must agree in validity
    SpMP::LevelSchedule *old = c.s; c.s = wl::ls_new(); c.s->useBarrier = c.barrier; c.s->transitiveReduction = c.red; c.s->fuseSpMV = c.fuse; c.s->aggregateForVectorization = c.agg;
    wl::construct(c.s, c.A, 0, true); sched::check_structure(c); wl::ls_del(old); probe("second-construction");
  }
  sim::coverage((uint64_t)c.s->ntasks * 64 + c.s->levIndices.size() * 4096 * 64 + c.T);
}
