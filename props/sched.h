// Level-schedule cases shared by C01-C04 and C17.
#ifndef SCHED_H
#define SCHED_H
#include "gen.h"
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
extern "C" int spmp_sim_level_thresh;
namespace sched {
using namespace gen;
struct Case { HCsr h; SpMP::CSR *A; SpMP::LevelSchedule *s; int T; bool barrier, red, fuse, agg; std::string name; int how; int how2 = 0; bool uns = false; };
struct Opt { int barrier = -1, fuse = -1, maxn = 90, maxt = 8; bool halo = true; bool pool = false; };

class UnitCost : public SpMP::CostFunction {};

inline Case make(const Opt &o) {
  Case c; c.T = gen::threads(o.maxt); sim::set_threads(c.T);
  Graph g = maybe_relabel(graph(1, o.maxn));
  int base = (int)pick(2); bool uns = chance(1, 3); bool halo = o.halo && chance(1, 4);
  c.h = from_graph(g, base, uns, halo);
  c.how = chance(1, 4) ? range(5, 9) : (int)pick(5);
  // how 0: CSR with diagptr/extptr as needed
  c.A = to_sut(c.h, uns || c.how == 3 || c.how == 4, halo);
  c.barrier = o.barrier < 0 ? chance(1, 3) : o.barrier; c.red = !chance(1, 3); c.fuse = o.fuse < 0 ? chance(1, 4) : o.fuse; c.agg = chance(1, 4);
  spmp_sim_level_thresh = (int[]){64, 0, 1, 2, 4, 8, 16}[pick(7)];
  c.name = g.name;
  note("%s n=%d nnz=%d base=%d T=%d%s%s%s%s%s%s thresh=%d overload=%d", g.name.c_str(), g.n, c.h.nnz(), base, c.T, uns ? " unsorted" : "", halo ? " halo" : "", c.barrier ? " barrier" : "", c.red ? "" : " no-reduction", c.fuse ? " fused" : "", c.agg ? " aggregate" : "", spmp_sim_level_thresh, c.how);
  c.s = wl::ls_new();
  if (!o.pool && chance(1, 6)) { // the object served another matrix before, with other options and threads
    HCsr p = from_graph(maybe_relabel(graph(1, 40)), (int)pick(2), false, false); SpMP::CSR *B = to_sut(p, true); sim::set_threads(threads(6));
    c.s->useBarrier = chance(1, 3); c.s->transitiveReduction = !chance(1, 3); c.s->fuseSpMV = chance(1, 3); c.s->aggregateForVectorization = chance(1, 4);
    wl::construct(c.s, B, (int)pick(4), false); wl::csr_del(B); synk::Barrier::deleteInstance(); sim::set_threads(c.T); note(" reused"); probe("schedule-reused");
  }
  c.s->useBarrier = c.barrier; c.s->transitiveReduction = c.red; c.s->fuseSpMV = c.fuse; c.s->aggregateForVectorization = c.agg;
  if (o.pool) c.s->useMemoryPool = true;
  bool halo2 = halo;
  c.how2 = halo2 ? (c.how >= 4 ? c.how : 0) : c.how; c.uns = uns; wl::construct(c.s, c.A, c.how2, uns);
  if (g.n >= 1) probe(spmp_sim_level_thresh < 8 ? "parallel-level-search" : "serial-level-search");
  return c;
}

// structural validity (C01)
inline void check_structure(const Case &c) {
  const SpMP::LevelSchedule *s = c.s; int m = c.h.m, T = c.T;
  if ((int)s->threadBoundaries.size() != T + 1) fail("structure", "threadBoundaries has %zu entries for %d threads", s->threadBoundaries.size(), T);
  if (s->threadBoundaries[0] != 0 || s->threadBoundaries[T] != s->ntasks) fail("structure", "threads own tasks %d..%d of %d", s->threadBoundaries[0], s->threadBoundaries[T], s->ntasks);
  for (int t = 0; t < T; ++t) if (s->threadBoundaries[t] > s->threadBoundaries[t + 1]) fail("structure", "task range of thread %d is negative", t);
  if ((int)s->taskBoundaries.size() < s->ntasks + 1) fail("structure", "taskBoundaries has %zu entries for %d tasks", s->taskBoundaries.size(), s->ntasks);
  if (s->taskBoundaries[0] != 0 || s->taskBoundaries[s->ntasks] != m) fail("structure", "tasks cover rows %d..%d of %d", s->taskBoundaries[0], s->taskBoundaries[s->ntasks], m);
  for (int k = 0; k < s->ntasks; ++k) if (s->taskBoundaries[k] > s->taskBoundaries[k + 1]) fail("structure", "row range of task %d is negative", k);
  if (!sim::readable(s->threadContToOrigPerm, (size_t)m * 4) || !sim::readable(s->origToThreadContPerm, (size_t)m * 4)) fail("structure", "row orders too short");
  expect_perm("structure", "row order", s->threadContToOrigPerm, s->origToThreadContPerm, m);
  // published level boundaries: rows by the length of the longest dependence chain below them
  { std::vector<int> dep((size_t)m, 0), cnt; for (int i = 0; i < m; ++i) { for (auto &e : c.h.rows[i]) if (e.first < i) dep[i] = std::max(dep[i], dep[e.first] + 1); if ((int)cnt.size() <= dep[i]) cnt.resize((size_t)dep[i] + 1); ++cnt[dep[i]]; }
    if (s->levIndices.size() != cnt.size() + 1 || s->levIndices[0] != 0) fail("levels", "%zu level boundaries for %zu levels", s->levIndices.size(), cnt.size());
    for (size_t l = 0; l < cnt.size(); ++l) if (s->levIndices[l + 1] - s->levIndices[l] != cnt[l]) fail("levels", "level %zu has %d rows instead of %d", l, s->levIndices[l + 1] - s->levIndices[l], cnt[l]); }
  int nt = s->ntasks;
  std::vector<int> task_of((size_t)m), thr((size_t)nt);
  for (int k = 0; k < nt; ++k) for (int r = s->taskBoundaries[k]; r < s->taskBoundaries[k + 1]; ++r) task_of[s->threadContToOrigPerm[r]] = k;
  for (int t = 0; t < T; ++t) for (int k = s->threadBoundaries[t]; k < s->threadBoundaries[t + 1]; ++k) thr[k] = t;
  if (c.barrier) {
    int L = s->threadBoundaries[1];
    for (int t = 0; t < T; ++t) if (s->threadBoundaries[t + 1] - s->threadBoundaries[t] != L) fail("barrier-count", "thread %d has %d tasks, thread 0 has %d", t, s->threadBoundaries[t + 1] - s->threadBoundaries[t], L);
    for (int i = 0; i < m; ++i) for (auto &e : c.h.rows[i]) if (e.first < i) {
      int a = task_of[e.first] - s->threadBoundaries[thr[task_of[e.first]]], b = task_of[i] - s->threadBoundaries[thr[task_of[i]]];
      if (a >= b) fail("barrier-order", "row %d (level %d) is not before row %d (level %d)", e.first, a, i, b);
    }
    return;
  }
  for (int dir = 0; dir < 2; ++dir) {
    const short *np = dir ? s->nparentsBackward : s->nparentsForward; int **ps = dir ? s->parentsBackward : s->parentsForward;
    if (nt && (!sim::readable(np, (size_t)nt * 2) || !sim::readable(ps, (size_t)nt * 8))) fail("structure", "parent arrays too short");
    // bef[k][t]: how far thread t has got when task k starts; a thread runs its tasks in order, so this is exact
    std::vector<int> bef((size_t)nt * T, 0);
    auto pos = [&](int k) { return dir ? s->threadBoundaries[thr[k] + 1] - k : k - s->threadBoundaries[thr[k]] + 1; };
    std::vector<int> state((size_t)nt, 0), stk;
    auto preds = [&](int k, std::vector<int> &out) {
      out.clear();
      if (dir == 0) { if (k > s->threadBoundaries[thr[k]]) out.push_back(k - 1); } else if (k + 1 < s->threadBoundaries[thr[k] + 1]) out.push_back(k + 1);
      if (np[k] < 0 || (np[k] > 0 && !sim::readable(ps[k], (size_t)np[k] * 4))) fail("structure", "task %d has %d parents but a shorter list", k, np[k]);
      for (int i = 0; i < np[k]; ++i) { if (ps[k][i] < 0 || ps[k][i] >= nt) fail("structure", "task %d waits for task %d of %d", k, ps[k][i], nt); out.push_back(ps[k][i]); }
    };
    std::vector<int> pr;
    for (int k0 = 0; k0 < nt; ++k0) {
      if (state[k0]) continue;
      stk.push_back(k0);
      while (!stk.empty()) {
        int k = stk.back();
        if (state[k] == 2) { stk.pop_back(); continue; }
        preds(k, pr); bool pushed = false;
        if (state[k] == 0) { state[k] = 1; for (int p : pr) { if (state[p] == 1) fail("cyclic", "%s order has a cycle through tasks %d and %d: a thread would wait forever", dir ? "backward" : "forward", p, k); if (state[p] == 0) { stk.push_back(p); pushed = true; } } }
        if (!pushed) { for (int p : pr) { if (state[p] != 2) fail("cyclic", "%s order has a cycle through tasks %d and %d: a thread would wait forever", dir ? "backward" : "forward", p, k); for (int t = 0; t < T; ++t) bef[(size_t)k * T + t] = std::max(bef[(size_t)k * T + t], t == thr[p] ? std::max(pos(p), bef[(size_t)p * T + t]) : bef[(size_t)p * T + t]); } state[k] = 2; stk.pop_back(); }
      }
    }
    for (int i = 0; i < m; ++i) for (auto &e : c.h.rows[i]) if (e.first < i) {
      int lo = task_of[e.first], hi = task_of[i]; int a = dir ? hi : lo, b = dir ? lo : hi;
      if (a == b) fail("same-task", "coupled rows %d and %d share task %d", e.first, i, a);
      if (bef[(size_t)b * T + thr[a]] < pos(a)) fail("missing-order", "%s: nothing makes task %d (row %d) wait for task %d (row %d)", dir ? "backward" : "forward", b, dir ? e.first : i, a, dir ? i : e.first);
    }
  }
}
} // namespace sched
#endif
