// Client-side workloads of the simulated system (instrumented).
#include <cstring>
#include <algorithm>
#include <new>
#include <cstdio>
#include <omp.h>
using namespace std;
#include "CSR.hpp"
#include "COO.hpp"
#include "Utils.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "synk/barrier.hpp"
#include "synk/reduce.hpp"
#include "reordering/BFSBipartite.hpp"
#include "reordering/BitVector.hpp"
#include "wl.h"

using namespace SpMP;

namespace SpMP {
void findConnectedComponents(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp);
void findConnectedComponentsWithBitVector(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp, const BitVector *bv);
}

namespace wl {
CSR *csr_default() { return new CSR(); }
CSR *csr_owned(int m, int n, int nnz) { return new CSR(m, n, nnz); }
CSR *csr_wrap(int m, int n, int *r, int *c, double *v) { return new CSR(m, n, r, c, v); }
CSR *csr_copy(const CSR *A) { return new CSR(*A); }
CSR *csr_file(const char *name, int base, bool sym, int pad) {
  if (pad == 1) return !sym ? base ? new CSR(name, base) : new CSR(name) : new CSR(name, base, sym);
  return new CSR(name, base, sym, pad);
}
void csr_del(CSR *A) { delete A; }
LevelSchedule *ls_new() { return new LevelSchedule(); }
void ls_del(LevelSchedule *s) { delete s; }
// cost estimates a user may supply: zeros, a few heavy rows, all of it in one place
struct TableCost : public CostFunction {
  int kind, m; TableCost(int kind_, int m_) : kind(kind_), m(m_) {}
  int getCostOf(int row) const {
    switch (kind) {
    case 5: return 0;
    case 6: return (row * 7 + 3) % 5 < 2 ? 0 : row % 4;
    case 7: return row < m / 2 ? 1 : 0;
    case 8: return row % 17 == 5 ? 10000 : 1;
    default: return row * 3 + 1;
    }
  }
};
void construct(LevelSchedule *s, CSR *A, int how, bool unsorted) {
  if (unsorted && how == 2) how = 0; // that overload finds the diagonal by scanning sorted rows
  switch (how) {
  case 0: s->constructTaskGraph(*A); break;
  case 1: s->constructTaskGraph(*A, CostFunction()); break;
  case 2: s->constructTaskGraph(A->m, A->rowptr, A->colidx, PrefixSumCostFunction(A->rowptr)); break;
  case 3: s->constructTaskGraph(A->m, A->rowptr, A->diagptr, A->colidx, CostFunction()); break;
  case 5: case 6: case 7: case 8: case 9: s->constructTaskGraph(*A, TableCost(how, A->m)); break;
  default: s->constructTaskGraph(A->m, A->rowptr, A->diagptr, A->extptr, A->colidx, PrefixSumCostFunction(A->rowptr)); break;
  }
}
bool asserts() {
#ifdef NDEBUG
  return false;
#else
  return true;
#endif
}
COO *coo_new() { return new COO(); }
void coo_del(COO *c) { delete c; }
void del_intv(int *p) { delete[] p; }
void free_mm(void *p) { _mm_free(p); }
int *malloc_int(size_t n) { return MALLOC(int, n); }
double *malloc_double(size_t n) { return MALLOC(double, n); }

static inline wl_u64 mx(wl_u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static inline wl_u64 bits(double d) { wl_u64 u; memcpy(&u, &d, 8); return u; }
// new value of a row: order-insensitive in the row's entries, sensitive to the
// exact value of every operand
wl_u64 row_value(const Sweep &w, int row, int dir) {
  int base = w.rowptr[0];
  wl_u64 s = w.b[row];
  for (int j = w.rowptr[row] - base; j < w.rowptr[row + 1] - base; ++j) {
    int c = w.colidx[j] - base;
    if (w.kind == SWEEP_TRSV) { bool lower = w.id[c] < w.id[row]; if (c == row || lower != (dir == 0)) continue; }
    wl_u64 t = mx(w.x[c] ^ (w.id[c] * 0x632be59bd9b4e019ull));
    if (w.values) t = mx(t ^ bits(w.values[j]));
    s += t;
  }
  if (w.idiag) s ^= bits(w.idiag[row]);
  return mx(s);
}
void sweep_seq(const Sweep &w, int dir, const int *order) {
  for (int k = 0; k < w.m; ++k) { int r = dir == 0 ? k : w.m - 1 - k; if (order) r = order[r]; w.x[r] = row_value(w, r, dir); }
}

static void fwd_body(const Sweep &w, int tid) {
  const LevelSchedule &schedule = *w.s;
  const short *nparents = schedule.nparentsForward;
  int **parents = schedule.parentsForward;
  volatile int *taskFinished = schedule.taskFinished;
  const vector<int> &threadBoundaries = schedule.threadBoundaries;
  const vector<int> &taskBoundaries = schedule.taskBoundaries;
  const int *perm = schedule.threadContToOrigPerm;
  for (int task = threadBoundaries[tid]; task < threadBoundaries[tid + 1]; ++task) {
    SPMP_LEVEL_SCHEDULE_WAIT;
    for (int i = taskBoundaries[task]; i < taskBoundaries[task + 1]; ++i) {
      int row = w.permuted ? i : perm[i];
      w.x[row] = row_value(w, row, 0);
    }
    SPMP_LEVEL_SCHEDULE_NOTIFY;
  }
}
static void bwd_body(const Sweep &w, int tid) {
  const LevelSchedule &schedule = *w.s;
  const short *nparents = schedule.nparentsBackward;
  int **parents = schedule.parentsBackward;
  volatile int *taskFinished = schedule.taskFinished;
  const vector<int> &threadBoundaries = schedule.threadBoundaries;
  const vector<int> &taskBoundaries = schedule.taskBoundaries;
  const int *perm = schedule.threadContToOrigPerm;
  for (int task = threadBoundaries[tid + 1] - 1; task >= threadBoundaries[tid]; --task) {
    SPMP_LEVEL_SCHEDULE_WAIT;
    for (int i = taskBoundaries[task + 1] - 1; i >= taskBoundaries[task]; --i) {
      int row = w.permuted ? i : perm[i];
      w.x[row] = row_value(w, row, 1);
    }
    SPMP_LEVEL_SCHEDULE_NOTIFY;
  }
}
static void clear_flags(const Sweep &w, int tid, int nthreads) {
  const int ntasks = w.s->ntasks;
  int nPerThread = (ntasks + nthreads - 1)/nthreads;
  int nBegin = min(nPerThread*tid, ntasks);
  int nEnd = min(nBegin + nPerThread, ntasks);
  volatile int *taskFinished = w.s->taskFinished;
  memset((char *)(taskFinished + nBegin), 0, (nEnd - nBegin)*sizeof(int));
}
void ensure_barrier() { synk::Barrier::getInstance(); }
void sweep_p2p(const Sweep &w, int dir) {
#pragma omp parallel
  {
    int nthreads = omp_get_num_threads();
    int tid = omp_get_thread_num();
    clear_flags(w, tid, nthreads);
    synk::Barrier::getInstance()->wait(tid);
    if (dir == 0) fwd_body(w, tid); else bwd_body(w, tid);
  }
}
void sweep_p2p_inregion(const Sweep &w, const int *dirs, int n) {
#pragma omp parallel
  {
    int nthreads = omp_get_num_threads();
    int tid = omp_get_thread_num();
    for (int k = 0; k < n; ++k) {
#pragma omp barrier
      clear_flags(w, tid, nthreads);
#pragma omp barrier
      if (dirs[k] == 0) fwd_body(w, tid); else bwd_body(w, tid);
    }
  }
}
static void bar_body(const Sweep &w, int dir, int tid) {
  const LevelSchedule &schedule = *w.s;
  const vector<int> &threadBoundaries = schedule.threadBoundaries;
  const vector<int> &taskBoundaries = schedule.taskBoundaries;
  const int *perm = schedule.threadContToOrigPerm;
  if (dir == 0)
    for (int task = threadBoundaries[tid]; task < threadBoundaries[tid + 1]; ++task) {
      for (int i = taskBoundaries[task]; i < taskBoundaries[task + 1]; ++i) {
        int row = w.permuted ? i : perm[i];
        w.x[row] = row_value(w, row, 0);
      }
      synk::Barrier::getInstance()->wait(tid);
    }
  else
    for (int task = threadBoundaries[tid + 1] - 1; task >= threadBoundaries[tid]; --task) {
      for (int i = taskBoundaries[task + 1] - 1; i >= taskBoundaries[task]; --i) {
        int row = w.permuted ? i : perm[i];
        w.x[row] = row_value(w, row, 1);
      }
      synk::Barrier::getInstance()->wait(tid);
    }
}
void sweep_barrier(const Sweep &w, int dir) {
#pragma omp parallel
  bar_body(w, dir, omp_get_thread_num());
}
void sweep_barrier_inregion(const Sweep &w, const int *dirs, int n) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    for (int k = 0; k < n; ++k) bar_body(w, dirs[k], tid);
  }
}
static wl_u64 spmv_row(const Sweep &w, int row) {
  int base = w.rowptr[0];
  wl_u64 s = 0;
  for (int j = w.rowptr[row] - base; j < w.rowptr[row + 1] - base; ++j) {
    int c = w.colidx[j] - base;
    s += mx(w.x[c] + w.id[c] * 0x9e3779b97f4a7c15ull);
  }
  return s;
}
void spmv_seq(const Sweep &w, wl_u64 *y) { for (int r = 0; r < w.m; ++r) y[r] = spmv_row(w, r); }
void fused_bwd_spmv(const Sweep &w, wl_u64 *y) {
#pragma omp parallel
  {
    int nthreads = omp_get_num_threads();
    int tid = omp_get_thread_num();
    clear_flags(w, tid, nthreads);
    synk::Barrier::getInstance()->wait(tid);
    bwd_body(w, tid);
    const LevelSchedule &schedule = *w.s;
    const vector<int> &threadBoundaries = schedule.threadBoundaries;
    const vector<int> &taskBoundaries = schedule.taskBoundaries;
    const int *perm = schedule.threadContToOrigPerm;
    const short *nparents = schedule.fusedSchedule->nparents;
    int **parents = schedule.fusedSchedule->parents;
    volatile int *taskFinished = schedule.taskFinished;
    for (int task = threadBoundaries[tid + 1] - 1; task >= threadBoundaries[tid]; --task) {
      SPMP_LEVEL_SCHEDULE_WAIT;
      for (int i = taskBoundaries[task + 1] - 1; i >= taskBoundaries[task]; --i) {
        int row = w.permuted ? i : perm[i];
        y[row] = spmv_row(w, row);
      }
    }
  }
}

// ---------------------------------------------------------------- barriers
static void barrier_rounds(synk::Barrier *b, int tid, int n, int episodes, BarLog *log) {
  for (int e = 1; e <= episodes; ++e) {
    log->data[tid] = (wl_u64)e * 1000003u + (wl_u64)tid;   // plain write, published by the barrier
    log->arrive[tid] = e;
    b->wait(tid);
    for (int t = 0; t < n; ++t) {
      if (log->arrive[t] < e) log->bad[tid] = e;             // passed before t arrived
      if (log->arrive[t] == e && log->data[t] != (wl_u64)e * 1000003u + (wl_u64)t && log->arrive[t] == e) {
        // t may already be writing the next episode's data, which is one more
        if (log->data[t] != (wl_u64)(e + 1) * 1000003u + (wl_u64)t) log->bad[tid] = -e;
      }
      if (log->arrive[t] > e + 1) log->bad[tid] = 1000000 + e; // two episodes ahead
    }
    log->depart[tid] = e;
  }
}
void litmus(int kind, int *px, int *py, int *r) {
  volatile int *x = px, *y = py;
#pragma omp parallel
  {
    int t = omp_get_thread_num();
    switch (kind) {
    case 0: if (t == 0) { *x = 1; r[0] = *y; } else if (t == 1) { *y = 1; r[1] = *x; } break;
    case 1: if (t == 0) { *x = 1; _mm_mfence(); r[0] = *y; } else if (t == 1) { *y = 1; __sync_synchronize(); r[1] = *x; } break;
    case 2: if (t == 0) { __sync_lock_test_and_set(x, 1); r[0] = *y; } else if (t == 1) { __sync_fetch_and_add(y, 1); r[1] = *x; } break;
    case 3: if (t == 0) { *px = 1; *y = 1; } else if (t == 1) { r[0] = *y; r[1] = *px; } break;
    case 4: if (t == 0) { r[0] = *x; *y = 1; } else if (t == 1) { r[1] = *y; *x = 1; } break;
    case 5: if (t == 0) *x = 1; else if (t == 1) *y = 1; else if (t == 2) { r[0] = *x; r[1] = *y; } else if (t == 3) { r[2] = *y; r[3] = *x; } break;
    case 6: if (t == 0) { *x = 1; r[0] = *x; *x = 2; r[1] = *x; } else if (t == 1) { *y = 1; r[2] = *y; } break;
    case 7: if (t == 0) { *x = 1; *y = 2; } else if (t == 1) { *y = 1; *x = 2; } break;
    case 8: if (t == 0) { int v[64]; for (int i = 0; i < 64; ++i) v[i] = 1; *x = 1; volatile size_t n = sizeof v; memcpy(r + 4, v, n); *y = 1; } else if (t == 1) { r[0] = *(volatile int *)(r + 67); r[1] = *x; r[2] = *y; r[3] = *(volatile int *)(r + 4); } break;
    default: if (t == 0) { *px = 1; r[0] = *py; } else if (t == 1) { *py = 1; r[1] = *px; } break;
    }
  }
}
void run_barrier(int cores, int tpc, int episodes, BarLog *log) {
  synk::Barrier *b = new synk::Barrier(cores, tpc);
#pragma omp parallel num_threads(cores*tpc)
  {
    int tid = omp_get_thread_num();
    b->init(tid);
    barrier_rounds(b, tid, cores * tpc, episodes, log);
  }
#pragma omp parallel num_threads(cores*tpc)
  {
    int tid = omp_get_thread_num();
    for (int t = 0; t < 2; ++t) b->wait(tid);
  }
  delete b;
}
void run_barrier_singleton(int tpc, int episodes, BarLog *log, bool inregion) {
  int n = omp_get_max_threads();
  if (tpc > 0 && !inregion) synk::Barrier::initializeInstance(n / tpc, tpc);
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    if (tpc > 0 && inregion) synk::Barrier::initializeInstance(n / tpc, tpc);
    synk::Barrier *b = synk::Barrier::getInstance();
    barrier_rounds(b, tid, n, episodes, log);
  }
  synk::Barrier::deleteInstance();
}
template <class T> static T op_sum(T a, T b) { return a + b; }
template <class T> static T op_max(T a, T b) { return a > b ? a : b; }
template <class T> static T op_min(T a, T b) { return a < b ? a : b; }
template <class T> static void run_reduce(int cores, int tpc, int rounds, int op, const T *values, T *out, T zmax, T zmin) {
  synk::ReduceBarrier<T> *b = new synk::ReduceBarrier<T>(cores, tpc);
  T (*f)(T, T) = op == 0 ? op_sum<T> : op == 1 ? op_max<T> : op_min<T>;
  T z = op == 0 ? (T)0 : op == 1 ? zmax : zmin;
#pragma omp parallel num_threads(cores*tpc)
  {
    int tid = omp_get_thread_num();
    b->init(tid);
    for (int r = 0; r < rounds; ++r) {
      T v = values[tid * rounds + r];
      out[tid * rounds + r] = b->wait(tid, z, v, f);
    }
  }
  delete b;
}
void run_reduce_i64(int c, int t, int r, int op, const long *v, long *o) { run_reduce<long>(c, t, r, op, v, o, -4611686018427387904L, 4611686018427387904L); }
void run_reduce_i32(int c, int t, int r, int op, const int *v, int *o) { run_reduce<int>(c, t, r, op, v, o, -2000000000, 2000000000); }
void run_reduce_f64(int c, int t, int r, int op, const double *v, double *o) { run_reduce<double>(c, t, r, op, v, o, -1e300, 1e300); }

// ---------------------------------------------------------------- utilities
void simple_partition(int n, int *begin, int *end) {
#pragma omp parallel
  { int b, e; getSimpleThreadPartition(&b, &e, n); int t = omp_get_thread_num(); begin[t] = b; end[t] = e; }
}
void balanced_partition(const int *prefix, int n, int *begin, int *end) {
#pragma omp parallel
  { int b, e; getLoadBalancedPartition(&b, &e, prefix, n); int t = omp_get_thread_num(); begin[t] = b; end[t] = e; }
}
// one shared total per round (and element); every thread reads it when its call returns
void prefix_sum(const int *in, int *out, int *seen, int *ws, int rounds) {
  int *tot = MALLOC(int, rounds);
#pragma omp parallel
  {
    int t = omp_get_thread_num(), nt = omp_get_num_threads();
    for (int r = 0; r < rounds; ++r) {
      int v = in[r * nt + t];
      prefixSum(&v, &tot[r], ws + r * (nt + 1));
      out[r * nt + t] = v; seen[r * nt + t] = tot[r];
    }
  }
  FREE(tot);
}
void prefix_sum_multiple(const int *in, int *out, int *seen, int n, int *ws, int rounds) {
  int *tot = MALLOC(int, rounds * n);
#pragma omp parallel
  {
    int t = omp_get_thread_num(), nt = omp_get_num_threads(); int *v = MALLOC(int, n);
    for (int r = 0; r < rounds; ++r) {
      for (int i = 0; i < n; ++i) v[i] = in[(r * nt + t) * n + i];
      prefixSumMultiple(v, tot + r * n, n, ws + r * (nt + 1) * n);
      for (int i = 0; i < n; ++i) { out[(r * nt + t) * n + i] = v[i]; seen[(r * nt + t) * n + i] = tot[r * n + i]; }
    }
    FREE(v);
  }
  FREE(tot);
}
bool has_asserts() {
#ifdef NDEBUG
  return false;
#else
  return true;
#endif
}
void par_memcpy_inregion(void *d, const void *s, size_t n) {
#pragma omp parallel
  { parMemcpy(d, s, n); }
}
void par_memset_inregion(void *d, int c, size_t n) {
#pragma omp parallel
  { parMemset(d, c, n); }
}
void copy_vector_int(int *o, const int *i, int n) { copyVector(o, i, n); }
void copy_vector_dbl(double *o, const double *i, int n) { copyVector(o, i, n); }
void *huge_alloc(size_t n) { return malloc_huge_pages(n); }
void huge_free(void *p) { free_huge_pages(p); }
MemoryPool *pool_new(size_t sz) { return new MemoryPool(sz); }
void pool_del(MemoryPool *p) { delete p; }
void find_components(const CSR *A, const int *skip, int *num, int **ctr, int **cs, int **pre, int **nodes) {
  if (!skip) { findConnectedComponents(A, num, ctr, cs, pre, nodes); return; }
  BitVector bv(A->m);
  for (int i = 0; i < A->m; ++i) if (skip[i]) bv.set(i);
  findConnectedComponentsWithBitVector(A, num, ctr, cs, pre, nodes, &bv);
}
void bfs_bipartite(CSR &A, CSR &AT, int *rp, int *ri, int *cp, int *ci) { ::bfsBipartite(A, AT, rp, ri, cp, ci); }
}
