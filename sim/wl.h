// Workload layer: compiled with the simulator's instrumentation, linked into
// the simulated system. It plays the library's client.
#ifndef SPMP_WL_H
#define SPMP_WL_H
#include <cstdint>
#include <cstddef>
namespace SpMP { class CSR; class LevelSchedule; class COO; class CostFunction; class MemoryPool; }
namespace synk { class Barrier; }
typedef uint64_t wl_u64;

namespace wl {
// objects live in simulated memory
SpMP::CSR *csr_default();
SpMP::CSR *csr_owned(int m, int n, int nnz);
SpMP::CSR *csr_wrap(int m, int n, int *rowptr, int *colidx, double *values);
SpMP::CSR *csr_copy(const SpMP::CSR *A);
SpMP::CSR *csr_file(const char *name, int base, bool sym, int pad);
void csr_del(SpMP::CSR *A);
SpMP::LevelSchedule *ls_new();
// how: 0 CSR, 1 CSR+unit cost, 2 (m,rowptr,colidx), 3 (m,rowptr,diagptr,colidx), 4 (.., extptr, ..)
void construct(SpMP::LevelSchedule *s, SpMP::CSR *A, int how, bool unsorted);
bool asserts(); // is the assert-enabled build under test
void ls_del(SpMP::LevelSchedule *s);
SpMP::COO *coo_new();
void coo_del(SpMP::COO *c);
void del_intv(int *p);     // delete[]
void free_mm(void *p);     // FREE
int *malloc_int(size_t n);
double *malloc_double(size_t n);

// ---- level-scheduled sweeps on 64-bit words; dir 0 forward, 1 backward ----
enum { SWEEP_GS = 0, SWEEP_TRSV = 1 };
struct Sweep {
  const SpMP::LevelSchedule *s;
  int m; const int *rowptr, *colidx;     // base as in the matrix
  const wl_u64 *id;                      // id[c]: key of column c (original numbering)
  const wl_u64 *b; wl_u64 *x;            // indexed by row of this matrix (x by column)
  int kind; bool permuted;               // permuted: matrix already in schedule order
  const double *values = nullptr, *idiag = nullptr; // when given, every entry and inverse diagonal counts too
};
wl_u64 row_value(const Sweep &w, int row, int dir);
void sweep_seq(const Sweep &w, int dir, const int *order);
void sweep_p2p(const Sweep &w, int dir);
void sweep_p2p_inregion(const Sweep &w, const int *dirs, int n);
void sweep_barrier(const Sweep &w, int dir);
void sweep_barrier_inregion(const Sweep &w, const int *dirs, int n);
// backward GS sweep fused with y[row] = G(x over row), fused parents
void fused_bwd_spmv(const Sweep &w, wl_u64 *y);
void spmv_seq(const Sweep &w, wl_u64 *y);
void ensure_barrier();

// ---- barriers ----
// each of cores*tpc threads runs `episodes` rounds; shared state checks inside
struct BarLog { int nthreads, episodes; int *arrive; int *depart; wl_u64 *data; int *bad; };
void run_barrier(int cores, int tpc, int episodes, BarLog *log);
void run_barrier_singleton(int tpc, int episodes, BarLog *log, bool inregion);
// op 0 sum 1 max 2 min 3 xor, values[t*rounds+r], out likewise
void run_reduce_i64(int cores, int tpc, int rounds, int op, const long *values, long *out);
void run_reduce_i32(int cores, int tpc, int rounds, int op, const int *values, int *out);
void run_reduce_f64(int cores, int tpc, int rounds, int op, const double *values, double *out);

// ---- memory-model litmus tests of the simulator itself (tools/selftest.py) ----
// kind 0 store buffering, 1 the same with full fences, 2 the same with atomic exchanges, 3 message passing, 4 load buffering,
// 5 independent reads of independent writes, 6 own stores are read, 7 2+2W, 8 message passing over a block copy, 9 store buffering, plain accesses
void litmus(int kind, int *x, int *y, int *r);

// ---- utilities ----
void simple_partition(int n, int *begin, int *end);               // per thread
void balanced_partition(const int *prefix, int n, int *begin, int *end);
void prefix_sum(const int *in, int *out, int *sum, int *ws, int rounds);
void prefix_sum_multiple(const int *in, int *out, int *sum, int n, int *ws, int rounds);
bool has_asserts();
void par_memcpy_inregion(void *d, const void *s, size_t n);
void par_memset_inregion(void *d, int c, size_t n);
void copy_vector_int(int *o, const int *i, int n);
void copy_vector_dbl(double *o, const double *i, int n);
void *huge_alloc(size_t n);
void huge_free(void *p);

// ---- pool ----
SpMP::MemoryPool *pool_new(size_t sz);
void pool_del(SpMP::MemoryPool *p);
void find_components(const SpMP::CSR *A, const int *skip, int *num, int **compToRoot, int **compSizes, int **prefix, int **nodes);
void bfs_bipartite(SpMP::CSR &A, SpMP::CSR &AT, int *rowPerm, int *rowInv, int *colPerm, int *colInv);
}
#endif
