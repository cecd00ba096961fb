// Sweep execution against the sequential sweep, shared by C02-C04 and C17.
#ifndef SWEEPS_H
#define SWEEPS_H
#include "sched.h"
namespace sched {
struct SweepRun { wl::Sweep w; std::vector<wl_u64> ref; std::vector<int> tonew; int cols; };
// matrix data for sweeps, in original or schedule order; b and the initial x are functions of the original index
inline void make_sweep(const Case &c, int kind, bool permuted, wl_u64 salt, SweepRun &r) {
  int m = c.h.m, n = c.h.n, base = c.h.base; r.cols = n;
  r.tonew.resize((size_t)n); for (int i = 0; i < n; ++i) r.tonew[i] = permuted && i < m ? c.s->origToThreadContPerm[i] : i;
  wl::Sweep &w = r.w; w.s = c.s; w.m = m; w.kind = kind; w.permuted = permuted;
  int *rp = gen::sut_ints((size_t)m + 1, 0), *ci = gen::sut_ints((size_t)c.h.nnz(), 0);
  int p = base; rp[0] = base;
  for (int k = 0; k < m; ++k) { int i = permuted ? c.s->threadContToOrigPerm[k] : k; for (auto &e : c.h.rows[i]) ci[p++ - base] = r.tonew[e.first] + base; rp[k + 1] = p; }
  wl_u64 *id = gen::sut_u64((size_t)n), *b = gen::sut_u64((size_t)m), *x = gen::sut_u64((size_t)n);
  for (int i = 0; i < n; ++i) { id[r.tonew[i]] = (wl_u64)i; x[r.tonew[i]] = salt + (wl_u64)i * 77; if (i < m) b[r.tonew[i]] = salt * 3 + (wl_u64)i; }
  w.rowptr = rp; w.colidx = ci; w.id = id; w.b = b; w.x = x;
}
// independent sequential model (original numbering)
inline wl_u64 mxh(wl_u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Model {
  const HCsr &h; int kind; std::vector<wl_u64> x, b;
  Model(const HCsr &h_, int k, wl_u64 salt) : h(h_), kind(k) { for (int i = 0; i < h.n; ++i) { x.push_back(salt + (wl_u64)i * 77); if (i < h.m) b.push_back(salt * 3 + (wl_u64)i); } }
  void sweep(int dir) {
    for (int k = 0; k < h.m; ++k) { int i = dir == 0 ? k : h.m - 1 - k; wl_u64 s = b[i];
      for (auto &e : h.rows[i]) { if (kind == wl::SWEEP_TRSV) { bool lower = e.first < i; if (e.first == i || lower != (dir == 0)) continue; } s += mxh(x[e.first] ^ ((wl_u64)e.first * 0x632be59bd9b4e019ull)); }
      x[i] = mxh(s); }
  }
  wl_u64 spmv(int i) const { wl_u64 s = 0; for (auto &e : h.rows[i]) s += mxh(x[e.first] + (wl_u64)e.first * 0x9e3779b97f4a7c15ull); return s; }
};
inline void compare(const SweepRun &r, const Model &mo, const char *what) {
  for (int i = 0; i < mo.h.n; ++i) if (r.w.x[r.tonew[i]] != mo.x[i])
    fail(i < mo.h.m ? "stale-read" : "wrote-external", "%s: row %d has a value the sequential sweep does not give", what, i);
}
// a random sequence of sweeps, per region or inside one region
inline void run_sweeps(const Case &c) {
  int kind = chance(1, 2) ? wl::SWEEP_TRSV : wl::SWEEP_GS; bool permuted = chance(1, 2); wl_u64 salt = 1 + pick(1000);
  if (kind == wl::SWEEP_TRSV) probe("triangular-sweeps"); else probe("gauss-seidel-sweeps");
  if (permuted) probe("permuted-matrix");
  SweepRun r; make_sweep(c, kind, permuted, salt, r); Model mo(c.h, kind, salt);
  bool inregion = chance(1, 2); int len = range(1, 4); if (c.h.m < 200 && chance(1, 150)) { len = chance(1, 12) ? range(256, 300) : range(5, 40); probe("many-sweeps"); }
  std::vector<int> d; for (int i = 0; i < len; ++i) d.push_back((int)pick(2));
  note("%s%s x%d%s", kind == wl::SWEEP_TRSV ? "trsv" : "gs", permuted ? " permuted" : "", len, inregion ? " one-region" : "");
  for (int v : d) mo.sweep(v);
  if (inregion) {
    probe("sweeps-in-one-region"); int *dd = gen::sut_ints(d);
    if (c.barrier) wl::sweep_barrier_inregion(r.w, dd, len); else wl::sweep_p2p_inregion(r.w, dd, len);
  } else for (int v : d) { if (c.barrier) wl::sweep_barrier(r.w, v); else wl::sweep_p2p(r.w, v); }
  compare(r, mo, c.barrier ? "barrier sweeps" : "point-to-point sweeps");
}
} // namespace sched
#endif
