// Input generators and host-side reference structures (uninstrumented).
#ifndef GEN_H
#define GEN_H
#include "sim.h"
#include "wl.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "CSR.hpp"
using sim::pick; using sim::range; using sim::chance; using sim::note; using sim::fail; using sim::probe;

namespace gen {
// mostly small, sometimes up to hi, rarely far above it
inline int size(int lo, int hi) {
  int k = (int)pick(8);
  if (hi >= 40 && chance(1, 400)) { probe("large"); if (chance(1, 2)) return range(hi, hi * 8);
    std::vector<int> v; for (int b = 64; b <= hi * 8; b *= 2) if (b >= hi / 2) for (int d = -1; d <= 1; ++d) v.push_back(b + d); if (v.size()) return v[pick((uint32_t)v.size())]; }
  int h = k < 3 ? std::min(hi, lo + 5) : k < 6 ? std::min(hi, lo + 18) : k < 7 ? std::min(hi, lo + 50) : hi;
  return range(lo, h);
}
inline int threads(int mx = 8) { if (chance(1, 80)) { if (chance(1, 6)) { probe("more-than-16-threads"); return range(17, 64); } return range(9, 16); } static const int w[] = {2, 3, 4, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}; int k = (int)pick(20); int i = k < 14 ? k % 8 : k < 17 ? (int)pick(4) : (int)pick((uint32_t)std::min(16, mx)); int t = w[i]; return t > mx ? mx : t; }

#ifndef HUGE_RATE
#define HUGE_RATE 6000
#endif
inline bool huge_ok = true; // a workload may opt out of inputs beyond the range of 16-bit counters

// past the range of 16-bit counters, the boundaries themselves included
inline int hugelen() { static const int e[] = {32767, 32768, 32769, 65535, 65536, 65537}; if (chance(1, 3)) return e[pick(6)]; return range(32760, 66000); }

// scale of the values: exact in double, not in less
inline double wide() { return chance(1, 2) ? 1 : 16777217; }
inline void scale(std::vector<std::vector<std::pair<int, double>>> &rows, double s) { for (auto &r : rows) for (auto &e : r) e.second *= s; }
inline bool dup_ok = false; // rectangular matrices may list a position twice
inline bool wide_ok = true; // a workload may scale for itself

// lengths of vectors: like size, now and then beyond the range of 16-bit counters
inline int length(int lo, int hi) { if (chance(1, 1500)) { probe("huge"); return hugelen(); } return size(lo, hi); }
struct Graph { int n; std::vector<std::set<int>> adj; std::string name;
  void edge(int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) { adj[a].insert(b); adj[b].insert(a); } } };

inline Graph graph(int lo, int hi, int force = -1) {
  Graph g; int kind = force >= 0 ? force : (int)pick(14);
  if (force < 0 && chance(1, 80)) { g.n = 0; g.name = "empty"; probe("no-rows"); return g; }
  g.n = size(lo, hi);
  if (force < 0 && huge_ok && hi >= 40 && chance(1, HUGE_RATE)) { g.n = chance(1, 2) ? hugelen() : range(32760, 34000) * range(1, 2); probe("huge"); sim::step_limit(4000000000ull); }
  auto init = [&] { g.adj.assign((size_t)g.n, {}); };
  switch (kind) {
  case 0: init(); g.name = "chain"; for (int i = 0; i + 1 < g.n; ++i) g.edge(i, i + 1); break;
  case 1: { int w = range(1, 9), h = std::max(1, std::min(12, g.n / w + 1)); if (g.n > 32000) { w = range(150, 260); h = g.n / w + 1; }; g.n = w * h; init(); g.name = "grid5"; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (x + 1 < w) g.edge(y * w + x, y * w + x + 1); if (y + 1 < h) g.edge(y * w + x, y * w + x + w); } break; }
  case 2: { int w = range(1, 8), h = std::max(1, std::min(10, g.n / w + 1)); if (g.n > 32000) { w = range(150, 260); h = g.n / w + 1; } g.n = w * h; init(); g.name = "grid9"; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int dy = 0; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (x + dx >= 0 && x + dx < w && y + dy < h) g.edge(y * w + x, (y + dy) * w + x + dx); break; }
  case 3: init(); g.name = "star"; { int c = (int)pick((uint32_t)g.n); for (int i = 0; i < g.n; i += g.n > 32000 ? 17 : 1) g.edge(c, i); } break;
  case 4: { init(); g.name = "random"; int e = (int)pick((uint32_t)(g.n * 3 + 1)); for (int i = 0; i < e; ++i) g.edge((int)pick((uint32_t)g.n), (int)pick((uint32_t)g.n)); break; }
  case 5: { init(); g.name = "banded"; int b = range(1, 5); for (int i = 0; i < g.n; ++i) for (int d = 1; d <= b; ++d) if (i + d < g.n && chance(2, 3)) g.edge(i, i + d); break; }
  case 6: { g.n = std::min(g.n, 14); init(); g.name = "dense"; for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) g.edge(i, j); break; }
  case 7: { init(); g.name = "arrow"; int k = range(1, 3); bool last = chance(1, 2); for (int a = 0; a < k && a < g.n; ++a) for (int i = 0; i < g.n; i += g.n > 32000 ? 23 : 1) g.edge(last ? g.n - 1 - a : a, i); break; }
  case 8: { init(); g.name = "blocks"; int b = range(1, 6); for (int i = 0; i < g.n; ++i) for (int j = std::max(0, i - b); j < i; ++j) if (i / b == j / b) g.edge(i, j); break; }
  case 9: { init(); g.name = "tree"; for (int i = 1; i < g.n; ++i) g.edge(i, (int)pick((uint32_t)i)); break; }
  case 10: init(); g.name = "diagonal"; break;
  case 11: { init(); g.name = "layers"; int w = range(2, 8); for (int i = 0; i + w < g.n; ++i) { int k = range(1, 3); for (int t = 0; t < k; ++t) { int base = (i / w + 1) * w; int j = base + (int)pick((uint32_t)w); g.edge(i, j); } } break; }
  case 12: { init(); g.name = "complete-layers"; std::vector<int> lay; int l = 0, left = 1; for (int i = 0; i < g.n; ++i) { if (!left--) { ++l; left = range(0, 6); } lay.push_back(l); } for (int i = 0; i < g.n; ++i) for (int j = std::max(0, i - 20); j < i; ++j) if (lay[i] == lay[j] + 1) g.edge(i, j); break; }
  default: { init(); g.name = "forest+isolated"; for (int i = 1; i < g.n; ++i) if (chance(2, 3)) g.edge(i, i - 1 - (int)pick((uint32_t)std::min(i, 4))); break; }
  }
  return g;
}
inline std::vector<int> perm(int n) { std::vector<int> p((size_t)n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[i - (int)pick((uint32_t)(i + 1))]); return p; }
inline Graph relabel(const Graph &g) {
  Graph r; r.n = g.n; r.name = g.name + "*"; r.adj.assign((size_t)g.n, {});
  std::vector<int> p = perm(g.n);
  for (int i = 0; i < g.n; ++i) for (int j : g.adj[i]) r.adj[p[i]].insert(p[j]);
  return r;
}
inline Graph maybe_relabel(const Graph &g) { return chance(1, 3) ? relabel(g) : g; }
template <class T> void shuffle(std::vector<T> &v, size_t a, size_t b) { for (size_t i = b; i-- > a + 1;) std::swap(v[i], v[a + pick((uint32_t)(i - a + 1))]); }

// reference compressed-row matrix, 0-based entries in storage order
struct HCsr {
  int m = 0, n = 0, base = 0; bool hasval = true;
  std::vector<std::vector<std::pair<int, double>>> rows;
  std::vector<int> dpos, epos; // position in row of the diagonal / of the first external column, -1 if none
  int nnz() const { int k = 0; for (auto &r : rows) k += (int)r.size(); return k; }
};
// structurally symmetric, full diagonal, partially sorted rows, optional external columns
inline HCsr from_graph(const Graph &g, int base, bool unsorted, bool halo) {
  HCsr h; h.m = h.n = g.n; h.base = base; h.rows.resize((size_t)g.n);
  int ext = halo ? range(1, 4) : 0; h.n += ext;
  for (int i = 0; i < g.n; ++i) {
    auto &r = h.rows[i];
    for (int j : g.adj[i]) if (j < i) r.push_back({j, 0});
    if (unsorted) shuffle(r, 0, r.size());
    h.dpos.push_back((int)r.size()); r.push_back({i, 0});
    size_t u = r.size(); for (int j : g.adj[i]) if (j > i) r.push_back({j, 0});
    if (unsorted) shuffle(r, u, r.size());
    h.epos.push_back((int)r.size());
    if (ext) { int k = (int)pick(3); for (int t = 0; t < k; ++t) r.push_back({g.n + (int)pick((uint32_t)ext), 0}); }
    for (auto &e : r) e.second = (double)((int)((e.first * 7 + i * 13) % 9) - 4);
    for (auto &e : r) if (e.first == i) e.second = 1 + (i % 4);
  }
  if (wide_ok) scale(h.rows, wide());
  return h;
}
// arbitrary rectangular matrix without duplicate entries; rows possibly unsorted
inline HCsr rect(int lom, int him, int lon, int hin, bool unsorted) {
  HCsr h; h.m = size(lom, him); h.n = chance(1, 3) ? std::max(lon, std::min(hin, h.m)) : size(lon, hin);
  if (huge_ok && him >= 40 && hin >= 40 && chance(1, HUGE_RATE)) { int z = (int)pick(3); if (z != 1) h.m = hugelen(); if (z) h.n = hugelen(); probe("huge"); sim::step_limit(4000000000ull); }
  if (chance(1, 60)) { int z = (int)pick(3); if (z != 1) h.m = 0; if (z) h.n = 0; probe(z == 1 ? "no-columns" : "no-rows"); }
  h.rows.resize((size_t)h.m); bool dup = dup_ok && chance(1, 8); if (dup) probe("duplicate-entries");
  int kind = (int)pick(6); if (kind == 3 && (size_t)h.m * h.n > 40000) kind = 1; if ((kind == 2 || kind == 5) && h.m > 32000 && h.n > 32000) kind = 4;
  for (int i = 0; i < h.m; ++i) {
    if (h.n == 0) continue;
    std::set<int> s; int k;
    switch (kind) { case 0: k = (int)pick(4); break; case 1: k = i % 3 == 0 ? 0 : (int)pick(3); break; case 2: k = i == h.m / 2 ? h.n : (int)pick(2); break; case 3: k = h.n; break; case 4: k = i < h.m / 2 ? 0 : (int)pick(6); break; default: k = i == 0 ? h.n : 0; if (i && chance(1, 4)) k = 1; }
    if (k >= h.n) for (int j = 0; j < h.n; ++j) s.insert(j); else for (int t = 0; t < k; ++t) s.insert((int)pick((uint32_t)h.n));
    for (int j : s) { h.rows[i].push_back({j, 0}); if (dup && chance(1, 4)) h.rows[i].push_back({j, 0}); }
    if (unsorted) shuffle(h.rows[i], 0, h.rows[i].size());
    for (auto &e : h.rows[i]) e.second = (double)range(-4, 4);
  }
  if (wide_ok) scale(h.rows, wide());
  return h;
}
// copies into simulated memory; owned by the matrix object
inline SpMP::CSR *to_sut(const HCsr &h, bool diag = false, bool ext = false) {
  SpMP::CSR *A = wl::csr_owned(h.m, h.n, h.nnz());
  int p = h.base; A->rowptr[0] = p;
  for (int i = 0; i < h.m; ++i) {
    for (auto &e : h.rows[i]) { A->colidx[p - h.base] = e.first + h.base; if (A->values) A->values[p - h.base] = e.second; ++p; }
    A->rowptr[i + 1] = p;
  }
  for (int k = 0; k < h.m; ++k) { if (A->diag) A->diag[k] = 0; if (A->idiag) A->idiag[k] = 0; }
  if (!diag) { wl::free_mm(A->diagptr); wl::free_mm(A->diag); wl::free_mm(A->idiag); A->diagptr = nullptr; A->diag = A->idiag = nullptr; }
  if (diag) { if (!A->diagptr) A->diagptr = wl::malloc_int((size_t)h.m); for (int i = 0; i < h.m; ++i) { A->diagptr[i] = A->rowptr[i] + h.dpos[i]; if (h.dpos[i] >= 0 && A->diag) { A->diag[i] = h.rows[i][h.dpos[i]].second; A->idiag[i] = 1 / A->diag[i]; } } }
  if (ext) { if (!A->extptr) A->extptr = wl::malloc_int((size_t)h.m); for (int i = 0; i < h.m; ++i) A->extptr[i] = A->rowptr[i] + h.epos[i]; }
  return A;
}
inline int *sut_ints(const std::vector<int> &v) { int *p = (int *)sim::sut_malloc(v.size() * 4 + (v.empty() ? 4 : 0)); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return p; }
inline double *sut_dbls(const std::vector<double> &v) { double *p = (double *)sim::sut_malloc(v.size() * 8 + (v.empty() ? 8 : 0)); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return p; }
inline int *sut_ints(size_t n, int fillv) { return sut_ints(std::vector<int>(n, fillv)); }
inline double *sut_dbls(size_t n, double fillv) { return sut_dbls(std::vector<double>(n, fillv)); }
inline wl_u64 *sut_u64(size_t n) { wl_u64 *p = (wl_u64 *)sim::sut_malloc(n * 8 + 8); memset(p, 0, n * 8); return p; }

// snapshot of a matrix of the system, with every array range-checked
struct Got { int m, n, base; std::vector<std::vector<std::pair<int, double>>> rows; bool hasval; };
inline Got read(const char *what, const SpMP::CSR *A, bool want_values = true) {
  Got g; g.m = A->m; g.n = A->n; g.hasval = A->values != nullptr && want_values;
  if (A->m < 0 || !A->rowptr || !sim::readable(A->rowptr, ((size_t)A->m + 1) * 4)) fail("bad-matrix", "%s: row pointer array is missing or too short (m=%d)", what, A->m);
  g.base = A->rowptr[0];
  if (g.base != 0 && g.base != 1) fail("bad-matrix", "%s: first row pointer is %d", what, g.base);
  for (int i = 0; i < A->m; ++i) if (A->rowptr[i + 1] < A->rowptr[i]) fail("bad-matrix", "%s: row pointers decrease at row %d", what, i);
  size_t nnz = (size_t)(A->rowptr[A->m] - g.base);
  if (nnz && (!A->colidx || !sim::readable(A->colidx, nnz * 4))) fail("bad-matrix", "%s: column array too short for %zu entries", what, nnz);
  if (nnz && g.hasval && !sim::readable(A->values, nnz * 8)) fail("bad-matrix", "%s: value array too short for %zu entries", what, nnz);
  g.rows.resize((size_t)A->m);
  for (int i = 0; i < A->m; ++i) for (int j = A->rowptr[i] - g.base; j < A->rowptr[i + 1] - g.base; ++j) {
    int c = A->colidx[j] - g.base; if (c < 0 || c >= A->n) fail("bad-matrix", "%s: row %d has column %d of %d", what, i, c, A->n);
    g.rows[i].push_back({c, g.hasval ? A->values[j] : 0.0});
  }
  return g;
}
typedef std::vector<std::vector<std::pair<int, double>>> Rows;
inline Rows sorted(Rows r) { for (auto &x : r) std::sort(x.begin(), x.end()); return r; }
inline Rows pattern(Rows r) { for (auto &x : r) for (auto &e : x) e.second = 0; return r; }
inline void expect_rows(const char *cls, const char *what, Rows got, Rows want, bool ordered = false) {
  if (got.size() != want.size()) fail(cls, "%s: %zu rows instead of %zu", what, got.size(), want.size());
  for (Rows *q : {&got, &want}) for (auto &x : *q) for (auto &e : x) if (e.second != e.second) e.second = -9.87654321e307; // any NaN equals any NaN
  if (!ordered) { got = sorted(got); want = sorted(want); }
  for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) {
    std::string a, b; char t[64];
    for (auto &e : want[i]) { snprintf(t, sizeof t, " (%d,%.17g)", e.first, e.second); if (a.size() < 160) a += t; }
    for (auto &e : got[i]) { snprintf(t, sizeof t, " (%d,%.17g)", e.first, e.second); if (b.size() < 160) b += t; }
    fail(cls, "%s: row %zu is%s, should be%s", what, i, b.c_str(), a.c_str());
  }
}
inline void expect_perm(const char *cls, const char *what, const int *p, const int *inv, int n) {
  std::vector<char> seen((size_t)n, 0);
  for (int i = 0; i < n; ++i) {
    if (p[i] < 0 || p[i] >= n) fail(cls, "%s: perm[%d] = %d is outside 0..%d", what, i, p[i], n - 1);
    if (seen[p[i]]++) fail(cls, "%s: value %d appears twice", what, p[i]);
  }
  if (inv) for (int i = 0; i < n; ++i) if (inv[p[i]] != i) fail(cls, "%s: inverse[%d] = %d, expected %d", what, p[i], inv[p[i]], i);
}
} // namespace gen
#endif
