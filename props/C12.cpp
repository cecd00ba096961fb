// C12: bipartite breadth-first reordering.
#include "gen.h"
#include <queue>
const char *prop_id = "C12";
const char *prop_rule = "One run = one rectangular matrix with its transpose (6 sparsity families plus block-diagonal pieces, empty rows and columns, either base, unsorted rows), thread count, one seeded interleaving.";
void prop_setup() {}
void prop_case() {
  using namespace gen;
  int T = threads(8); sim::set_threads(T);
  HCsr h = rect(1, 40, 1, 40, true); h.base = (int)pick(2);
  const char *fam = "rect";
  int kind = (int)pick(4);
  if (kind == 1) { // block-diagonal: several components
    fam = "blocks"; int b = range(1, 4), c = range(1, 4); for (int i = 0; i < h.m; ++i) { auto &r = h.rows[i]; std::vector<std::pair<int, double>> k; int nb = (h.m + b - 1) / b; for (auto &e : r) { if (e.first / c % std::max(1, nb) == i / b) k.push_back(e); } int d = i / b * c; if (k.empty() && d < h.n && chance(2, 3)) k.push_back({d, 1.0}); r = k; }
  } else if (kind == 2) { // long path
    fam = "path"; for (int i = 0; i < h.m; ++i) { h.rows[i].clear(); if (i < h.n) h.rows[i].push_back({i, 1.0}); if (i + 1 < h.n) h.rows[i].push_back({i + 1, 1.0}); }
  }
  std::vector<std::vector<int>> adj((size_t)(h.m + h.n)); int m = h.m, n = h.n;
  for (int i = 0; i < m; ++i) for (auto &e : h.rows[i]) { adj[i].push_back(m + e.first); adj[m + e.first].push_back(i); }
  HCsr t; t.m = n; t.n = m; t.base = h.base; t.rows.resize((size_t)n);
  for (int i = 0; i < m; ++i) for (auto &e : h.rows[i]) t.rows[e.first].push_back({i, e.second});
  note("%s %dx%d nnz=%d base=%d T=%d", fam, m, n, h.nnz(), h.base, T);
  SpMP::CSR *A = to_sut(h), *AT = to_sut(t);
  int *rp = sut_ints((size_t)m, -7), *ri = sut_ints((size_t)m, -7), *cp = sut_ints((size_t)n, -7), *ci = sut_ints((size_t)n, -7);
  wl::bfs_bipartite(*A, *AT, rp, ri, cp, ci);
  expect_perm("not-a-permutation", "row ordering", rp, ri, m);
  expect_perm("not-a-permutation", "row inverse", ri, rp, m);
  expect_perm("not-a-permutation", "column ordering", cp, ci, n);
  expect_perm("not-a-permutation", "column inverse", ci, cp, n);
  expect_rows("matrix-changed", "matrix after reordering", read("matrix", A).rows, h.rows, true);
  expect_rows("matrix-changed", "transpose after reordering", read("transpose", AT).rows, t.rows, true);
  // components consecutive, by distance from a start vertex
  std::vector<char> vis((size_t)(m + n), 0); int comps = 0;
  for (int s = 0; s < m + n; ++s) if (!vis[s]) {
    ++comps; std::vector<int> R, C, st{s}; vis[s] = 1;
    while (!st.empty()) { int u = st.back(); st.pop_back(); if (u < m) R.push_back(u); else C.push_back(u - m); for (int v : adj[u]) if (!vis[v]) { vis[v] = 1; st.push_back(v); } }
    auto consec = [&](std::vector<int> &v, const int *p, const char *w) { std::sort(v.begin(), v.end(), [&](int a, int b) { return p[a] < p[b]; }); for (size_t k = 1; k < v.size(); ++k) if (p[v[k]] != p[v[k - 1]] + 1) fail("not-consecutive", "the %s of the component of vertex %d are not numbered consecutively", w, s); };
    consec(R, rp, "rows"); consec(C, cp, "columns");
    if (R.empty() || C.empty()) continue;
    auto by_level = [&](int src) { std::map<int, int> d; std::queue<int> q; q.push(src); d[src] = 0; while (!q.empty()) { int u = q.front(); q.pop(); for (int v : adj[u]) if (!d.count(v)) { d[v] = d[u] + 1; q.push(v); } }
      for (size_t k = 1; k < R.size(); ++k) if (d[R[k]] < d[R[k - 1]]) return false; for (size_t k = 1; k < C.size(); ++k) if (d[m + C[k]] < d[m + C[k - 1]]) return false; return true; };
    if (!by_level(R[0]) && !by_level(m + C[0])) fail("not-by-level", "the component of vertex %d is not numbered by distance from its first row or column", s);
  }
  if (comps > 1) probe("several-components");
  wl::csr_del(A); wl::csr_del(AT);
  sim::coverage((uint64_t)h.nnz() * 4096 + comps);
}
