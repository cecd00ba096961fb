// C07: transposition is exact and schedule-independent.
#include "gen.h"
const char *prop_id = "C07";
const char *prop_rule = "One run = one matrix (6 sparsity families, rectangular or square, 0..60 rows and columns, either base, sorted or unsorted rows, with or without values, with or without diagonal markers), transposed up to twice at one thread count under one seeded interleaving.";
void prop_setup() { gen::dup_ok = true; }
void prop_case() {
  using namespace gen;
  int T = threads(10); sim::set_threads(T);
  bool zero = chance(1, 12);
  HCsr h = rect(zero ? 0 : 1, 60, zero ? 0 : 1, 60, chance(1, 2)); h.base = (int)pick(2);
  bool pat = chance(1, 4), diag = chance(1, 3);
  if (diag) for (int i = 0; i < h.m; ++i) { // every row that has a diagonal column gets a diagonal entry
    if (i < h.n) { bool has = false; for (auto &e : h.rows[i]) has |= e.first == i; if (!has) { h.rows[i].push_back({i, 2.0}); std::sort(h.rows[i].begin(), h.rows[i].end()); } }
    int d = -1; for (size_t k = 0; k < h.rows[i].size(); ++k) if (h.rows[i][k].first == i) d = (int)k; h.dpos.push_back(d); }
  note("%dx%d nnz=%d base=%d T=%d%s%s", h.m, h.n, h.nnz(), h.base, T, pat ? " pattern" : "", diag ? " diagptr" : "");
  SpMP::CSR *A = to_sut(h, diag);
  if (pat) { wl::free_mm(A->values); A->values = nullptr; }
  SpMP::CSR *B = A->transpose();
  auto expect_t = [&](const char *w, SpMP::CSR *X, int m, int n, const std::vector<std::vector<std::pair<int, double>>> &rows) {
    if (X->m != n || X->n != m) fail("shape", "%s of a %dx%d matrix is %dx%d", w, m, n, X->m, X->n);
    Rows want((size_t)n); for (int i = 0; i < m; ++i) for (auto &e : rows[i]) want[e.first].push_back({i, pat ? 0 : e.second});
    Got g = read(w, X); if (g.base != h.base) fail("base", "%s has index base %d instead of %d", w, g.base, h.base);
    if (!pat && !X->values && h.nnz()) fail("values-lost", "%s has no values", w);
    expect_rows("wrong-transpose", w, g.rows, want);
    if (diag && X->diagptr) for (int i = 0; i < std::min(m, n); ++i) { int p = X->diagptr[i] - h.base; if (p < X->rowptr[i] - h.base || p >= X->rowptr[i + 1] - h.base || X->colidx[p] - h.base != i) fail("diagonal-marker", "%s: diagonal marker of row %d is wrong", w, i); }
    if (diag && !X->diagptr) fail("diagonal-marker", "%s lost its diagonal markers", w);
    return g;
  };
  Got gb = expect_t("transpose", B, h.m, h.n, h.rows);
  Got ga = read("source matrix", A); expect_rows("source-changed", "source of a transposition", ga.rows, pat ? pattern(h.rows) : h.rows, true);
  if (A->m != h.m || A->n != h.n || ga.base != h.base) fail("source-changed", "shape or base of the source changed");
  if (chance(1, 2)) { SpMP::CSR *C = B->transpose(); expect_t("double transpose", C, h.n, h.m, gb.rows); probe("double-transpose"); wl::csr_del(C); }
  if (h.m < T) probe("more-threads-than-rows");
  wl::csr_del(B); wl::csr_del(A);
  sim::coverage((uint64_t)h.nnz() * 4096 + h.m * 64 + h.n);
}
