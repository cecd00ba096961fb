// C09: permuting a matrix or vector moves every entry and changes nothing else.
#include "gen.h"
#include "Utils.hpp"
const char *prop_id = "C09";
const char *prop_rule = "One run = one matrix (14 structurally symmetric families with diagonal markers, external columns and inverse diagonals, or 6 rectangular families), with or without values, either base, random permutations, one permuting operation (full sorted/unsorted, rows only, row pointers only, columns in place) or one vector reordering form, thread count, one seeded interleaving.";
void prop_setup() { gen::dup_ok = true; }
namespace {
using namespace gen;
void matrix_case() {
  bool sq = chance(1, 2), diag = false, ext = false; HCsr h; std::string name = "rect";
  if (sq) { Graph g = maybe_relabel(graph(1, 60)); name = g.name; diag = chance(1, 2); ext = chance(1, 3); h = from_graph(g, (int)pick(2), chance(1, 2), ext); }
  else { h = rect(1, 50, 1, 50, chance(1, 2)); h.base = (int)pick(2); }
  int op = (int)pick(5); if (op == 4 && !sq && h.n != h.m) op = 0;
  bool pat = chance(1, 4);
  SpMP::CSR *A = to_sut(h, diag, ext);
  if (!diag && sq && chance(1, 2)) { A->idiag = wl::malloc_double((size_t)h.m); for (int i = 0; i < h.m; ++i) A->idiag[i] = 3 + i + 1.0 / 3; }
  if (pat) { wl::free_mm(A->values); A->values = nullptr; for (auto &r : h.rows) for (auto &e : r) e.second = 0; }
  std::vector<double> idg; if (A->idiag) idg.assign(A->idiag, A->idiag + h.m);
  int pc = ext ? h.m : h.n; // permuted columns
  std::vector<int> cp = perm(pc), ri = perm(h.m); bool norow = op != 4 && chance(1, 5);
  if (norow) for (int i = 0; i < h.m; ++i) ri[i] = i;
  if (sq && chance(1, 2)) for (int i = 0; i < h.m; ++i) cp[ri[i]] = i; // symmetric permutation
  int *c = sut_ints(cp), *r = norow ? nullptr : sut_ints(ri);
  const char *opn[] = {"permute", "permute-sorted", "permute-rows", "permute-rowptr", "permute-cols-in-place"};
  note("%s %s %dx%d nnz=%d base=%d%s%s%s%s%s", opn[op], name.c_str(), h.m, h.n, h.nnz(), h.base, pat ? " pattern" : "", diag ? " diagptr" : "", ext ? " extptr" : "", A->idiag ? " idiag" : "", norow ? " no-row-perm" : "");
  probe(opn[op]);
  auto mapc = [&](int x) { return op == 2 || op == 3 || x >= pc ? x : cp[x]; };
  SpMP::CSR *B = A;
  if (op == 0) B = A->permute(c, r); else if (op == 1) B = A->permute(c, r, true); else if (op == 2) B = A->permuteRows(r); else if (op == 3) B = A->permuteRowptr(r); else A->permuteColsInPlace(c);
  if (op == 4) for (int i = 0; i < h.m; ++i) ri[i] = i;
  if (B->m != h.m || B->n != h.n) fail("shape", "%s changed the shape to %dx%d", opn[op], B->m, B->n);
  if (B->rowptr[0] != h.base) fail("base", "%s gives index base %d", opn[op], B->rowptr[0]);
  int p = h.base;
  for (int i = 0; i < h.m; ++i) { if (B->rowptr[i] != p) fail("wrong-rowptr", "row pointer %d is %d, should be %d", i, B->rowptr[i], p); int k = ri[i];
    if (ext) { if (!B->extptr) fail("wrong-extptr", "external markers lost"); if (B->extptr[i] != p + h.epos[k]) fail("wrong-extptr", "external marker of row %d is %d, should be %d", i, B->extptr[i], p + h.epos[k]); }
    p += (int)h.rows[k].size(); }
  if (B->rowptr[h.m] != p) fail("wrong-rowptr", "last row pointer is %d, should be %d", B->rowptr[h.m], p);
  if (op != 3) {
    Got g = read(opn[op], B); if (!pat && !B->values) fail("values-lost", "%s lost the values", opn[op]);
    Rows wl_, we, gl, ge;
    for (int i = 0; i < h.m; ++i) { int k = ri[i]; size_t cut = ext ? (size_t)h.epos[k] : h.rows[k].size();
      std::vector<std::pair<int, double>> a, b, x, y;
      for (size_t t = 0; t < h.rows[k].size(); ++t) { auto e = h.rows[k][t]; if (t < cut) e.first = mapc(e.first); (t < cut ? a : b).push_back(e); }
      for (size_t t = 0; t < g.rows[i].size(); ++t) (t < cut ? x : y).push_back(g.rows[i][t]);
      if (op == 1) for (size_t t = 1; t < x.size(); ++t) if (x[t].first < x[t - 1].first) fail("not-sorted", "row %d is not sorted", i);
      if (op == 4 && !diag) for (size_t t = 1; t < x.size(); ++t) if (x[t].first < x[t - 1].first) fail("not-sorted", "row %d is not sorted", i);
      wl_.push_back(a); we.push_back(b); gl.push_back(x); ge.push_back(y);
      if (diag && (op < 2 || op == 4 || op == 2)) { int d = B->diagptr ? B->diagptr[i] - h.base : -1; int col = mapc(k); if (d < B->rowptr[i] - h.base || d >= B->rowptr[i + 1] - h.base || B->colidx[d] - h.base != col) fail("diagonal-marker", "diagonal marker of row %d does not point at the permuted diagonal entry", i);
        if (op == 4) { for (int t = B->rowptr[i] - h.base + 1; t < d; ++t) if (B->colidx[t] <= B->colidx[t - 1]) fail("not-sorted", "lower part of row %d is not sorted", i); for (int t = d + 2; t < B->rowptr[i] - h.base + (int)cut; ++t) if (B->colidx[t] <= B->colidx[t - 1]) fail("not-sorted", "upper part of row %d is not sorted", i);
          // entries stay on their side of the diagonal
          std::vector<std::pair<int, double>> lo, up, glo, gup; for (int t = 0; t < (int)cut; ++t) { auto e = h.rows[k][t]; e.first = mapc(e.first); if (t < h.dpos[k]) lo.push_back(e); else if (t > h.dpos[k]) up.push_back(e); int q = B->rowptr[i] - h.base + t; if (q < d) glo.push_back(g.rows[i][t]); else if (q > d) gup.push_back(g.rows[i][t]); }
          expect_rows("wrong-permute", "lower part after permuting columns", Rows{glo}, Rows{lo}); expect_rows("wrong-permute", "upper part after permuting columns", Rows{gup}, Rows{up}); } }
      if (!idg.empty() && op != 4) if (!B->idiag || B->idiag[i] != idg[(size_t)k]) fail("wrong-idiag", "inverse diagonal of row %d did not move with it", i);
    }
    expect_rows("wrong-permute", "local entries", gl, wl_); expect_rows("wrong-permute", "external entries", ge, we);
  }
  if (op != 4) { Got a = read("source", A); expect_rows("source-changed", "source matrix", a.rows, h.rows, true); if (a.base != h.base) fail("source-changed", "base of the source changed"); }
  for (int i = 0; i < pc; ++i) if (c[i] != cp[i]) fail("source-changed", "column permutation changed");
  if (r && op != 4) for (int i = 0; i < h.m; ++i) if (r[i] != ri[i]) fail("source-changed", "row permutation changed");
  if (B != A) wl::csr_del(B);
  wl::csr_del(A);
}
void vector_case() {
  int n = chance(1, 10) ? 0 : length(1, 200); std::vector<int> pv = perm(n), iv((size_t)n); for (int i = 0; i < n; ++i) iv[pv[i]] = i;
  bool null = chance(1, 8); int form = (int)pick(8);
  std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(16777217 + i);
  int *p = null ? nullptr : sut_ints(pv); bool inv = form & 1;
  double *x = sut_dbls(v);
  note("vector form=%d n=%d%s", form, n, null ? " null-permutation" : "");
  probe("vector-reorder");
  std::vector<double> want = v; if (!null) for (int i = 0; i < n; ++i) { if (inv) want[i] = v[pv[i]]; else want[pv[i]] = v[i]; }
  auto cmp = [&](const char *w, const double *g, const std::vector<double> &e) { for (int i = 0; i < n; ++i) if (g[i] != e[i]) fail("wrong-vector", "%s: element %d is %g, should be %g", w, i, g[i], e[i]); };
  if (form < 2) { double *d = sut_dbls((size_t)n, -1); if (inv) SpMP::reorderVectorOutOfPlaceWithInversePerm(d, x, p, n); else SpMP::reorderVectorOutOfPlace(d, x, p, n); cmp("out of place", d, want); cmp("source", x, v);
    int *s = sut_ints((size_t)n, 0), *e = sut_ints((size_t)n, 0); for (int i = 0; i < n; ++i) s[i] = (int)v[i]; if (inv) SpMP::reorderVectorOutOfPlaceWithInversePerm(e, s, p, n); else SpMP::reorderVectorOutOfPlace(e, s, p, n); for (int i = 0; i < n; ++i) if (e[i] != (int)want[i]) fail("wrong-vector", "integer vector: element %d is %d", i, e[i]); }
  else if (form < 4) { double *d = inv ? SpMP::getReorderVectorWithInversePerm(x, p, n) : SpMP::getReorderVector(x, p, n); cmp("new vector", d, want); cmp("source", x, v); wl::free_mm(d); }
  else if (form < 6) { double *t = sut_dbls((size_t)n, -1); if (inv) SpMP::reorderVectorWithInversePerm(x, t, p, n); else SpMP::reorderVector(x, t, p, n); cmp("in place", x, want); if (inv) SpMP::reorderVector(x, t, p, n); else SpMP::reorderVectorWithInversePerm(x, t, p, n); cmp("there and back", x, v); }
  else { if (inv) SpMP::reorderVectorWithInversePerm(x, p, n); else SpMP::reorderVector(x, p, n); cmp("in place", x, want); if (!null) { int *q = sut_ints(iv); if (inv) SpMP::reorderVectorWithInversePerm(x, q, n); else SpMP::reorderVector(x, q, n); cmp("inverse permutation", x, v); } }
}
}
void prop_case() {
  int T = threads(10); sim::set_threads(T);
  if (chance(1, 4)) vector_case(); else matrix_case();
  sim::coverage(sim::now() / 64);
}
