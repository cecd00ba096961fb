// C08: sparse matrix-vector and matrix-multivector products are exact.
#include "gen.h"
const char *prop_id = "C08";
const char *prop_rule = "One run = one matrix (6 sparsity families, rectangular or square, either base, with or without values), one product form (w=Ax, w=alpha Ax+beta y+gamma, W=AX, strided W=alpha AX+beta Y+gamma), scalars from {-2..2}, aliasing choice, strides and widths, thread count, one seeded interleaving; values are small integers so the arithmetic is exact.";
void prop_setup() { gen::wide_ok = false; gen::dup_ok = true; }
void prop_case() {
  using namespace gen;
  int T = threads(10); sim::set_threads(T);
  HCsr h = rect(1, 60, 1, 60, chance(1, 2)); h.base = (int)pick(2);
  bool pat = chance(1, 5);
  int which = (int)pick(4); // what is scaled by a number exact in double and not in less: nothing, the vectors, the matrix, the scalars
  if (which == 2) scale(h.rows, 16777217);
  SpMP::CSR *A = to_sut(h);
  if (pat) { wl::free_mm(A->values); A->values = nullptr; for (auto &r : h.rows) for (auto &e : r) e.second = 1; }
  static const int sc[] = {1, 0, -1, 2, -2, 3};
  double al = sc[pick(6)], be = sc[(pick(6) + 1) % 6], ga = chance(1, 2) ? 0 : sc[pick(6)];
  if (chance(1, 4)) { al = -1; be = 1; ga = 0; }
  if (which == 3) { if (chance(2, 3)) al *= 16777217; if (chance(2, 3)) be *= 16777217; ga *= 16777217; }
  int form = (int)pick(4), times = chance(1, 5) ? 2 : 1;
  double vscale = which == 1 ? 16777217 : 1;
  auto val = [&](int i, int k, int s) { return vscale * ((i * 7 + k * 5 + s * 11) % 13 - 6); };
  for (int rep = 0; rep < times; ++rep) {
    if (form < 2) {
      int alias = form == 0 ? 0 : (int)pick(4); // 0 none, 1 w==y, 2 w==x, 3 y==x
      size_t nx = (size_t)h.n, nw = (size_t)h.m;
      if (alias == 2) nx = nw = (size_t)std::max(h.m, h.n);
      if (alias == 3) nx = (size_t)std::max(h.m, h.n);
      std::vector<double> vx, vy; for (size_t i = 0; i < nx; ++i) vx.push_back(val((int)i, rep, 1)); for (size_t i = 0; i < nw; ++i) vy.push_back(val((int)i, rep, 2));
      double *x = sut_dbls(vx), *w = alias == 2 ? x : sut_dbls(vy), *y = alias == 1 ? w : alias == 3 ? x : sut_dbls(vy);
      note("%dx%d nnz=%d base=%d T=%d%s %s alias=%d", h.m, h.n, h.nnz(), h.base, T, pat ? " pattern" : "", form ? "full" : "plain", alias);
      std::vector<double> ry(y, y + h.m), rx = vx;
      if (form == 0) { al = 1; be = 0; ga = 0; if (chance(1, 2)) { A->multiplyWithVector(w, x); } else A->multiplyWithVector(w, 1, x, 0, y, 0); }
      else A->multiplyWithVector(w, al, x, be, y, ga);
      for (int i = 0; i < h.m; ++i) { double s = 0; for (auto &e : h.rows[i]) s += e.second * rx[e.first]; s = al * s + be * ry[i] + ga; if (w[i] != s) fail("wrong-product", "row %d is %.17g, should be %.17g (alpha=%g beta=%g gamma=%g)", i, w[i], s, al, be, ga); }
      if (w != x) for (size_t i = 0; i < nx; ++i) if (x[i] != vx[i]) fail("operand-changed", "x[%zu] changed", i);
      for (size_t i = (size_t)h.m; alias == 2 && i < nx; ++i) if (w[i] != vx[i]) fail("operand-changed", "element %zu behind the result changed", i);
      if (alias != 1 && alias != 3) for (int i = 0; i < h.m; ++i) if (y[i] != ry[i] && y != w) fail("operand-changed", "y[%d] changed", i);
      if (alias == 1) probe("output-aliases-y"); if (alias == 2) probe("output-aliases-x");
    } else {
      int k = chance(1, 30) && h.m < 1000 && h.n < 1000 ? range(6, 70) : range(1, 5); bool plain = form == 2;
      struct Op { int rs, cs; size_t n; double *p; std::vector<double> v; };
      auto mk = [&](int rows, int s) { Op o; bool rowmajor = !plain && chance(1, 2); int pad = plain ? 0 : (int)pick(3);
        if (rowmajor) { o.cs = plain ? 1 : 1 + (int)pick(2); o.rs = o.cs * (k - 1) + 1 + pad; } else { o.rs = plain ? 1 : 1 + (chance(1, 2) ? (int)pick(2) : 0); o.cs = o.rs * std::max(rows - 1, 0) + 1 + pad; }
        o.n = rows ? (size_t)(o.rs * (rows - 1) + o.cs * (k - 1) + 1) : 0; for (size_t i = 0; i < o.n; ++i) o.v.push_back(val((int)i, rep, s)); o.p = sut_dbls(o.v); return o; };
      Op X = mk(h.n, 1), W = mk(h.m, 2), Y = mk(h.m, 3); bool alias = !plain && chance(1, 3);
      if (alias) { Y = W; probe("multivector-aliases-y"); }
      note("%dx%d nnz=%d base=%d T=%d%s multi k=%d W=%d/%d X=%d/%d Y=%d/%d%s", h.m, h.n, h.nnz(), h.base, T, pat ? " pattern" : "", k, W.rs, W.cs, X.rs, X.cs, Y.rs, Y.cs, alias ? " alias" : "");
      if (plain) { al = 1; be = ga = 0; A->multiplyWithDenseMatrix(W.p, k, X.p); }
      else { if (chance(1, 4)) { al = 1; be = 0; ga = 0; } A->multiplyWithDenseMatrix(W.p, k, W.rs, W.cs, al, X.p, X.rs, X.cs, be, Y.p, Y.rs, Y.cs, ga); }
      std::vector<double> want = W.v;
      for (int i = 0; i < h.m; ++i) for (int c = 0; c < k; ++c) { double s = 0; for (auto &e : h.rows[i]) s += e.second * X.v[(size_t)(e.first * X.rs + c * X.cs)]; want[(size_t)(i * W.rs + c * W.cs)] = al * s + be * Y.v[(size_t)(i * Y.rs + c * Y.cs)] + ga; }
      for (size_t i = 0; i < W.n; ++i) if (W.p[i] != want[i]) fail("wrong-product", "element %zu of the output is %.17g, should be %.17g (alpha=%g beta=%g gamma=%g)", i, W.p[i], want[i], al, be, ga);
      for (size_t i = 0; i < X.n; ++i) if (X.p[i] != X.v[i]) fail("operand-changed", "element %zu of X changed", i);
      if (!alias) for (size_t i = 0; i < Y.n; ++i) if (Y.p[i] != Y.v[i]) fail("operand-changed", "element %zu of Y changed", i);
      probe("multivector");
    }
  }
  { auto want = h.rows; Got g = read("matrix", A); expect_rows("operand-changed", "matrix after the product", g.rows, pat ? pattern(want) : want, true); }
  wl::csr_del(A);
  sim::coverage((uint64_t)h.nnz() * 64 + form * 16 + T);
}
