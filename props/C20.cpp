// C20: generated 27-point grid operators.
#include "gen.h"
#include "CSR.hpp"
const char *prop_id = "C20";
const char *prop_rule = "One run = one grid (any side lengths from 0, mostly unequal, thin grids included), index base, generated into a fresh, used or foreign-data matrix or by the file-name form of the constructor, thread count, one seeded interleaving; then optional base changes.";
void prop_setup() {}
namespace { using namespace gen;
int side() { switch (pick(6)) { case 0: return 1; case 1: return 2; case 2: return 3; case 3: return chance(1, 6) ? 0 : 1; default: return range(1, 7); } }
}
void prop_case() {
  int T = threads(12); sim::set_threads(T); int nx = side(), ny = side(), nz = side(), base = (int)pick(2), how = (int)pick(5);
  if (chance(1, 30)) { int *p = (int *[]){&nx, &ny, &nz}[pick(3)]; nx = std::min(nx, 2); ny = std::min(ny, 2); nz = std::min(nz, 2); *p = range(20, 120); }
  if (how >= 3) ny = nz = nx = std::min(nx, 7);
  SpMP::CSR *A = nullptr; int *fr = nullptr, *fc = nullptr; double *fv = nullptr;
  note("%s %dx%dx%d base=%d T=%d", (const char *[]){"fresh", "used", "foreign", "cube", "file-name"}[how], nx, ny, nz, base, T);
  switch (how) {
  case 1: { HCsr h = rect(1, 20, 1, 20, false); A = to_sut(h); probe("used-object"); break; }
  case 2: { fr = sut_ints(std::vector<int>{0, 1, 2}); fc = sut_ints(std::vector<int>{1, 0}); fv = sut_dbls(std::vector<double>{3, 4}); A = wl::csr_wrap(2, 2, fr, fc, fv); probe("foreign-data"); break; }
  case 4: break; default: A = wl::csr_default(); }
  if (how == 4) { std::string nm = std::to_string(nx); int code; bool ok = sim::guarded([&] { A = wl::csr_file(nm.c_str(), base, false, 1); }, &code); if (!ok) fail("no-matrix", "the grid named \"%s\" ends the process with %d", nm.c_str(), code); probe("file-name"); }
  else if (how == 3) { if (base) SpMP::generate3D27PtLaplacian(A, nx, base); else SpMP::generate3D27PtLaplacian(A, nx); probe("cube"); }
  else if (base) SpMP::generate3D27PtLaplacian(A, nx, ny, nz, base); else SpMP::generate3D27PtLaplacian(A, nx, ny, nz);
  if (fr) for (int i = 0; i < 3; ++i) if (fr[i] != i || (i < 2 && (fc[i] != 1 - i || fv[i] != 3 + i))) fail("foreign-changed", "generating changed the caller's arrays");
  if (nx == 1 || ny == 1 || nz == 1) probe("thin"); if (!nx || !ny || !nz) probe("empty");
  int m = nx * ny * nz;
  auto check = [&](const char *w, int b) {
    if (A->m != m || A->n != m) fail("shape", "%s: %dx%d instead of %d rows", w, A->m, A->n, m);
    Got g = read(w, A); if (g.base != b) fail("base", "%s: index base %d instead of %d", w, g.base, b); if (m && !A->values) fail("values", "%s: no values", w);
    if (!sim::readable(A->diagptr, (size_t)m * 4) || !sim::readable(A->diag, (size_t)m * 8) || !sim::readable(A->idiag, (size_t)m * 8)) fail("short-array", "%s: a diagonal array is missing or short", w);
    for (int z = 0, r = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x, ++r) {
      std::vector<std::pair<int, double>> want; int dp = -1;
      for (int c = -1; c <= 1; ++c) for (int d = -1; d <= 1; ++d) for (int e = -1; e <= 1; ++e) { int Z = z + c, Y = y + d, X = x + e; if (Z < 0 || Z >= nz || Y < 0 || Y >= ny || X < 0 || X >= nx) continue; int q = (Z * ny + Y) * nx + X; if (q == r) dp = (int)want.size(); want.push_back({q, q == r ? 26.0 : -1.0}); }
      if (sorted({g.rows[r]}) != Rows{want}) expect_rows("wrong-stencil", w, Rows{g.rows[r]}, Rows{want});
      int k = A->diagptr[r] - A->rowptr[r]; (void)dp; if (k < 0 || k >= (int)g.rows[r].size() || g.rows[r][k].first != r) fail("diagonal-marker", "%s: the diagonal marker of row %d points at %d", w, r, A->diagptr[r]);
      for (int t = 0; t < (int)g.rows[r].size(); ++t) if ((t < k && g.rows[r][t].first >= r) || (t > k && g.rows[r][t].first <= r)) fail("diagonal-marker", "%s: row %d is not split at its diagonal marker", w, r);
      if (A->diag[r] != 26.0 || A->idiag[r] != 1 / 26.0) fail("wrong-diagonal", "%s: diagonal of row %d is %g, inverse %g", w, r, A->diag[r], A->idiag[r]);
    }
  };
  check("generated grid", base);
  if (A->extptr) fail("stale-marker", "a generated grid keeps external markers");
  if (m && !A->isSymmetric(true)) fail("not-symmetric", "a generated grid is not symmetric"); if (m && A->hasZeroDiag()) fail("wrong-diagonal", "a generated grid lacks a diagonal");
  if (chance(1, 3)) { int b = (int)pick(2); if (b) A->make1BasedIndexing(); else A->make0BasedIndexing(); check("grid after a base change", b); }
  if (chance(1, 4)) { SpMP::CSR *B = A->transpose(); if (!A->equals(*B)) fail("not-symmetric", "a generated grid differs from its transpose"); wl::csr_del(B); }
  wl::csr_del(A); if (fr) { sim::sut_free(fr); sim::sut_free(fc); sim::sut_free(fv); }
  sim::coverage((uint64_t)nx * 1000003 + ny * 1009 + nz * 17 + how);
}
