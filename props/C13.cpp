// C13: symmetrised patterns and triangular splits lose and invent nothing.
#include "gen.h"
const char *prop_id = "C13";
const char *prop_rule = "One run = one square matrix (symmetric graph families or random directed patterns, full diagonal, sorted rows, optional external columns, either base), symmetrised or split into triangular parts (into fresh or previously used objects), thread count, one seeded interleaving.";
void prop_setup() {}
namespace {
using namespace gen;
HCsr directed(bool halo, bool sorted) { // full diagonal, arbitrary other entries
  HCsr h; h.m = chance(1, 60) ? 0 : size(1, 60); if (chance(1, HUGE_RATE)) { h.m = hugelen(); probe("huge"); sim::step_limit(4000000000ull); } h.base = (int)pick(2); int ext = halo ? range(1, 4) : 0; h.n = h.m + ext; h.rows.resize((size_t)h.m);
  int dens = range(0, 4);
  for (int i = 0; i < h.m; ++i) { std::set<int> s{i}; int k = (int)pick((uint32_t)dens + 1); if (h.m > 32000) { if (i == 7) k = 40000; } else if (chance(1, 12)) k = h.m; for (int t = 0; t < k; ++t) s.insert((int)pick((uint32_t)h.m));
    for (int j : s) h.rows[i].push_back({j, (double)range(-5, 5)}); if (!sorted) shuffle(h.rows[i], 0, h.rows[i].size());
    int d = 0; while (h.rows[i][d].first != i) ++d; h.dpos.push_back(d); h.rows[i][d].second = 1 << (i % 5);
    h.epos.push_back((int)h.rows[i].size()); if (ext) { std::set<int> e; int q = (int)pick(3); for (int t = 0; t < q; ++t) e.insert(h.m + (int)pick((uint32_t)ext)); for (int c : e) h.rows[i].push_back({c, (double)range(1, 5)}); } }
  scale(h.rows, wide());
  return h;
}
}
void prop_case() {
  int T = threads(10); sim::set_threads(T);
  bool halo = chance(1, 3), split = chance(1, 2);
  HCsr h = chance(1, 3) ? from_graph(maybe_relabel(graph(1, 60)), (int)pick(2), split && chance(1, 2), halo) : directed(halo, !split || chance(1, 2));
  // one entry of an otherwise symmetric pattern removed
  if (!split && h.m && chance(1, 4)) { int i = (int)pick((uint32_t)h.m); auto &r = h.rows[i]; int cut = h.epos[i]; if (cut > 1) { int k = (int)pick((uint32_t)cut); if (r[k].first != i) { if (k < h.dpos[i]) --h.dpos[i]; r.erase(r.begin() + k); --h.epos[i]; } } }
  note("%s %dx%d nnz=%d base=%d T=%d%s", split ? "split" : "symmetrise", h.m, h.n, h.nnz(), h.base, T, halo ? " extptr" : "");
  SpMP::CSR *A = to_sut(h, split || chance(1, 2), halo);
  int b = h.base, m = h.m;
  if (!split) {
    int *rp = nullptr, *dp = nullptr, *ep = nullptr, *ci = nullptr;
    bool sym = SpMP::getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci);
    std::vector<std::set<int>> want((size_t)m); bool ref = true;
    for (int i = 0; i < m; ++i) for (int k = 0; k < h.epos[i]; ++k) { want[i].insert(h.rows[i][k].first); want[h.rows[i][k].first].insert(i); }
    for (int i = 0; i < m; ++i) ref = ref && (int)want[i].size() == h.epos[i];
    if (sym != ref) fail("wrong-verdict", "pattern reported %ssymmetric", sym ? "" : "not ");
    if (sym) { probe("already-symmetric"); if (rp || ci) fail("unexpected-arrays", "arrays returned for a symmetric pattern"); }
    else {
      probe("symmetrised");
      if (!sim::readable(rp, ((size_t)m + 1) * 4)) fail("short-array", "row pointers missing or short");
      if (rp[0] != b) fail("wrong-rowptr", "first row pointer is %d", rp[0]);
      size_t nnz = 0; for (int i = 0; i < m; ++i) nnz += want[i].size() + (h.rows[i].size() - h.epos[i]);
      if (rp[m] != (int)nnz + b) fail("wrong-rowptr", "%d entries, should be %zu", rp[m] - b, nnz);
      if (!sim::readable(ci, nnz * 4)) fail("short-array", "column array too short"); if (!sim::readable(dp, (size_t)m * 4)) fail("short-array", "diagonal markers missing or short");
      if (halo && !sim::readable(ep, (size_t)m * 4)) fail("short-array", "external markers missing or short");
      for (int i = 0; i < m; ++i) {
        int n = (int)want[i].size(), x = (int)(h.rows[i].size() - h.epos[i]);
        if (rp[i + 1] - rp[i] != n + x) fail("wrong-pattern", "row %d has %d entries, should have %d", i, rp[i + 1] - rp[i], n + x);
        std::vector<int> got(ci + rp[i] - b, ci + rp[i] - b + n), w; for (int c : want[i]) w.push_back(c + b);
        if (!std::is_sorted(got.begin(), got.end())) fail("not-sorted", "row %d of the symmetric pattern is not sorted", i);
        if (got != w) fail("wrong-pattern", "row %d holds a wrong set of columns", i);
        std::vector<int> ge(ci + rp[i] - b + n, ci + rp[i + 1] - b), we; for (int k = h.epos[i]; k < (int)h.rows[i].size(); ++k) we.push_back(h.rows[i][k].first + b); std::sort(ge.begin(), ge.end()); std::sort(we.begin(), we.end());
        if (ge != we) fail("wrong-pattern", "row %d holds wrong external columns", i);
        if (dp[i] < rp[i] || dp[i] >= rp[i] + n || ci[dp[i] - b] != i + b) fail("diagonal-marker", "diagonal marker of row %d is wrong", i);
        if (halo && ep[i] != rp[i] + n) fail("external-marker", "external marker of row %d is %d, should be %d", i, ep[i], rp[i] + n);
      }
      wl::free_mm(rp); wl::free_mm(dp); if (ep) wl::free_mm(ep); wl::free_mm(ci);
    }
  } else {
    probe("split");
    SpMP::CSR *L = chance(1, 3) ? wl::csr_owned(3, 3, 4) : wl::csr_default(), *U = chance(1, 3) ? wl::csr_owned(2, 2, 5) : wl::csr_default();
    int reps = chance(1, 5) ? 2 : 1;
    for (int k = 0; k < reps; ++k) SpMP::splitLU(*A, L, U);
    Rows wl_((size_t)m), wu((size_t)m), we((size_t)m);
    for (int i = 0; i < m; ++i) for (auto &e : h.rows[i]) { if (e.first < i) wl_[i].push_back(e); else if (e.first > i) (e.first < m || !halo ? wu : we)[i].push_back(e); }
    if (L->m != m || U->m != m || L->n != h.n || U->n != h.n) fail("shape", "parts are %dx%d and %dx%d", L->m, L->n, U->m, U->n);
    Got gl = read("lower part", L), gu = read("upper part", U);
    if (gl.base != b || gu.base != b) fail("base", "parts have index bases %d and %d instead of %d", gl.base, gu.base, b);
    expect_rows("wrong-split", "lower part", gl.rows, wl_);
    Rows wall = wu; for (int i = 0; i < m; ++i) wall[i].insert(wall[i].end(), we[i].begin(), we[i].end());
    expect_rows("wrong-split", "upper part", gu.rows, wall);
    for (int i = 0; i < m; ++i) { double d = 1 / h.rows[i][h.dpos[i]].second; if (!L->idiag || !U->idiag || L->idiag[i] != d || U->idiag[i] != d) fail("wrong-diagonal", "inverse diagonal of row %d is wrong in a part", i);
      if (halo) { if (!U->extptr) fail("external-marker", "upper part has no external markers"); if (U->extptr[i] != U->rowptr[i] + (int)wu[i].size()) fail("external-marker", "external marker of row %d of the upper part is %d, should be %d", i, U->extptr[i], U->rowptr[i] + (int)wu[i].size()); for (int t = U->extptr[i] - b; t < U->rowptr[i + 1] - b; ++t) if (U->colidx[t] - b < m) fail("external-marker", "a local column of row %d lies behind the external marker", i); } }
    wl::csr_del(L); wl::csr_del(U);
  }
  Got g = read("source", A); if (g.base != b) fail("source-changed", "index base of the source became %d", g.base);
  expect_rows("source-changed", "source matrix", g.rows, h.rows, true);
  for (int i = 0; i < m; ++i) { if (A->diagptr && A->diagptr[i] != A->rowptr[i] + h.dpos[i]) fail("source-changed", "diagonal marker of row %d of the source changed", i); if (halo && A->extptr[i] != A->rowptr[i] + h.epos[i]) fail("source-changed", "external marker of row %d of the source changed", i); }
  wl::csr_del(A);
  sim::coverage((uint64_t)h.nnz() * 64 + T);
}
