// C14: index-base changes and structural queries agree with the matrix.
#include "gen.h"
#include <climits>
const char *prop_id = "C14";
const char *prop_rule = "One run = one matrix (graph families or rectangular families, either base, with or without values, diagonal markers and external columns, perturbed or not by one missing or changed entry), 1-6 operations drawn from base conversion, copy, comparison and every structural query, thread count, one seeded interleaving.";
void prop_setup() {}
namespace { using namespace gen;
std::string cap() { return ""; }
}
void prop_case() {
  int T = threads(10); sim::set_threads(T);
  bool sq = chance(2, 3), halo = sq && chance(1, 4), diag = sq && chance(1, 2), uns = chance(1, 3); std::string name = "rect"; HCsr h;
  if (sq) { Graph g = maybe_relabel(graph(1, 60)); name = g.name; h = from_graph(g, 0, uns, halo);
    for (int i = 0; i < h.m; ++i) for (auto &e : h.rows[i]) if (e.first != i && e.first < h.m) e.second = (double)(std::min(i, e.first) * 3 + std::max(i, e.first)) + 1; // symmetric values
    scale(h.rows, wide());
  } else h = rect(1, 50, 1, 50, uns);
  h.base = (int)pick(2);
  bool pat = chance(1, 5); bool nodiag = false;
  if (sq && h.m && chance(1, 2)) { // one perturbation, often at the edges of the index range
    int i = chance(1, 3) ? h.m - 1 : chance(1, 2) ? 0 : (int)pick((uint32_t)h.m); auto &r = h.rows[i];
    size_t k = pick((uint32_t)r.size()); int what = (int)pick(3); if (chance(1, 2)) k = (size_t)h.dpos[i];
    if (what == 0) { if (r[k].first == i) { nodiag = true; } if ((int)k < h.dpos[i]) --h.dpos[i]; if ((int)k < h.epos[i]) --h.epos[i]; r.erase(r.begin() + k); }
    else if (what == 1) r[k].second += 100; else if (r[k].first == i) r[k].second = 0; else r[k].second = -50;
  }
  if (nodiag) diag = false;
  note("%s %dx%d nnz=%d base=%d T=%d%s%s%s", name.c_str(), h.m, h.n, h.nnz(), h.base, T, pat ? " pattern" : "", diag ? " diagptr" : "", halo ? " extptr" : "");
  SpMP::CSR *A = to_sut(h, diag, halo);
  if (pat) { wl::free_mm(A->values); A->values = nullptr; for (auto &r : h.rows) for (auto &e : r) e.second = 1; }
  int base = h.base, nops = range(1, 6), m = h.m;
  auto whole = [&](const char *w, SpMP::CSR *X, int b) {
    Got g = read(w, X); if (g.base != b) fail("wrong-base", "%s has index base %d, should be %d", w, g.base, b);
    if (X->m != h.m || X->n != h.n) fail("shape", "%s is %dx%d", w, X->m, X->n);
    if ((X->values == nullptr) != pat && h.nnz()) fail("values", "%s: values %s", w, X->values ? "appeared" : "lost");
    expect_rows("wrong-matrix", w, g.rows, pat ? pattern(h.rows) : h.rows, true);
    if (diag) { if (!X->diagptr) fail("diagonal-marker", "%s lost its diagonal markers", w); for (int i = 0; i < m; ++i) if (X->diagptr[i] != X->rowptr[i] + h.dpos[i]) fail("diagonal-marker", "%s: diagonal marker of row %d is %d, should be %d", w, i, X->diagptr[i], X->rowptr[i] + h.dpos[i]); }
    if (halo) { if (!X->extptr) fail("external-marker", "%s lost its partial-row markers", w); for (int i = 0; i < m; ++i) if (X->extptr[i] != X->rowptr[i] + h.epos[i]) fail("external-marker", "%s: partial-row marker of row %d is %d, should be %d", w, i, X->extptr[i], X->rowptr[i] + h.epos[i]); }
  };
  std::vector<std::map<int, double>> loc((size_t)m); for (int i = 0; i < m; ++i) for (size_t k = 0; k < h.rows[i].size(); ++k) if (!halo || (int)k < h.epos[i]) loc[i][h.rows[i][k].first] = h.rows[i][k].second;
  bool fulldiag = sq; if (sq) for (int i = 0; i < m; ++i) fulldiag = fulldiag && loc[i].count(i);
  for (int o = 0; o < nops; ++o) switch ((int)pick(9)) {
  case 0: A->make0BasedIndexing(); base = 0; probe("make0based"); whole("converted matrix", A, base); break;
  case 1: A->make1BasedIndexing(); base = 1; probe("make1based"); whole("converted matrix", A, base); break;
  case 2: { bool cv = chance(1, 2), pr = chance(1, 3), ref = true; // without an external marker only square matrices are symmetric
    if (!halo && h.m != h.n) ref = false; else for (int i = 0; i < m; ++i) for (auto &e : loc[i]) if (e.first != i && e.first < m) { auto it = loc[e.first].find(i); if (it == loc[e.first].end() || (cv && it->second != e.second)) ref = false; }
    bool got = pr ? A->isSymmetric(cv, pr) : cv ? A->isSymmetric() : A->isSymmetric(cv); probe(ref ? "symmetric" : "not-symmetric"); if (got != ref) fail("wrong-symmetry", "isSymmetric(values=%d, print=%d) says %d", cv, pr, got); break; }
  case 3: if (sq) { bool ref = false; for (int i = 0; i < m; ++i) { bool ok = false; for (auto &e : h.rows[i]) ok |= e.first == i && e.second != 0; ref |= !ok; } bool got = A->hasZeroDiag(); probe(ref ? "zero-diagonal" : "no-zero-diagonal"); if (got != ref) fail("wrong-zero-diagonal", "hasZeroDiag says %d", got); } break;
  case 4: { int bw = INT_MIN, md = 0; for (int i = 0; i < m; ++i) { md = std::max(md, (int)h.rows[i].size()); for (auto &e : h.rows[i]) bw = std::max(bw, std::abs(e.first - i)); } int got = A->getMaxDegree(); if (got != md) fail("wrong-degree", "maximum degree %d, should be %d", got, md); if (h.nnz()) { got = A->getBandwidth(); if (got != bw) fail("wrong-bandwidth", "bandwidth %d, should be %d", got, bw); } if (A->getNnz() != h.nnz()) fail("wrong-nnz", "%d entries, should be %d", A->getNnz(), h.nnz()); probe("bandwidth"); break; }
  case 5: { bool srt = true; long tot = 0; for (auto &r : h.rows) { int lo = INT_MAX, hi = INT_MIN; for (size_t k = 0; k < r.size(); ++k) { lo = std::min(lo, r[k].first); hi = std::max(hi, r[k].first); if (k && r[k].first < r[k - 1].first) srt = false; } if (!r.empty()) tot += hi - lo; }
    if (!m) break; bool claim = srt && chance(1, 2); double got = claim ? A->getAverageWidth(true) : A->getAverageWidth(), want = (double)tot / m; if (got != want) fail("wrong-width", "average width %.17g, should be %.17g", got, want); probe("average-width"); break; }
  case 6: { SpMP::CSR *C = wl::csr_copy(A); whole("copy", C, base); if (!A->equals(*C)) fail("wrong-equality", "a matrix does not equal its copy"); if (!C->equals(*A, chance(1, 2))) fail("wrong-equality", "a copy does not equal its source");
    if (h.nnz()) { size_t k = chance(1, 2) ? (size_t)h.nnz() - 1 : pick((uint32_t)h.nnz()); int what = (int)pick(pat ? 1 : 2); int row = 0; while (C->rowptr[row + 1] - base <= (int)k) ++row;
      if (what == 0) { int old = C->colidx[k]; C->colidx[k] = old - base + 1 < h.n ? old + 1 : old - 1; if (h.n > 1 && A->equals(*C, chance(1, 2))) fail("wrong-equality", "a changed column index (entry %zu) goes unnoticed", k); C->colidx[k] = old; }
      else { C->values[k] += 1; if (A->equals(*C, chance(1, 2))) fail("wrong-equality", "a changed value (entry %zu) goes unnoticed", k); C->values[k] -= 1; }
      if (chance(1, 4)) { if (base) C->make0BasedIndexing(); else C->make1BasedIndexing(); if (A->equals(*C)) fail("wrong-equality", "matrices of different index base compare equal"); } }
    if (chance(1, 8)) { HCsr q = rect(1, 20, 1, 20, false); SpMP::CSR *D = to_sut(q); if ((q.m != h.m || q.n != h.n) && (A->equals(*D, chance(1, 2)) || D->equals(*A))) fail("wrong-equality", "matrices of different shape compare equal"); wl::csr_del(D); probe("other-shape"); }
    if (chance(1, 20)) { std::string t; sim::stdout_to(&t); A->print(); sim::stdout_to(nullptr); Rows pr((size_t)m); int r, c, k = 0; double v; const char *q = t.c_str(); while (sscanf(q, "%d %d %lf%n", &r, &c, &v, &k) == 3) { if (r - base < 0 || r - base >= m) fail("wrong-print", "printed row %d", r); pr[r - base].push_back({c - base, v}); q += k; } if (pr.size() == h.rows.size()) for (size_t i = 0; i < pr.size(); ++i) for (size_t j = 0; j < pr[i].size() && j < h.rows[i].size(); ++j) { double x = h.rows[i][j].second; if (fabs(pr[i][j].second - x) <= 1e-5 * fabs(x)) pr[i][j].second = x; } /* printed to six digits */ expect_rows("wrong-print", "printed matrix", pr, h.rows, true); probe("print"); }
    if (!pat && h.nnz() && chance(1, 8)) { wl::free_mm(C->values); C->values = nullptr; if (A->equals(*C, chance(1, 2)) || C->equals(*A)) fail("wrong-equality", "a matrix equals its pattern"); }
    probe("copy-and-compare"); wl::csr_del(C); whole("source of the copy", A, base); break; }
  case 7: if (fulldiag && !pat && (diag || !uns)) { bool z = false; for (int i = 0; i < m; ++i) z |= loc[i][i] == 0; bool had = A->idiag != nullptr; if (!z) { A->computeInverseDiag(); if (!A->idiag || !sim::readable(A->idiag, (size_t)m * 8)) fail("wrong-inverse-diagonal", "no inverse diagonal"); for (int i = 0; i < m; ++i) if (A->idiag[i] != 1 / loc[i][i]) fail("wrong-inverse-diagonal", "inverse diagonal of row %d is %g (diagonal %g)", i, A->idiag[i], loc[i][i]); probe(had ? "inverse-diagonal-present" : "inverse-diagonal"); if (!diag && A->diagptr) diag = true; } } break;
  default: if (fulldiag && (diag || !uns)) { A->constructDiagPtr(); diag = true; whole("matrix with diagonal markers", A, base); probe("diagonal-markers"); } break;
  }
  whole("matrix", A, base);
  wl::csr_del(A);
  sim::coverage((uint64_t)h.nnz() * 64 + T);
}
