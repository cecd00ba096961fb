// C21: the steps a solver chains - load, symmetrise, reorder, permute, split,
// schedule, sweep, map back - together give the sequential result.
#include "sweeps.h"
#include "Utils.hpp"
const char *prop_id = "C21";
const char *prop_rule = "One run = one square system (14 symmetric graph families or the same with entries removed; full diagonal; either base) taken through one chain of library steps: stored and loaded again or not (binary, Matrix Market), breadth-first or reverse Cuthill-McKee reordering or none, matrix and vectors permuted, base changed, split into triangular parts, scheduled with random options, permuted to schedule order or not, 1-4 forward or backward sweeps and one product, results mapped back; thread count and one seeded interleaving of all of it.";
extern "C" int spmp_sim_par_thr;
void prop_setup() {}
namespace { using namespace sched;
uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
struct Side { SpMP::CSR *M; const double *idiag; };
}
void prop_case() {
  int T = gen::threads(8); sim::set_threads(T);
  Graph g = maybe_relabel(graph(1, 45)); int m = g.n;
  int base = (int)pick(2); bool unsym = chance(1, 3) && m > 0;
  HCsr h = from_graph(g, base, false, false);
  for (int i = 0; i < m; ++i) for (auto &e : h.rows[i]) e.second = e.first == i ? (double)(1 << (i % 6)) * (i % 3 == 1 ? -1 : 1) : (double)((e.first * 31 + i * 17) % 23 - 11);
  gen::scale(h.rows, gen::wide());
  if (unsym) for (int i = 0; i < m; ++i) { auto &r = h.rows[i]; for (size_t k = 0; k < r.size();) if (r[k].first != i && chance(1, 3)) r.erase(r.begin() + (long)k); else ++k; for (size_t k = 0; k < r.size(); ++k) if (r[k].first == i) h.dpos[i] = h.epos[i] = (int)k; h.epos[i] = (int)r.size(); }
  int via = (int)pick(4), order = (int)pick(4), rebase = (int)pick(4);
  bool resort = chance(1, 2), bar = chance(1, 3), toperm = chance(2, 3), split = chance(1, 2);
  spmp_sim_par_thr = (int[]){1, 2, 4, 8, 65536}[pick(5)]; if (spmp_sim_par_thr >= m) spmp_sim_par_thr = m + 1;
  spmp_sim_level_thresh = (int[]){64, 0, 1, 4, 16}[pick(5)];
  note("%s n=%d nnz=%d base=%d T=%d%s via=%s order=%s%s%s%s%s", g.name.c_str(), m, h.nnz(), base, T, unsym ? " unsymmetric" : "", (const char *[]){"memory", "memory", "binary", "text"}[via], (const char *[]){"none", "bfs", "rcm", "rcm-no-source"}[order], resort ? " sorted" : "", bar ? " barrier" : "", toperm ? " permuted" : "", split ? " split" : "");

  // obtain the matrix
  SpMP::CSR *A = to_sut(h, via < 2 && chance(1, 2));
  if (via >= 2) {
    const char *f = via == 2 ? "a.bin" : "a.mtx"; int b2 = (int)pick(2);
    if (via == 2) A->storeBin(f); else A->storeMatrixMarket(f);
    wl::csr_del(A); A = nullptr; int code = 0;
    if (!sim::guarded([&] { A = wl::csr_file(f, b2, false, 1); }, &code)) fail("load-failed", "loading a stored matrix exits with %d", code);
    base = b2; probe("from-file");
  }
  if (A->m != m || A->n != m) fail("shape", "matrix is %dx%d, should be %dx%d", A->m, A->n, m, m);

  // pattern used for ordering
  SpMP::CSR *S = A; int *rp = nullptr, *ci = nullptr, *dp = nullptr, *ep = nullptr;
  std::vector<int> fwd((size_t)m), inv((size_t)m); for (int i = 0; i < m; ++i) fwd[i] = inv[i] = i;
  SpMP::CSR *B = A;
  if (order) {
    bool was = SpMP::getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci);
    if (!was) { S = wl::csr_wrap(m, m, rp, ci, nullptr); probe("ordering-of-symmetrised-pattern"); }
    int *p = sut_ints((size_t)m, -1), *q = sut_ints((size_t)m, -1);
    if (order == 1) S->getBFSPermutation(p, q); else S->getRCMPermutation(p, q, order == 2);
    expect_perm("ordering", "ordering", p, q, m);
    B = A->permute(p, q, resort); fwd.assign(p, p + m); inv.assign(q, q + m); probe("reordered");
    if (S != A) { wl::csr_del(S); wl::free_mm(rp); wl::free_mm(ci); wl::free_mm(dp); if (ep) wl::free_mm(ep); }
    sim::sut_free(p); sim::sut_free(q);
    if (!resort) { SpMP::CSR *t = B->transpose(), *u = t->transpose(); wl::csr_del(t); wl::csr_del(B); B = u; probe("sorted-by-transposing"); } // double transpose sorts rows
    wl::csr_del(A); A = B;
  }
  if (rebase == 1) B->make0BasedIndexing(); else if (rebase == 2) B->make1BasedIndexing();
  if (!B->diagptr) B->constructDiagPtr();
  B->computeInverseDiag();
  if (m && B->hasZeroDiag()) fail("zero-diagonal", "a full diagonal is reported to have a zero");

  SpMP::CSR *L = nullptr, *U = nullptr;
  if (split) { L = wl::csr_default(); U = wl::csr_default(); SpMP::splitLU(*B, L, U); probe("triangular-parts"); }

  // schedule
  SpMP::LevelSchedule *s = wl::ls_new(); s->useBarrier = bar; s->transitiveReduction = !chance(1, 3); s->aggregateForVectorization = chance(1, 4);
  rp = ci = dp = ep = nullptr;
  if (SpMP::getSymmetricNnzPattern(B, &rp, &dp, &ep, &ci)) wl::construct(s, B, chance(1, 3) ? range(5, 9) : (int)pick(4), false);
  else { SpMP::CSR *W = wl::csr_wrap(m, m, rp, ci, nullptr); W->diagptr = dp; W->extptr = ep; wl::construct(s, W, chance(1, 2) ? 3 : 4, false); W->diagptr = nullptr; W->extptr = nullptr; wl::csr_del(W); wl::free_mm(rp); wl::free_mm(ci); wl::free_mm(dp); if (ep) wl::free_mm(ep); probe("schedule-of-symmetrised-pattern"); }

  // to schedule order
  const int *P = s->origToThreadContPerm, *Q = s->threadContToOrigPerm;
  expect_perm("structure", "row order", P, Q, m);
  SpMP::CSR *MB = B, *ML = L, *MU = U;
  if (toperm) { bool st = chance(1, 2); if (split) { ML = L->permute(P, Q, st); MU = U->permute(P, Q, st); } MB = B->permute(P, Q, st); probe("permuted-to-schedule-order"); }

  // vectors: original numbering -> reordered -> schedule order
  wl_u64 salt = 1 + pick(1000);
  wl_u64 *x = sut_u64((size_t)m), *b = sut_u64((size_t)m), *id = sut_u64((size_t)m); double *v = sut_dbls((size_t)m, 0), *y = sut_dbls((size_t)m, -77);
  for (int i = 0; i < m; ++i) { x[i] = salt + (wl_u64)i * 77; b[i] = salt * 3 + (wl_u64)i; id[i] = (wl_u64)i; v[i] = (double)((i * 5 + (int)salt) % 19 - 9); }
  int *pf = sut_ints(fwd), *pi = sut_ints(inv);
  auto move = [&](wl_u64 *z, const int *p, const int *q) { if (chance(1, 2)) SpMP::reorderVector((double *)z, p, m); else SpMP::reorderVectorWithInversePerm((double *)z, q, m); };
  if (order) { move(x, pf, pi); move(b, pf, pi); move(id, pf, pi); move((wl_u64 *)v, pf, pi); }
  if (toperm) { move(x, P, Q); move(b, P, Q); move(id, P, Q); move((wl_u64 *)v, P, Q); }

  // sequential model on the original system, rows in the reordered sequence
  std::vector<wl_u64> rx((size_t)m), rb((size_t)m); for (int i = 0; i < m; ++i) { rx[i] = salt + (wl_u64)i * 77; rb[i] = salt * 3 + (wl_u64)i; }
  auto model = [&](int dir) {
    for (int k = 0; k < m; ++k) { int i = inv[(size_t)(dir ? m - 1 - k : k)]; wl_u64 t = rb[i];
      for (auto &e : h.rows[i]) { if (split && (e.first == i || (fwd[e.first] < fwd[i]) != (dir == 0))) continue; t += mxh(mxh(rx[e.first] ^ ((wl_u64)e.first * 0x632be59bd9b4e019ull)) ^ bits(e.second)); }
      for (auto &e : h.rows[i]) if (e.first == i) t ^= bits(1 / e.second);
      rx[i] = mxh(t); } };
  auto sweepof = [&](int dir) { wl::Sweep w; SpMP::CSR *M = split ? dir ? MU : ML : MB; if (!M->idiag || !M->values) fail("lost-data", "the matrix of the sweep has lost its %s", M->idiag ? "values" : "inverse diagonal"); w.s = s; w.m = m; w.kind = wl::SWEEP_GS; w.permuted = toperm; w.rowptr = M->rowptr; w.colidx = M->colidx; w.values = M->values; w.idiag = M->idiag; w.id = id; w.b = b; w.x = x; return w; };
  // every structure the sweeps will index
  if (split) { gen::read("lower part", ML); gen::read("upper part", MU); } gen::read("matrix", MB);
  int len = range(1, 4); std::vector<int> d; for (int i = 0; i < len; ++i) d.push_back((int)pick(2));
  if (!split && chance(1, 2)) { wl::Sweep w = sweepof(0); int *dd = sut_ints(d); if (bar) wl::sweep_barrier_inregion(w, dd, len); else wl::sweep_p2p_inregion(w, dd, len); for (int k : d) model(k); probe("one-region"); }
  else for (int k : d) { wl::Sweep w = sweepof(k); if (bar) wl::sweep_barrier(w, k); else wl::sweep_p2p(w, k); model(k); }
  // and a product
  if (chance(1, 2)) MB->multiplyWithVector(y, v); else MB->multiplyWithVector(y, 1, v, 0, nullptr, 0);

  // map back
  if (toperm) { move(x, Q, P); move((wl_u64 *)y, Q, P); }
  if (order) { move(x, pi, pf); move((wl_u64 *)y, pi, pf); }
  for (int i = 0; i < m; ++i) {
    if (x[i] != rx[i]) fail("wrong-solution", "row %d of the solution differs from the sequential one", i);
    double t = 0; for (auto &e : h.rows[i]) t += e.second * (double)((e.first * 5 + (int)salt) % 19 - 9);
    if (y[i] != t) fail("wrong-product", "row %d of the product is %g, should be %g", i, y[i], t);
  }
  if (toperm) { if (split) { wl::csr_del(ML); wl::csr_del(MU); } wl::csr_del(MB); }
  if (split) { wl::csr_del(L); wl::csr_del(U); }
  wl::csr_del(A); wl::ls_del(s);
  sim::coverage((uint64_t)h.nnz() * 64 + T);
}
