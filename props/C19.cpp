// C19: histories of operations on shared objects; everything taken is given back, once.
#include "mmio.h"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "Utils.hpp"
#include "synk/barrier.hpp"
extern "C" int spmp_sim_level_thresh, spmp_sim_par_thr;
const char *prop_id = "C19";
const char *prop_rule = "One run = a history of up to 14 operations on a growing set of matrices, coordinate matrices and schedules (build, copy, transpose, permute, split, symmetrise, reorder, components, schedule and reschedule, products, base changes, store and load of intact, damaged and missing files over old contents, vectors, conversions, grid matrices, barriers, pool memory), with read, write, open, close and allocation faults in the file operations and objects destroyed in between in any order; after every operation each surviving object must still have its own contents, and after destroying all of them no memory and no stream may be left.";
void prop_setup() {}
namespace { using namespace mmio;
struct M { SpMP::CSR *A; Rows rows; int m, n, base; bool sym, halo; }; // sym: symmetric pattern, full diagonal, sorted rows
struct C { SpMP::COO *c; std::vector<int> r, k; std::vector<double> v; int m, n; };
struct S { SpMP::LevelSchedule *s; std::vector<int> perm; bool pool; };
struct World { std::vector<M> ms; std::vector<C> cs; std::vector<S> ss; int T; bool pool; } W;
struct Buf { void *p; Buf(void *q) : p(q) {} ~Buf() { if (p) sim::sut_free(p); } operator int *() { return (int *)p; } operator double *() { return (double *)p; } };
void snap(const char *what, M &x) { Got g = read(what, x.A); x.rows = g.rows; x.m = x.A->m; x.n = x.A->n; x.base = g.base; }
void add(const char *what, SpMP::CSR *A, bool sym = false, bool halo = false) { M x{A, {}, 0, 0, 0, sym, halo}; snap(what, x); W.ms.push_back(x); }
void snapc(C &x) { SpMP::COO *c = x.c; if (c->nnz < 0 || !sim::readable(c->rowidx, (size_t)c->nnz * 4) || !sim::readable(c->colidx, (size_t)c->nnz * 4) || !sim::readable(c->values, (size_t)c->nnz * 8)) fail("bad-matrix", "a coordinate array is shorter than %d entries", c->nnz); x.m = c->m; x.n = c->n; x.r.assign(c->rowidx, c->rowidx + c->nnz); x.k.assign(c->colidx, c->colidx + c->nnz); x.v.assign(c->values, c->values + c->nnz); }
void snaps(S &x, int m) { if (!sim::readable(x.s->threadContToOrigPerm, (size_t)m * 4) && !x.pool) fail("bad-schedule", "the permutation of a schedule is not its own memory"); x.perm.assign(x.s->threadContToOrigPerm, x.s->threadContToOrigPerm + m); }
void verify(const char *after) {
  for (auto &x : W.ms) { Got g = read(after, x.A); if (g.base != x.base || x.A->m != x.m || x.A->n != x.n) fail("other-object-changed", "after %s another matrix has shape %dx%d base %d instead of %dx%d base %d", after, x.A->m, x.A->n, g.base, x.m, x.n, x.base); Rows w = x.rows; if (!g.hasval) w = pattern(w); expect_rows("other-object-changed", after, g.rows, w, true); }
  for (auto &x : W.cs) { C y = x; if (x.c->nnz != (int)x.r.size()) fail("other-object-changed", "after %s a coordinate matrix has %d entries instead of %zu", after, x.c->nnz, x.r.size()); snapc(y); if (y.r != x.r || y.k != x.k) fail("other-object-changed", "after %s a coordinate matrix changed", after); }
  for (auto &x : W.ss) { S y = x; if (x.perm.empty()) continue; snaps(y, (int)x.perm.size()); if (y.perm != x.perm) fail("other-object-changed", "after %s a schedule changed", after); }
}
M &anym() { return W.ms[pick((uint32_t)W.ms.size())]; }
M *symm(bool halo_ok) { std::vector<M *> v; for (auto &x : W.ms) if (x.sym && (halo_ok || !x.halo)) v.push_back(&x); return v.empty() ? nullptr : v[pick((uint32_t)v.size())]; }
void fresh() {
  if (chance(2, 3)) { Graph g = maybe_relabel(graph(1, 30)); bool halo = chance(1, 5); HCsr h = from_graph(g, (int)pick(2), false, halo); bool d = chance(1, 2); add("new matrix", to_sut(h, d, halo), true, halo); note("sym(%d)", h.m); }
  else { HCsr h = rect(1, 20, 1, 20, chance(1, 2)); h.base = (int)pick(2); add("new matrix", to_sut(h)); note("rect(%d,%d)", h.m, h.n); }
  if (chance(1, 8)) { M &x = W.ms.back(); wl::free_mm(x.A->values); x.A->values = nullptr; x.rows = pattern(x.rows); }
}
bool faulty; // an allocation fault is armed
void arm(size_t len, bool alloc) { sim::IoPlan p; p.seed = pick(1 << 16); if (chance(1, 2)) { p.chunk = range(1, 40); p.chunk_random = chance(1, 2); } if (chance(1, 2)) p.buf = range(1, 64);
  switch (pick(8)) { case 1: case 2: p.fail_read_at = (long)pick((uint32_t)len + 1); break; case 3: p.fail_open = 0; break; case 4: if (alloc) sim::alloc_fail_after(range(1, 9)); break; case 5: p.fail_write_at = (long)pick((uint32_t)len + 1); break; case 6: if (chance(1, 2)) p.close_fails = true; break; } sim::fs_plan(p); }
void disarm() { sim::alloc_fail_after(0); sim::fs_plan_clear(); }
std::string hurt(std::string t) { if (t.empty()) return t; switch (pick(9)) { case 0: case 1: return t.substr(0, pick((uint32_t)t.size())); case 2: { size_t p = t.find('\n'); return t.insert(p == std::string::npos ? 0 : p + 1, "garbage\n"); } case 3: return t + "1 1 1\n"; case 4: { size_t p = t.rfind(' '); if (p != std::string::npos) t.erase(p); return t; } case 5: t[0] = 'x'; return t; case 6: { size_t p = t.find("coordinate"); if (p != std::string::npos) t.replace(p, 10, "array"); return t; } case 7: { size_t p = t.find("real"); if (p != std::string::npos) t.replace(p, 4, "complex"); return t; } default: { size_t p = t.rfind('\n', t.size() - 2); if (p != std::string::npos) t.insert(p + 1, "77"); return t; } } }
// false: the process ended
bool op() {
  int k = (int)pick(31); char what[64]; int code = 0; snprintf(what, sizeof what, "operation %d", k);
  if (W.ms.empty()) k = 0;
  switch (k) {
  case 0: fresh(); break;
  case 1: { M &x = anym(); bool s = x.sym, h = x.halo; note("copy"); SpMP::CSR *B = wl::csr_copy(x.A); add("copy", B, s, h); break; }
  case 2: { M &x = anym(); bool s = x.sym && !x.halo; note("transpose"); SpMP::CSR *B = x.A->transpose(); add("transpose", B, s); probe("transpose"); break; }
  case 3: { M &x = anym(); std::vector<int> p = perm(x.m), q((size_t)x.m); for (int i = 0; i < x.m; ++i) q[p[i]] = i; bool sq = x.m == x.n || (x.sym && x.A->extptr); if (x.A->diagptr && !x.sym) { wl::free_mm(x.A->diagptr); x.A->diagptr = nullptr; } bool sort = pick(2); note("permute%s", sort ? " sorted" : ""); if (!sq) p = perm(x.n); if (x.halo && !x.A->extptr) break; Buf cp = sut_ints(p), ri = sut_ints(q); bool s = x.sym && sort, h = x.halo; SpMP::CSR *B = x.A->permute(cp, ri, sort); add("permute", B, s, h); probe("permute"); break; }
  case 4: { M &x = anym(); if (x.A->diagptr && !x.sym) break; note("permuteRows"); Buf ri = sut_ints(perm(x.m)); SpMP::CSR *B; if (chance(1, 4)) { B = x.A->permuteRowptr(ri); wl::csr_del(B); } else { B = x.A->permuteRows(ri); add("permuteRows", B); } probe("permuteRows"); break; }
  case 5: { M *x = symm(true); if (!x || !x->A->values || (x->halo && !x->A->extptr)) break; SpMP::CSR *A = x->A; SpMP::CSR *L = nullptr, *U = nullptr; note("splitLU"); // into new objects or over old ones
    A->computeInverseDiag();
    auto target = [&]() -> SpMP::CSR * { if (chance(1, 3) && W.ms.size() > 1) { size_t i = pick((uint32_t)W.ms.size()); if (W.ms[i].A != A) { SpMP::CSR *t = W.ms[i].A; W.ms.erase(W.ms.begin() + (long)i); probe("split-over-old"); return t; } } return wl::csr_default(); };
    L = target(); U = target(); SpMP::splitLU(*A, L, U); add("lower part", L); add("upper part", U); probe("splitLU"); break; }
  case 6: { M *x = symm(true); SpMP::CSR *A; bool own = false; if (x && chance(1, 2)) A = x->A; else { HCsr h; h.m = h.n = size(1, 20); h.base = (int)pick(2); h.rows.resize((size_t)h.m); for (int i = 0; i < h.m; ++i) { std::set<int> q{i}; for (int t = (int)pick(3); t-- > 0;) q.insert((int)pick((uint32_t)h.m)); for (int j : q) { if (j == i) h.dpos.push_back((int)h.rows[i].size()); h.rows[i].push_back({j, 1.0}); } } A = to_sut(h, pick(2)); own = true; } note("symmetric pattern"); if (x && x->halo && A == x->A && !A->extptr) break; int *a = nullptr, *b = nullptr, *c = nullptr, *d = nullptr; SpMP::getSymmetricNnzPattern(A, &a, &b, &c, &d); wl::free_mm(a); wl::free_mm(b); wl::free_mm(c); wl::free_mm(d); if (own) wl::csr_del(A); probe("symmetric-pattern"); break; }
  case 7: case 8: { M *x = symm(false); if (!x || x->m != x->n) break; spmp_sim_par_thr = (int[]){65536, 1, 2, 4, 8}[pick(5)]; int how = (int)pick(3); note(how == 2 ? "bfs" : "rcm"); Buf p = sut_ints((size_t)x->m, -1), q = sut_ints((size_t)x->m, -1); if (how == 2) x->A->getBFSPermutation(p, q); else x->A->getRCMPermutation(p, q, how); spmp_sim_par_thr = 65536; probe(how == 2 ? "bfs" : "rcm"); break; }
  case 9: { M *x = symm(false); if (!x || x->m != x->n) break; note("components"); int num, *a = nullptr, *b = nullptr, *c = nullptr, *d = nullptr; wl::find_components(x->A, nullptr, &num, &a, &b, &c, &d); wl::del_intv(a); wl::del_intv(b); wl::del_intv(c); wl::del_intv(d); probe("components"); break; }
  case 10: { M &x = anym(); if (!x.m || !x.n) break; note("bipartite"); SpMP::CSR *t = x.A->transpose(); Buf rp = sut_ints((size_t)x.m, -1), ri = sut_ints((size_t)x.m, -1), cp = sut_ints((size_t)x.n, -1), ci = sut_ints((size_t)x.n, -1); wl::bfs_bipartite(*x.A, *t, rp, ri, cp, ci); wl::csr_del(t); probe("bipartite"); break; }
  case 11: case 12: case 13: { M *x = symm(true); if (!x || x->m == 0) break; bool re = !W.ss.empty() && chance(1, 2); S z; if (re) { size_t i = pick((uint32_t)W.ss.size()); z = W.ss[i]; W.ss.erase(W.ss.begin() + (long)i); probe("reschedule"); } else { z = S{wl::ls_new(), {}, W.pool && chance(1, 2)}; z.s->useMemoryPool = z.pool; }
    z.s->useBarrier = chance(1, 4); z.s->transitiveReduction = !chance(1, 3); z.s->fuseSpMV = chance(1, 3); z.s->aggregateForVectorization = chance(1, 4); spmp_sim_level_thresh = (int[]){64, 0, 1, 4}[pick(4)]; note("%sschedule%s", re ? "re" : "", z.pool ? " in pool" : "");
    int how = x->halo ? x->A->extptr ? 0 : -1 : (int)pick(4); if (how == 3 && !x->A->diagptr) how = 2; if (how < 0) { if (re) { wl::ls_del(z.s); break; } wl::ls_del(z.s); break; }
    wl::construct(z.s, x->A, how, false); snaps(z, x->m); W.ss.push_back(z); probe("schedule"); if (z.pool) probe("pool-schedule"); break; }
  case 14: { M &x = anym(); note("base"); if (pick(2)) x.A->make1BasedIndexing(); else x.A->make0BasedIndexing(); x.base = x.A->getBase(); break; }
  case 15: { M *x = symm(true); if (!x || !x->A->values) break; note("diag"); if (!(x->halo && !x->A->extptr)) x->A->constructDiagPtr(); x->A->computeInverseDiag(); if (chance(1, 2)) x->A->computeInverseDiag(); break; }
  case 16: { M &x = anym(); if (!x.A->values) break; note("product"); Buf v = sut_dbls((size_t)x.n, 1.0), w = sut_dbls((size_t)x.m, 2.0); bool alias = x.m == x.n && pick(2); bool y = pick(2); if (chance(1, 2)) x.A->multiplyWithVector(alias ? (double *)v : (double *)w, 1.0, v, y ? 2.0 : 0.0, (double *)w, 1.0); else x.A->multiplyWithVector(w, v); probe("product"); break; }
  case 17: { M &x = anym(); note("store"); bool bin_ = pick(2); arm(40 + 20 * x.rows.size(), false); if (bin_ && x.A->values) x.A->storeBin("w.bin"); else x.A->storeMatrixMarket("w.mtx"); disarm(); probe("store"); break; }
  case 18: case 19: { // text or binary file into a new matrix
    bool b = pick(2), ctor = !b || chance(1, 3), bad = !ctor || chance(1, 6); std::string t; if (b) { Mat a = entries(GENERAL, REAL, false, 12); std::sort(a.e.begin(), a.e.end()); t = bin(a); if (bad && chance(1, 2)) t = t.substr(0, pick((uint32_t)t.size() + 1)); } else { Sym s = (Sym)pick(3); Field f = s == SKEW ? REAL : (Field)pick(3); t = text(entries(s, f, false, 12), f, s, 1, false); if (bad && chance(1, 2)) t = hurt(t); }
    const char *nm = b ? "r.bin" : "r.mtx"; if (!bad || !chance(1, 6)) sim::fs_put(nm, t); note("load %s", nm); SpMP::CSR *A = nullptr;
    if (!ctor) { bool old = chance(1, 2); size_t i = pick((uint32_t)W.ms.size()); if (old) { A = W.ms[i].A; W.ms.erase(W.ms.begin() + (long)i); } else A = wl::csr_default(); arm(t.size(), true); bool ok = sim::guarded([&] { A->loadBin(nm, (int)pick(2)); }, &code); disarm(); if (!ok) { probe("exit"); return false; } if (!A->rowptr) { probe("load-failed"); wl::csr_del(A); } else add("loaded matrix", A); probe("loadBin"); }
    else { if (bad) arm(t.size(), true); bool ok = sim::guarded([&] { A = wl::csr_file(nm, (int)pick(2), !b && chance(1, 4), 1 + (int)pick(3)); }, &code); disarm(); if (!ok) { probe("exit"); return false; } add("loaded matrix", A); }
    break; }
  case 20: case 21: { Sym s = (Sym)pick(3); Field f = s == SKEW ? REAL : (Field)pick(3); std::string t = text(entries(s, f, false, 12), f, s, chance(1, 4) ? 0 : 1, false); if (chance(2, 3)) t = hurt(t); if (!chance(1, 12)) sim::fs_put("c.mtx", t); note("load coo"); C z; bool old = !W.cs.empty() && chance(1, 2); if (old) { size_t i = pick((uint32_t)W.cs.size()); z = W.cs[i]; W.cs.erase(W.cs.begin() + (long)i); probe("coo-reused"); } else z.c = wl::coo_new();
    arm(t.size(), true); bool res = false; bool ok = sim::guarded([&] { res = pick(2) ? SpMP::loadMatrixMarket("c.mtx", *z.c, s == GENERAL && chance(1, 4), 1 + (int)pick(3)) : SpMP::loadMatrixMarketTransposed("c.mtx", *z.c, 1 + (int)pick(3)); }, &code); disarm(); if (!ok) { probe("exit"); return false; }
    if (res) { snapc(z); W.cs.push_back(z); probe("coo-loaded"); } else { probe("load-failed"); if (old) { snapc(z); W.cs.push_back(z); } else wl::coo_del(z.c); } break; }
  case 22: { if (W.cs.empty()) break; C &z = W.cs[pick((uint32_t)W.cs.size())]; if (pick(2)) { note("store coo"); arm(40 + 20 * z.r.size(), false); z.c->storeMatrixMarket("w.mtx"); disarm(); } else { note("coo to csr"); SpMP::CSR *A = chance(1, 2) ? wl::csr_default() : nullptr; if (A) A->alloc(z.c->m, z.c->nnz, pick(2)); else A = wl::csr_owned(z.c->m, z.c->n, z.c->nnz); SpMP::dcoo2csr(A, z.c, (int)pick(2), A->diag != nullptr); add("converted matrix", A); probe("coo-to-csr"); } break; }
  case 23: { note("vector file"); int m = range(1, 6), n = range(1, 3); std::string t = "%%MatrixMarket matrix array real general\n" + std::to_string(m) + " " + std::to_string(n) + "\n"; for (int i = 0; i < m * n; ++i) t += std::to_string(i) + "\n"; if (chance(1, 2)) t = hurt(t); sim::fs_put("v.mtx", t); arm(t.size(), true); double *v = nullptr; int a, b; bool res = false; bool ok = sim::guarded([&] { res = SpMP::loadVectorMatrixMarket("v.mtx", &v, &a, &b); }, &code); disarm(); if (!ok) { probe("exit"); return false; } if (res) wl::free_mm(v); probe(res ? "vector" : "load-failed"); break; }
  case 24: { note("grid"); SpMP::CSR *A; int x = range(1, 4), y = range(1, 4), z = range(1, 4); if (chance(1, 2) && W.ms.size() > 1) { size_t i = pick((uint32_t)W.ms.size()); A = W.ms[i].A; W.ms.erase(W.ms.begin() + (long)i); probe("grid-over-old"); } else A = wl::csr_default(); if (chance(1, 3)) SpMP::generate3D27PtLaplacian(A, x, (int)pick(2)); else SpMP::generate3D27PtLaplacian(A, x, y, z, (int)pick(2)); add("grid", A, true); probe("grid"); break; }
  case 25: { note("vectors"); int n = (int)pick(40); std::vector<double> v((size_t)n, 2.5); Buf a = sut_dbls(v), p = sut_ints(perm(n)); switch (pick(3)) { case 0: wl::free_mm(SpMP::getReorderVector(a, p, n)); break; case 1: wl::free_mm(SpMP::getReorderVectorWithInversePerm(a, p, n)); break; default: if (pick(2)) SpMP::reorderVector(a, p, n); else SpMP::reorderVectorWithInversePerm(a, p, n); } SpMP::isPerm(p, n); break; }
  case 26: { note("queries"); M &x = anym(); x.A->isSymmetric(pick(2), false); x.A->hasZeroDiag(); x.A->getBandwidth(); x.A->getMaxDegree(); for (auto &y : W.ms) if (y.m == x.m && y.n == x.n && y.A->values && x.A->values) x.A->equals(*y.A); break; }
  case 28: case 29: { // a matrix around the caller's arrays: whatever is done with it, the arrays stay the caller's
    note("wrap"); HCsr h = chance(1, 2) ? from_graph(maybe_relabel(graph(1, 20)), 0, false, false) : rect(1, 12, 1, 12, chance(1, 2)); h.base = (int)pick(2); size_t nnz = (size_t)h.nnz(); std::vector<int> rp{h.base}, cx; std::vector<double> vx; bool gr = !h.dpos.empty();
    for (auto &r : h.rows) { for (auto &e : r) { cx.push_back(e.first + h.base); vx.push_back(e.second); } rp.push_back((int)cx.size() + h.base); }
    int *fr = sut_ints(rp), *fc = sut_ints(cx); bool val = chance(3, 4); double *fv = val ? sut_dbls(vx) : nullptr; SpMP::CSR *A = wl::csr_wrap(h.m, h.n, fr, fc, fv); bool over = false, based = false; probe("wrapped");
    for (int t = (int)pick(4); t-- > 0 && !over;) switch (pick(7)) {
      case 0: add("copy of a wrapped matrix", wl::csr_copy(A), gr); break;
      case 1: add("transpose of a wrapped matrix", A->transpose(), gr); break;
      case 2: if (val) { Buf v = sut_dbls((size_t)h.n, 1.0), w = sut_dbls((size_t)h.m, 2.0); A->multiplyWithVector(w, v); } break;
      case 3: if (gr && val) { A->constructDiagPtr(); A->computeInverseDiag(); } break;
      case 4: if (pick(2)) A->make1BasedIndexing(); else A->make0BasedIndexing(); based = true; break;
      case 5: if (gr && val) { SpMP::CSR *L = wl::csr_default(), *U = wl::csr_default(); A->computeInverseDiag(); SpMP::splitLU(*A, L, U); add("lower part", L); add("upper part", U); } break;
      default: over = true; switch (pick(3)) { case 0: SpMP::generate3D27PtLaplacian(A, range(1, 3), range(1, 3), range(1, 3), (int)pick(2)); add("grid", A, true); break; case 1: sim::fs_put("o.bin", bin(entries(GENERAL, REAL, false, 12))); A->loadBin("o.bin"); add("loaded matrix", A); break; default: { Mat q = entries(GENERAL, REAL, false, 12); SpMP::COO *c = wl::coo_new(); sim::fs_put("o.mtx", text(q, REAL, GENERAL, 1, false)); if (!SpMP::loadMatrixMarket("o.mtx", *c)) { wl::coo_del(c); over = false; break; } A->dealloc(); A->m = c->m; A->n = c->n; A->alloc(c->m, c->nnz); SpMP::dcoo2csr(A, c); wl::coo_del(c); add("converted matrix", A); } } if (over) probe("wrapped-overwritten"); }
    if (!over) wl::csr_del(A);
    if (!sim::readable(fr, rp.size() * 4) || (nnz && (!sim::readable(fc, nnz * 4) || (val && !sim::readable(fv, nnz * 8))))) fail("foreign-released", "a matrix released arrays it does not own");
    int d = fr[0] - h.base; if (d && !based) fail("foreign-changed", "the caller's arrays changed"); for (size_t i = 0; i < rp.size(); ++i) if (fr[i] != rp[i] + d) fail("foreign-changed", "row pointer %zu of the caller changed", i); for (size_t i = 0; i < nnz; ++i) if (fc[i] != cx[i] + d || (val && fv[i] != vx[i])) fail("foreign-changed", "entry %zu of the caller's arrays changed", i);
    sim::sut_free(fr); sim::sut_free(fc); if (val) sim::sut_free(fv); break; }
  default: { size_t i; switch (pick(3)) { case 0: i = pick((uint32_t)W.ms.size()); note("drop matrix"); { M x = W.ms[i]; W.ms.erase(W.ms.begin() + (long)i); wl::csr_del(x.A); } break;
    case 1: if (!W.cs.empty()) { i = pick((uint32_t)W.cs.size()); note("drop coo"); C x = W.cs[i]; W.cs.erase(W.cs.begin() + (long)i); wl::coo_del(x.c); } break;
    default: if (!W.ss.empty()) { i = pick((uint32_t)W.ss.size()); note("drop schedule"); S x = W.ss[i]; W.ss.erase(W.ss.begin() + (long)i); wl::ls_del(x.s); } } } }
  if (sim::fs_open_files()) fail("stream-left-open", "%d streams are open after the operation", sim::fs_open_files());
  verify(what); return true;
}
}
void prop_case() {
  W = World(); W.T = threads(6); sim::set_threads(W.T); uint64_t s0 = sim::alloc_serial(); sim::mmap_mode((int)pick(2)); int maps0 = sim::mmap_stats().maps - sim::mmap_stats().unmaps;
  W.pool = chance(1, 4); if (W.pool) SpMP::MemoryPool::getSingleton()->initialize((size_t)1 << 20);
  note("T=%d%s:", W.T, W.pool ? " pool" : ""); int nops = range(1, 14); fresh();
  for (int i = 0; i < nops; ++i) if (!op()) { sim::coverage(i); return; }
  // destroy everything in any order
  while (!W.ms.empty() || !W.cs.empty() || !W.ss.empty()) { uint32_t i = pick((uint32_t)(W.ms.size() + W.cs.size() + W.ss.size())); if (i < W.ms.size()) { auto *A = W.ms[i].A; W.ms.erase(W.ms.begin() + i); wl::csr_del(A); continue; } i -= (uint32_t)W.ms.size(); if (i < W.cs.size()) { auto *c = W.cs[i].c; W.cs.erase(W.cs.begin() + i); wl::coo_del(c); continue; } i -= (uint32_t)W.cs.size(); auto *s = W.ss[i].s; W.ss.erase(W.ss.begin() + i); wl::ls_del(s); }
  if (chance(1, 2)) wl::ensure_barrier();
  synk::Barrier::deleteInstance(); if (W.pool) SpMP::MemoryPool::getSingleton()->finalize();
  int k; std::string l = sim::leaks_since(s0, &k); if (k) fail("not-released", "%d blocks are still held after all objects are destroyed: %s", k, l.c_str());
  if (sim::mmap_stats().maps - sim::mmap_stats().unmaps != maps0) fail("not-released", "a mapping is still held");
  sim::coverage(sim::now() / 16);
}
