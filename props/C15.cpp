// C15: matrices and vectors survive store/load; coordinate form converts exactly.
#include "mmio.h"
#include "mm_io.h"
const char *prop_id = "C15";
const char *prop_rule = "One run = one matrix or vector (random sparse entries in any order, values small or arbitrary doubles, either index base), one path through the file formats (binary store/load, Matrix Market store from compressed or coordinate form, hand-written general/symmetric/skew/pattern/integer text, transposed, forced-symmetric and padded loading, array vectors, the mtx2bin program, the format layer itself, coordinate-to-compressed conversion), one short-transfer plan, thread count and seeded interleaving.";
int spmp_mtx2bin_main(int, const char **);
void prop_setup() {}
namespace { using namespace mmio;
void io() { sim::IoPlan p; int k = (int)pick(5); if (k == 1) p.chunk = 1; else if (k == 2) p.chunk = range(2, 9); else if (k >= 3) { p.chunk = range(1, 40); p.chunk_random = true; } if (chance(1, 2)) p.buf = range(1, 64); p.seed = pick(1 << 16); if (k || p.buf) sim::fs_plan(p); }

bool ok(bool r, const char *what) { if (!r) fail("load-failed", "%s reports failure for a well-formed file", what); return r; }
SpMP::CSR *file_csr(const char *nm, int base, bool sym, int pad) { SpMP::CSR *A = nullptr; int code = 0; if (!sim::guarded([&] { A = wl::csr_file(nm, base, sym, pad); }, &code)) fail("load-failed", "constructing from a well-formed file exits with %d", code); return A; }
}
void prop_case() {
  int T = threads(8); sim::set_threads(T); int form = chance(1, 16) ? 8 : (int)pick(8);
  switch (form) {
  case 0: case 1: { // compressed rows -> file -> compressed rows
    HCsr h; bool graphlike = chance(1, 3); if (graphlike) h = from_graph(maybe_relabel(graph(1, 40)), 0, false, false); else h = rect(1, 40, 1, 40, chance(1, 3));
    h.base = (int)pick(2); bool dbl = chance(1, 2), pat = chance(1, 8); if (dbl) for (auto &r : h.rows) for (auto &e : r) e.second = value(1);
    SpMP::CSR *A = to_sut(h, graphlike && chance(1, 2)); if (pat) { wl::free_mm(A->values); A->values = nullptr; for (auto &r : h.rows) for (auto &e : r) e.second = 1; }
    Mat M = from_rows(h.m, h.n, h.rows); int b2 = (int)pick(2); io();
    note("%s %dx%d nnz=%d base %d->%d T=%d%s%s", form ? "bin" : "mtx", h.m, h.n, h.nnz(), h.base, b2, T, dbl ? " doubles" : "", pat ? " pattern" : "");
    std::string f = form ? "a.bin" : "a.mtx"; if (form) A->storeBin("a.bin"); else A->storeMatrixMarket("a.mtx");
    Got g = read("stored matrix", A); if (g.base != h.base) fail("source-changed", "storing changed the index base"); expect_rows("source-changed", "matrix after storing", g.rows, pat ? pattern(h.rows) : h.rows, true);
    if (A->diagptr) for (int i = 0; i < h.m; ++i) if (A->diagptr[i] != A->rowptr[i] + h.dpos[i]) fail("source-changed", "storing changed a diagonal marker");
    SpMP::CSR *B;
    if (form && chance(1, 2)) { B = wl::csr_default(); if (chance(1, 3)) { sim::fs_put("b.bin", bin(entries(GENERAL, REAL, false, 20))); B->loadBin("b.bin", (int)pick(2)); probe("reload-over-a-matrix"); } if (b2) B->loadBin("a.bin", b2); else B->loadBin("a.bin"); } else B = file_csr(f.c_str(), b2, false, 1);
    expect_csr("reloaded matrix", B, M, b2, !form, true);
    if (form) { // binary form keeps the entry order
      Got q = read("reloaded matrix", B); expect_rows("wrong-matrix", "reloaded matrix", q.rows, h.rows, true); if (dbl) probe("binary-doubles"); }
    probe(form ? "binary-round-trip" : "text-round-trip"); wl::csr_del(A); wl::csr_del(B); break; }
  case 2: { // coordinate -> file -> coordinate
    Mat M = entries(GENERAL, REAL, true); SpMP::COO *c = wl::coo_new(); c->m = M.m; c->n = M.n; c->nnz = (int)M.e.size(); c->rowidx = wl::malloc_int(M.e.size()); c->colidx = wl::malloc_int(M.e.size()); c->values = wl::malloc_double(M.e.size());
    for (size_t i = 0; i < M.e.size(); ++i) { c->rowidx[i] = M.e[i].x + 1; c->colidx[i] = M.e[i].y + 1; c->values[i] = M.e[i].v; }
    note("coo store %dx%d nnz=%zu T=%d", M.m, M.n, M.e.size(), T); io(); c->storeMatrixMarket("c.mtx"); expect_coo("stored coordinate matrix", c, M);
    SpMP::COO *d = chance(1, 2) ? c : wl::coo_new(); bool tr = chance(1, 3); ok(tr ? SpMP::loadMatrixMarketTransposed("c.mtx", *d) : SpMP::loadMatrixMarket("c.mtx", *d), "loading"); expect_coo("reloaded coordinate matrix", d, expand(M, GENERAL, false, tr, 1));
    probe("coo-round-trip"); if (d != c) wl::coo_del(d); wl::coo_del(c); break; }
  case 3: case 4: { // text of any form
    Sym s = chance(1, 2) ? GENERAL : chance(2, 3) ? SYMMETRIC : SKEW; Field f = s == SKEW ? (chance(1, 3) ? INTEGER : REAL) : (Field)pick(3); Mat M = entries(s, f, true);
    int base = chance(1, 3) ? 0 : 1; bool anyzero = false; for (auto &e : M.e) anyzero |= e.x == 0 || e.y == 0; if (!base && !anyzero) base = 1; // 0-based files are recognised by an index 0
    int how = (int)pick(3); bool tr = how == 2, force = !tr && chance(1, 3) && M.m == M.n; int pad = chance(1, 3) ? range(2, 9) : 1, b2 = (int)pick(2);
    if (force && s == GENERAL) { std::set<std::pair<int, int>> seen; std::vector<Ent> u; for (auto &e : M.e) if (seen.insert({e.x, e.y}).second) u.push_back(e); M.e = u; }
    std::string t = text(M, f, s, base, chance(1, 2)); sim::fs_put("t.mtx", t); Mat W = expand(M, s, force, tr, pad);
    note("text %s %s %d-based %dx%d nnz=%zu%s%s pad=%d T=%d", field_name(f), sym_name(s), base, M.m, M.n, M.e.size(), tr ? " transposed" : "", force ? " forced-symmetric" : "", pad, T); io();
    Ref rp = parse(t); if (rp.verdict != 2 && !(rp.verdict == 1)) fail("harness", "reference reader rejects a generated file: %s", rp.why.c_str());
    if (how == 0) { SpMP::CSR *A = file_csr("t.mtx", b2, force, pad); expect_csr("loaded matrix", A, W, b2, true, true); wl::csr_del(A); probe("constructor-from-text"); }
    else { SpMP::COO *c = wl::coo_new(); if (chance(1, 3)) { Sym s0 = (Sym)pick(2); Mat o = entries(s0, REAL, false, 12); sim::fs_put("o.mtx", text(o, REAL, s0, 1, false)); ok(SpMP::loadMatrixMarket("o.mtx", *c), "loading"); expect_coo("first loaded matrix", c, expand(o, s0, false, false, 1)); probe("coo-reused"); }
      ok(tr ? pad == 1 ? SpMP::loadMatrixMarketTransposed("t.mtx", *c) : SpMP::loadMatrixMarketTransposed("t.mtx", *c, pad) : pad != 1 ? SpMP::loadMatrixMarket("t.mtx", *c, force, pad) : force ? SpMP::loadMatrixMarket("t.mtx", *c, true) : SpMP::loadMatrixMarket("t.mtx", *c), "loading"); expect_coo("loaded coordinate matrix", c, W);
      SpMP::CSR *A = wl::csr_owned(c->m, c->n, c->nnz); bool sep = chance(1, 2); if (!sep) SpMP::dcoo2csr(A, c, b2, sep); else if (b2) SpMP::dcoo2csr(A, c, b2); else SpMP::dcoo2csr(A, c); if (!sep) { wl::free_mm(A->diag); wl::free_mm(A->idiag); A->diag = A->idiag = nullptr; } expect_csr("converted matrix", A, W, b2, true, true); expect_coo("coordinate matrix after conversion", c, W); wl::csr_del(A); wl::coo_del(c); probe("coordinate-to-compressed"); }
    probe(sym_name(s)); probe(field_name(f)); if (!base) probe("0-based-file"); if (pad > 1) probe("padded"); if (force) probe("forced-symmetric"); if (tr) probe("transposed-load"); break; }
  case 5: { // conversion alone
    Mat M = entries(GENERAL, REAL, true, 60); int n = (int)M.e.size(), b = (int)pick(2); bool srt = chance(2, 3); std::vector<int> ri, ci; std::vector<double> v; for (auto &e : M.e) { ri.push_back(e.x + 1); ci.push_back(e.y + 1); v.push_back(e.v); }
    note("dcoo2csr %dx%d nnz=%d base %d%s T=%d", M.m, M.n, n, b, srt ? " sorted" : "", T);
    int *rp = sut_ints((size_t)M.m + 1, -5), *cx = sut_ints((size_t)n, -5), *r2 = sut_ints(ri), *c2 = sut_ints(ci); double *vx = sut_dbls((size_t)n, -5), *v2 = sut_dbls(v);
    if (!srt || b) SpMP::dcoo2csr(M.m, n, rp, cx, vx, r2, c2, v2, srt, b); else SpMP::dcoo2csr(M.m, n, rp, cx, vx, r2, c2, v2);
    SpMP::CSR *A = wl::csr_wrap(M.m, M.n, rp, cx, vx); expect_csr("converted matrix", A, M, b, srt, false); wl::csr_del(A);
    if (!sim::readable(rp, 4ull * M.m + 4) || (n && (!sim::readable(cx, 4ull * n) || !sim::readable(vx, 8ull * n)))) fail("foreign-changed", "destroying a matrix released arrays it does not own"); sim::sut_free(rp); sim::sut_free(cx); sim::sut_free(vx);
    if (std::vector<int>(r2, r2 + n) != ri || std::vector<int>(c2, c2 + n) != ci || (n && memcmp(v2, v.data(), 8ull * n))) fail("source-changed", "conversion changed its input"); probe(srt ? "sorted-conversion" : "unsorted-conversion"); break; }
  case 6: { // vectors
    int m = length(0, 60), n = chance(1, 3) ? range(0, 4) : 1; std::string t = "%%MatrixMarket matrix array real general\n"; int k = (int)pick(3); for (int i = 0; i < k; ++i) t += "% note\n"; t += std::to_string(m) + " " + std::to_string(n) + "\n"; std::vector<double> w; for (int i = 0; i < m * n; ++i) { w.push_back(value((int)pick(2))); t += num(w.back()) + (chance(1, 8) ? "  \n" : "\n"); }
    if (chance(1, 4)) while (t.size() && t.back() == '\n' && m * n) t.pop_back();
    sim::fs_put("v.mtx", t); io(); note("vector %dx%d T=%d", m, n, T); double *v = nullptr; int gm = -1, gn = -1; ok(SpMP::loadVectorMatrixMarket("v.mtx", &v, &gm, &gn), "loading a vector");
    if (gm != m || gn != n) fail("wrong-vector", "vector is %dx%d, should be %dx%d", gm, gn, m, n); if (m * n && (!v || !sim::readable(v, 8ull * m * n))) fail("wrong-vector", "vector array too short"); for (int i = 0; i < m * n; ++i) if (v[i] != w[i]) fail("wrong-vector", "element %d is %.17g, should be %.17g", i, v[i], w[i]);
    if (v) wl::free_mm(v); probe("vector"); break; }
  case 8: { // the text format layer itself
    char tc[4] = {'M', 'C', "RCP"[pick(3)], 'G'}; if (chance(1, 3)) tc[3] = 'S'; Mat M = entries(tc[3] == 'S' ? SYMMETRIC : GENERAL, REAL, true); int n = (int)M.e.size(); bool cplx = tc[2] == 'C', pat = tc[2] == 'P'; std::vector<int> ri, ci; std::vector<double> v; for (auto &e : M.e) { ri.push_back(e.x + 1); ci.push_back(e.y + 1); v.push_back(e.v); if (cplx) v.push_back(value(1)); }
    note("format layer %.4s %dx%d nnz=%d", tc, M.m, M.n, n); int *r = sut_ints(ri), *c = sut_ints(ci); double *x = sut_dbls(v); char nm[] = "f.mtx"; io(); int rc = mm_write_mtx_crd(nm, M.m, M.n, n, r, c, pat ? nullptr : x, tc); if (rc) fail("store-failed", "writing a coordinate file reports %d", rc);
    sim::sut_free(r); sim::sut_free(c); sim::sut_free(x); int gm = -1, gn = -1, gz = -1, *gi = nullptr, *gj = nullptr; double *gv = nullptr; char gt[4] = {0};
    bool uns = tc[2] == 'R' && chance(1, 2); rc = uns ? mm_read_unsymmetric_sparse(nm, &gm, &gn, &gz, &gv, &gi, &gj) : mm_read_mtx_crd(nm, &gm, &gn, &gz, &gi, &gj, &gv, &gt); if (rc) fail("load-failed", "reading back a coordinate file reports %d", rc); if (!uns && memcmp(tc, gt, 4)) fail("wrong-file", "type %.4s reads back as %.4s", tc, gt);
    if (gm != M.m || gn != M.n || gz != n) fail("shape", "coordinate file reads back as %dx%d with %d entries", gm, gn, gz); if (n && (!sim::readable(gi, 4ull * n) || !sim::readable(gj, 4ull * n) || (!pat && !sim::readable(gv, 8ull * v.size())))) fail("bad-matrix", "an array is shorter than %d entries", n);
    for (int i = 0; i < n; ++i) { if (gi[i] != ri[i] - uns || gj[i] != ci[i] - uns) fail("wrong-matrix", "entry %d reads back at (%d,%d) instead of (%d,%d)", i, gi[i], gj[i], ri[i] - uns, ci[i] - uns); if (!pat) for (int t = 0; t <= cplx; ++t) if (gv[(1 + cplx) * i + t] != v[(1 + cplx) * i + t]) fail("wrong-matrix", "value %d reads back as %.17g instead of %.17g", i, gv[(1 + cplx) * i + t], v[(1 + cplx) * i + t]); }
    if (gi) sim::sut_free(gi); if (gj) sim::sut_free(gj); if (gv) sim::sut_free(gv); if (sim::fs_open_files()) fail("stream-left-open", "%d streams are open", sim::fs_open_files()); probe("format-layer"); break; }
  default: { // converter program
    bool vec = chance(1, 3); io(); const char *av[] = {"mtx2bin", "p.mtx", "p.bin", nullptr}; int rc = -1; std::string out;
    if (vec) { int m = size(1, 40); std::vector<double> w; std::string t = "%%MatrixMarket matrix array real general\n" + std::to_string(m) + " 1\n"; for (int i = 0; i < m; ++i) { w.push_back(value((int)pick(2))); t += num(w.back()) + "\n"; } sim::fs_put("p.mtx", t); note("mtx2bin vector %d T=%d", m, T);
      rc = spmp_mtx2bin_main(3, av); if (rc) fail("load-failed", "mtx2bin returns %d", rc); std::string want; put32(want, m); for (double d : w) want.append((const char *)&d, 8); sim::fs_get("p.bin", &out); if (out != want) fail("wrong-vector", "mtx2bin wrote %zu bytes that are not the vector", out.size()); }
    else { Sym s = (Sym)pick(2); Mat M = entries(s, REAL, false); sim::fs_put("p.mtx", text(M, REAL, s, 1, chance(1, 2))); note("mtx2bin matrix %dx%d nnz=%zu T=%d", M.m, M.n, M.e.size(), T); Mat W = expand(M, s, false, false, 1);
      int code = 0; if (!sim::guarded([&] { rc = spmp_mtx2bin_main(3, av); }, &code) || rc) fail("load-failed", "mtx2bin ends with %d/%d", rc, code); sim::fs_get("p.bin", &out); Ref r = parse_bin(out); if (r.verdict != 2) fail("wrong-file", "mtx2bin wrote a damaged file: %s", r.why.c_str()); if (r.mat.m != W.m) fail("wrong-file", "mtx2bin wrote %d rows", r.mat.m); expect_rows("wrong-matrix", "converted file", to_rows(r.mat), to_rows(W)); if (r.mat.n != W.n) fail("wrong-file", "mtx2bin wrote %d columns", r.mat.n); }
    probe("mtx2bin"); break; }
  }
  sim::coverage((uint64_t)form * 1000003 + sim::now() / 512);
}
