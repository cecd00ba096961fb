// C16: damaged files and failing I/O are reported, never silently absorbed.
#include "mmio.h"
const char *prop_id = "C16";
const char *prop_rule = "One run = one file (Matrix Market matrix or vector, binary) left intact, missing, truncated at any byte, with replaced header or size tokens, replaced, dropped, doubled or extra entries, or flipped bytes, and one fault plan (none, read error at any byte, open failure, failing allocation, short transfers), read by one of the loaders; or one store with a full disk, torn write or failing open/close at any byte followed by a reload of what reached the disk.";
void prop_setup() {}
namespace { using namespace mmio;
const char *big[] = {"0", "-1", "1", "2", "2147483647", "1000000000", "-2147483648", "300000000", "7", "x", "1.5", "", "4", "2147483646"};
// token positions of a text
struct Tok { size_t b, e; };
std::vector<Tok> tokens(const std::string &t, size_t from, size_t to) { std::vector<Tok> r; size_t p = from; while (p < to) { while (p < to && isspace((unsigned char)t[p])) ++p; size_t q = p; while (q < to && !isspace((unsigned char)t[q])) ++q; if (q > p) r.push_back({p, q}); p = q; } return r; }
std::string damage_text(std::string t) {
  std::vector<std::string> L; { size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size(); L.push_back(t.substr(p, q - p)); p = q + 1; } }
  size_t hdr = 1; while (hdr + 1 < L.size() && (L[hdr].empty() || L[hdr][0] == '%' || tokens(L[hdr], 0, L[hdr].size()).empty())) ++hdr; // index of the size line
  auto join = [&] { std::string s; for (auto &l : L) s += l + "\n"; return s; };
  int kind = (int)pick(12); size_t ne = L.size() > hdr + 1 ? L.size() - hdr - 1 : 0, at = ne ? hdr + 1 + pick((uint32_t)ne) : 0;
  switch (kind) {
  case 0: probe("damage:truncated"); return t.substr(0, pick((uint32_t)t.size() + 1));
  case 1: case 2: { probe("damage:size-line"); std::vector<Tok> k = tokens(L[hdr], 0, L[hdr].size()); if (k.empty()) return join(); Tok w = k[pick((uint32_t)k.size())]; std::string r = chance(1, 2) ? std::to_string(atoi(L[hdr].substr(w.b, w.e - w.b).c_str()) + range(-2, 2)) : big[pick(14)]; L[hdr] = L[hdr].substr(0, w.b) + r + L[hdr].substr(w.e); return join(); }
  case 3: { probe("damage:banner"); std::vector<Tok> k = tokens(L[0], 0, L[0].size()); Tok w = k[pick((uint32_t)k.size())]; static const char *b[] = {"array", "coordinate", "complex", "hermitian", "symmetric", "skew-symmetric", "general", "pattern", "real", "integer", "vector", "%%MatrixMarke", ""}; std::string r = b[pick(13)]; int ln = (int)pick(6); if (ln == 1) r = std::string(63, 'y'); if (ln == 2) r = std::string((size_t)range(64, 300), 'z'); L[0] = L[0].substr(0, w.b) + r + L[0].substr(w.e); return join(); }
  case 4: if (ne) { probe("damage:extra-entries"); int k = range(1, 20); for (int i = 0; i < k; ++i) L.push_back(L[at]); } return join();
  case 5: if (ne) { probe("damage:missing-entry"); L.erase(L.begin() + at); } return join();
  case 6: case 7: if (ne) { probe("damage:entry"); std::vector<Tok> k = tokens(L[at], 0, L[at].size()); if (k.empty()) return join(); Tok w = k[pick((uint32_t)k.size())]; std::string r = chance(1, 2) ? std::to_string(atoi(L[at].substr(w.b, w.e - w.b).c_str()) + range(-3, 3)) : chance(1, 2) ? std::to_string(atoi(L[hdr].c_str()) + range(-1, 2)) : big[pick(14)]; L[at] = L[at].substr(0, w.b) + r + L[at].substr(w.e); } return join();
  case 8: if (ne) { probe("damage:garbage-line"); L.insert(L.begin() + at, chance(1, 2) ? "garbage" : "% comment"); } return join();
  case 9: if (!t.empty()) { probe("damage:byte"); int k = range(1, 3); for (int i = 0; i < k; ++i) { size_t p = pick((uint32_t)t.size()); static const char c[] = " \n%0123456789.-exABM"; t[p] = c[pick(20)]; } } return t;
  case 10: probe("damage:long-line"); L.insert(L.begin() + 1, "%" + std::string((size_t)range(1000, 2100), chance(1, 2) ? 'c' : '7')); return join();
  default: probe("damage:no-size-line"); L.erase(L.begin() + hdr, L.end()); if (chance(1, 2)) L.push_back(chance(1, 2) ? "abc" : "3 3"); return join();
  }
}
std::string damage_bin(std::string t, int m) {
  auto set = [&](size_t o, int v) { memcpy(&t[o], &v, 4); }; auto get = [&](size_t o) { int v; memcpy(&v, &t[o], 4); return v; };
  static const int bigv[] = {-1, 0, 1, INT_MAX, INT_MIN, 0x20000000, 1000000000, 77, INT_MAX - 1};
  switch ((int)pick(6)) {
  case 0: probe("damage:truncated"); return t.substr(0, pick((uint32_t)t.size() + 1));
  case 1: { probe("damage:header"); size_t o = 4 * pick(4); set(o, chance(1, 2) ? get(o) + range(-2, 2) : bigv[pick(9)]); return t; }
  case 2: { probe("damage:row-length"); if (!m) return t; size_t o = 16 + 4 * pick((uint32_t)m); if (chance(1, 2)) { int d = range(1, 3); set(o, get(o) + d); if (m > 1 && chance(1, 2)) { size_t q = 16 + 4 * pick((uint32_t)m); set(q, get(q) - d); } } else set(o, bigv[pick(9)]); return t; }
  case 3: { probe("damage:column"); int nz = get(12); if (!nz) return t; size_t o = 16 + 4 * (size_t)m + 4 * pick((uint32_t)nz); set(o, chance(1, 2) ? get(8) + range(-1, 2) : bigv[pick(9)]); return t; }
  case 4: probe("damage:trailing"); return t + std::string((size_t)range(1, 40), 'q');
  default: probe("damage:empty"); return chance(1, 2) ? "" : t.substr(0, pick(17));
  }
}
// returns how the load must end
struct Plan { bool open_fail = false, alloc = false; long eio = -1; };
Plan arm(size_t len, bool allow_alloc) {
  Plan q; sim::IoPlan p; p.seed = pick(1 << 16); int k = (int)pick(8); if (chance(1, 2)) { p.chunk = range(1, 40); p.chunk_random = chance(1, 2); } if (chance(1, 2)) p.buf = range(1, 64);
  if (k == 1 || k == 2) { p.fail_read_at = q.eio = (long)pick((uint32_t)len + 1); if (chance(1, 3) && len) p.fail_read_at = q.eio = (long)len - (long)pick((uint32_t)std::min<size_t>(len, 6)); }
  else if (k == 3 && chance(1, 3)) { p.fail_open = 0; q.open_fail = true; }
  else if (k == 4 && allow_alloc) { q.alloc = true; sim::alloc_fail_after(range(1, 10)); }
  sim::fs_plan(p); return q;
}
void disarm() { sim::alloc_fail_after(0); sim::fs_plan_clear(); }
void judge(const char *what, bool success, const Ref &r, const Plan &q, bool missing, bool fired_alloc) {
  bool fault = q.open_fail || missing || sim::fs_fired().read_errors || fired_alloc;
  if (success) { if (missing || q.open_fail) fail("false-success", "%s reports success although the file cannot be opened", what); if (r.verdict == 0) fail("false-success", "%s reports success for a damaged file (%s)", what, r.why.c_str()); probe(fault ? "success-despite-fault" : r.verdict == 2 ? "intact-file" : "tolerated-file"); }
  else { if (!fault && r.verdict == 2) fail("false-failure", "%s rejects an intact file without any fault", what); probe(fault ? "fault-reported" : "damage-reported"); }
}
uint64_t faults0; }
void prop_case() {
  int T = threads(6); sim::set_threads(T); int form = (int)pick(10);
  if (form < 4) { // Matrix Market matrices
    Sym s = chance(1, 2) ? GENERAL : chance(2, 3) ? SYMMETRIC : SKEW; Field f = s == SKEW ? REAL : (Field)pick(3); Mat M = entries(s, f, false, 14); int base = chance(1, 6) ? 0 : 1;
    std::string t = text(M, f, s, base, chance(1, 4)); bool dmg = chance(3, 4), missing = chance(1, 30); if (dmg) t = damage_text(t); if (!missing) sim::fs_put("d.mtx", t);
    Ref r = parse(t); int how = (int)pick(3), pad = chance(1, 4) ? range(2, 5) : 1, b2 = (int)pick(2); bool tr = how == 2, force = !tr && chance(1, 4);
    if (force && r.mat.m != r.mat.n && r.verdict) { r.verdict = 0; r.why = "not square"; }
    note("%s: %s", tr ? "transposed" : how ? "loadMatrixMarket" : "CSR(file)", t.size() > 300 ? (t.substr(0, 300) + "...").c_str() : t.c_str());
    SpMP::COO *c = how ? wl::coo_new() : nullptr; Plan q = arm(t.size(), true); bool success = false; int code = 0;
    if (how == 0) { SpMP::CSR *A = nullptr; bool ret = sim::guarded([&] { A = wl::csr_file("d.mtx", b2, force, pad); }, &code); bool fa = sim::alloc_failures() > 0; disarm(); if (!ret && code == 0) fail("false-success", "failed load exits with status 0"); success = ret; judge("CSR(file)", success, r, q, missing, fa);
      if (success && std::max(r.mat.m, r.mat.n) > 1000000) { probe("huge-dimension-loaded"); if (A->m < r.mat.m) fail("wrong-matrix", "loaded %dx%d", A->m, A->n); wl::csr_del(A); } else if (success) { expect_csr("loaded matrix", A, expand(r.mat, r.sym, force, false, pad), b2, true, true); wl::csr_del(A); } }
    else { bool res = false; bool ret = sim::guarded([&] { res = tr ? SpMP::loadMatrixMarketTransposed("d.mtx", *c, pad) : SpMP::loadMatrixMarket("d.mtx", *c, force, pad); }, &code); bool fa = sim::alloc_failures() > 0; disarm(); if (!ret && code == 0) fail("false-success", "failed load exits with status 0"); success = ret && res; judge(tr ? "loadMatrixMarketTransposed" : "loadMatrixMarket", success, r, q, missing, fa);
      if (success && std::max(r.mat.m, r.mat.n) > 1000000) { probe("huge-dimension-loaded"); if (c->m < (tr ? r.mat.n : r.mat.m) || c->nnz < (int)r.mat.e.size()) fail("wrong-matrix", "loaded %dx%d with %d entries", c->m, c->n, c->nnz); } else if (success) expect_coo("loaded matrix", c, expand(r.mat, r.sym, force, tr, pad)); wl::coo_del(c); }
  } else if (form < 7) { // binary
    Mat M = entries(GENERAL, REAL, false, 14); std::sort(M.e.begin(), M.e.end()); std::string t = bin(M); bool dmg = chance(3, 4), missing = chance(1, 30); if (dmg) t = damage_bin(t, M.m); if (!missing) sim::fs_put("d.bin", t);
    Ref r = parse_bin(t); int how = (int)pick(2), b2 = (int)pick(2), code = 0; note("bin %s %dx%d nnz=%zu, %zu bytes (%s)", how ? "loadBin" : "CSR(file)", M.m, M.n, M.e.size(), t.size(), r.verdict ? "valid" : r.why.c_str());
    SpMP::CSR *A = how ? wl::csr_default() : nullptr; Plan q = arm(t.size(), true); bool ret = true;
    ret = sim::guarded([&] { if (how) A->loadBin("d.bin", b2); else A = wl::csr_file("d.bin", b2, false, 1); }, &code); bool fa = sim::alloc_failures() > 0; disarm();
    if (!ret && code == 0) fail("false-success", "failed load exits with status 0");
    bool success = ret && A->rowptr != nullptr; // a matrix without row pointers is the visible sign of a failed load
    if (ret && !how && !success) fail("false-success", "constructing from a damaged binary file returns a matrix without contents");
    judge(how ? "loadBin" : "CSR(file.bin)", success, r, q, missing, fa);
    if (success) expect_csr("loaded matrix", A, r.mat, b2, false, true); else if (ret && (A->m != 0 || A->n != 0)) fail("false-success", "failed loadBin leaves a %dx%d matrix", A->m, A->n);
    if (success || ret) wl::csr_del(A);
  } else if (form < 8) { // vectors
    int m = size(0, 14), n = chance(1, 3) ? range(0, 3) : 1; std::string t = "%%MatrixMarket matrix array real general\n" + std::to_string(m) + " " + std::to_string(n) + "\n"; for (int i = 0; i < m * n; ++i) t += num(value((int)pick(2))) + "\n";
    bool dmg = chance(3, 4), missing = chance(1, 30); if (dmg) t = damage_text(t); if (!missing) sim::fs_put("d.mtx", t); note("vector: %s", t.substr(0, 300).c_str());
    // reference: strict form must load, otherwise a success must equal the numbers that follow the size line
    Ref r; std::vector<double> w; long long gm = 0, gn = 0; { size_t nl = t.find('\n'); char a[5][1100]; std::string first = t.substr(0, std::min<size_t>(nl, 1000)); 
      for (auto &x : a) x[0] = 0; int k = sscanf(first.c_str(), "%s %s %s %s %s", a[0], a[1], a[2], a[3], a[4]); for (int i = 1; i < 5; ++i) for (char *c = a[i]; *c; ++c) *c = (char)tolower(*c);
      bool strict = k == 5 && !strcmp(a[0], "%%MatrixMarket"); std::string ty = a[3], sy = a[4]; r.verdict = k == 5 && !strncmp(a[0], "%%MatrixMarket", 14) && !strcmp(a[1], "matrix") && !strcmp(a[2], "array") && (ty == "real" || ty == "integer") && (sy == "general" || sy == "symmetric" || sy == "skew-symmetric") ? 1 : 0; if (sy != "general" || ty != "real") strict = false;
      size_t p = nl == std::string::npos ? t.size() : nl + 1; while (p < t.size() && t[p] == '%') { size_t q = t.find('\n', p); if (q != std::string::npos && q - p > 1000) strict = false; p = q == std::string::npos ? t.size() : q + 1; }
      Scan s{t, p}; if (!s.integer(gm) || !s.integer(gn)) r.verdict = 0; else { { size_t e = t.find('\n', p); std::string sl = t.substr(p, e == std::string::npos ? e : e - p); long long x, y; if (sscanf(sl.c_str(), "%lld %lld", &x, &y) == 2) { size_t z = s.p; for (; z < t.size() && t[z] != '\n'; ++z) if (!isspace((unsigned char)t[z])) strict = false; s.p = e == std::string::npos ? t.size() : e + 1; } else strict = false; }
        if (gm < 0 || gn < 0 || gm > INT_MAX || gn > INT_MAX || (gm && gn && gm * gn > (long long)t.size())) r.verdict = 0; else { for (long long i = 0; i < gm * gn; ++i) { double v; if (!s.real(v)) { r.verdict = 0; break; } if (!std::isfinite(v)) strict = false; w.push_back(v); } s.ws(); if (s.p < t.size() || !s.clean) strict = false; if (r.verdict && strict && gm < 100000 && gn < 100000) r.verdict = 2; } } }
    r.why = "array file"; Plan q = arm(t.size(), true); double *v = nullptr; int am = -1, an = -1, code = 0; bool res = false; bool ret = sim::guarded([&] { res = SpMP::loadVectorMatrixMarket("d.mtx", &v, &am, &an); }, &code); bool fa = sim::alloc_failures() > 0; disarm(); if (!ret && code == 0) fail("false-success", "failed load exits with status 0");
    judge("loadVectorMatrixMarket", ret && res, r, q, missing, fa);
    if (ret && res) { if (am != gm || an != gn) fail("wrong-vector", "loaded %dx%d, file says %lldx%lld", am, an, gm, gn); for (size_t i = 0; i < w.size(); ++i) if (!sim::readable(v + i, 8) || !same(v[i], w[i])) fail("wrong-vector", "element %zu is wrong", i); if (v) wl::free_mm(v); }
  } else { // stores
    int kind = (int)pick(3); bool graphlike = chance(1, 3); HCsr h = graphlike ? from_graph(graph(1, 14), 0, false, false) : rect(1, 14, 1, 14, false); h.base = (int)pick(2); if (chance(1, 3)) for (auto &r : h.rows) for (auto &e : r) e.second = value(1);
    Mat M = from_rows(h.m, h.n, h.rows); SpMP::CSR *A = nullptr; SpMP::COO *c = nullptr; const char *nm = kind == 0 ? "s.bin" : "s.mtx"; const char *what = kind == 0 ? "storeBin" : kind == 1 ? "CSR::storeMatrixMarket" : "COO::storeMatrixMarket";
    if (kind < 2) A = to_sut(h, graphlike); else { c = wl::coo_new(); c->m = h.m; c->n = h.n; c->nnz = h.nnz(); c->rowidx = wl::malloc_int(M.e.size()); c->colidx = wl::malloc_int(M.e.size()); c->values = wl::malloc_double(M.e.size()); for (size_t i = 0; i < M.e.size(); ++i) { c->rowidx[i] = M.e[i].x + 1; c->colidx[i] = M.e[i].y + 1; c->values[i] = M.e[i].v; } }
    size_t len = kind == 0 ? bin(M).size() : text(M, REAL, GENERAL, 1, false).size() + M.e.size() * 12; sim::IoPlan p; int k = (int)pick(5); if (chance(1, 2)) p.buf = range(1, 64); if (chance(1, 4)) p.write_errno = 5;
    bool fo = false; if (k <= 1) p.fail_write_at = (long)pick((uint32_t)len + 1); else if (k == 2) { p.fail_open = 0; fo = true; } else if (k == 3) p.close_fails = true;
    if (chance(1, 3)) sim::fs_put(nm, "old contents\n"); sim::fs_plan(p); note("%s %dx%d nnz=%zu base %d, fault %d at %ld", what, h.m, h.n, M.e.size(), h.base, k, p.fail_write_at);
    int code = 0; bool ret = sim::guarded([&] { if (kind == 0) A->storeBin(nm); else if (kind == 1) A->storeMatrixMarket(nm); else c->storeMatrixMarket(nm); }, &code); if (!ret && code == 0) fail("false-success", "failed store exits with status 0");
    auto io = sim::fs_fired(); bool faulty = io.write_errors || io.open_errors || io.close_errors; disarm(); (void)fo;
    if (faulty && ret && !io.stderr_messages) fail("false-success", "%s meets %s and says nothing", what, io.open_errors ? "an open failure" : io.write_errors ? "a write failure" : "a failing close");
    if (!faulty && (!ret || io.stderr_messages)) fail("false-failure", "%s reports a failure that did not happen", what);
    if (ret && !ret) return;
    if (A) { Got g = read("matrix after a store", A); if (g.base != h.base || A->m != h.m || A->n != h.n) fail("source-changed", "%s changed the matrix in memory (base %d instead of %d)", what, g.base, h.base); expect_rows("source-changed", "matrix after a store", g.rows, h.rows, true); if (A->diagptr) for (int i = 0; i < h.m; ++i) if (A->diagptr[i] != A->rowptr[i] + h.dpos[i]) fail("source-changed", "%s changed a diagonal marker", what); }
    else expect_coo("coordinate matrix after a store", c, M);
    probe(faulty ? "store-fault-reported" : "store-ok");
    // what reached the disk is either the matrix or recognisably not a matrix
    std::string d; if (sim::fs_get(nm, &d) && !io.open_errors) { Ref r = kind == 0 ? parse_bin(d) : parse(d); if (!faulty && r.verdict == 0) fail("wrong-file", "%s wrote a damaged file without any fault: %s", what, r.why.c_str()); if (!faulty) { if (r.mat.m != M.m || r.mat.n != M.n) fail("wrong-file", "%s wrote a %dx%d matrix", what, r.mat.m, r.mat.n); expect_rows("wrong-file", "stored file", to_rows(r.mat), to_rows(M)); }
      SpMP::CSR *B = nullptr; bool ok = sim::guarded([&] { B = wl::csr_file(nm, 0, false, 1); }, &code); if (ok && r.verdict == 0) fail("false-success", "a torn file loads (%s)", r.why.c_str()); if (!ok && r.verdict == 2) fail("false-failure", "an intact file does not load"); if (ok) { expect_csr("reloaded matrix", B, expand(r.mat, r.sym, false, false, 1), 0, false, true); wl::csr_del(B); } probe(faulty ? "reload-after-crash" : "reload"); }
    if (A) wl::csr_del(A); if (c) wl::coo_del(c);
  }
  sim::coverage((uint64_t)form * 1000003 + sim::now() / 64);
}
