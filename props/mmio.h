// Matrix files: text and binary writers, and two independent readers of the
// documented formats that serve as the reference.
#ifndef MMIO_H
#define MMIO_H
#include "gen.h"
#include "COO.hpp"
#include "Vector.hpp"
#include <climits>
namespace mmio {
using namespace gen;
struct Ent { int x, y; double v; }; // 0-based
inline bool operator<(const Ent &a, const Ent &b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.v < b.v; }
struct Mat { int m = 0, n = 0; std::vector<Ent> e; };
enum Sym { GENERAL, SYMMETRIC, SKEW }; enum Field { REAL, INTEGER, PATTERN };

inline double value(int kind) { // kind 0 small integers, 1 arbitrary doubles
  if (kind == 0) { int v = range(-9, 9); return v ? v : 1; }
  static const double special[] = {0.1, 1.0 / 3, 1e-300, 1e300, 123456789.123456789, -2.2250738585072014e-308, 4.9e-324, 1.7976931348623157e308, 1 + 2.220446049250313e-16, -0.3};
  if (chance(1, 3)) return special[pick(10)];
  double d = (double)((int64_t)(((uint64_t)pick(1u << 26) << 26 | pick(1u << 26))) - (1ll << 51)); return std::ldexp(d, range(-120, 40));
}
inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

// entries -> what loading must give. Mirrored entries are added only where missing.
inline Mat expand(const Mat &f, Sym s, bool force, bool transpose, int pad) {
  Mat r; r.m = transpose ? f.n : f.m; r.n = transpose ? f.m : f.n; int om = r.m, on = r.n;
  std::set<std::pair<int, int>> have;
  for (auto &e : f.e) { Ent t = e; if (transpose) std::swap(t.x, t.y); r.e.push_back(t); have.insert({t.x, t.y}); }
  if (s != GENERAL || force) { size_t k = r.e.size(); for (size_t i = 0; i < k; ++i) { Ent t = r.e[i]; if (t.x != t.y && !have.count({t.y, t.x})) r.e.push_back({t.y, t.x, s == SKEW ? -t.v : t.v}); } }
  auto up = [&](int v) { return (int)(((long)v + pad - 1) / pad * pad); };
  r.m = up(om); r.n = up(on);
  for (int i = std::min(om, on); i < std::min(r.m, r.n); ++i) r.e.push_back({i, i, 1.0});
  return r;
}
inline Rows to_rows(const Mat &a) { Rows r((size_t)a.m); for (auto &e : a.e) r[e.x].push_back({e.y, e.v}); return r; }
inline Mat from_rows(int m, int n, const Rows &r) { Mat a; a.m = m; a.n = n; for (int i = 0; i < m; ++i) for (auto &e : r[i]) a.e.push_back({i, e.first, e.second}); return a; }

inline const char *field_name(Field f) { return f == REAL ? "real" : f == INTEGER ? "integer" : "pattern"; }
inline const char *sym_name(Sym s) { return s == GENERAL ? "general" : s == SYMMETRIC ? "symmetric" : "skew-symmetric"; }
inline std::string text(const Mat &a, Field f, Sym s, int base, bool fancy) {
  std::string t; char b[128]; bool up = fancy && chance(1, 4);
  std::string h = std::string("%%MatrixMarket ") + (up ? "Matrix COORDINATE " : "matrix coordinate "); h += field_name(f); h += ' '; h += sym_name(s); t = h + "\n";
  if (fancy) { int k = (int)pick(4); for (int i = 0; i < k; ++i) t += chance(1, 3) ? std::string("%\n") : chance(1, 4) ? "%" + std::string((size_t)range(1, 1000), "x 1 %"[pick(5)]) + "\n" : std::string("% generated 3 3 4 test\n"); if (chance(1, 6)) t += "\n"; }
  snprintf(b, sizeof b, fancy && chance(1, 4) ? " %d  %d\t%d\n" : "%d %d %d\n", a.m, a.n, (int)a.e.size()); t += b;
  for (size_t i = 0; i < a.e.size(); ++i) {
    const Ent &e = a.e[i]; std::string v = f == PATTERN ? "" : f == INTEGER ? " " + std::to_string((long)e.v) : (fancy && chance(1, 4) ? "   " : " ") + num(e.v);
    snprintf(b, sizeof b, fancy && chance(1, 5) ? "  %d\t%d" : "%d %d", e.x + base, e.y + base); t += b; t += v;
    t += fancy && chance(1, 6) ? " \n" : "\n"; if (fancy && chance(1, 30)) t += "\n";
  }
  if (fancy && !a.e.empty() && chance(1, 4)) while (!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back();
  return t;
}
// a set of entries fit for the storage form
inline Mat entries(Sym s, Field f, bool dup, int hi = 40) {
  Mat a; a.m = size(1, hi); a.n = s != GENERAL || chance(1, 3) ? a.m : size(1, hi);
  if (hi >= 40 && gen::huge_ok && chance(1, HUGE_RATE)) { int z = (int)pick(3); if (z != 1) a.m = range(32760, 40000); a.n = s != GENERAL ? a.m : z ? range(32760, 40000) : a.n; probe("huge"); sim::step_limit(4000000000ull); }
  int kind = (int)pick(5), cnt = kind == 0 ? 0 : kind == 1 ? a.m : (int)pick((uint32_t)(3 * std::min(a.m, 15000) + 3)); if (a.m > 32000 || a.n > 32000) { kind = 2; cnt = range(32760, 45000); } bool both = chance(1, 4);
  std::set<std::pair<int, int>> have;
  for (int i = 0; i < cnt; ++i) {
    int x = (int)pick((uint32_t)a.m), y = (int)pick((uint32_t)a.n); if (kind == 1 && i < a.n) x = y = i;
    if (s == SKEW) { if (x == y) continue; if (x < y) std::swap(x, y); }
    if (s == SYMMETRIC && !both && x < y) std::swap(x, y);
    if (s == SYMMETRIC && both && have.count({y, x})) continue;   // a pair given twice must carry one value
    if (!have.insert({x, y}).second && !(dup && s == GENERAL)) continue;
    a.e.push_back({x, y, f == PATTERN ? 1.0 : value(f == INTEGER ? 0 : (int)pick(2))});
  }
  if (s == SYMMETRIC && both) { size_t k = a.e.size(); for (size_t i = 0; i < k; ++i) if (a.e[i].x != a.e[i].y && chance(1, 2)) a.e.push_back({a.e[i].y, a.e[i].x, a.e[i].v}); }
  if (chance(1, 2)) std::sort(a.e.begin(), a.e.end()); else shuffle(a.e, 0, a.e.size());
  return a;
}
inline void put32(std::string &s, int v) { s.append((const char *)&v, 4); }
inline std::string bin(const Mat &a) {
  std::string s; put32(s, 1211216); put32(s, a.m); put32(s, a.n); put32(s, (int)a.e.size());
  Rows r = to_rows(a); for (auto &x : r) put32(s, (int)x.size()); for (auto &x : r) for (auto &e : x) put32(s, e.first);
  for (auto &x : r) for (auto &e : x) s.append((const char *)&e.second, 8);
  return s;
}

// ---- reference readers: 0 must be rejected, 1 may go either way (and then the matrix is fixed), 2 must be accepted
struct Ref { int verdict = 0; Mat mat; Sym sym = GENERAL; std::string why; };
struct Scan { // scanf-like prefix reading
  const std::string &s; size_t p; bool clean = true;
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
  bool integer(long long &v) { ws(); size_t q = p; if (q < s.size() && (s[q] == '+' || s[q] == '-')) { if (s[q] == '+') clean = false; ++q; } size_t d = q; while (q < s.size() && isdigit((unsigned char)s[q])) ++q; if (q == d) return false; if (q - d > 18) { v = LLONG_MAX; clean = false; } else v = atoll(s.substr(p, q - p).c_str()); p = q; if (p < s.size() && !isspace((unsigned char)s[p])) clean = false; return true; }
  bool real(double &v) { ws(); const char *b = s.c_str() + p; char *e; v = strtod(b, &e); if (e == b) return false; p += (size_t)(e - b); if (p < s.size() && tolower((unsigned char)s[p]) == 'e' && (isdigit((unsigned char)s[p - 1]) || s[p - 1] == '.')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; clean = false; } /* scanf accepts an empty exponent */ if (p < s.size() && !isspace((unsigned char)s[p])) clean = false; return true; }
};
inline Ref parse(const std::string &t) {
  Ref r; size_t nl = t.find('\n'); std::string line = t.substr(0, nl == std::string::npos ? t.size() : nl);
  if (line.find('\0') != std::string::npos) line = line.substr(0, line.find('\0'));
  std::vector<std::string> w; { size_t p = 0; while (p < line.size()) { while (p < line.size() && isspace((unsigned char)line[p])) ++p; size_t q = p; while (q < line.size() && !isspace((unsigned char)line[q])) ++q; if (q > p) w.push_back(line.substr(p, q - p)); p = q; } }
  bool strict = w.size() == 5 && line.size() < 1000 && nl != std::string::npos;
  if (w.size() < 5) { r.why = "banner"; return r; }
  for (int i = 1; i < 5; ++i) for (auto &c : w[i]) c = (char)tolower((unsigned char)c);
  if (w[0].compare(0, 14, "%%MatrixMarket") != 0) { r.why = "banner"; return r; }
  if (w[0] != "%%MatrixMarket") strict = false;
  if (w[1] != "matrix" || w[2] != "coordinate") { r.why = "not a coordinate matrix"; return r; }
  Field f; if (w[3] == "real") f = REAL; else if (w[3] == "integer") f = INTEGER; else if (w[3] == "pattern") f = PATTERN; else { r.why = "field"; return r; }
  if (w[4] == "general") r.sym = GENERAL; else if (w[4] == "symmetric") r.sym = SYMMETRIC; else if (w[4] == "skew-symmetric") r.sym = SKEW; else { r.why = "symmetry"; return r; }
  if (f == PATTERN && r.sym == SKEW) { r.why = "pattern skew"; return r; }
  size_t p = nl == std::string::npos ? t.size() : nl + 1;
  while (p < t.size() && t[p] == '%') { size_t q = t.find('\n', p); if (q == std::string::npos) { r.why = "no size"; return r; } if (q - p > 1000) strict = false; p = q + 1; }
  if (t.find('\0') != std::string::npos) strict = false;
  Scan s{t, p}; long long m, n, k; if (!s.integer(m) || !s.integer(n) || !s.integer(k)) { r.why = "size line"; return r; }
  { size_t q = s.p; while (q < t.size() && t[q] != '\n') { if (!isspace((unsigned char)t[q])) { s.clean = false; break; } ++q; } // rest of the size line is dropped
    size_t e = t.find('\n', p); std::string sl = t.substr(p, e == std::string::npos ? e : e - p); long long a, b, c; int cnt = sscanf(sl.c_str(), "%lld %lld %lld", &a, &b, &c); if (cnt == 3) s.p = e == std::string::npos ? t.size() : e + 1; else { bool blank = true; for (char ch : sl) blank &= isspace((unsigned char)ch) != 0; if (!blank) strict = false; } }
  if (m < 0 || n < 0 || k < 0 || m > INT_MAX || n > INT_MAX || k > INT_MAX) { r.why = "sizes"; return r; }
  if (m > (1 << 24) || n > (1 << 24) || k > (1 << 24)) strict = false;
  if (m == 0 || n == 0) strict = false;
  r.mat.m = (int)m; r.mat.n = (int)n; bool zero = false;
  if ((size_t)k > t.size()) { r.why = "fewer entries than announced"; return r; }
  for (long long i = 0; i < k; ++i) { long long x, y; double v = 1; if (!s.integer(x) || !s.integer(y)) { r.why = "fewer entries than announced"; return r; }
    if (f == INTEGER) { long long iv; if (!s.integer(iv)) { r.why = "entry"; return r; } v = (double)iv; } else if (f == REAL) { if (!s.real(v)) { r.why = "entry"; return r; } if (!std::isfinite(v)) s.clean = false; }
    if (x < 0 || y < 0 || x > m || y > n) { r.why = "index out of range"; return r; }
    zero |= x == 0 || y == 0; r.mat.e.push_back({(int)x, (int)y, v}); }
  s.ws(); if (s.p < t.size()) s.clean = false;
  for (auto &e : r.mat.e) { if (!zero) { --e.x; --e.y; } if (e.x >= m || e.y >= n) { r.why = "index out of range"; return r; } }
  if (!s.clean) strict = false;
  // a symmetric form describes a square matrix, one entry per pair
  if (r.sym != GENERAL && m != n) { r.why = "symmetric but not square"; return r; }
  std::set<std::pair<int, int>> seen; bool diag = false; for (auto &e : r.mat.e) { if (!seen.insert({e.x, e.y}).second) strict = false; if (e.x == e.y) diag = true; } if (r.sym == SKEW && diag) strict = false;
  r.verdict = strict ? 2 : 1; return r;
}
inline Ref parse_bin(const std::string &t) {
  Ref r; auto g = [&](size_t o, int &v) { if (o + 4 > t.size()) return false; memcpy(&v, t.data() + o, 4); return true; };
  int id, m, n, k; if (!g(0, id) || !g(4, m) || !g(8, n) || !g(12, k)) { r.why = "header"; return r; }
  if (id != 1211216) { r.why = "file id"; return r; }
  if (m < 0 || n < 0 || k < 0) { r.why = "sizes"; return r; }
  size_t need = 16 + 4ull * m + 12ull * k; if (t.size() < need) { r.why = "truncated"; return r; }
  r.mat.m = m; r.mat.n = n; long tot = 0; std::vector<int> cnt((size_t)m);
  for (int i = 0; i < m; ++i) { g(16 + 4ull * i, cnt[i]); if (cnt[i] < 0) { r.why = "row length"; return r; } tot += cnt[i]; }
  if (tot != k) { r.why = "row lengths do not add up"; return r; }
  long j = 0; for (int i = 0; i < m; ++i) for (int q = 0; q < cnt[i]; ++q, ++j) { int c; g(16 + 4ull * m + 4ull * j, c); double v; memcpy(&v, t.data() + 16 + 4ull * m + 4ull * k + 8ull * j, 8); if (c < 0 || c >= n) { r.why = "column out of range"; return r; } r.mat.e.push_back({i, c, v}); }
  r.verdict = t.size() == need && m > 0 && n > 0 ? 2 : 1; return r;
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline void expect_coo(const char *what, const SpMP::COO *c, const Mat &want) {
  if (c->m != want.m || c->n != want.n) fail("wrong-matrix", "%s is %dx%d, should be %dx%d", what, c->m, c->n, want.m, want.n);
  if (c->nnz != (int)want.e.size()) fail("wrong-matrix", "%s has %d entries, should have %zu", what, c->nnz, want.e.size());
  if (c->nnz && (!sim::readable(c->rowidx, c->nnz * 4ull) || !sim::readable(c->colidx, c->nnz * 4ull) || !sim::readable(c->values, c->nnz * 8ull))) fail("wrong-matrix", "%s: arrays too short for %d entries", what, c->nnz);
  Mat got; got.m = c->m; got.n = c->n; for (int i = 0; i < c->nnz; ++i) { Ent e{c->rowidx[i] - 1, c->colidx[i] - 1, c->values[i]}; if (e.x < 0 || e.x >= c->m || e.y < 0 || e.y >= c->n) fail("wrong-matrix", "%s: entry %d is (%d,%d) of a %dx%d matrix", what, i, e.x + 1, e.y + 1, c->m, c->n); got.e.push_back(e); }
  expect_rows("wrong-matrix", what, to_rows(got), to_rows(want));
}
inline void expect_csr(const char *what, const SpMP::CSR *A, const Mat &want, int base, bool sorted_rows, bool diag) {
  if (A->m != want.m || A->n != want.n) fail("wrong-matrix", "%s is %dx%d, should be %dx%d", what, A->m, A->n, want.m, want.n);
  Got g = gen::read(what, A); if (g.base != base) fail("wrong-base", "%s has index base %d instead of %d", what, g.base, base);
  if (!A->values && !want.e.empty()) fail("wrong-matrix", "%s has no values", what);
  expect_rows("wrong-matrix", what, g.rows, to_rows(want));
  if (sorted_rows) for (size_t i = 0; i < g.rows.size(); ++i) for (size_t k = 1; k < g.rows[i].size(); ++k) if (g.rows[i][k - 1].first > g.rows[i][k].first) fail("unsorted-row", "%s: row %zu is not sorted", what, i);
  if (diag && A->diagptr) for (int i = 0; i < A->m; ++i) { int cnt = 0; double v = 0; for (auto &e : g.rows[i]) if (e.first == i) { cnt++; v = e.second; }
    if (cnt != 1) continue;
    int p = A->diagptr[i] - base; if (p < A->rowptr[i] - base || p >= A->rowptr[i + 1] - base || A->colidx[p] - base != i) fail("diagonal-marker", "%s: diagonal marker of row %d is wrong", what, i);
    if (A->diag && !same(A->diag[i], v)) fail("diagonal-value", "%s: separate diagonal of row %d is %g, entry is %g", what, i, A->diag[i], v);
    if (A->idiag && !same(A->idiag[i], 1 / v)) fail("diagonal-value", "%s: inverse diagonal of row %d is %g, entry is %g", what, i, A->idiag[i], v); }
}
} // namespace mmio
#endif
