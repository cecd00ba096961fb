// C18: work partitions, prefix sums, parallel copy and fill, inverse permutations.
#include "gen.h"
#include "Utils.hpp"
#include <climits>
const char *prop_id = "C18";
const char *prop_rule = "One run = one utility (even partition, balanced partition, prefix sum, multiple prefix sum, parallel copy or fill outside or inside a region and up to several gigabytes, vector copy, inverse permutation, permutation tests) on one input of any length including 0 and near the integer limits, one thread count, one seeded interleaving, 1-4 repetitions.";
void prop_setup() {}
namespace { using namespace gen;
int anylength(int hi) { switch (pick(8)) { case 0: return 0; case 1: return (int)pick(4); case 2: return (int)pick(20); case 3: return INT_MAX - (int)pick(40); case 4: return 1000000000 + (int)pick(1 << 30); default: return (int)pick((uint32_t)hi); } }
void check_cover(const char *what, int T, const int *b, const int *e, int n) {
  int at = 0; for (int t = 0; t < T; ++t) { if (b[t] < 0 || e[t] < b[t] || e[t] > n) fail("partition", "%s of %d: thread %d of %d gets %d..%d", what, n, t, T, b[t], e[t]); if (b[t] != at) fail("partition", "%s of %d: thread %d of %d starts at %d, the one before ends at %d", what, n, t, T, b[t], at); at = e[t]; }
  if (at != n) fail("partition", "%s of %d: the last thread of %d ends at %d", what, n, T, at);
}
std::vector<int> some_perm(int n) { std::vector<int> p((size_t)n); for (int i = 0; i < n; ++i) p[i] = i; if (chance(3, 4)) shuffle(p, 0, p.size()); return p; }
bool really_perm(const std::vector<int> &p) { std::vector<char> s(p.size(), 0); for (int x : p) { if (x < 0 || (size_t)x >= p.size() || s[x]) return false; s[x] = 1; } return true; }
void cover_ops(const char *what, size_t n, bool inregion, const void *src, int c) {
  (void)inregion; std::vector<std::pair<size_t, size_t>> v; for (auto &o : sim::virtual_ops()) { if (src && (uintptr_t)o.src - (uintptr_t)src != o.off) fail("wrong-bytes", "%s of %zu bytes takes offset %zu from offset %zu", what, n, o.off, (size_t)((uintptr_t)o.src - (uintptr_t)src)); if (!src && (o.c & 255) != (c & 255)) fail("wrong-bytes", "%s fills with %d instead of %d", what, o.c, c); if (o.n) v.push_back({o.off, o.off + o.n}); }
  std::sort(v.begin(), v.end()); size_t at = 0; for (auto &x : v) { if (x.first > at) fail("wrong-bytes", "%s of %zu bytes leaves out bytes %zu..%zu", what, n, at, x.first); at = std::max(at, x.second); } if (at < n) fail("wrong-bytes", "%s of %zu bytes stops at %zu", what, n, at); if (at > n) fail("wrong-bytes", "%s of %zu bytes goes on to %zu", what, n, at);
}
}
void prop_case() {
  int T = threads(12); sim::set_threads(T); int form = (int)pick(9); int reps = range(1, 3);
  for (int rep = 0; rep < reps; ++rep) switch (form) {
  case 0: { int n = anylength(100), *b = sut_ints((size_t)T, -7), *e = sut_ints((size_t)T, -7); note("simple %d T=%d", n, T); wl::simple_partition(n, b, e); check_cover("even split", T, b, e, n); long share = ((long)n + T - 1) / T; for (int t = 0; t < T; ++t) if (e[t] - b[t] > share) fail("unbalanced", "even split of %d: thread %d of %d gets %d", n, t, T, e[t] - b[t]); probe("even-partition"); break; }
  case 1: { int n = length(0, 60), base = (int)pick(2), kind = (int)pick(5); std::vector<int> p(1, base); long at = base; long maxrow = 0;
    for (int i = 0; i < n; ++i) { long w; switch (kind) { case 0: w = pick(5); break; case 1: w = i == n / 2 ? 500 : (int)pick(2); break; case 2: w = 0; break; case 3: w = chance(1, 3) ? (int)pick(1 << 30) : (int)pick(3); break; default: w = i < n / 2 ? 0 : 7; } if (at + w > INT_MAX) w = chance(1, 2) ? INT_MAX - at : 0; maxrow = std::max(maxrow, w); p.push_back((int)(at += w)); }
    int *q = sut_ints(p), *b = sut_ints((size_t)T, -7), *e = sut_ints((size_t)T, -7); note("balanced n=%d total=%ld base=%d T=%d", n, at - base, base, T); wl::balanced_partition(q, n, b, e); check_cover("balanced split", T, b, e, n);
    long share = (at - base + T - 1) / T; for (int t = 0; t < T; ++t) if ((long)p[e[t]] - p[b[t]] > share + maxrow) fail("unbalanced", "thread %d of %d gets work %ld of %ld, longest row %ld", t, T, (long)p[e[t]] - p[b[t]], at - base, maxrow); if (at > 1000000000) probe("balanced-near-limit"); probe("balanced-partition"); break; }
  case 2: { int r = range(1, 4); std::vector<int> in; for (int i = 0; i < r * T; ++i) in.push_back(chance(1, 6) ? 100000000 : range(-3, 20)); int *a = sut_ints(in), *o = sut_ints((size_t)(r * T), -7), *s = sut_ints((size_t)(r * T), -7), *w = sut_ints((size_t)(r * (T + 1)), 12345); note("prefix T=%d rounds=%d", T, r); wl::prefix_sum(a, o, s, w, r);
    for (int k = 0; k < r; ++k) { long tot = 0; for (int t = 0; t < T; ++t) { if (o[k * T + t] != (int)tot) fail("prefix-sum", "thread %d of %d gets %d instead of %ld", t, T, o[k * T + t], tot); tot += in[k * T + t]; } for (int t = 0; t < T; ++t) if (s[k * T + t] != (int)tot) fail("prefix-sum", "thread %d of %d sees total %d instead of %ld", t, T, s[k * T + t], tot); } probe("prefix-sum"); break; }
  case 3: { int r = range(1, 3), n = (int)pick(8); std::vector<int> in; for (int i = 0; i < r * T * n; ++i) in.push_back(range(-3, 20)); int *a = sut_ints(in), *o = sut_ints(in.size(), -7), *s = sut_ints(in.size(), -7), *w = sut_ints((size_t)(r * (T + 1) * n), 12345); note("prefix multiple T=%d n=%d rounds=%d", T, n, r); wl::prefix_sum_multiple(a, o, s, n, w, r);
    for (int k = 0; k < r; ++k) for (int i = 0; i < n; ++i) { long tot = 0; for (int t = 0; t < T; ++t) { if (o[(k * T + t) * n + i] != (int)tot) fail("prefix-sum", "element %d of thread %d of %d is %d instead of %ld", i, t, T, o[(k * T + t) * n + i], tot); if (w[(k * (T + 1) + t) * n + i] != (int)tot) fail("prefix-sum", "workspace of thread %d holds %d instead of %ld", t, w[(k * (T + 1) + t) * n + i], tot); tot += in[(k * T + t) * n + i]; } for (int t = 0; t < T; ++t) if (s[(k * T + t) * n + i] != (int)tot) fail("prefix-sum", "thread %d of %d sees total %d instead of %ld", t, T, s[(k * T + t) * n + i], tot); } probe("prefix-sum-multiple"); break; }
  case 4: { // copy and fill with real bytes; canaries before and behind, any alignment
    size_t n = chance(1, 4) ? pick(3) : chance(1, 3) ? 64 * pick(40) + pick(3) : pick(5000); size_t o1 = pick(70), o2 = pick(70); bool in = pick(2), set = pick(2); unsigned char *d = (unsigned char *)sim::sut_malloc(n + o1 + 80), *s = (unsigned char *)sim::sut_malloc(n + o2 + 80);
    for (size_t i = 0; i < n + o1 + 80; ++i) d[i] = 0x5c; for (size_t i = 0; i < n + o2 + 80; ++i) s[i] = (unsigned char)(i * 7 + 1); int c = chance(1, 2) ? (int)pick(256) : -1; note("%s %zu bytes at +%zu%s T=%d", set ? "fill" : "copy", n, o1, in ? " in region" : "", T);
    if (set) { if (in) wl::par_memset_inregion(d + o1, c, n); else SpMP::parMemset(d + o1, c, n); } else if (in) wl::par_memcpy_inregion(d + o1, s + o2, n); else SpMP::parMemcpy(d + o1, s + o2, n);
    for (size_t i = 0; i < n + o1 + 80; ++i) { unsigned char w = i < o1 || i >= o1 + n ? 0x5c : set ? (unsigned char)c : (unsigned char)((i - o1 + o2) * 7 + 1); if (d[i] != w) fail("wrong-bytes", "%s of %zu bytes: byte %ld is %02x instead of %02x", set ? "fill" : "copy", n, (long)i - (long)o1, d[i], w); }
    for (size_t i = 0; i < n + o2 + 80; ++i) if (s[i] != (unsigned char)(i * 7 + 1)) fail("wrong-bytes", "copy changed its source"); probe(in ? "block-op-in-region" : "block-op"); break; }
  case 5: { // lengths beyond what memory holds: which bytes are touched is recorded, nothing is written
    size_t n = chance(1, 3) ? ((size_t)1 << 31) - 100 + pick(200) : chance(1, 2) ? ((size_t)1 << 32) - 100 + pick(200) : ((size_t)1 << (20 + pick(16))) + pick(1000); bool in = pick(2), set = pick(2); char *d = (char *)sim::virtual_range(n); const char *s = (const char *)0x400000000000ull; int c = (int)pick(256); note("virtual %s %zu bytes%s T=%d", set ? "fill" : "copy", n, in ? " in region" : "", T);
    if (set) { if (in) wl::par_memset_inregion(d, c, n); else SpMP::parMemset(d, c, n); } else if (in) wl::par_memcpy_inregion(d, s, n); else SpMP::parMemcpy(d, s, n);
    cover_ops(set ? "fill" : "copy", n, in, set ? nullptr : s, c); probe("huge-block-op"); break; }
  case 6: { int n = length(0, 300); bool dbl = pick(2); note("copyVector %d T=%d", n, T); if (dbl) { std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(i * 1.5 - 7.1); double *a = sut_dbls(v), *b = sut_dbls((size_t)n, -1); wl::copy_vector_dbl(b, a, n); for (int i = 0; i < n; ++i) if (a[i] != v[i] || b[i] != v[i]) fail("wrong-bytes", "copied vector differs at %d", i); }
    else { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(16777217 + i * 3); int *a = sut_ints(v), *b = sut_ints((size_t)n, -1); wl::copy_vector_int(b, a, n); for (int i = 0; i < n; ++i) if (a[i] != v[i] || b[i] != v[i]) fail("wrong-bytes", "copied vector differs at %d", i); } probe("copy-vector"); break; }
  case 7: { int n = length(0, 300); std::vector<int> p = some_perm(n); int *a = sut_ints(p), *b = sut_ints((size_t)n, -1); note("inverse %d T=%d", n, T); SpMP::getInversePerm(b, a, n); for (int i = 0; i < n; ++i) if (b[p[i]] != i) fail("inverse", "element %d of the inverse is %d instead of %d", p[i], b[p[i]], i); if (!SpMP::isPerm(a, n) || !SpMP::isPerm(b, n)) fail("is-perm", "a permutation of %d is not recognised", n); if (!SpMP::isInversePerm(a, b, n)) fail("is-perm", "an inverse of length %d is not recognised", n);
    if (n >= 2) { int i = (int)pick((uint32_t)n), j = (int)pick((uint32_t)n); if (i != j) { std::swap(b[i], b[j]); if (SpMP::isInversePerm(a, b, n)) fail("is-perm", "a wrong inverse is accepted"); } } probe("inverse"); break; }
  default: { int n = length(0, 40); std::vector<int> p = some_perm(n); if (n && chance(3, 4)) { int k = range(1, 3); for (int i = 0; i < k; ++i) { int at = (int)pick((uint32_t)n); switch (pick(5)) { case 0: p[at] = n; break; case 1: p[at] = -1; break; case 2: p[at] = p[pick((uint32_t)n)]; break; case 3: p[at] = n + (int)pick(3); break; default: p[at] = chance(1, 2) ? INT_MAX : INT_MIN; } } }
    bool want = really_perm(p); if (!want && wl::has_asserts()) break; // the checked build stops at a non-permutation by design
    int *a = sut_ints(p); note("isPerm %d -> %d", n, want); auto s0 = sim::alloc_serial(); bool got = SpMP::isPerm(a, n); if (got != want) fail("is-perm", "isPerm says %d for %s of %d elements", got, want ? "a permutation" : "no permutation", n); int k; std::string l = sim::leaks_since(s0, &k); if (k) fail("not-released", "isPerm keeps memory: %s", l.c_str()); for (int i = 0; i < n; ++i) if (a[i] != p[i]) fail("is-perm", "isPerm changed its input"); probe(want ? "is-perm" : "is-not-perm"); }
  }
  sim::coverage((uint64_t)form * 1000003 + (uint64_t)T * 131 + sim::now() / 16);
}
