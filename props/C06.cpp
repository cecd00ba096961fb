// C06: synk::ReduceBarrier gives every thread the full reduction of each round.
#include "gen.h"
const char *prop_id = "C06";
const char *prop_rule = "One run = one team shape (cores x threads per core), element type, reduction function (sum, max, min) and 1-7 rounds of random values, one seeded interleaving.";
void prop_setup() {}
void prop_case() {
  int big = chance(1, 8) ? chance(1, 8) ? 64 : 16 : 14, cores = range(1, big >= 16 ? big : 12), tpc = range(1, big == 64 ? 9 : 4);
  if (big == 64) probe("more-than-16-threads");
  while (cores * tpc > big) { if (tpc > 1) tpc--; else cores--; }
  int n = cores * tpc, rounds = chance(1, 300) ? range(100, 700) : range(1, 7), op = (int)pick(3), ty = (int)pick(3);
  sim::set_threads(1 + (int)pick(4));
  if (n <= 4 && chance(1, 4000)) { rounds = range(65500, 65600); probe("huge"); sim::step_limit(4000000000ull); }
  note("reduce cores=%d threadsPerCore=%d rounds=%d op=%s type=%s", cores, tpc, rounds, (const char *[]){"sum", "max", "min"}[op], (const char *[]){"int", "long", "double"}[ty]);
  std::vector<long> v((size_t)n * rounds);
  bool sparse = chance(1, 3);
  for (auto &x : v) x = sparse ? (chance(1, 4) ? range(1, 1000) : 0) : range(-5000, 5000);
  int wide = (int)pick(3); // values that need all of the type
  if (wide) for (auto &x : v) x = ty == 0 ? (op ? x * 400009 + (x & 1) : x * 6007) : x * 2147483659l + (x & 3);
  auto ref = [&](int r) { long a = v[r]; for (int t = 1; t < n; ++t) { long b = v[(size_t)t * rounds + r]; a = op == 0 ? a + b : op == 1 ? std::max(a, b) : std::min(a, b); } return a; };
  std::vector<double> got((size_t)n * rounds);
  if (ty == 0) { int *a = gen::sut_ints(v.size(), 0), *o = gen::sut_ints(v.size(), 0); for (size_t i = 0; i < v.size(); ++i) a[i] = (int)v[i]; wl::run_reduce_i32(cores, tpc, rounds, op, a, o); for (size_t i = 0; i < v.size(); ++i) got[i] = o[i]; }
  else if (ty == 1) { long *a = (long *)gen::sut_u64(v.size()), *o = (long *)gen::sut_u64(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; wl::run_reduce_i64(cores, tpc, rounds, op, a, o); for (size_t i = 0; i < v.size(); ++i) got[i] = (double)o[i]; }
  else { double *a = gen::sut_dbls(v.size(), 0), *o = gen::sut_dbls(v.size(), 0); for (size_t i = 0; i < v.size(); ++i) a[i] = (double)v[i]; wl::run_reduce_f64(cores, tpc, rounds, op, a, o); for (size_t i = 0; i < v.size(); ++i) got[i] = o[i]; }
  for (int r = 0; r < rounds; ++r) for (int t = 0; t < n; ++t) if (got[(size_t)t * rounds + r] != (double)ref(r))
    fail("wrong-reduction", "round %d: thread %d of %d got %.0f, the reduction is %ld", r, t, n, got[(size_t)t * rounds + r], ref(r));
  if (cores & (cores - 1)) probe("pseudo-cores");
  sim::coverage((uint64_t)cores * 100 + tpc * 10 + op);
}
