// C10: RCM and BFS orderings are inverse permutations, level by level.
#include "gen.h"
#include <queue>
extern "C" int spmp_sim_par_thr;
const char *prop_id = "C10";
const char *prop_rule = "One run = one structurally symmetric matrix (14 graph families, relabelled, several pieces, with or without diagonal, either base), one ordering (reverse Cuthill-McKee with or without source selection, breadth-first), one threshold between the serial and the parallel search, thread count, one seeded interleaving.";
void prop_setup() {}
void prop_case() {
  using namespace gen;
  int T = threads(8); sim::set_threads(T);
  Graph g = graph(1, 70);
  int pieces = chance(1, 3) ? range(1, 3) : 0;
  for (int k = 0; k < pieces; ++k) { Graph h = graph(1, 24); int o = g.n; g.n += h.n; g.name += "+" + h.name; g.adj.resize((size_t)g.n); for (int i = 0; i < h.n; ++i) for (int j : h.adj[i]) g.edge(o + i, o + j); }
  g = maybe_relabel(g); int m = g.n;
  int base = (int)pick(2); bool nodiag = chance(1, 3), uns = chance(1, 3);
  HCsr h = from_graph(g, base, uns, false);
  if (nodiag) for (int i = 0; i < m; ++i) { auto &r = h.rows[i]; for (size_t k = 0; k < r.size(); ++k) if (r[k].first == i) { r.erase(r.begin() + k); break; } }
  int algo = (int)pick(3);
  spmp_sim_par_thr = (int[]){1, 2, 4, 8, 16, 65536}[pick(6)];
  if (spmp_sim_par_thr >= m) spmp_sim_par_thr = m + 1; // as if the threshold were out of reach, without its buffers
  note("%s n=%d base=%d T=%d%s %s threshold=%d", g.name.c_str(), m, base, T, nodiag ? " no-diagonal" : "", (const char *[]){"bfs", "rcm", "rcm-no-source-selection"}[algo], spmp_sim_par_thr);
  SpMP::CSR *A = to_sut(h);
  int *perm = sut_ints((size_t)m, -7), *inv = sut_ints((size_t)m, -7);
  int times = chance(1, 5) ? 2 : 1;
  for (int t = 0; t < times; ++t) { if (algo == 0) A->getBFSPermutation(perm, inv); else A->getRCMPermutation(perm, inv, algo == 1); }
  probe(algo == 0 ? "bfs" : "rcm");
  expect_perm("not-a-permutation", "ordering", perm, inv, m);
  Got a = read("matrix after reordering", A); if (a.base != base) fail("matrix-changed", "index base became %d", a.base);
  expect_rows("matrix-changed", "matrix after reordering", a.rows, h.rows, true);
  // within each component: consecutive numbers, by distance from the start row
  std::vector<char> vis((size_t)m, 0); bool rev = algo != 0;
  for (int i = 0; i < m; ++i) if (!vis[i]) {
    std::vector<int> me, st{i}; vis[i] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); me.push_back(u); for (int v : g.adj[u]) if (!vis[v]) { vis[v] = 1; st.push_back(v); } }
    auto num = [&](int u) { return rev ? m - 1 - perm[u] : perm[u]; };
    std::sort(me.begin(), me.end(), [&](int x, int y) { return num(x) < num(y); });
    for (size_t k = 1; k < me.size(); ++k) if (num(me[k]) != num(me[k - 1]) + 1) fail("not-consecutive", "the component of row %d is not numbered consecutively", i);
    std::map<int, int> dist; std::queue<int> q; q.push(me[0]); dist[me[0]] = 0; while (!q.empty()) { int u = q.front(); q.pop(); for (int v : g.adj[u]) if (!dist.count(v)) { dist[v] = dist[u] + 1; q.push(v); } }
    for (size_t k = 1; k < me.size(); ++k) if (dist[me[k]] < dist[me[k - 1]]) fail("not-by-level", "row %d at distance %d is numbered after row %d at distance %d from start row %d", me[k], dist[me[k]], me[k - 1], dist[me[k - 1]], me[0]);
    if (rev) { // Cuthill-McKee: by the first-numbered neighbour one level up, then by degree
      auto key = [&](int u) { int b = 1 << 30; for (int v : g.adj[u]) if (dist[v] == dist[u] - 1) b = std::min(b, num(v)); return std::make_pair(b, (int)h.rows[u].size()); };
      for (size_t k = 2; k < me.size(); ++k) if (dist[me[k]] == dist[me[k - 1]] && key(me[k]) < key(me[k - 1])) fail("not-cuthill-mckee", "row %d is numbered after row %d although its parent comes first or its degree is smaller", me[k], me[k - 1]);
    }
    if ((int)me.size() >= spmp_sim_par_thr) probe("parallel-search");
  }
  wl::csr_del(A);
  sim::coverage((uint64_t)h.nnz() * 64 + spmp_sim_par_thr % 64);
}
