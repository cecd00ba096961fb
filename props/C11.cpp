// C11: connected components equal those of the undirected graph.
#include "gen.h"
const char *prop_id = "C11";
const char *prop_rule = "One run = one structurally symmetric matrix (14 graph families, relabelled, possibly several disjoint pieces, either base, with or without diagonal and stored self loops), thread count, one seeded interleaving of the parallel search.";
void prop_setup() {}
void prop_case() {
  using namespace gen;
  // half of the runs stress concurrent unions: sparse connected graphs with scattered numbering
  bool stress = chance(1, 2); static const int fam[] = {0, 9, 1, 5};
  int T = stress ? range(3, 8) : threads(10); sim::set_threads(T);
  Graph g = stress ? relabel(graph(8, 26, fam[pick(4)])) : graph(1, 90);
  if (!stress && chance(1, 3)) { Graph h = graph(1, 40); int o = g.n; g.n += h.n; g.name += "+" + h.name; g.adj.resize((size_t)g.n); for (int i = 0; i < h.n; ++i) for (int j : h.adj[i]) g.edge(o + i, o + j); }
  if (!stress) g = maybe_relabel(g);
  int base = (int)pick(2); bool nodiag = chance(1, 3), uns = chance(1, 3);
  HCsr h = from_graph(g, base, uns, false);
  if (nodiag) for (int i = 0; i < h.m; ++i) { auto &r = h.rows[i]; for (size_t k = 0; k < r.size(); ++k) if (r[k].first == i) { r.erase(r.begin() + k); break; } }
  note("%s n=%d base=%d T=%d%s", g.name.c_str(), g.n, base, T, nodiag ? " no-diagonal" : "");
  SpMP::CSR *A = to_sut(h);
  std::vector<std::vector<int>> ref; // members of every component, ascending
  { std::vector<char> vis((size_t)g.n, 0);
    for (int i = 0; i < g.n; ++i) if (!vis[i]) { std::vector<int> st{i}, me; vis[i] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); me.push_back(u); for (int v : g.adj[u]) if (!vis[v]) { vis[v] = 1; st.push_back(v); } } std::sort(me.begin(), me.end()); ref.push_back(me); } }
  int num = -1, *ctr = nullptr, *cs = nullptr, *pre = nullptr, *nodes = nullptr;
  // rows of some whole components are excluded beforehand, as the breadth-first ordering does
  int *skip = nullptr; if (chance(1, 3) && ref.size() > 1) { std::vector<int> sk((size_t)g.n, 0); size_t kept = 0; for (size_t k = 0; k < ref.size(); ++k) if (k + 1 < ref.size() || kept) { if (chance(1, 2)) for (int v : ref[k]) sk[v] = 1; else ++kept; } skip = sut_ints(sk); probe("excluded-components"); note("some components excluded"); }
  wl::find_components(A, skip, &num, &ctr, &cs, &pre, &nodes);
  std::vector<int> root; std::vector<std::vector<int>> mem; size_t total = 0;
  for (auto &me : ref) if (!skip || !skip[me[0]]) { root.push_back(me[0]); mem.push_back(me); total += me.size(); }
  if (num != (int)root.size()) fail("component-count", "%d components found, the graph has %zu", num, root.size());
  if (!sim::readable(ctr, (size_t)num * 4) || !sim::readable(cs, (size_t)num * 4) || !sim::readable(pre, (size_t)num * 4) || !sim::readable(nodes, (size_t)g.n * 4)) fail("short-array", "a component array is shorter than announced");
  for (int k = 0; k < num; ++k) {
    if (ctr[k] != root[k]) fail("component-root", "component %d is represented by row %d, expected %d", k, ctr[k], root[k]);
    if (cs[k] != (int)mem[k].size()) fail("component-size", "component %d has size %d, expected %zu", k, cs[k], mem[k].size());
    int b = pre[k]; if (b < 0 || b + cs[k] > (int)total) fail("component-members", "component %d is said to start at %d of %zu", k, b, total);
    std::vector<int> me(nodes + b, nodes + b + cs[k]); std::sort(me.begin(), me.end());
    if (me != mem[k]) fail("component-members", "the rows grouped under component %d are not its members", k);
  }
  std::vector<char> seen((size_t)g.n, 0); for (size_t i = 0; i < total; ++i) { if (nodes[i] < 0 || nodes[i] >= g.n || seen[nodes[i]]++) fail("component-members", "row %d is grouped twice or not a row", nodes[i]); }
  if (num > 1) probe("several-components");
  wl::del_intv(ctr); wl::del_intv(cs); wl::del_intv(pre); wl::del_intv(nodes); wl::csr_del(A);
  sim::coverage((uint64_t)num * 4096 + h.nnz());
}
