// PARTS: 4
// RULE: random digraphs (18 families, up to 14 vertices, sometimes 150) x containers x (explicit transpose in the same or another container, transpose_view, bidirectional overload); labels compared with mutual-reachability classes. Non-trivial: some component has two or more vertices or there are several components joined by an edge; distinct by graph.
// MIN: runs=4000
// MIN: nontrivial_scc=1000
#include "vg.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace vh; using namespace vg;
inline std::vector<u32> scc(const EL& g) { // transitive closure by search from each vertex
  std::vector<std::vector<char>> r(g.n); for (u32 v = 0; v < g.n; ++v) r[v] = reach(g, {v}); std::vector<u32> c(g.n); for (u32 v = 0; v < g.n; ++v) { c[v] = v; for (u32 u = 0; u < v; ++u) if (r[u][v] && r[v][u]) { c[v] = c[u]; break; } } return c; }
template <class C> void judge(Ctx& c, const EL& g, const std::vector<u32>& want, const C& comp, const char* form) {
  std::set<u32> k(want.begin(), want.end());
  c.checkf(same_partition(comp, want, g.n), "scc-partition", [&] { return std::format("{}: {} expected {}", form, seq(comp), seq(want)); });
  c.checkf(labels_exact(comp, g.n, k.size()), "scc-labels", [&] { return std::format("{}: labels are not 0..{}: {}", form, k.size() - 1, seq(comp)); });
  c.count("runs"); std::map<u32, u32> sz; for (u32 x : want) ++sz[x]; bool nt = false; for (auto& [a, b] : sz) nt |= b > 1;
  if (nt) { c.count("nontrivial_scc"); c.nontrivial(g.hash()); c.sample(g.str() + " -> " + seq(comp)); } }
template <class G> void kos(Ctx& c) {
  GenOpt o; o.big = 100; auto g = gen_graph(c.rng, o); c.input(std::string(Name<G>::v) + " " + g.str()); auto want = scc(g); auto t = transposed(g); if (c.rng.chance(50)) c.rng.shuffle(t.es);
  const G gr = build<G>(g); size_t extra = c.rng.chance(20) ? 2 : 0;
  { const G gt = build<G>(t); std::vector<u32> comp(g.n + extra, 7); graph::kosaraju(gr, gt, comp); judge(c, g, want, comp, "same container"); }
  { const vvi gt = build<vvi>(t); std::vector<size_t> comp(g.n + extra, 7); graph::kosaraju(gr, gt, comp); judge(c, g, want, comp, "other container"); }
}
template <class G> void kosb(Ctx& c) {
  GenOpt o; o.big = 100; auto g = gen_graph(c.rng, o); c.input(std::string(Name<G>::v) + " " + g.str()); auto want = scc(g); const G gr = build<G>(g);
  { std::vector<int> comp(g.n, 7); graph::kosaraju(gr, comp); judge(c, g, want, comp, "bidirectional"); }
  { const G gt = build<G>(transposed(g)); std::vector<u32> comp(g.n, 7); graph::kosaraju(gr, gt, comp); judge(c, g, want, comp, "bidirectional, explicit transpose"); }
}
#if IN(0)
TS(kos, vvi, 4000, 100000)
TS(kos, vov, 2000, 50000)
#elif IN(1)
TS(kos, csr, 3000, 60000)
TS(kos, dofl, 2000, 50000)
#elif IN(2)
TS(kosb, vob, 4000, 100000)
TS(kosb, vlb, 2500, 50000)
#elif IN(3)
TS(kos, dos, 2000, 50000)
TS(kos, vol, 2000, 50000)
#endif
