// PARTS: 4
// RULE: random graphs x containers x neighbour rounds 0..6: symmetric graphs for the one-graph form, arbitrary digraphs with their transpose for the two-graph form; labels compared with a union-find oracle. Also graphs of up to 3000 vertices, larger than the sampling. Non-trivial: at least one non-loop edge; distinct by (graph, rounds).
// ASSUME: one-graph form gets every edge in both directions, two-graph form gets the transpose
// MIN: runs=4000
// MIN: multi_component=1000
#include "vg.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace vh; using namespace vg;
template <class C> void judge(Ctx& c, const EL& g, const C& comp, size_t rounds, const char* form) {
  auto want = wcc(g); c.checkf(same_partition(comp, want, g.n), "afforest-partition", [&] { return std::format("{} rounds {}: {} expected {}", form, rounds, seq(comp), seq(want)); });
  for (u32 v = 0; v < g.n; ++v) c.checkf((u64)comp[v] < g.n && want[comp[v]] == want[v], "afforest-label", [&] { return std::format("{} rounds {}: label {} of vertex {} is not in its component", form, rounds, (u64)comp[v], v); });
  c.count("runs"); std::set<u32> k(want.begin(), want.end()); if (k.size() > 1) c.count("multi_component");
  for (auto& e : g.es) if (e.s != e.t) { c.nontrivial(hcomb(g.hash(), rounds)); c.sample(std::format("{} rounds {}: {}", form, rounds, g.str())); break; } }
template <class G> void one(Ctx& c) {
  GenOpt o; o.big = 150; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); if (c.rng.chance(60)) c.rng.shuffle(g.es); size_t r = c.rng.below(7);
  c.input(std::string(Name<G>::v) + " " + g.str()); const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(g); }();
  if (c.rng.chance(50)) { std::vector<u32> comp(g.n, 3); graph::afforest(gr, comp, r); judge(c, g, comp, r, "one-graph"); } else { std::vector<size_t> comp(g.n, 3); graph::afforest(gr, comp, r); judge(c, g, comp, r, "one-graph"); }
  if (c.rng.chance(30)) { std::vector<u32> comp(g.n, 3); graph::afforest(gr, comp); judge(c, g, comp, 2, "one-graph default"); }
}
template <class G> void two(Ctx& c) {
  GenOpt o; o.big = 150; auto g = gen_graph(c.rng, o); auto t = transposed(g); size_t r = c.rng.below(7); c.input(std::string(Name<G>::v) + " " + g.str());
  const G gr = build<G>(g); const G gt = build<G>(t); std::vector<u32> comp(g.n, 3); graph::afforest(gr, gt, comp, r); judge(c, g, comp, r, "two-graph");
  { std::vector<u32> cc(g.n, 1); graph::afforest(gr, gt, cc); judge(c, g, cc, 2, "two-graph default"); }
}
template <class G> void large(Ctx& c) { // larger than the sample, several big components of similar size
  EL g; g.fam = "large"; g.n = 800 + (u32)c.rng.below(2200); u32 k = 1 + (u32)c.rng.below(4); std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u); c.rng.shuffle(p);
  for (u32 i = k; i < g.n; ++i) if (!c.rng.chance(2)) g.es.push_back({p[i], p[c.rng.chance(50) ? i - k : (i % k) + k * (u32)c.rng.below(i / k)], 1});
  bool sym = c.rng.chance(50); if (sym) g = symmetrize(g); size_t r = c.rng.below(4); c.input(g.str()); const G gr = build<G>(g); std::vector<u32> comp(g.n);
  if (sym) { graph::afforest(gr, comp, r); judge(c, g, comp, r, "large"); } else { const G gt = build<G>(transposed(g)); graph::afforest(gr, gt, comp, r); judge(c, g, comp, r, "large two-graph"); } }
#if IN(0)
TS(one, vvi, 4000, 80000)
TS(two, vvi, 3000, 60000)
#elif IN(1)
TS(one, csr, 2500, 60000)
TS(two, csr, 2500, 60000)
#elif IN(2)
TS(one, vol, 2000, 50000)
TS(two, dov, 2500, 50000)
TS(large, vvi, 60, 2000)
#elif IN(3)
TS(one, vos, 2500, 50000)
TS(two, dod, 2500, 50000)
TS(large, vov, 40, 1000)
#endif
