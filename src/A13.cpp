// PARTS: 3
// RULE: random undirected graphs (18 families incl. cacti, cliques joined by bridges, trees, cycles, multigraphs with loops and parallel edges, several components; both directions stored, adjacency shuffled) x containers; output compared with vertex-deletion counting. Non-trivial: at least one cut vertex; distinct by graph.
// ASSUME: every edge is stored in both directions
// MIN: runs=3000
// MIN: cut_vertices=3000
// MIN: no_cut_runs=500
#include "vg.hpp"
#include <graph/algorithm/articulation_points.hpp>
using namespace vh; using namespace vg;
inline u32 ncomp(const EL& g, u32 del) { DSU d(g.n); u32 k = 0; for (u32 v = 0; v < g.n; ++v) k += v != del; for (auto& e : g.es) if (e.s != del && e.t != del && d.join(e.s, e.t)) --k; return k; }
template <class G> void ap(Ctx& c) {
  GenOpt o; o.maxn = 16; o.big = 60; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); if (c.rng.chance(70)) c.rng.shuffle(g.es); c.input(std::string(Name<G>::v) + " " + g.str());
  const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(g); }(); using Id = graph::vertex_id_t<G>;
  std::vector<Id> out; graph::articulation_points(gr, std::back_inserter(out)); std::set<u32> got(out.begin(), out.end());
  c.check(got.size() == out.size(), "ap-repeated", seq(out)); u32 base_k = ncomp(g, ~0u); u64 k = 0;
  for (u32 v = 0; v < g.n; ++v) { bool cut = ncomp(g, v) > base_k; k += cut; c.checkf(cut == got.contains(v), cut ? "ap-missed" : "ap-wrong", [&] { return std::format("vertex {} is {}a cut vertex; output {}", v, cut ? "" : "not ", seq(out)); }); }
  c.check(got.size() == k, "ap-wrong", "output names a vertex outside the graph " + seq(out));
  c.count("runs"); c.count("cut_vertices", k); if (!k) c.count("no_cut_runs"); else { c.nontrivial(g.hash()); c.sample(g.str() + " -> " + seq(out)); }
}
#if IN(0)
TS(ap, vvi, 6000, 150000)
TS(ap, vov, 2500, 50000)
#elif IN(1)
TS(ap, csr, 4000, 80000)
TS(ap, vofl, 2500, 50000)
#elif IN(2)
TS(ap, ual, 3000, 60000)
TS(ap, vos, 2500, 50000)
TS(ap, dol, 2000, 50000)
#endif
