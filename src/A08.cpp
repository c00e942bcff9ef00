// PARTS: 3
// RULE: random undirected graphs (18 families, edges stored in both directions, loops, parallel edges, isolated vertices) x containers x component value types; labels compared with a union-find oracle. Non-trivial: at least one edge and two components or more than three vertices in one; distinct by graph.
// ASSUME: every edge is stored in both directions
// MIN: runs=2000
// MIN: multi_component=500
#include "vg.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace vh; using namespace vg;
template <class G> void cc(Ctx& c) {
  GenOpt o; o.big = 150; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); auto want = wcc(g); std::set<u32> k(want.begin(), want.end());
  const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else { if (c.rng.chance(50)) c.rng.shuffle(g.es); return build<G>(g); } }();
  c.input(std::string(Name<G>::v) + " " + g.str());
  size_t extra = c.rng.chance(20) ? 2 : 0;
  auto run = [&]<class T>(T, auto cont) { cont.assign(g.n + extra, (T)c.rng.below(5)); size_t r = graph::connected_components(gr, cont);
    c.checkf(r == k.size(), "cc-count", [&] { return std::format("returned {} components, expected {}", r, k.size()); });
    c.checkf(labels_exact(cont, g.n, r), "cc-labels", [&] { return "labels are not 0..k-1: " + seq(cont); });
    c.checkf(same_partition(cont, want, g.n), "cc-partition", [&] { return seq(cont) + " expected " + seq(want); }); };
  switch (c.rng.below(4)) { case 0: run(u32(), std::vector<u32>{}); break; case 1: run(size_t(), std::vector<size_t>{}); break; case 2: run(int(), std::vector<int>{}); break; default: run(u32(), std::deque<u32>{}); }
  c.count("runs"); if (k.size() > 1) c.count("multi_component"); if (!g.es.empty() && (k.size() > 1 || g.n > 3)) { c.nontrivial(g.hash()); c.sample(g.str() + " -> " + std::to_string(k.size())); }
}
#if IN(0)
TS(cc, vvi, 4000, 100000)
TS(cc, vov, 2000, 50000)
#elif IN(1)
TS(cc, csr, 3000, 80000)
TS(cc, vofl, 2000, 50000)
#elif IN(2)
TS(cc, ual, 2500, 50000)
TS(cc, dos, 2000, 50000)
TS(cc, voum, 1500, 50000)
#endif
