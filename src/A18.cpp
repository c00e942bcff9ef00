// PARTS: 3
// RULE: random undirected graphs (18 families, loops, parallel edges; both directions stored) x containers x every seed; independence, maximality, exclusion of loops and count judged. Non-trivial: two or more output vertices and at least one edge; distinct by (graph, seed).
// ASSUME: every edge is stored in both directions; seed < number of vertices
// MIN: runs=5000
// MIN: loop_vertices=1000
// MIN: loop_seeds=100
#include "vg.hpp"
#include <graph/algorithm/mis.hpp>
using namespace vh; using namespace vg;
template <class G> void mis(Ctx& c) {
  GenOpt o; o.big = 60; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); if (c.rng.chance(50)) c.rng.shuffle(g.es); c.input(std::string(Name<G>::v) + " " + g.str()); const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(g); }(); using Id = graph::vertex_id_t<G>;
  std::vector<char> loop(g.n, 0); for (auto& e : g.es) if (e.s == e.t) loop[e.s] = 1; c.count("loop_vertices", (u64)std::count(loop.begin(), loop.end(), 1));
  if (!g.n) { std::vector<Id> out; c.check(graph::maximal_independent_set(gr, std::back_inserter(out)) == 0 && out.empty(), "mis-empty"); return; }
  u32 lim = std::min<u32>(g.n, 5); for (u32 k = 0; k < lim; ++k) { u32 seed = k == 0 ? 0 : (u32)c.rng.below(g.n); std::vector<Id> out; size_t r = k == 0 && c.rng.chance(50) ? graph::maximal_independent_set(gr, std::back_inserter(out)) : graph::maximal_independent_set(gr, std::back_inserter(out), (Id)seed);
    c.checkf(r == out.size(), "mis-count", [&] { return std::format("returned {} for {}", r, seq(out)); }); std::vector<char> in(g.n, 0); for (auto v : out) { c.checkf((u64)v < g.n && !in[v], "mis-repeated", [&] { return seq(out); }); in[v] = 1; c.checkf(!loop[v], "mis-loop", [&] { return std::format("vertex {} has a self-loop; {} seed {}", (u64)v, seq(out), seed); }); }
    c.checkf(loop[seed] || in[seed], "mis-seed", [&] { return std::format("seed {} not in {}", seed, seq(out)); }); std::vector<char> cov(g.n, 0);
    for (auto& e : g.es) { c.checkf(e.s == e.t || !(in[e.s] && in[e.t]), "mis-adjacent", [&] { return std::format("{} and {} are adjacent; {} seed {}", e.s, e.t, seq(out), seed); }); if (in[e.t]) cov[e.s] = 1; }
    for (u32 v = 0; v < g.n; ++v) c.checkf(in[v] || loop[v] || cov[v], "mis-not-maximal", [&] { return std::format("vertex {} could be added to {}; seed {}", v, seq(out), seed); });
    c.count("runs"); if (loop[seed]) c.count("loop_seeds"); if (out.size() > 1 && !g.es.empty()) { c.nontrivial(hcomb(g.hash(), seed)); c.sample(std::format("{} seed {} -> {}", g.str(), seed, seq(out))); } } }
#if IN(0)
TS(mis, vvi, 4000, 100000)
TS(mis, vov, 2000, 50000)
#elif IN(1)
TS(mis, csr, 3000, 60000)
TS(mis, vofl, 2000, 50000)
#elif IN(2)
TS(mis, ual, 2500, 50000)
TS(mis, vos, 2000, 50000)
TS(mis, dol, 2000, 50000)
#endif
