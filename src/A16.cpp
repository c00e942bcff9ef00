// PARTS: 3
// RULE: random graphs, directed and undirected (18 families, loops, parallel edges), x containers x coefficient type; every callback is recorded and judged against brute-force neighbour sets. Non-trivial: some coefficient strictly between 0 and 1; distinct by graph.
// MIN: callbacks=20000
// MIN: fractional=2000
#include "vg.hpp"
#include <graph/algorithm/jaccard.hpp>
using namespace vh; using namespace vg;
template <class G> void jac(Ctx& c) {
  GenOpt o; o.big = 40; bool und = std::is_same_v<G, ual> || c.rng.chance(50); auto base = gen_graph(c.rng, o, und); EL full = und ? symmetrize(base) : base; if constexpr (std::is_same_v<G, csr>) full = sorted_edges(full);
  if constexpr (std::is_same_v<G, vvi>) for (auto& e : full.es) e.w = (int)e.t;
  EL g = std::is_same_v<G, ual> ? full : effective<G>(full); c.input(std::string(Name<G>::v) + " " + full.str()); G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(full); }();
  std::vector<std::set<u32>> a(g.n); for (auto& e : g.es) if (e.s != e.t) a[e.s].insert(e.t); std::multiset<std::tuple<u32, u32, int>> want; for (auto& e : g.es) if (e.s != e.t) want.insert({e.s, e.t, e.w});
  u64 frac = 0, calls = 0; std::map<std::pair<u32, u32>, double> vals; std::map<u32, size_t> pos;
  auto rec = [&](auto u, auto v, auto& uv, auto val) { ++calls; u32 s = (u32)graph::source_id(gr, uv), t = (u32)graph::target_id(gr, uv); c.checkf(s == (u32)u && t == (u32)v, "jaccard-descriptor", [&] { return std::format("callback ({},{}) with the descriptor of {}->{}", (u64)u, (u64)v, s, t); });
    auto it = want.find({s, t, (int)graph::edge_value(gr, uv)}); c.checkf(it != want.end(), "jaccard-edge", [&] { return std::format("callback for {}->{} too often, or not an edge", s, t); }); want.erase(it);
    size_t i = 0; for (u32 x : a[s]) i += a[t].contains(x); size_t un = a[s].size() + a[t].size() - i; double w = un ? (double)i / (double)un : 0.0;
    c.checkf(std::abs((double)val - w) <= (sizeof(val) == 4 ? 1e-6 : 1e-12) && val >= 0 && val <= 1, "jaccard-value", [&] { return std::format("{}->{}: {} expected {}", s, t, (double)val, w); }); if (w > 0 && w < 1) ++frac; vals[{s, t}] = (double)val; };
  if (c.rng.chance(50)) graph::jaccard_coefficient(gr, rec); else { using R = decltype(rec)&; struct F { R r; void operator()(graph::vertex_id_t<G> u, graph::vertex_id_t<G> v, graph::edge_t<G>& e, float x) { r(u, v, e, x); } };  graph::jaccard_coefficient<G&, F, float>(gr, F{rec}); }
  c.checkf(want.empty(), "jaccard-missing", [&] { auto [s, t, w] = *want.begin(); return std::format("no callback for {}->{} ({} missing)", s, t, want.size()); });
  if (und && !dedupes<G>()) for (auto& [k, v] : vals) { auto it = vals.find({k.second, k.first}); c.check(it != vals.end() && it->second == v, "jaccard-symmetry"); }
  c.count("callbacks", calls); c.count("fractional", frac); if (frac) { c.nontrivial(g.hash()); c.sample(g.str() + " -> " + std::to_string(calls) + " callbacks"); }
}
#if IN(0)
TS(jac, vvi, 2500, 60000)
TS(jac, vov, 1500, 40000)
#elif IN(1)
TS(jac, csr, 2000, 50000)
TS(jac, vofl, 1500, 40000)
#elif IN(2)
TS(jac, ual, 1500, 40000)
TS(jac, vos, 1500, 40000)
TS(jac, vvp, 1500, 40000)
#endif
