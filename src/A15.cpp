// PARTS: 3
// RULE: random undirected graphs (18 families, loops; both directions stored) in set-based and sorted sequence containers, each under two random vertex numberings, plus multigraphs in sorted sequences; count compared with triple enumeration. Non-trivial: at least one triangle; distinct by graph.
// ASSUME: adjacency sorted by target id; every edge stored in both directions
// MIN: runs=3000
// MIN: triangles=5000
// MIN: parallel_runs=300
#include "vg.hpp"
#include <graph/algorithm/tc.hpp>
using namespace vh; using namespace vg;
inline u64 tri(const EL& g) { std::vector<std::set<u32>> a(g.n); for (auto& e : g.es) if (e.s != e.t) { a[e.s].insert(e.t); a[e.t].insert(e.s); } u64 k = 0; for (u32 u = 0; u < g.n; ++u) for (u32 v : a[u]) if (v > u) for (u32 w : a[v]) if (w > v && a[u].contains(w)) ++k; return k; }
template <class G> void tc(Ctx& c) {
  GenOpt o; o.big = 40; o.parallel = false; auto base = gen_graph(c.rng, o, true); if (c.rng.chance(30)) { u32 n = 3 + (u32)c.rng.below(14); base.n = n; base.es.clear(); base.fam = "near-complete"; int p = (int)c.rng.range(50, 100); for (u32 i = 0; i < n; ++i) for (u32 j = i; j < n; ++j) if (c.rng.chance(i == j ? 20 : p)) base.es.push_back({i, j, 1}); }
  u64 want = tri(base); std::vector<u32> p(base.n); std::iota(p.begin(), p.end(), 0u);
  for (int k = 0; k < 2; ++k) { EL b = base; for (auto& e : b.es) { e.s = p[e.s]; e.t = p[e.t]; } EL g = fully_sorted(symmetrize(b)); if (dedupes<G>()) c.rng.shuffle(g.es); c.input(std::string(Name<G>::v) + " " + g.str());
    const G gr = build<G>(g); size_t r = graph::triangle_count(gr); c.checkf(r == want, "triangle-count", [&] { return std::format("{} triangles, expected {} (numbering {})", r, want, k); }); c.rng.shuffle(p); c.count("runs"); }
  c.count("triangles", want); if (want) { c.nontrivial(base.hash()); c.sample(base.str() + " -> " + std::to_string(want)); } }
template <class G> void par(Ctx& c) {
  GenOpt o; auto base = gen_graph(c.rng, o, true); EL g = fully_sorted(symmetrize(base)); c.input(std::string(Name<G>::v) + " " + g.str()); u64 want = tri(base); const G gr = build<G>(g); size_t r = graph::triangle_count(gr);
  c.checkf(r >= want && (want || !r), "triangle-count-parallel", [&] { return std::format("{} triangles, {} distinct", r, want); });
  std::set<std::pair<u32, u32>> s; bool dup = false; for (auto& e : base.es) dup |= e.s != e.t && !s.insert(std::minmax(e.s, e.t)).second; if (!dup) c.check(r == want, "triangle-count"); else c.count("parallel_runs"); if (want) c.nontrivial(base.hash()); }
#if IN(0)
TS(tc, vos, 3000, 80000)
TS(par, vvi, 2000, 50000)
#elif IN(1)
TS(tc, csr, 3000, 80000)
TS(tc, vom, 1500, 40000)
#elif IN(2)
TS(tc, vvp, 2000, 50000)
TS(tc, dos, 2000, 50000)
TS(par, csr, 1500, 40000)
#endif
