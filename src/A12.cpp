// PARTS: 3
// RULE: random undirected weighted graphs (both directions stored; loops, parallel edges with different weights, ties, negative weights, several components) x containers x seeds x comparators x weight types; tree, weights and total judged against a Kruskal oracle. Non-trivial: the seed's component has three or more vertices; distinct by (graph, seed, form).
// ASSUME: every edge is stored in both directions with the same weight
// MIN: runs=3000
// MIN: tree_edges=10000
// MIN: outside_vertices=1000
#include "vg.hpp"
#include <graph/algorithm/mst.hpp>
using namespace vh; using namespace vg;
template <class W, class Cmp> void judge(Ctx& c, const EL& g, u32 seed, const std::vector<u32>& pred, const std::vector<u32>& pred0, const std::vector<W>& wt, W init, W total, auto wf, Cmp cmp, const char* form) {
  auto comp = wcc(g); W sum{}; u64 k = 0, outside = 0;
  for (u32 v = 0; v < g.n; ++v) {
    if (comp[v] != comp[seed]) { ++outside; c.checkf(pred[v] == pred0[v], "prim-outside", [&] { return std::format("{}: predecessor of unreached vertex {} became {}", form, v, pred[v]); }); c.checkf(wt[v] == init, "prim-outside-weight", [&] { return std::format("{}: weight of unreached vertex {} is {}", form, v, wt[v]); }); continue; }
    if (v == seed) { c.check(pred[v] == seed, "prim-seed", form); continue; }
    bool ok = false; for (auto& e : g.es) ok |= e.s == pred[v] && e.t == v && (W)wf(e) == wt[v];
    c.checkf(ok, "prim-edge", [&] { return std::format("{}: no edge {}-{} of weight {}; seed {}", form, pred[v], v, wt[v], seed); });
    u32 x = v, n = 0; while (x != seed && n++ <= g.n) x = pred[x] < g.n ? pred[x] : v; c.checkf(x == seed, "prim-not-a-tree", [&] { return std::format("{}: predecessors of {} do not lead to the seed {}", form, v, seed); });
    sum += wt[v]; ++k; }
  std::vector<E> es; for (auto& e : g.es) if (comp[e.s] == comp[seed]) es.push_back(e); std::stable_sort(es.begin(), es.end(), [&](auto& a, auto& b) { return cmp((W)wf(a), (W)wf(b)); }); DSU d(g.n); W want{}; for (auto& e : es) if (d.join(e.s, e.t)) want += (W)wf(e);
  c.checkf(sum == want, "prim-not-minimal", [&] { return std::format("{}: total {} expected {}; seed {}", form, sum, want, seed); });
  c.checkf(total == sum, "prim-return", [&] { return std::format("{}: returned {} but the weights sum to {}", form, total, sum); });
  c.count("runs"); c.count("tree_edges", k); c.count("outside_vertices", outside); if (k > 1) { c.nontrivial(hcomb(g.hash(), hcomb(seed, hstr(form)))); c.sample(std::format("{} {} seed {} -> {}", form, g.str(), seed, total)); } }
template <class G> void pr(Ctx& c) {
  GenOpt o; o.big = 120; o.wlo = c.rng.chance(40) ? -9 : 0; if (c.rng.chance(30)) o.whi = 2; auto base = gen_graph(c.rng, o, true); if (!base.n) return;
  if constexpr (dedupes<G>()) { std::map<std::pair<u32, u32>, int> m; std::erase_if(base.es, [&](E& e) { return !m.emplace(std::minmax(e.s, e.t), 0).second; }); }
  EL g = symmetrize(base); c.input(std::string(Name<G>::v) + " " + g.str()); const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else { if (c.rng.chance(50)) c.rng.shuffle(g.es); return build<G>(g); } }();
  u32 seed = (u32)c.rng.below(g.n); using Id = graph::vertex_id_t<G>; std::vector<u32> p0(g.n); for (auto& x : p0) x = (u32)c.rng.below(1000); auto p = p0; auto wf = [](const E& e) { return e.w; };
  auto run = [&]<class W>(W, auto cmp, W init, auto wfn, auto we, const char* form) { auto pp = p0; std::vector<W> w(g.n, (W)77); W t = graph::prim(gr, pp, w, cmp, init, wfn, (Id)seed); judge<W>(c, g, seed, pp, p0, w, init, t, we, cmp, form); };
  switch (c.rng.below(5)) {
  case 0: case 1: { std::vector<int> w(g.n, 77); int t = graph::prim(gr, p, w, (Id)seed); judge<int>(c, g, seed, p, p0, w, std::numeric_limits<int>::max(), t, wf, std::less<int>{}, "default"); if (c.rng.chance(20)) { auto q = p0; std::vector<int> w2(g.n, 5); int t2 = graph::prim(gr, q, w2); judge<int>(c, g, 0, q, p0, w2, std::numeric_limits<int>::max(), t2, wf, std::less<int>{}, "default seed"); } break; }
  case 2: run(int(), std::greater<int>{}, std::numeric_limits<int>::lowest(), [](const auto& gg, const auto& uv) { return (int)graph::edge_value(gg, uv); }, wf, "maximum"); break;
  case 3: run(double(), std::less<double>{}, std::numeric_limits<double>::max(), [](const auto& gg, const auto& uv) { return graph::edge_value(gg, uv) * 0.25; }, [](const E& e) { return e.w * 0.25; }, "double"); break;
  case 4: run(i64(), std::less<i64>{}, std::numeric_limits<i64>::max(), [](const auto& gg, const auto& uv) { return (i64)graph::edge_value(gg, uv) * 1000000007; }, [](const E& e) { return (i64)e.w * 1000000007; }, "int64"); break; }
}
#if IN(0)
TS(pr, vvp, 5000, 100000)
TS(pr, vom, 1500, 40000)
#elif IN(1)
TS(pr, csr, 3000, 60000)
TS(pr, vofl, 2000, 50000)
#elif IN(2)
TS(pr, ual, 2500, 50000)
TS(pr, dol, 2000, 50000)
#endif
