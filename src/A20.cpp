// PARTS: 11
// RULE: the same random graph (undirected, each edge in both directions, or directed; no parallel edges) is built in up to 23 representations, four of them written as a user would, through the customisation points; every algorithm accepting them is run on each; uniquely determined results (distances, partitions, cut vertices, blocks, triangles, coefficients, totals, orders' existence, reachable sets) are compared with those on plain vectors, and a full snapshot of the graph before and after each call is compared. Non-trivial: the graph has a non-loop edge; distinct by graph.
// ASSUME: no parallel edges, so that containers keeping one edge per target hold the same graph
// MIN: results_compared=40000
// MIN: snapshots=60000
#include "vg.hpp"
using Res = std::map<std::string, std::vector<vh::i64>>;
namespace vg { template <class G> Res all_results(Ctx& c, const EL& base, const EL& full, bool und, u64 seed); }
#if !IN(0)
#include <random>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
namespace vg {
template <class G> std::vector<i64> snap(const G& g) { std::vector<i64> r; r.push_back((i64)graph::num_vertices(g)); for (auto&& u : graph::vertices(g)) { r.push_back(-1 - (i64)graph::vertex_id(g, u)); for (auto&& uv : graph::edges(g, u)) { r.push_back((i64)graph::target_id(g, uv)); r.push_back((i64)graph::source_id(g, uv)); r.push_back((i64)graph::edge_value(g, uv)); } } return r; }
template <class A> std::vector<i64> canon_part(const A& a) { std::map<i64, i64> m; std::vector<i64> r; for (size_t i = 0; i < a.size(); ++i) r.push_back(m.emplace((i64)a[i], (i64)i).first->second); return r; }
struct CountV { std::vector<i64> disc; template <class G> void on_discover_vertex(const G& g, const graph::vertex_t<G>& v) { disc.push_back((i64)graph::vertex_id(g, v)); } };
template <class V> struct VisD { std::vector<i64>* d; void on_discover_vertex(const auto& g, const V& v) { d->push_back((i64)graph::vertex_id(g, v)); } };
template <class G> Res all_results(Ctx& c, const EL& base, const EL& full, bool und, u64 seed) {
  Res R; using Id = graph::vertex_id_t<G>; size_t n = full.n; G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(full); }();
  const auto before = snap(gr); const G& cg = gr;
  auto same = [&](const char* alg) { c.count("snapshots"); c.checkf(snap(gr) == before, "graph-modified", [&] { return std::format("{} modified the graph in {}", alg, Name<G>::v); }); };
  auto W = [](const auto& g, const auto& uv) -> int { i64 s = (i64)graph::source_id(g, uv), t = (i64)graph::target_id(g, uv); return (int)(mix((u64)(std::min(s, t) * 1000 + std::max(s, t))) % 10); };
  auto Wneg = [](const auto& g, const auto& uv) -> int { i64 s = (i64)graph::source_id(g, uv), t = (i64)graph::target_id(g, uv); return (int)(mix((u64)(s * 1000 + t)) % 12) - 2; };
  bool cst = seed & 1; auto with = [&](auto&& f) { if (cst) f(cg); else f(gr); };
  std::vector<Id> S; if (n) S = {(Id)(seed % n)}; if (n && (seed & 2)) { Id b = (Id)((seed >> 8) % n); if (b != S[0]) S.push_back(b); }
  if (n) with([&](auto& g) {
    std::vector<int> d(n, INT_MAX); std::vector<Id> p(n); graph::dijkstra_shortest_paths(g, S, d, p, W); R["dijkstra"].assign(d.begin(), d.end()); same("dijkstra");
    std::fill(d.begin(), d.end(), INT_MAX); graph::dijkstra_shortest_distances(g, S[0], d); R["dijkstra unweighted"].assign(d.begin(), d.end()); same("dijkstra");
    std::fill(d.begin(), d.end(), INT_MAX); auto cyc = graph::bellman_ford_shortest_paths(g, S, d, p, Wneg); R["bellman-ford verdict"] = {cyc.has_value()}; if (!cyc) R["bellman-ford"].assign(d.begin(), d.end()); same("bellman_ford");
    std::vector<i64> o; VisD<graph::vertex_t<std::remove_reference_t<decltype(g)>>> v{&o}; graph::breadth_first_search(g, S, v); std::sort(o.begin(), o.end()); R["bfs reach"] = o; same("breadth_first_search");
    o.clear(); graph::depth_first_search(g, S[0], v); std::sort(o.begin(), o.end()); R["dfs reach"] = o; same("depth_first_search"); });
  with([&](auto& g) { std::vector<Id> o; bool ok = graph::topological_sort(g, std::back_inserter(o)); R["topological"] = {ok, (i64)o.size()}; same("topological_sort");
    std::vector<size_t> comp(n, 3); std::vector<float> dummy;
    std::vector<int> lab(n); std::iota(lab.begin(), lab.end(), 0); graph::label_propagation(g, lab, std::mt19937(7), 3); same("label_propagation");
    std::vector<std::array<i64, 3>> js; graph::jaccard_coefficient(g, [&](auto u, auto v, auto&&, auto val) { js.push_back({(i64)u, (i64)v, (i64)std::llround((double)val * 1e9)}); }); std::sort(js.begin(), js.end()); for (auto& j : js) for (i64 x : j) R["jaccard"].push_back(x); same("jaccard"); });
  if (und) with([&](auto& g) {
    std::vector<u32> comp(n, 3); size_t k = graph::connected_components(g, comp); R["components"] = canon_part(comp); R["component count"] = {(i64)k}; same("connected_components");
    std::fill(comp.begin(), comp.end(), 0); graph::afforest(g, comp); R["afforest"] = canon_part(comp); same("afforest");
    std::vector<i64> a; { std::vector<Id> o; graph::articulation_points(g, std::back_inserter(o)); for (auto x : o) a.push_back((i64)x); } std::sort(a.begin(), a.end()); R["articulation"] = a; same("articulation_points");
    std::vector<std::vector<Id>> bs; graph::biconnected_components(g, bs); std::set<std::vector<i64>> sb; for (auto& b : bs) { std::vector<i64> x(b.begin(), b.end()); std::sort(x.begin(), x.end()); sb.insert(x); } for (auto& b : sb) { R["blocks"].push_back(-1); for (i64 x : b) R["blocks"].push_back(x); } same("biconnected_components");
    if constexpr (!std::is_same_v<G, ual> && order_of<G>() != Ord::prepend && order_of<G>() != Ord::hashed_unique) { R["triangles"] = {(i64)graph::triangle_count(g)}; same("triangle_count"); }
    if (n) { std::vector<u32> p(n, 0); std::vector<int> w(n, 0); int t = graph::prim(g, p, w, std::less<int>{}, INT_MAX, W, S[0]); R["prim"] = {t}; same("prim");
      std::vector<Id> o; size_t m = graph::maximal_independent_set(g, std::back_inserter(o), S[0]); same("maximal_independent_set"); c.check(m == o.size(), "mis-count"); std::vector<char> in(n, 0); for (auto x : o) in[x] = 1; std::vector<char> cov(n, 0); for (auto& e : full.es) { if (e.s == e.t) cov[e.s] = 1; if (in[e.t]) cov[e.s] = 1; c.check(!(in[e.s] && in[e.t]), "mis-not-independent", Name<G>::v); } for (size_t v = 0; v < n; ++v) c.check(in[v] || cov[v], "mis-not-maximal", Name<G>::v); } });
  else { if constexpr (!std::is_same_v<G, ual>) { const G gt = build<G>(transposed(full)); with([&](auto& g) { std::vector<u32> comp(n, 3); graph::kosaraju(g, gt, comp); R["scc"] = canon_part(comp); same("kosaraju"); std::fill(comp.begin(), comp.end(), 0); graph::afforest(g, gt, comp); R["afforest"] = canon_part(comp); same("afforest"); }); } }
  return R;
}
#define INST(G) template Res all_results<G>(Ctx&, const EL&, const EL&, bool, u64);
#if IN(1)
INST(vvp) INST(vvi)
#elif IN(2)
INST(vov) INST(vol) INST(vofl)
#elif IN(3)
INST(vod) INST(dov) INST(dofl)
#elif IN(4)
INST(dol) INST(dod)
#elif IN(5)
INST(vos) INST(dos) INST(vous)
#elif IN(6)
INST(vom) INST(voum)
#elif IN(7)
INST(vob) INST(csr) INST(ual) INST(vlb)
#elif IN(8)
INST(mtx) INST(atl)
#elif IN(9)
INST(fru)
#elif IN(10)
INST(mir)
#endif
}
#else
using namespace vh; using namespace vg;
static void compare(Ctx& c, bool und) {
  GenOpt o; o.parallel = false; o.big = 30; auto base = gen_graph(c.rng, o, und); EL full = fully_sorted(und ? symmetrize(base) : base); u64 seed = c.rng.next(); c.input(std::format("{} seed {} {}", und ? "undirected" : "directed", seed, full.str()));
  Res want = all_results<vvp>(c, base, full, und, seed);
  auto cmp = [&](const char* name, const Res& r) { for (auto& [k, v] : r) { auto it = want.find(k); if (it == want.end()) continue; c.count("results_compared"); c.checkf(it->second == v, "containers-disagree", [&] { return std::format("{} on {}: {} but on plain vectors {}", k, name, seq(v), seq(it->second)); }); } c.checkf(r.size() + 3 >= want.size(), "containers-missing", [&] { return std::string(name); }); };
#define C(G) c.input(std::format("{} {} seed {} {}", #G, und ? "undirected" : "directed", seed, full.str())); cmp(#G, all_results<G>(c, base, full, und, seed));
  C(vvi) C(csr) switch (seed >> 2 & 3) { case 0: C(mtx) break; case 1: C(atl) break; case 2: C(fru) break; default: C(mir) } switch (c.rng.below(4)) { case 0: C(vov) C(vol) C(vofl) C(vod) break; case 1: C(dov) C(dofl) C(dol) C(dod) break; case 2: C(vos) C(dos) C(vous) C(vom) break; case 3: C(voum) C(vob) C(vlb) if (und) { C(ual) } break; }
  for (auto& e : full.es) if (e.s != e.t) { c.nontrivial(full.hash()); c.sample(full.str()); break; } }
SUITE(undirected, 900, 30000) { compare(c, true); }
SUITE(directed, 900, 30000) { compare(c, false); }
#endif
