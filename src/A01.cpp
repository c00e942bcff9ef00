// PARTS: 4
// SAN: asan
// RULE: 18 random graph families (edgeless, sparse, dense, paths, stars, DAGs, cliques, cacti, cheap-chain-with-shortcuts, multigraphs; up to 14 vertices, sometimes 150) x containers x weight types x 1..4 distinct sources x call forms; every distance and predecessor of every run is judged against a Bellman-Ford style reference. A case is non-trivial when some vertex is reached through at least one edge; distinct by hash of (graph, sources, form).
// ASSUME: distances and predecessors are initialised with init_shortest_paths, as documented
// ASSUME: path sums do not overflow the distance type
// MIN: dijkstra_runs=500
// MIN: reached_vertices=1000
#include "vg.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
using namespace vh;

struct Less { template <class T> bool operator()(const T& a, const T& b) const { return a < b; } };
struct Max { template <class A, class B> auto operator()(const A& a, const B& b) const { using T = std::common_type_t<A, B>; return std::max<T>(a, b); } };
struct PlusOne { template <class A, class B> auto operator()(const A& a, const B& b) const { return a + b + 1; } };

// reference: label correcting with the same combine
template <class D, class Comb> std::vector<D> ref(const EL& g, const std::vector<u32>& src, Comb comb, auto wf) {
  constexpr D inf = std::numeric_limits<D>::max(); std::vector<D> d(g.n, inf); for (u32 s : src) d[s] = D();
  for (bool ch = true; ch;) { ch = false; for (auto& e : g.es) if (d[e.s] != inf) { D x = (D)comb(d[e.s], wf(e)); if (x < d[e.t]) { d[e.t] = x; ch = true; } } }
  return d; }

template <class D, class Comb> void judge(Ctx& c, const EL& g, const std::vector<u32>& src, const std::vector<D>& dist, const std::vector<u32>* pred, Comb comb, auto wf, const char* form) {
  constexpr D inf = std::numeric_limits<D>::max();
  auto want = ref<D>(g, src, comb, wf);
  std::vector<char> is(g.n, 0); for (u32 s : src) is[s] = 1;
  u64 reached = 0;
  for (u32 v = 0; v < g.n; ++v) {
    c.checkf(dist[v] == want[v], "dijkstra-distance", [&] { return std::format("{}: distance[{}]={} expected {} sources {}", form, v, dist[v], want[v], seq(src)); });
    if (want[v] != inf && !is[v]) ++reached;
    if (!pred) continue;
    u32 p = (*pred)[v];
    if (is[v] || want[v] == inf) { c.checkf(p == v, "dijkstra-predecessor-changed", [&] { return std::format("{}: predecessor[{}]={} of a source or unreached vertex", form, v, p); }); continue; }
    c.checkf(p < g.n && want[p] != inf, "dijkstra-predecessor", [&] { return std::format("{}: predecessor[{}]={} is not a reached vertex", form, v, p); });
    bool ok = false; for (auto& e : g.es) ok |= e.s == p && e.t == v && (D)comb(want[p], wf(e)) == want[v];
    c.checkf(ok, "dijkstra-predecessor-edge", [&] { return std::format("{}: no edge {}->{} accounts for distance {}", form, p, v, want[v]); });
  }
  if (pred) for (u32 v = 0; v < g.n; ++v) if (want[v] != inf) { u32 x = v; u32 k = 0; while (!is[x] && k <= g.n) { x = (*pred)[x]; ++k; }
    c.checkf(is[x], "dijkstra-predecessor-cycle", [&] { return std::format("{}: predecessors from {} do not end in a source", form, v); }); }
  c.count("dijkstra_runs"); c.count("reached_vertices", reached); c.count("distances_judged", g.n);
  if (reached) { c.nontrivial(hcomb(g.hash(), hcomb(hstr(form), src[0] * 31 + src.size()))); c.sample(std::format("{} {} sources {} -> {}", form, g.str(), seq(src), seq(dist))); }
}

// all forms with the plain int weight of the container
template <class G> void all_forms(Ctx& c) {
  GenOpt o; o.big = 140; auto base = gen_graph(c.rng, o, std::is_same_v<G, vg::ual>);
  if (!base.n) return;
  EL view = vg::effective<G>(std::is_same_v<G, vg::csr> ? sorted_edges(base) : base);
  c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base);
  if constexpr (std::is_same_v<G, vg::ual>) view = symmetrize(base);
  using Id = graph::vertex_id_t<G>;
  auto srcs = pick_sources(c.rng, base.n); std::vector<Id> S(srcs.begin(), srcs.end());
  auto wf = [](const E& e) { return e.w; }; const u32 n = base.n;
  size_t extra = c.rng.chance(20) ? 1 + c.rng.below(3) : 0;
  auto run = [&]<class D>(D, auto comb, const char* form, auto call, bool haspred, const std::vector<u32>& ss, auto w) {
    std::vector<D> d(n + extra); std::vector<u32> p(n + extra);
    graph::init_shortest_paths(d, p); call(d, p);
    for (size_t i = n; i < n + extra; ++i) c.check(d[i] == std::numeric_limits<D>::max() && p[i] == i, "dijkstra-writes-past-vertices", form);
    judge<D>(c, view, ss, d, haspred ? &p : nullptr, comb, w, form);
  };
  std::plus<> pl;
  std::vector<u32> one{srcs[0]}; Id s0 = S[0];
  run(int(), pl, "multi", [&](auto& d, auto& p) { graph::dijkstra_shortest_paths(gr, S, d, p, vg::weight); }, true, srcs, wf);
  run(int(), pl, "single", [&](auto& d, auto& p) { graph::dijkstra_shortest_paths(gr, s0, d, p, vg::weight); }, true, one, wf);
  run(int(), pl, "multi-distances", [&](auto& d, auto&) { graph::dijkstra_shortest_distances(gr, S, d, vg::weight); }, false, srcs, wf);
  run(int(), pl, "single-distances", [&](auto& d, auto&) { graph::dijkstra_shortest_distances(gr, s0, d, vg::weight); }, false, one, wf);
  run(int(), pl, "default-weight", [&](auto& d, auto& p) { graph::dijkstra_shortest_paths(gr, S, d, p); }, true, srcs, [](const E&) { return 1; });
  run(i64(), pl, "default-weight-single", [&](auto& d, auto& p) { graph::dijkstra_shortest_paths(gr, s0, d, p); }, true, one, [](const E&) { return 1; });
  run(double(), pl, "default-weight-distances", [&](auto& d, auto&) { graph::dijkstra_shortest_distances(gr, S, d); }, false, srcs, [](const E&) { return 1; });
  run(int(), pl, "default-weight-single-distances", [&](auto& d, auto&) { graph::dijkstra_shortest_distances(gr, s0, d); }, false, one, [](const E&) { return 1; });
  run(int(), Max{}, "bottleneck", [&](auto& d, auto& p) { graph::dijkstra_shortest_paths(gr, S, d, p, vg::weight, graph::empty_visitor(), Less{}, Max{}); }, true, srcs, wf);
}
// weight types and combine functions
template <class G> void types(Ctx& c) {
  GenOpt o; o.big = 60; auto base = gen_graph(c.rng, o);
  if (!base.n) return;
  c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base); EL view = std::is_same_v<G, vg::csr> ? sorted_edges(base) : base;
  using Id = graph::vertex_id_t<G>;
  auto srcs = pick_sources(c.rng, base.n); std::vector<Id> S(srcs.begin(), srcs.end()); const u32 n = base.n;
  int scale = (int)c.rng.range(1, 1000);
  auto run = [&]<class D>(D, auto wfun, auto comb, const char* form) {
    std::vector<D> d(n); std::vector<u32> p(n); graph::init_shortest_paths(d, p);
    auto W = [&](const auto& g, const auto& uv) { return wfun((int)graph::edge_value(g, uv)); };
    graph::dijkstra_shortest_paths(gr, S, d, p, W, graph::empty_visitor(), Less{}, comb);
    judge<D>(c, view, srcs, d, &p, comb, [&](const E& e) { return wfun(e.w); }, form);
    std::vector<D> d2(n); graph::init_shortest_paths(d2);
    graph::dijkstra_shortest_distances(gr, S, d2, W, graph::empty_visitor(), Less{}, comb);
    judge<D>(c, view, srcs, d2, nullptr, comb, [&](const E& e) { return wfun(e.w); }, form);
  };
  switch (c.rng.below(7)) {
  case 0: run(double(), [&](int w) { return w * 0.25 * scale; }, std::plus<>{}, "double"); break;
  case 1: run(float(), [&](int w) { return w * 0.5f; }, std::plus<>{}, "float"); break;
  case 2: run(unsigned(), [&](int w) { return (unsigned)(w * scale); }, std::plus<>{}, "unsigned"); break;
  case 3: run(u64(), [&](int w) { return (u64)w << 33; }, std::plus<>{}, "uint64"); break;
  case 4: run(i64(), [&](int w) { return (i64)w * 1000000000; }, std::plus<>{}, "int64"); break;
  case 5: run(i64(), [&](int w) { return w; }, PlusOne{}, "int64+hop"); break;
  case 6: run(double(), [&](int w) { return w == 0 ? 1e-300 : w * 1.0; }, Max{}, "double-bottleneck"); break;
  }
}
#if IN(0)
TS(all_forms, vvp, 700, 30000)
TS(all_forms, vom, 300, 12000)
#elif IN(1)
TS(all_forms, csr, 700, 30000)
TS(all_forms, dofl, 300, 12000)
#elif IN(2)
TS(all_forms, vol, 500, 20000)
TS(all_forms, ual, 500, 20000)
#elif IN(3)
TS(types, vvp, 900, 40000)
TS(types, csr, 500, 20000)
// user-defined numbers of vertices large enough for real heap reordering
SUITE(big, 12, 200) {
  GenOpt o; o.maxn = 1200; o.whi = c.rng.chance(50) ? 3 : 1000; auto g = gen_graph(c.rng, o); if (!g.n) return;
  c.input(g.str()); const auto gr = vg::build<vg::vvp>(g); auto srcs = pick_sources(c.rng, g.n); std::vector<size_t> S(srcs.begin(), srcs.end());
  std::vector<i64> d(g.n); std::vector<u32> p(g.n); graph::init_shortest_paths(d, p);
  graph::dijkstra_shortest_paths(gr, S, d, p, vg::weight);
  judge<i64>(c, g, srcs, d, &p, std::plus<>{}, [](const E& e) { return e.w; }, "big");
}
#endif
