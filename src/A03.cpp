// PARTS: 4
// RULE: random digraphs (18 families, weights from -k..9, negative cycles planted on and off the reached part) x containers x weight types x call forms; negative-cycle verdict, distances and predecessors judged against a label-correcting reference. Non-trivial: at least one vertex reached through an edge; distinct by (graph, sources, form).
// ASSUME: distances and predecessors initialised with init_shortest_paths; path sums do not overflow
// MIN: runs=2000
// MIN: negative_cycles=100
// MIN: unreachable_negative_edges=50
#include "vg.hpp"
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace vh;
struct Less { template <class T> bool operator()(const T& a, const T& b) const { return a < b; } };
struct Max { template <class A, class B> auto operator()(const A& a, const B& b) const { using T = std::common_type_t<A, B>; return std::max<T>(a, b); } };

inline EL gen(Ctx& c) {
  GenOpt o; o.maxn = 12; int r = (int)c.rng.below(5); o.wlo = r == 0 ? 0 : r == 1 ? -1 : r == 2 ? -2 : -9; if (r == 3) { o.wlo = -1; o.whi = 40; }
  auto g = gen_graph(c.rng, o);
  if (r == 4 && g.n) { // potentials: many negative edges, but no negative cycle
    std::vector<int> h(g.n); for (auto& x : h) x = (int)c.rng.range(-20, 20); for (auto& e : g.es) e.w = std::abs(e.w) + h[e.s] - h[e.t]; }
  return g; }

template <class D, class Comb> void judge(Ctx& c, const EL& g, const std::vector<u32>& src, bool cyc, i64 cv, const std::vector<D>& dist, const std::vector<u32>* pred, Comb comb, auto wf, const char* form) {
  constexpr D inf = std::numeric_limits<D>::max(); std::vector<D> want(g.n, inf); for (u32 s : src) want[s] = D(); bool neg = false;
  for (u32 k = 0;; ++k) { bool ch = false; for (auto& e : g.es) if (want[e.s] != inf) { D x = (D)comb(want[e.s], wf(e)); if (x < want[e.t]) { want[e.t] = x; ch = true; } } if (!ch) break; if (k > g.n) { neg = true; break; } }
  c.checkf(cyc == neg, "bf-cycle-verdict", [&] { return std::format("{}: reported a negative cycle: {}, one is reachable: {}; sources {}", form, cyc, neg, seq(src)); });
  c.count("runs"); if (neg) c.count("negative_cycles");
  auto rc = reach(g, src); for (auto& e : g.es) if (!rc[e.s] && e.w < 0) { c.count("unreachable_negative_edges"); break; }
  if (neg) { // unreachable vertices keep the infinite distance; the reported vertex is a reached vertex
    for (u32 v = 0; v < g.n; ++v) if (!rc[v]) { c.checkf(dist[v] == inf && (!pred || (*pred)[v] == v), "bf-unreachable", [&] { return std::format("{}: unreachable vertex {} has distance {}", form, v, dist[v]); }); }
    if (pred) c.checkf(cv >= 0 && cv < (i64)g.n && rc[cv], "bf-cycle-vertex", [&] { return std::format("{}: cycle vertex {} is not reachable", form, cv); });
    c.nontrivial(hcomb(g.hash(), hcomb(hstr(form), src[0]))); return; }
  std::vector<char> is(g.n, 0); for (u32 s : src) is[s] = 1; u64 reached = 0;
  for (u32 v = 0; v < g.n; ++v) {
    c.checkf(dist[v] == want[v], want[v] == inf ? "bf-unreachable" : "bf-distance", [&] { return std::format("{}: distance[{}]={} expected {}; sources {}", form, v, dist[v], want[v], seq(src)); });
    if (want[v] != inf && !is[v]) ++reached;
    if (!pred) continue; u32 p = (*pred)[v];
    if (want[v] == inf || (is[v] && want[v] == D())) { c.checkf(p == v, "bf-predecessor-changed", [&] { return std::format("{}: predecessor[{}]={}", form, v, p); }); continue; }
    c.checkf(p < g.n && want[p] != inf, "bf-predecessor", [&] { return std::format("{}: predecessor[{}]={} is not a reached vertex", form, v, p); });
    bool ok = false; for (auto& e : g.es) ok |= e.s == p && e.t == v && (D)comb(want[p], wf(e)) == want[v];
    c.checkf(ok, "bf-predecessor-edge", [&] { return std::format("{}: no edge {}->{} accounts for distance {}", form, p, v, want[v]); });
  }
  if (pred) for (u32 v = 0; v < g.n; ++v) if (want[v] != inf) { u32 x = v, k = 0; while ((*pred)[x] != x && k <= g.n) { x = (*pred)[x]; ++k; }
    c.checkf((*pred)[x] == x && is[x], "bf-predecessor-cycle", [&] { return std::format("{}: predecessors from {} do not end in a source", form, v); }); }
  if (reached) { c.nontrivial(hcomb(g.hash(), hcomb(hstr(form), src[0]))); c.sample(std::format("{} {} sources {} -> {}", form, g.str(), seq(src), seq(dist))); }
}
template <class G> void forms(Ctx& c) {
  auto base = gen(c); if (!base.n) return; if constexpr (std::is_same_v<G, vg::ual>) for (auto& e : base.es) e.w = std::abs(e.w) * (c.rng.chance(3) ? -1 : 1);
  EL g = std::is_same_v<G, vg::ual> ? symmetrize(base) : vg::effective<G>(std::is_same_v<G, vg::csr> ? sorted_edges(base) : base);
  c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base); auto src = pick_sources(c.rng, g.n); using Id = graph::vertex_id_t<G>; std::vector<Id> S(src.begin(), src.end());
  size_t extra = c.rng.chance(20) ? 2 : 0; std::vector<u32> one{src[0]}; auto wf = [](const E& e) { return e.w; }; std::plus<> pl;
  auto run = [&]<class D>(D, auto comb, const char* form, auto call, bool hp, const std::vector<u32>& ss, auto w) {
    std::vector<D> d(g.n + extra); std::vector<u32> p(g.n + extra); graph::init_shortest_paths(d, p); auto r = call(d, p);
    for (size_t i = g.n; i < d.size(); ++i) c.check(d[i] == std::numeric_limits<D>::max() && p[i] == i, "bf-writes-past-vertices", form);
    judge<D>(c, g, ss, r.has_value(), r ? (i64)*r : -1, d, hp ? &p : nullptr, comb, w, form); };
  run(int(), pl, "multi", [&](auto& d, auto& p) { return graph::bellman_ford_shortest_paths(gr, S, d, p, vg::weight); }, true, src, wf);
  run(int(), pl, "single", [&](auto& d, auto& p) { return graph::bellman_ford_shortest_paths(gr, S[0], d, p, vg::weight); }, true, one, wf);
  run(i64(), pl, "multi-distances", [&](auto& d, auto&) { return graph::bellman_ford_shortest_distances(gr, S, d, vg::weight); }, false, src, wf);
  run(int(), pl, "single-distances", [&](auto& d, auto&) { return graph::bellman_ford_shortest_distances(gr, S[0], d, vg::weight); }, false, one, wf);
  run(int(), pl, "default-weight", [&](auto& d, auto& p) { return graph::bellman_ford_shortest_paths(gr, S, d, p); }, true, src, [](const E&) { return 1; });
  run(i64(), pl, "default-weight-single", [&](auto& d, auto& p) { return graph::bellman_ford_shortest_paths(gr, S[0], d, p); }, true, one, [](const E&) { return 1; });
  run(double(), pl, "default-weight-distances", [&](auto& d, auto&) { return graph::bellman_ford_shortest_distances(gr, S, d); }, false, src, [](const E&) { return 1; });
  run(int(), pl, "default-weight-single-distances", [&](auto& d, auto&) { return graph::bellman_ford_shortest_distances(gr, S[0], d); }, false, one, [](const E&) { return 1; });
}
template <class G> void types(Ctx& c) {
  auto base = gen(c); if (!base.n) return; EL g = std::is_same_v<G, vg::csr> ? sorted_edges(base) : base; c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base); auto src = pick_sources(c.rng, g.n); using Id = graph::vertex_id_t<G>; std::vector<Id> S(src.begin(), src.end());
  auto run = [&]<class D>(D, auto wfun, auto comb, const char* form) {
    std::vector<D> d(g.n); std::vector<u32> p(g.n); graph::init_shortest_paths(d, p); auto W = [&](const auto& gg, const auto& uv) { return wfun((int)graph::edge_value(gg, uv)); };
    auto r = graph::bellman_ford_shortest_paths(gr, S, d, p, W, graph::empty_visitor(), Less{}, comb);
    judge<D>(c, g, src, r.has_value(), r ? (i64)*r : -1, d, &p, comb, [&](const E& e) { return wfun(e.w); }, form);
    graph::init_shortest_paths(d); auto r2 = graph::bellman_ford_shortest_distances(gr, S, d, W, graph::empty_visitor(), Less{}, comb);
    judge<D>(c, g, src, r2.has_value(), r2 ? (i64)*r2 : -1, d, nullptr, comb, [&](const E& e) { return wfun(e.w); }, form); };
  switch (c.rng.below(5)) {
  case 0: run(double(), [](int w) { return w * 0.25; }, std::plus<>{}, "double"); break;
  case 1: run(float(), [](int w) { return w * 0.5f; }, std::plus<>{}, "float"); break;
  case 2: run(i64(), [](int w) { return (i64)w * 1000000000; }, std::plus<>{}, "int64"); break;
  case 3: run(unsigned(), [](int w) { return (unsigned)std::abs(w); }, std::plus<>{}, "unsigned"); break;
  case 4: run(int(), [](int w) { return w; }, Max{}, "bottleneck"); break; }
}
#if IN(0)
TS(forms, vvp, 3000, 100000)
TS(forms, vom, 1000, 30000)
#elif IN(1)
TS(forms, csr, 2000, 60000)
TS(forms, dofl, 1000, 30000)
#elif IN(2)
TS(forms, vol, 1500, 40000)
TS(forms, ual, 1500, 40000)
#elif IN(3)
TS(types, vvp, 3000, 100000)
TS(types, csr, 1500, 50000)
#endif
