// PARTS: 3
// RULE: random weighted digraphs (18 families) x containers x visitor flavour (descriptor, id, or partial); a recording visitor logs every callback with the distances visible at that moment and an online automaton checks the protocol. Non-trivial: at least one edge event was recorded; distinct by (graph, sources).
// ASSUME: sources are distinct; distances initialised with init_shortest_paths
// MIN: edge_events=2000
// MIN: bf_edge_events=2000
// MIN: not_minimized_events=5
#include "vvis.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace vh;

using enum vg::Ev; using vg::Ev;
struct Rec { Ev k; u32 u, v; int w; i64 du, dv; };  // dv: recorded distance of the target when the event fired
template <class D> struct Log { std::vector<Rec> ev; const std::vector<D>* d = nullptr;
  void vtx(Ev k, u32 x) { ev.push_back({k, x, x, 0, (i64)(*d)[x], (i64)(*d)[x]}); }
  template <class G, class UV> void edg(Ev k, u32 s, u32 t, const G& g, const UV& e) { ev.push_back({k, s, t, (int)graph::edge_value(g, e), (i64)(*d)[s], (i64)(*d)[t]}); } };
template <class D> using VId = vg::Vis<true, Log<D>>; template <class D> using VDesc = vg::Vis<false, Log<D>>;
// only some callbacks
struct VPart { u64* n; template <class G, class V> requires(!std::is_integral_v<V>) void on_finish_vertex(const G&, const V&) { ++*n; } };

template <class G> void dij(Ctx& c) {
  GenOpt o; o.big = 60; auto base = gen_graph(c.rng, o); if (!base.n) return;
  EL g = vg::effective<G>(std::is_same_v<G, vg::csr> ? sorted_edges(base) : base);
  c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base); auto srcs = pick_sources(c.rng, g.n); std::vector<graph::vertex_id_t<G>> S(srcs.begin(), srcs.end());
  std::vector<i64> d0(g.n), d(g.n); std::vector<u32> p0(g.n), p(g.n);
  graph::init_shortest_paths(d0, p0); graph::init_shortest_paths(d, p);
  graph::dijkstra_shortest_paths(gr, S, d0, p0, vg::weight);
  Log<i64> L; L.d = &d;
  bool byid = c.rng.chance(50); bool disonly = c.rng.chance(25);
  auto call = [&](auto&& v) { if (disonly) graph::dijkstra_shortest_distances(gr, S, d, vg::weight, v); else graph::dijkstra_shortest_paths(gr, S, d, p, vg::weight, v); };
  if (byid) { VId<i64> v{&L}; call(v); } else { VDesc<i64> v{&L}; call(v); }
  c.check(d == d0 && (disonly || p == p0), "visitor-changes-result");
  // ---- online automaton over the recorded trace
  auto bad = [&](const char* k, size_t i, const char* why) { const Rec& r = L.ev[i]; c.fail(k, std::format("event {} kind {} {}->{}: {}; sources {}", i, (int)r.k, r.u, r.v, why, seq(srcs))); };
  std::vector<int> st(g.n, 0); // 0 new 1 discovered 2 open 3 finished
  std::vector<i64> sh(g.n, INF); std::vector<int> inits(g.n, 0);
  std::vector<std::multiset<std::pair<u32, int>>> out(g.n); for (auto& e : g.es) out[e.s].insert({e.t, e.w});
  size_t i = 0; for (; i < L.ev.size() && L.ev[i].k == INIT; ++i) if (++inits[L.ev[i].u] > 1) bad("dijkstra-init", i, "initialised twice");
  for (u32 v = 0; v < g.n; ++v) c.checkf(inits[v] == 1, "dijkstra-init", [&] { return std::format("vertex {} initialised {} times", v, inits[v]); });
  std::set<u32> isrc(srcs.begin(), srcs.end()); i64 last = 0; u32 open = ~0u; bool pend = false; std::pair<u32, int> pe; u64 edgeev = 0; size_t nd = 0;
  for (; i < L.ev.size(); ++i) { const Rec& r = L.ev[i];
    switch (r.k) {
    case INIT: bad("dijkstra-init", i, "initialisation after the search began"); break;
    case DISC: if (st[r.u] != 0) bad("dijkstra-discover", i, "discovered twice"); st[r.u] = 1; if (nd < srcs.size()) { if (!isrc.contains(r.u)) bad("dijkstra-discover", i, "sources are discovered first"); sh[r.u] = 0; ++nd; } else if (sh[r.u] == INF) bad("dijkstra-discover", i, "discovered without a relaxed edge"); break;
    case EXAM: if (open != ~0u) bad("dijkstra-examine", i, "previous vertex is not finished"); if (st[r.u] != 1) bad("dijkstra-examine", i, "not in discovered state"); st[r.u] = 2; open = r.u;
      if (r.du < last) bad("dijkstra-order", i, "examined out of distance order"); last = r.du; if (r.du != d0[r.u]) bad("dijkstra-order", i, "examined before its distance is final"); break;
    case EX_EDGE: { if (r.u != open || pend) bad("dijkstra-edge", i, "edge examined outside its vertex, or previous edge not classified"); pe = {r.v, r.w}; auto it = out[r.u].find(pe); if (it == out[r.u].end()) bad("dijkstra-edge", i, "edge examined twice or not in graph"); out[r.u].erase(it); pend = true; ++edgeev; break; }
    case RELAX: if (!pend || r.u != open || pe != std::pair(r.v, r.w)) bad("dijkstra-relax", i, "relaxed edge was not the examined one"); pend = false;
      if (!(sh[r.u] + r.w < sh[r.v])) bad("dijkstra-relax", i, "reported relaxed but the distance did not improve"); sh[r.v] = sh[r.u] + r.w; if (r.dv != sh[r.v]) bad("dijkstra-relax", i, "recorded distance is not the relaxed one"); break;
    case NORELAX: if (!pend || r.u != open || pe != std::pair(r.v, r.w)) bad("dijkstra-relax", i, "unrelaxed edge was not the examined one"); pend = false;
      if (sh[r.u] + r.w < sh[r.v]) bad("dijkstra-relax", i, "reported not relaxed although it improves"); if (r.dv != sh[r.v]) bad("dijkstra-relax", i, "distance changed without a relaxed event"); break;
    case FIN: if (open != r.u || st[r.u] != 2 || pend) bad("dijkstra-finish", i, "finish of a vertex that is not open"); if (!out[r.u].empty()) bad("dijkstra-finish", i, "finished before every out-edge was examined"); st[r.u] = 3; open = ~0u; break;
    default: bad("dijkstra-event", i, "event of another algorithm"); } }
  for (u32 v = 0; v < g.n; ++v) c.checkf((d0[v] != INF) == (st[v] == 3) && (st[v] == 0 || st[v] == 3), "dijkstra-complete", [&] { return std::format("vertex {} ends in state {} with distance {}", v, st[v], d0[v]); });
  u64 fin = 0; std::vector<i64> d3(g.n); std::vector<u32> p3(g.n); graph::init_shortest_paths(d3, p3); VPart vp{&fin};
  graph::dijkstra_shortest_paths(gr, S, d3, p3, vg::weight, vp); c.check(d3 == d0 && p3 == p0, "visitor-changes-result", "partial visitor");
  c.check(fin == (u64)std::count_if(d0.begin(), d0.end(), [](i64 x) { return x != INF; }), "dijkstra-finish", "partial visitor");
  c.count("edge_events", edgeev); c.count("traces"); c.count("events", L.ev.size());
  if (edgeev) { c.nontrivial(hcomb(g.hash(), srcs[0])); c.sample(std::format("{} sources {}: {} events", g.str(), seq(srcs), L.ev.size())); }
}

template <class G> void bf(Ctx& c) {
  GenOpt o; o.maxn = 9; o.wlo = c.rng.chance(60) ? -3 : 0; auto base = gen_graph(c.rng, o); if (!base.n) return;
  EL g = vg::effective<G>(std::is_same_v<G, vg::csr> ? sorted_edges(base) : base);
  c.input(std::string(vg::Name<G>::v) + " " + base.str());
  const G gr = vg::build<G>(base); auto srcs = pick_sources(c.rng, g.n); std::vector<graph::vertex_id_t<G>> S(srcs.begin(), srcs.end());
  std::vector<i64> d0(g.n), d(g.n); std::vector<u32> p0(g.n), p(g.n); graph::init_shortest_paths(d0, p0); graph::init_shortest_paths(d, p);
  auto r0 = graph::bellman_ford_shortest_paths(gr, S, d0, p0, vg::weight);
  Log<i64> L; L.d = &d; bool disonly = c.rng.chance(25); decltype(r0) r1;
  auto call = [&](auto&& v) { if (disonly) r1 = graph::bellman_ford_shortest_distances(gr, S, d, vg::weight, v); else r1 = graph::bellman_ford_shortest_paths(gr, S, d, p, vg::weight, v); };
  if (c.rng.chance(50)) { VId<i64> v{&L}; call(v); } else { VDesc<i64> v{&L}; call(v); }
  c.check(d == d0 && r1.has_value() == r0.has_value() && (disonly || (p == p0 && r1 == r0)), "visitor-changes-result", "bellman-ford");
  auto bad = [&](const char* k, size_t i, const char* why) { const Rec& r = L.ev[i]; c.fail(k, std::format("bellman-ford event {} kind {} {}->{} w {}: {}; sources {}", i, (int)r.k, r.u, r.v, r.w, why, seq(srcs))); };
  std::vector<i64> sh(g.n, INF); std::multiset<std::tuple<u32, u32, int>> all, left; for (auto& e : g.es) all.insert({e.s, e.t, e.w});
  size_t i = 0; std::set<u32> disc;
  for (; i < L.ev.size() && L.ev[i].k == DISC; ++i) { if (!disc.insert(L.ev[i].u).second) bad("bf-discover", i, "discovered twice"); sh[L.ev[i].u] = 0; }
  c.check(disc == std::set<u32>(srcs.begin(), srcs.end()), "bf-discover", "discovered vertices are not the sources");
  bool pend = false; std::tuple<u32, u32, int> pe; bool mini = false; u64 passes = 0, ev = 0, notmini = 0;
  for (; i < L.ev.size(); ++i) { const Rec& r = L.ev[i]; auto t = std::tuple(r.u, r.v, r.w);
    switch (r.k) {
    case EX_EDGE: { if (pend || mini) bad("bf-edge", i, "unexpected edge examination"); if (left.empty()) { left = all; ++passes; } auto it = left.find(t); if (it == left.end()) bad("bf-edge", i, "edge examined twice in a pass, or not in graph"); left.erase(it); pe = t; pend = true; ++ev; break; }
    case RELAX: if (!pend || pe != t) bad("bf-relax", i, "not the examined edge"); pend = false; if (sh[r.u] == INF || !(sh[r.u] + r.w < sh[r.v])) bad("bf-relax", i, "reported relaxed but does not improve"); sh[r.v] = sh[r.u] + r.w; if (r.dv != sh[r.v]) bad("bf-relax", i, "recorded distance is not the relaxed one"); break;
    case NORELAX: if (!pend || pe != t) bad("bf-relax", i, "not the examined edge"); pend = false; if (sh[r.u] != INF && sh[r.u] + r.w < sh[r.v]) bad("bf-relax", i, "reported not relaxed although it improves"); if (r.dv != sh[r.v]) bad("bf-relax", i, "distance changed without a relaxed event"); break;
    case MINI: if (pend || !left.empty() || notmini) bad("bf-minimized", i, "out of place"); mini = true; if (sh[r.u] != INF && sh[r.u] + r.w < sh[r.v]) bad("bf-minimized", i, "edge is not minimized"); break;
    case NOTMINI: if (pend || !left.empty()) bad("bf-minimized", i, "out of place"); mini = true; ++notmini; if (sh[r.u] == INF || !(sh[r.u] + r.w < sh[r.v])) bad("bf-minimized", i, "edge is minimized"); break;
    default: bad("bf-event", i, "event of another algorithm"); } }
  c.check(!pend && left.empty(), "bf-edge", "a pass did not examine every edge");
  c.checkf((notmini > 0) == r0.has_value(), "bf-minimized", [&] { return std::format("{} not-minimized events, cycle reported: {}", notmini, r0.has_value()); });
  c.check(passes <= g.n, "bf-passes", "more passes than vertices");
  c.check(sh == d, "bf-relax", "final distances differ from the relaxed ones");
  c.count("bf_edge_events", ev); c.count("not_minimized_events", notmini); c.count("bf_passes", passes); c.count("traces");
  if (ev) c.nontrivial(hcomb(g.hash(), srcs[0] + 7));
}
#if IN(0)
TS(dij, vvp, 900, 40000)
TS(bf, vvp, 900, 40000)
#elif IN(1)
TS(dij, vov, 700, 20000)
TS(bf, vol, 500, 20000)
#elif IN(2)
TS(dij, csr, 700, 20000)
TS(bf, csr, 500, 20000)
#endif
