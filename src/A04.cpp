// PARTS: 3
// RULE: random digraphs biased to contain negative cycles (planted simple cycles of length 1..n with tails in and out, several cycles, zero cycles, potentials) x containers x source sets; the output of find_negative_cycle is judged. Non-trivial: a cycle was output; distinct by (graph, sources).
// MIN: cycles_output=1000
// MIN: no_cycle_runs=300
// MIN: cycles_longer_than_2=200
#include "vg.hpp"
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace vh;
template <class G> void cyc(Ctx& c) {
  GenOpt o; o.maxn = 12; o.wlo = c.rng.chance(50) ? -2 : 0; auto g = gen_graph(c.rng, o); if (!g.n) return;
  int plants = (int)c.rng.below(3);
  for (int k = 0; k < plants; ++k) { // a simple cycle whose total is barely or strongly negative
    u32 len = 1 + (u32)c.rng.below(std::min<u32>(g.n, 8)); std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u); c.rng.shuffle(p); int sum = 0;
    for (u32 i = 0; i + 1 < len; ++i) { int w = (int)c.rng.range(-5, 8); sum += w; g.es.push_back({p[i], p[i + 1], w}); }
    g.es.push_back({p[len - 1], p[0], (int)(-sum - (c.rng.chance(60) ? 1 : c.rng.range(0, 6)))}); }
  if (c.rng.chance(50)) c.rng.shuffle(g.es);
  EL v = vg::effective<G>(std::is_same_v<G, vg::csr> ? sorted_edges(g) : g);
  c.input(std::string(vg::Name<G>::v) + " " + g.str());
  G gr = vg::build<G>(g); auto src = pick_sources(c.rng, g.n); using Id = graph::vertex_id_t<G>; std::vector<Id> S(src.begin(), src.end());
  std::vector<i64> d(g.n); std::vector<u32> p(g.n); graph::init_shortest_paths(d, p);
  bool single = c.rng.chance(40);
  auto r = single ? graph::bellman_ford_shortest_paths(gr, S[0], d, p, vg::weight) : graph::bellman_ford_shortest_paths(gr, S, d, p, vg::weight);
  if (single) src.resize(1);
  c.input(std::string(vg::Name<G>::v) + " " + g.str() + " sources " + seq(src) + " predecessors " + seq(p) + (r ? " cycle vertex " + std::to_string((u64)*r) : ""));
  std::vector<Id> out; struct Overrun {};
  // bounded sink: an endless walk is reported instead of exhausting memory
  struct Sink { std::vector<Id>* o; size_t lim; using difference_type = std::ptrdiff_t; Sink& operator*() { return *this; } Sink& operator++() { return *this; } Sink operator++(int) { return *this; }
    Sink& operator=(const Id& x) { if (o->size() > lim) throw Overrun{}; o->push_back(x); return *this; } };
  try { graph::find_negative_cycle(gr, p, r, Sink{&out, g.n + 2u}); } catch (Overrun&) { c.fail("cycle-endless", "more vertices output than the graph has: " + seq(out)); }
  if (!r) { c.check(out.empty(), "cycle-without-report", seq(out)); c.check(ref_sp(v, src).has_value(), "cycle-missed"); c.count("no_cycle_runs"); return; }
  c.check(!out.empty(), "cycle-empty"); std::set<u32> u(out.begin(), out.end()); c.check(u.size() == out.size(), "cycle-repeats-vertex", seq(out));
  auto rc = reach(v, src); i64 best = 0; // the vertices are joined along predecessors: p[out[i]] = out[i+1]
  for (size_t i = 0; i < out.size(); ++i) { u32 a = (u32)out[(i + 1) % out.size()], b = (u32)out[i]; c.check(b < g.n && rc[b], "cycle-unreachable", seq(out));
    c.check(p[b] == a, "cycle-not-along-predecessors", seq(out)); i64 w = INF; for (auto& e : v.es) if (e.s == a && e.t == b) w = std::min<i64>(w, e.w);
    c.checkf(w != INF, "cycle-missing-edge", [&] { return std::format("no edge {}->{} in {}", a, b, seq(out)); }); best += w; }
  c.checkf(best < 0, "cycle-not-negative", [&] { return std::format("cheapest weight of {} is {}", seq(out), best); });
  c.count("cycles_output"); c.count("cycle_vertices", out.size()); if (out.size() > 2) c.count("cycles_longer_than_2");
  c.nontrivial(hcomb(g.hash(), src[0])); c.sample(std::format("{} sources {} -> cycle {}", g.str(), seq(src), seq(out)));
}
#if IN(0)
TS(cyc, vvp, 5000, 150000)
#elif IN(1)
TS(cyc, csr, 3000, 80000)
#elif IN(2)
TS(cyc, vol, 3000, 80000)
TS(cyc, vom, 1500, 40000)
#endif
