// PARTS: 4
// RULE: random digraphs (18 families, up to 14 vertices, sometimes 150) x containers x 1..4 distinct sources x visitor flavour (descriptor or id callbacks); the recorded event trace is replayed through an automaton. Non-trivial: an edge event was recorded; distinct by (graph, sources).
// ASSUME: sources are distinct
// MIN: traces=2000
// MIN: edge_events=10000
#include "vvis.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
using namespace vh; using namespace vg;
struct Rec { Ev k; u32 u, v; };
struct Log { std::vector<Rec> ev; void vtx(Ev k, u32 x) { ev.push_back({k, x, x}); } template <class G, class UV> void edg(Ev k, u32 s, u32 t, const G&, const UV&) { ev.push_back({k, s, t}); } };
struct OnlyDiscover { std::vector<u32>* o; template <class G, class V> requires(!std::is_integral_v<V>) void on_discover_vertex(const G& g, const V& v) { o->push_back((u32)graph::vertex_id(g, v)); } };

template <class G> void bfs(Ctx& c) {
  GenOpt o; o.big = 140; auto base = gen_graph(c.rng, o, std::is_same_v<G, ual>); if (!base.n) return;
  EL g = std::is_same_v<G, ual> ? symmetrize(base) : effective<G>(base);
  c.input(std::string(Name<G>::v) + " " + base.str()); const G gr = build<G>(base);
  auto src = pick_sources(c.rng, g.n); using Id = graph::vertex_id_t<G>; std::vector<Id> S(src.begin(), src.end()); bool single = c.rng.chance(30); if (single) src.resize(1);
  Log L; bool byid = c.rng.chance(50);
  auto call = [&](auto&& vis) { if (single) graph::breadth_first_search(gr, S[0], vis); else if (c.rng.chance(30)) { std::list<Id> LS(S.begin(), S.end()); graph::breadth_first_search(gr, LS, vis); } else graph::breadth_first_search(gr, S, vis); };
  if (byid) call(Vis<true, Log>{&L}); else call(Vis<false, Log>{&L});
  auto bad = [&](const char* k, size_t i, const char* why) { const Rec& r = L.ev[i]; c.fail(k, std::format("event {} {} {}->{}: {}; sources {}", i, ev_name(r.k), r.u, r.v, why, seq(src))); };
  auto dist = hop(g, src); std::vector<int> st(g.n, 0), ini(g.n, 0); std::vector<std::multiset<u32>> out(g.n); for (auto& e : g.es) out[e.s].insert(e.t);
  std::set<u32> isrc(src.begin(), src.end()); u32 open = ~0u; i64 last = 0; std::optional<u32> lastt; bool examining = false; u64 ee = 0;
  for (size_t i = 0; i < L.ev.size(); ++i) { auto& r = L.ev[i]; switch (r.k) {
    case INIT: if (!isrc.contains(r.u) || ini[r.u]++ || examining) bad("bfs-init", i, "unexpected initialisation"); break;
    case DISC: if (st[r.u]) bad("bfs-discover", i, "discovered twice"); if (dist[r.u] == INF) bad("bfs-discover", i, "not reachable");
      if (!examining) { if (!isrc.contains(r.u) || !ini[r.u]) bad("bfs-discover", i, "only initialised sources are discovered before the search"); }
      else { if (!lastt || *lastt != r.u) bad("bfs-discover", i, "discovered without examining an edge to it"); if (dist[r.u] != dist[open] + 1) bad("bfs-discover", i, "discovered from the wrong level"); }
      st[r.u] = 1; break;
    case EXAM: examining = true; if (open != ~0u) bad("bfs-examine", i, "previous vertex not finished"); if (st[r.u] != 1) bad("bfs-examine", i, "not in discovered state"); if (dist[r.u] < last) bad("bfs-order", i, "examined out of hop-distance order"); last = dist[r.u]; st[r.u] = 2; open = r.u; lastt.reset(); break;
    case EX_EDGE: { if (r.u != open) bad("bfs-edge", i, "edge examined outside its source"); auto it = out[r.u].find(r.v); if (it == out[r.u].end()) bad("bfs-edge", i, "edge examined too often, or not in graph"); out[r.u].erase(it);
      if (lastt && !st[*lastt]) bad("bfs-discover", i, "target of the previous edge was not discovered"); lastt = r.v; ++ee; break; }
    case FIN: if (r.u != open || st[r.u] != 2) bad("bfs-finish", i, "not the open vertex"); if (!out[r.u].empty()) bad("bfs-finish", i, "an out-edge was not examined"); if (lastt && !st[*lastt]) bad("bfs-discover", i, "target of the last edge was not discovered"); st[r.u] = 3; open = ~0u; break;
    default: bad("bfs-event", i, "event of another algorithm"); } }
  for (u32 v = 0; v < g.n; ++v) { c.checkf((dist[v] != INF) == (st[v] == 3) && (st[v] == 0 || st[v] == 3), "bfs-complete", [&] { return std::format("vertex {} ends in state {}, hop distance {}; sources {}", v, st[v], dist[v], seq(src)); });
    c.checkf(ini[v] == (int)isrc.contains(v), "bfs-init", [&] { return std::format("vertex {} initialised {} times", v, ini[v]); }); }
  std::vector<u32> d1, d2; for (auto& r : L.ev) if (r.k == DISC) d1.push_back(r.u); OnlyDiscover od{&d2};
  if (single) graph::breadth_first_search(gr, S[0], od); else graph::breadth_first_search(gr, S, od);
  c.check(d1 == d2, "bfs-visitor-dependence", "a visitor with fewer callbacks sees another discovery order");
  c.count("traces"); c.count("edge_events", ee); c.count("events", L.ev.size()); if (ee) { c.nontrivial(hcomb(g.hash(), src[0] * 7 + src.size())); c.sample(std::format("{} sources {}: discovery {}", g.str(), seq(src), seq(d1))); }
}
#if IN(0)
TS(bfs, vvi, 3000, 80000)
TS(bfs, vov, 1500, 40000)
#elif IN(1)
TS(bfs, csr, 2500, 60000)
TS(bfs, dofl, 1500, 30000)
#elif IN(2)
TS(bfs, ual, 1500, 40000)
TS(bfs, vos, 1500, 40000)
#elif IN(3)
TS(bfs, dol, 1500, 40000)
TS(bfs, vvp, 1500, 40000)
SUITE(bfs_empty_sources, 3, 3) { vvi g(c.rng.below(4)); c.input("empty sources"); Log L; std::vector<size_t> none; graph::breadth_first_search(g, none, Vis<true, Log>{&L}); c.check(L.ev.empty(), "bfs-empty-sources"); }
#endif
