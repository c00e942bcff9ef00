// PARTS: 4
// RULE: random digraphs (18 families) x containers x sources x visitor flavour; the recorded event trace is replayed through a pushdown automaton that knows the graph. Non-trivial: a tree edge was recorded; distinct by (graph, source).
// MIN: traces=2000
// MIN: tree=3000
// MIN: back=1000
// MIN: forward_or_cross=1000
#include "vvis.hpp"
#include <graph/algorithm/depth_first_search.hpp>
using namespace vh; using namespace vg;
struct Rec { Ev k; u32 u, v; int w; };
struct Log { std::vector<Rec> ev; void vtx(Ev k, u32 x) { ev.push_back({k, x, x, 0}); }
  template <class G, class UV> void edg(Ev k, u32 s, u32 t, const G& g, const UV& e) { int w = 0; if constexpr (requires { (int)graph::edge_value(g, e); }) w = (int)graph::edge_value(g, e); ev.push_back({k, s, t, w}); } };
struct OnlyFinish { std::vector<u32>* o; template <class G, class V> requires(!std::is_integral_v<V>) void on_finish_vertex(const G& g, const V& v) { o->push_back((u32)graph::vertex_id(g, v)); } };

template <class G> void dfs(Ctx& c) {
  GenOpt o; o.big = 100; auto base = gen_graph(c.rng, o, std::is_same_v<G, ual>); if (!base.n) return;
  if constexpr (std::is_same_v<G, vvi>) for (auto& e : base.es) e.w = (int)e.t; // the "value" of a plain target id edge is its target
  EL g = std::is_same_v<G, ual> ? symmetrize(base) : effective<G>(base);
  c.input(std::string(Name<G>::v) + " " + base.str()); const G gr = build<G>(base); u32 src = (u32)c.rng.below(g.n); using Id = graph::vertex_id_t<G>;
  Log L; if (c.rng.chance(50)) graph::depth_first_search(gr, (Id)src, Vis<true, Log>{&L}); else graph::depth_first_search(gr, (Id)src, Vis<false, Log>{&L});
  auto bad = [&](const char* k, size_t i, const char* why) { const Rec& r = L.ev[i]; c.fail(k, std::format("event {} {} {}->{} value {}: {}; source {}", i, ev_name(r.k), r.u, r.v, r.w, why, src)); };
  using EI = std::pair<u32, int>; const EI none{~0u, 0};
  auto rc = reach(g, {src}); std::vector<int> st(g.n, 0); std::vector<std::multiset<EI>> out(g.n); for (auto& e : g.es) out[e.s].insert({e.t, std::is_same_v<G, vvi> ? (int)e.t : e.w});
  struct Frame { u32 v; EI e; int phase; }; // phase 0 no edge, 1 examined, 2 tree (awaiting discovery), 3 tree (child open), 4 classified/child closed: awaiting finish_edge
  std::vector<Frame> sk; u64 nt = 0, nb = 0, nf = 0; size_t i = 0; bool started = false, inited = false;
  std::vector<u32> fins;
  for (; i < L.ev.size(); ++i) { auto& r = L.ev[i]; EI e{r.v, r.w}; Frame* f = sk.empty() ? nullptr : &sk.back(); switch (r.k) {
    case INIT: if (r.u != src || inited || started || f) bad("dfs-init", i, "unexpected initialisation"); inited = true; break;
    case START: if (r.u != src || started || f || !inited) bad("dfs-start", i, "unexpected start"); started = true; break;
    case DISC: if (st[r.u]) bad("dfs-discover", i, "discovered twice"); if (!f) { if (r.u != src || !started) bad("dfs-discover", i, "search does not begin at the source"); }
      else { if (f->phase != 2 || f->e.first != r.u) bad("dfs-discover", i, "discovered without a tree edge just before"); f->phase = 3; } st[r.u] = 1; sk.push_back({r.u, none, 0}); break;
    case EX_EDGE: { if (!f || f->v != r.u) bad("dfs-edge", i, "source of the edge is not the innermost open vertex"); if (f->phase != 0) bad("dfs-edge", i, "previous edge is not finished"); auto it = out[r.u].find(e); if (it == out[r.u].end()) bad("dfs-edge", i, "edge examined too often, or not in graph"); out[r.u].erase(it); f->e = e; f->phase = 1; break; }
    case TREE: case BACK: case FOC: if (!f || f->v != r.u || f->phase != 1 || f->e != e) bad("dfs-classify", i, "not the edge just examined");
      if (r.k == TREE) { if (st[r.v] != 0) bad("dfs-classify", i, "tree edge to a discovered vertex"); f->phase = 2; ++nt; }
      else if (r.k == BACK) { if (st[r.v] != 1) bad("dfs-classify", i, "back edge to a vertex that is not open"); f->phase = 4; ++nb; }
      else { if (st[r.v] != 2) bad("dfs-classify", i, "forward or cross edge to a vertex that is not finished"); f->phase = 4; ++nf; } break;
    case FINE: if (!f || f->v != r.u || f->e != e || f->phase != 4) bad("dfs-finish-edge", i, "edge finished before everything reached through it, or twice"); f->phase = 0; break;
    case FIN: if (!f || f->v != r.u) bad("dfs-finish", i, "not the innermost open vertex"); if (f->phase != 0) bad("dfs-finish", i, "an edge is not finished"); if (!out[r.u].empty()) bad("dfs-finish", i, "an out-edge was not examined"); st[r.u] = 2; fins.push_back(r.u); sk.pop_back();
      if (!sk.empty()) { if (sk.back().phase != 3) bad("dfs-finish", i, "parent has no tree edge open"); sk.back().phase = 4; } break;
    default: bad("dfs-event", i, "event of another algorithm"); } }
  c.check(sk.empty() && started && inited, "dfs-complete", "trace ends with open vertices");
  for (u32 v = 0; v < g.n; ++v) c.checkf((rc[v] != 0) == (st[v] == 2) && st[v] != 1, "dfs-complete", [&] { return std::format("vertex {} ends in state {}, reachable {}; source {}", v, st[v], (int)rc[v], src); });
  std::vector<u32> f2; OnlyFinish of{&f2}; graph::depth_first_search(gr, (Id)src, of); c.check(fins == f2, "dfs-visitor-dependence", "a visitor with fewer callbacks sees another finishing order");
  c.count("traces"); c.count("tree", nt); c.count("back", nb); c.count("forward_or_cross", nf); c.count("events", L.ev.size());
  if (nt) { c.nontrivial(hcomb(g.hash(), src)); c.sample(std::format("{} source {}: finishing order {}", g.str(), src, seq(fins))); }
}
#if IN(0)
TS(dfs, vvi, 4000, 100000)
TS(dfs, vov, 2000, 40000)
#elif IN(1)
TS(dfs, csr, 3000, 60000)
TS(dfs, dofl, 2000, 30000)
#elif IN(2)
TS(dfs, ual, 2000, 40000)
TS(dfs, vom, 2000, 40000)
#elif IN(3)
TS(dfs, dol, 2000, 40000)
TS(dfs, vvp, 3000, 60000)
#endif
