// PARTS: 6
// RULE: random multigraphs in bidirectional containers (vector, deque, list, mixed and map/unordered_map based) and undirected lists: in_edges, in_degree, find/contains_in_edge, in_incidence and in_neighbors (full, basic, by id, with value functions) compared with the loaded edges seen from their targets; the transpose view compared element by element and by algorithm results with a graph of reversed edges, and transposed twice. Non-trivial: some vertex has two incoming edges; distinct by (graph, container).
// ASSUME: the transpose view is used with random-access edge containers, as its documentation limits it
// MIN: views=30000
// MIN: elements=40000
// MIN: transpose_algorithms=3000
#include "vviews.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
using namespace vg; namespace gv = graph::views;
struct Fe { int k = 5; template <class G, class UV> i64 operator()(const G& g, const UV& uv) const { return (i64)graph::source_id(g, uv) * k + (i64)graph::edge_value(g, uv); } };
struct Fv { int k = 7; template <class G, class U> i64 operator()(const G& g, const U& u) const { return (i64)graph::vertex_id(g, u) * k + 2; } };
static std::string show(const std::vector<Adj>& v) { std::string s; for (auto& a : v) s += std::format("{}:{} ", a.target, a.w); return s; }
template <class G> void run(Ctx& c) {
  GenOpt o; o.maxn = 10; o.big = 25; auto base = gen_graph(c.rng, o); auto full = full_of<G>(base); c.input(std::string(Name<G>::v) + " " + base.str());
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full); bool multi = false; constexpr bool und = std::is_same_v<G, ual>;
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>; using Id = graph::vertex_id_t<GG>;
    static_assert(graph::adj_list::bidirectional_adjacency_list<GG>);
    std::vector<E> out_all, in_all;
    for (auto&& u : graph::vertices(g)) { u32 id = (u32)graph::vertex_id(g, u); for (auto&& e : graph::edges(g, u)) out_all.push_back({id, (u32)graph::target_id(g, e), (int)graph::edge_value(g, e)}); for (auto&& e : graph::in_edges(g, u)) in_all.push_back({(u32)graph::source_id(g, e), id, (int)graph::edge_value(g, e)}); }
    std::sort(out_all.begin(), out_all.end()); std::sort(in_all.begin(), in_all.end()); c.check(out_all == in_all, "in-out-duality", "the multisets of edges seen through edges and in_edges differ");
    for (u32 uid : md.ids) { auto u = *graph::find_vertex(g, (Id)uid); std::vector<Adj> want = und ? md.adj[uid] : md.in[uid]; if (want.size() > 1) multi = true;
      auto eq = [&](const std::vector<Adj>& got, const char* w) { c.checkf(got == want, "in-incidence-elements", [&] { return std::format("{} of {} yields {} expected {}", w, uid, show(got), show(want)); }); };
      std::vector<u32> wid; for (auto& a : want) wid.push_back(a.target);
      auto eqi = [&](const std::vector<u32>& got, const char* w) { c.checkf(got == wid, "in-neighbor-elements", [&] { return std::format("{} of {} yields {} expected {}", w, uid, seq(got), seq(wid)); }); };
      auto edge = [&](auto sid, const auto& e) { c.checkf((u32)graph::source_id(g, e) == (u32)sid, "in-incidence-descriptor", [&] { return std::format("source_id {} under {} of {}", (u64)graph::source_id(g, e), (u64)sid, uid); }); c.check((u32)graph::vertex_id(g, graph::source(g, e)) == (u32)sid, "in-edge-source"); if constexpr (!und) c.check((u32)graph::target_id(g, e) == uid && (u32)graph::vertex_id(g, graph::target(g, e)) == uid, "in-edge-target"); return Adj{(u32)sid, (int)graph::edge_value(g, e)}; };
      auto pe = [&](auto&& x) { auto&& [t, e] = x; return edge(t, e); };
      auto pev = [&](auto&& x) { auto&& [t, e, v] = x; auto a = edge(t, e); c.check((i64)v == (i64)t * 5 + a.w, "in-incidence-value"); return a; };
      auto pb = [&](auto&& x) { auto&& [t] = x; return (u32)t; };
      auto pbv = [&](auto&& x) { auto&& [t, v] = x; return Adj{(u32)t, (int)((i64)v - (i64)t * 5)}; };
      auto pn = [&](auto&& x) { auto&& [t, n] = x; c.check((u32)graph::vertex_id(g, n) == (u32)t, "in-neighbor-descriptor"); return (u32)t; };
      auto pnv = [&](auto&& x) { auto&& [t, n, v] = x; c.check((u32)graph::vertex_id(g, n) == (u32)t, "in-neighbor-descriptor"); c.check((i64)v == (i64)t * 7 + 2, "in-neighbor-value"); return (u32)t; };
      auto pnb = [&](auto&& x) { auto&& [t, v] = x; c.check((i64)v == (i64)t * 7 + 2, "in-neighbor-value"); return (u32)t; };
      size_t k = want.size();
      { std::vector<Adj> raw; auto r = graph::in_edges(g, u); for (auto&& e : r) raw.push_back(edge(graph::source_id(g, e), e)); eq(raw, "in_edges"); c.checkf((size_t)graph::in_degree(g, u) == k, "in-degree", [&] { return std::format("in_degree({})={} expected {}", uid, (u64)graph::in_degree(g, u), k); }); if constexpr (requires { r.size(); }) c.check(r.size() == k, "in-edges-size"); }
      eq(walk(c, gv::in_incidence(g, u), pe, "in_incidence", k), "in_incidence"); eqi(walk(c, gv::in_neighbors(g, u), pn, "in_neighbors", k), "in_neighbors"); eqi(walk(c, gv::in_neighbors(g, u, Fv{}), pnv, "in_neighbors+vvf", k), "in_neighbors+vvf");
      if constexpr (und || std::is_invocable_v<Fe, const GG&, graph::adj_list::in_edge_t<GG>>) eq(walk(c, gv::in_incidence(g, u, Fe{}), pev, "in_incidence+evf", k), "in_incidence+evf");
      if constexpr (graph::adj_list::index_bidirectional_adjacency_list<GG>) {
        c.check((size_t)graph::in_degree(g, (Id)uid) == k, "in-degree", "by id"); { std::vector<Adj> raw; for (auto&& e : graph::in_edges(g, (Id)uid)) raw.push_back(edge(graph::source_id(g, e), e)); eq(raw, "in_edges(id)"); }
        eq(walk(c, gv::in_incidence(g, (Id)uid), pe, "in_incidence(id)", k), "in_incidence(id)"); eq(walk(c, gv::in_incidence(g, (Id)uid, Fe{}), pev, "in_incidence(id)+evf", k), "in_incidence(id)+evf");
        eqi(walk(c, gv::basic_in_incidence(g, (Id)uid), pb, "basic_in_incidence", k), "basic_in_incidence"); eq(walk(c, gv::basic_in_incidence(g, (Id)uid, Fe{}), pbv, "basic_in_incidence+evf", k), "basic_in_incidence+evf");
        eqi(walk(c, gv::in_neighbors(g, (Id)uid), pn, "in_neighbors(id)", k), "in_neighbors(id)"); eqi(walk(c, gv::in_neighbors(g, (Id)uid, Fv{}), pnv, "in_neighbors(id)+vvf", k), "in_neighbors(id)+vvf");
        eqi(walk(c, gv::basic_in_neighbors(g, (Id)uid), pb, "basic_in_neighbors", k), "basic_in_neighbors"); eqi(walk(c, gv::basic_in_neighbors(g, (Id)uid, Fv{}), pnb, "basic_in_neighbors+vvf", k), "basic_in_neighbors+vvf");
        for (int q = 0; q < 3; ++q) { u32 vid = md.ids[c.rng.below(md.ids.size())]; if (k && c.rng.chance(50)) vid = want[c.rng.below(k)].target; bool has = std::any_of(want.begin(), want.end(), [&](auto& a) { return a.target == vid; }); auto v = *graph::find_vertex(g, (Id)vid);
          c.checkf(graph::contains_in_edge(g, (Id)uid, (Id)vid) == has && graph::contains_in_edge(g, u, v) == has, "contains-in-edge", [&] { return std::format("edge {} -> {}: stored {}", vid, uid, has); });
          if (has) { auto e = graph::find_in_edge(g, (Id)uid, (Id)vid); auto e2 = graph::find_in_edge(g, u, v); auto e3 = graph::find_in_edge(g, u, (Id)vid); for (auto& x : {e, e2, e3}) { c.check((u32)graph::source_id(g, x) == vid && (u32)graph::target_id(g, x) == uid, "find-in-edge", "wrong endpoints"); c.check(std::any_of(want.begin(), want.end(), [&](auto& a) { return a.target == vid && a.w == (int)graph::edge_value(g, x); }), "find-in-edge", "wrong value"); } } } }
    } };
  if (c.rng.chance(50)) all(gr); else all(cg);
  if (multi) { c.nontrivial(hcomb(full.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); }
}
template <class V> struct Ord_ { std::vector<u32>* o; template <class G> void on_discover_vertex(const G& g, const V& v) { o->push_back((u32)graph::vertex_id(g, v)); } };
template <class G> void trans(Ctx& c) {
  GenOpt o; o.maxn = 12; o.big = 25; auto base = gen_graph(c.rng, o); c.input(std::string(Name<G>::v) + " " + base.str()); EL rev = transposed(base);
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(base), rm = model<G>(rev);
  auto all = [&](auto& g) { auto tv = gv::transpose(g); using T = decltype(tv); using Id = graph::vertex_id_t<T>; const u32 n = base.n; static_assert(graph::adj_list::index_bidirectional_adjacency_list<T>);
    c.check((size_t)graph::num_vertices(tv) == n, "transpose-vertices"); c.check((size_t)graph::num_edges(tv) == base.es.size(), "transpose-num-edges");
    size_t m = 0; for (auto&& u : graph::vertices(tv)) { u32 id = (u32)graph::vertex_id(tv, u); auto& want = md.in[id]; std::vector<Adj> out, in; ++m;
      for (auto&& e : graph::edges(tv, u)) { out.push_back({(u32)graph::target_id(tv, e), (int)graph::edge_value(tv, e)}); c.check((u32)graph::source_id(tv, e) == id, "transpose-source"); c.check((u32)graph::vertex_id(tv, graph::target(tv, e)) == out.back().target && (u32)graph::vertex_id(tv, graph::source(tv, e)) == id, "transpose-endpoint"); }
      for (auto&& e : graph::in_edges(tv, u)) { in.push_back({(u32)graph::source_id(tv, e), (int)graph::edge_value(tv, e)}); }
      c.checkf(out == want, "transpose-edges", [&] { return std::format("vertex {}: {} expected {}", id, show(out), show(want)); }); c.checkf(in == md.adj[id], "transpose-in-edges", [&] { return std::format("vertex {}: {} expected {}", id, show(in), show(md.adj[id])); });
      c.check((size_t)graph::degree(tv, u) == want.size() && (size_t)graph::in_degree(tv, u) == md.adj[id].size() && (size_t)graph::num_edges(tv, u) == want.size(), "transpose-degree");
      c.check((size_t)graph::degree(tv, (Id)id) == want.size(), "transpose-degree", "by id");
      auto inc = walk(c, gv::incidence(tv, u), [&](auto&& x) { auto&& [t, e] = x; return Adj{(u32)t, (int)graph::edge_value(tv, e)}; }, "transpose incidence", want.size()); c.check(inc == want, "transpose-incidence");
      std::vector<u32> wid; for (auto& a : want) wid.push_back(a.target); c.check(walk(c, gv::neighbors(tv, u), [&](auto&& x) { auto&& [t, v] = x; c.check((u32)graph::vertex_id(tv, v) == (u32)t, "transpose-neighbors"); return (u32)t; }, "transpose neighbors", want.size()) == wid, "transpose-neighbors");
      for (u32 vid = 0; vid < std::min(n, 6u); ++vid) c.check(graph::contains_edge(tv, (Id)id, (Id)vid) == std::any_of(want.begin(), want.end(), [&](auto& a) { return a.target == vid; }), "transpose-contains-edge"); }
    c.check(m == n, "transpose-vertices");
    { std::vector<E> el; for (auto&& [s, t, e] : gv::edgelist(tv)) el.push_back({(u32)s, (u32)t, (int)graph::edge_value(tv, e)}); std::vector<E> w; for (u32 i = 0; i < n; ++i) for (auto& a : md.in[i]) w.push_back({i, a.target, a.w}); c.check(el == w, "transpose-edgelist"); }
    { auto tt = gv::transpose(tv); std::vector<E> el; for (auto&& u : graph::vertices(tt)) for (auto&& e : graph::edges(tt, u)) el.push_back({(u32)graph::vertex_id(tt, u), (u32)graph::target_id(tt, e), (int)graph::edge_value(tt, e)}); std::vector<E> w; for (u32 i = 0; i < n; ++i) for (auto& a : md.adj[i]) w.push_back({i, a.target, a.w}); c.check(el == w, "transpose-twice"); }
    if (!n) return;
    // algorithms on the transpose give the results of the graph with reversed edges
    const G rg = build_any<G>(rev); u32 s = (u32)c.rng.below(n); const std::vector<Id> S{(Id)s}; c.count("transpose_algorithms");
    { std::vector<i64> d(n, INF), d2(n, INF); std::vector<Id> p(n); auto W = [](const auto& gg, const auto& uv) { return (i64)graph::edge_value(gg, uv); }; graph::dijkstra_shortest_paths(tv, S, d, p, W); graph::dijkstra_shortest_paths(rg, S, d2, p, W); c.check(d == d2, "transpose-dijkstra"); auto want = ref_sp(rev, {s}); for (u32 i = 0; i < n; ++i) c.check(d[i] == (*want)[i], "transpose-dijkstra"); }
    { std::vector<u32> ov; Ord_<graph::vertex_t<T>> vis{&ov}; graph::breadth_first_search(tv, S, vis); auto r = reach(rev, {s}); auto h = hop(rev, {s}); std::vector<char> got(n, 0); i64 last = 0; for (u32 v : ov) { got[v] = 1; c.check(h[v] >= last, "transpose-bfs"); last = h[v]; } c.check(got == r, "transpose-bfs"); ov.clear(); graph::depth_first_search(tv, (Id)s, vis); got.assign(n, 0); for (u32 v : ov) got[v] = 1; c.check(got == r, "transpose-dfs"); }
    { std::vector<Id> ord; bool ok = graph::topological_sort(tv, std::back_inserter(ord)); std::vector<Id> o2; bool ok2 = graph::topological_sort(rg, std::back_inserter(o2)); c.check(ok == ok2, "transpose-topological"); if (ok) { std::vector<u32> pos(n); for (u32 i = 0; i < n; ++i) pos[ord[i]] = i; for (auto& e : rev.es) c.check(pos[e.s] < pos[e.t], "transpose-topological"); } }
    { std::vector<u32> c1(n, 9), c2(n, 9); graph::kosaraju(g, tv, c1); graph::kosaraju(g, c2); c.check(same_partition(c1, c2, n), "transpose-kosaraju"); std::vector<u32> c3(n, 9); graph::kosaraju(tv, g, c3); c.check(same_partition(c1, c3, n), "transpose-kosaraju"); } };
  if (c.rng.chance(50)) all(gr); else all(cg);
  for (auto& e : base.es) if (e.s != e.t) { c.nontrivial(hcomb(base.hash(), hstr(Name<G>::v) + 1)); break; }
}
#if IN(0)
TS(run, vob, 600, 20000) TS(run, ual, 600, 20000)
#elif IN(1)
TS(run, vlb, 600, 20000) TS(run, dob, 600, 20000)
#elif IN(2)
TS(run, vmb, 600, 20000) TS(run, vlv, 600, 20000)
#elif IN(3)
TS(run, mob, 600, 20000) TS(run, uob, 600, 20000)
#elif IN(4)
TS(trans, vob, 2500, 60000)
#elif IN(5)
TS(trans, dob, 2500, 60000)
#endif
