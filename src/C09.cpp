// PARTS: 4
// RULE: random edit histories of undirected graphs in which iterators (graph-wide and per-vertex edge iterators, neighbour iterators, constant and not, past-the-end per-vertex iterators), edge pointers, vertex iterators and vertex and edge descriptors are kept across edits; after every edit each one that the documented rules keep valid must still denote its edge, neighbour or vertex, and walking on (and back) from it must give exactly what the model of incidence lists gives; results of erase_edge and create_edge are kept too; kept iterators are copied, assigned and swapped. Vertex descriptors of the other containers are kept across loads that add edges and vertices. Non-trivial: something kept was checked after an edit that reallocated, created or erased; distinct by history
// MIN: kept_checks=200000
// MIN: steps_walked=300000
// MIN: edits=20000
#include "vg.hpp"
#include <deque>
using namespace vh; using namespace vg;
template <class G> struct Keeper {
  using GE = typename G::edge_iterator; using CGE = typename G::const_edge_iterator; using VE = typename G::vertex_edge_iterator; using CVE = typename G::const_vertex_edge_iterator; using NE = typename G::neighbor_iterator; using CNE = typename G::const_neighbor_iterator; using VId = graph::vertex_id_t<G>;
  using VD = graph::vertex_t<G>; using ED = graph::edge_t<G>; using VI = decltype(std::declval<G&>().begin());
  template <class I> struct K { I it; int e; u32 u; };
  Ctx& c; G g; std::string log; u32 cap; int next = 1; u64 hash = 1;
  std::vector<std::vector<int>> inc; std::map<int, std::pair<u32, u32>> ends;
  std::vector<K<GE>> ge; std::vector<K<CGE>> cge; std::vector<K<VE>> ve; std::vector<K<CVE>> cve; std::vector<K<NE>> ne; std::vector<K<CNE>> cne; std::vector<K<VE>> ee; std::vector<K<typename G::edge_type*>> ep; std::vector<K<ED>> ed; std::vector<K<VD>> vd; std::vector<K<VI>> vi;
  static VId vid(u32 u) { return (VId)u; }
  u32 other(int e, u32 u) { auto [s, t] = ends.at(e); return s == u ? t : s; }
  size_t at(int e, u32 u) { auto& l = inc[u]; auto p = std::find(l.begin(), l.end(), e); c.check(p != l.end(), "model", "edge not in its list"); return p - l.begin(); }
  void say(const std::string& s) { log += s + "; "; hash = hcomb(hash, hstr(s.c_str())); c.input(log); c.count("edits"); }
  template <class I> void walk_graph(I it, I last, u32 u, size_t i, const char* what) { for (;;) { while (u < inc.size() && i >= inc[u].size()) { ++u; i = 0; } if (u == inc.size()) { c.check(it == last, "kept-iterator", std::string(what) + ": not at the end after the last edge"); return; }
      c.check(it != last, "kept-iterator", std::string(what) + ": ends too early"); int got = it->value(); c.count("steps_walked"); c.checkf(got == inc[u][i], "kept-iterator", [&] { return std::format("{} is at edge {} where edge {} of vertex {} comes next", what, got, inc[u][i], u); }); ++it; ++i; } }
  template <class I> void walk_vertex(I it, I first, I last, u32 u, size_t i, const char* what, auto rd) { auto& l = inc[u]; I b = it; for (size_t k = i; k < l.size(); ++k) { c.check(it != last, "kept-iterator", std::string(what) + ": ends too early"); int got = rd(it); c.count("steps_walked"); c.checkf(got == (int)l[k], "kept-iterator", [&] { return std::format("{} of vertex {} is at edge {}, expected {}", what, u, got, l[k]); }); if (k % 2) ++it; else { auto o = it++; c.check(rd(o) == (int)l[k], "kept-iterator", std::string(what) + ": post-increment"); } } c.check(it == last, "kept-iterator", std::string(what) + ": not at the end after the last edge");
    for (size_t k = i; k-- > 0;) { c.check(b != first, "kept-iterator", std::string(what) + ": at the first edge too early"); if (k % 2) --b; else b--; c.checkf(rd(b) == (int)l[k], "kept-iterator", [&] { return std::format("{} of vertex {} steps back to edge {}, expected {}", what, u, rd(b), l[k]); }); } c.check(b == first, "kept-iterator", std::string(what) + ": stepping back does not reach the first edge"); }
  void verify() {
    const G& cg = g; auto val = [](auto& i) { return (int)i->value(); };
    for (auto& k : ge) { c.count("kept_checks"); c.checkf((int)k.it->value() == k.e, "kept-iterator", [&] { return std::format("a kept edge iterator at edge {} is at edge {}", k.e, (int)k.it->value()); }); walk_graph(k.it, GE(g, g.end()), k.u, at(k.e, k.u), "a kept edge iterator"); }
    for (auto& k : cge) { c.count("kept_checks"); walk_graph(k.it, CGE(cg, cg.end()), k.u, at(k.e, k.u), "a kept constant edge iterator"); }
    for (auto& k : ve) { c.count("kept_checks"); auto& v = g.vertices()[k.u]; walk_vertex(k.it, v.edges_begin(g, vid(k.u)), v.edges_end(g, vid(k.u)), k.u, at(k.e, k.u), "a kept iterator over a vertex's edges", val); c.check((u32)k.it.source_id() == k.u && &k.it.graph() == &g, "kept-iterator", "vertex or graph of an iterator over a vertex's edges"); }
    for (auto& k : ee) { c.count("kept_checks"); auto& v = g.vertices()[k.u]; walk_vertex(k.it, v.edges_begin(g, vid(k.u)), v.edges_end(g, vid(k.u)), k.u, inc[k.u].size(), "a kept past-the-end iterator over a vertex's edges", val); NE x(k.it); auto r = v.neighbors(g, vid(k.u)); nbr(x, r.begin(), r.end(), k.u, inc[k.u].size(), "a neighbour iterator from a kept past-the-end iterator"); }
    for (auto& k : cve) { c.count("kept_checks"); auto& v = cg.vertices()[k.u]; walk_vertex(k.it, v.edges_begin(cg, vid(k.u)), v.edges_end(cg, vid(k.u)), k.u, at(k.e, k.u), "a kept constant iterator over a vertex's edges", val); }
    // neighbours are compared by id: temporarily seen through the model
    for (auto& k : ne) { c.count("kept_checks"); auto r = g.vertices()[k.u].neighbors(g, vid(k.u)); nbr(k.it, r.begin(), r.end(), k.u, at(k.e, k.u), "a kept neighbour iterator"); }
    for (auto& k : cne) { c.count("kept_checks"); auto r = cg.vertices()[k.u].neighbors(cg, vid(k.u)); nbr(k.it, r.begin(), r.end(), k.u, at(k.e, k.u), "a kept constant neighbour iterator"); }
    for (auto& k : ep) { c.count("kept_checks"); c.check((int)k.it->value() == k.e, "kept-pointer", "an edge reached through a kept pointer has another value"); auto [s, t] = ends.at(k.e); c.check((u32)k.it->list_owner_id() == s && (u32)k.it->list_target_id() == t, "kept-pointer", "an edge reached through a kept pointer joins other vertices"); c.check((u32)k.it->edge_id(cg).first == s && (u32)k.it->edge_id(cg).second == t && (u32)k.it->other_vertex_id(cg, vid(s)) == t && (u32)k.it->other_vertex_id(cg, vid(t)) == s, "kept-pointer", "ids of an edge reached through a kept pointer"); auto& v = g.vertices()[k.u]; bool seen = false; for (auto i = v.edges_begin(g, vid(k.u)); i != v.edges_end(g, vid(k.u)); ++i) seen |= &*i == k.it; c.check(seen, "kept-pointer", "a kept edge pointer is not the edge in the list"); }
    for (auto& k : ed) { c.count("kept_checks"); auto t = graph::target_id(g, k.it); c.checkf((int)graph::edge_value(g, k.it) == k.e && (u32)graph::source_id(g, k.it) == k.u && (u32)t == other(k.e, k.u), "kept-descriptor", [&] { return std::format("a kept edge descriptor of edge {} at vertex {}", k.e, k.u); }); c.check((u32)graph::vertex_id(g, graph::target(g, k.it)) == other(k.e, k.u), "kept-descriptor", "target of a kept edge descriptor");
      bool seen = false; for (auto uv : graph::edges(g, *graph::find_vertex(g, vid(k.u)))) seen |= uv == k.it; c.check(seen, "kept-descriptor", "a kept edge descriptor equals none of the vertex's edges"); }
    for (auto& k : vd) { c.count("kept_checks"); c.check((u32)graph::vertex_id(g, k.it) == k.u && (int)graph::vertex_value(g, k.it) == k.e && k.it == *graph::find_vertex(g, vid(k.u)), "kept-descriptor", "a kept vertex descriptor"); size_t i = 0; for (auto uv : graph::edges(g, k.it)) { c.check(i < inc[k.u].size() && (int)graph::edge_value(g, uv) == inc[k.u][i], "kept-descriptor", "edges of a kept vertex descriptor"); ++i; } c.check(i == inc[k.u].size() && graph::degree(g, k.it) == i, "kept-descriptor", "number of edges of a kept vertex descriptor"); }
    for (auto& k : vi) { c.count("kept_checks"); c.check((u32)(k.it - g.begin()) == k.u && (int)k.it->value() == k.e, "kept-iterator", "a kept vertex iterator"); c.check((size_t)k.it->num_edges() == inc[k.u].size(), "kept-iterator", "number of edges of a kept vertex iterator"); }
    for (u32 u = 0; u < inc.size(); ++u) { auto& v = g.vertices()[u]; auto& cv = cg.vertices()[u]; c.check((size_t)cv.neighbors_size(cg) == inc[u].size() && (size_t)v.num_edges() == inc[u].size(), "count", "number of neighbours"); if (!inc[u].empty()) c.check((int)v.edge_front(g).value() == inc[u].front() && (int)cv.edge_front(cg).value() == inc[u].front() && (int)v.edge_back(g).value() == inc[u].back() && (int)cv.edge_back(cg).value() == inc[u].back(), "front-back", "first or last edge of a vertex"); }
    c.check(g.num_edges() == ends.size(), "count", "number of edges");
  }
  template <class I> void nbr(I it, I first, I last, u32 u, size_t i, const char* what) { auto& l = inc[u]; I b = it; for (size_t k = i; k < l.size(); ++k, ++it) { c.check(it != last, "kept-iterator", std::string(what) + ": ends too early"); c.count("steps_walked"); c.checkf((u32)it.other_vertex_id() == other(l[k], u) && (u32)(it.other_vertex() - first_v(it)) == other(l[k], u) && (int)it->value() == (int)(100 + other(l[k], u)), "kept-iterator", [&] { return std::format("{} of vertex {} is at vertex {}, expected {}", what, u, (u32)it.other_vertex_id(), other(l[k], u)); }); } c.check(it == last, "kept-iterator", std::string(what) + ": not at the end");
    for (size_t k = i; k-- > 0;) { c.check(b != first, "kept-iterator", std::string(what) + ": at the first too early"); --b; c.check((u32)b.other_vertex_id() == other(l[k], u), "kept-iterator", std::string(what) + ": stepping back"); } c.check(b == first, "kept-iterator", std::string(what) + ": stepping back does not reach the first"); }
  auto first_v(NE&) { return g.begin(); } auto first_v(CNE&) { if constexpr (std::is_same_v<NE, CNE>) return g.begin(); else return std::as_const(g).begin(); }
  void drop(int e) { auto d = [&](auto& v) { std::erase_if(v, [&](auto& k) { return k.e == e; }); }; d(ge); d(cge); d(ve); d(cve); d(ne); d(cne); d(ep); d(ed); auto [s, t] = ends.at(e); std::erase(inc[s], e); if (s != t) std::erase(inc[t], e); ends.erase(e); }
  template <class V, class I> void keep(V& v, I it, int e, u32 u) { if (v.size() < cap) v.push_back({it, e, u}); else { auto& x = v[c.rng.below(v.size())]; x.it = it; x.e = e; x.u = u; } }
  u32 rv() { return (u32)c.rng.below(inc.size()); }
  bool edge_at(u32& u, size_t& i) { if (inc.empty()) return false; for (int t = 0; t < 6; ++t) { u = rv(); if (!inc[u].empty()) { i = c.rng.below(inc[u].size()); return true; } } return false; }
  GE graph_at(u32 u, size_t i) { GE it = g.edges().begin(); size_t n = i; for (u32 x = 0; x < u; ++x) n += inc[x].size(); while (n--) ++it; return it; }
  VE vertex_at(u32 u, size_t i) { auto it = g.vertices()[u].edges_begin(g, vid(u)); while (i--) ++it; return it; }
  void take() { u32 u; size_t i; const G& cg = g;
    if (inc.size()) { u32 x = rv(); switch (c.rng.below(4)) { case 0: keep(vd, *graph::find_vertex(g, vid(x)), 100 + (int)x, x); break; case 1: keep(vi, g.begin() + x, 100 + (int)x, x); break; case 2: keep(ee, g.vertices()[x].edges_end(g, vid(x)), 0, x); break; default: break; } }
    if (!edge_at(u, i)) return; int e = inc[u][i];
    switch (c.rng.below(10)) { case 0: case 1: keep(ge, graph_at(u, i), e, u); break; case 2: { auto it = cg.edges().begin(); size_t n = i; for (u32 x = 0; x < u; ++x) n += inc[x].size(); while (n--) ++it; keep(cge, CGE(it), e, u); break; } case 3: keep(ve, vertex_at(u, i), e, u); break;
      case 4: { auto it = cg.vertices()[u].edges_begin(cg, vid(u)); for (size_t k = i; k--;) ++it; keep(cve, it, e, u); break; } case 5: { auto it = g.vertices()[u].neighbors(g, vid(u)).begin(); for (size_t k = i; k--;) ++it; keep(ne, it, e, u); break; } case 6: { auto it = cg.vertices()[u].neighbors(cg, vid(u)).begin(); for (size_t k = i; k--;) ++it; keep(cne, it, e, u); break; }
      case 7: keep(ep, &*vertex_at(u, i), e, u); break; default: { auto r = graph::edges(g, *graph::find_vertex(g, vid(u))); auto it = r.begin(); for (size_t k = i; k--;) ++it; keep(ed, *it, e, u); } } }
  template <class V> void shuffle(V& v) { if (v.size() < 2) return; auto& a = v[c.rng.below(v.size())]; auto& b = v[c.rng.below(v.size())]; switch (c.rng.below(3)) { case 0: std::ranges::swap(a.it, b.it); break; case 1: { using std::swap; swap(a.it, b.it); break; } default: { auto x = std::move(a.it); a.it = b.it; b.it = std::move(x); } } std::swap(a.e, b.e); std::swap(a.u, b.u); }
  void edit() { auto& r = c.rng; u32 u; size_t i;
    switch (inc.size() < 2 ? 0 : r.below(14)) {
      case 0: case 1: { if (inc.size() > 60) return; auto cp = [&]() -> size_t { if constexpr (requires { g.vertices().capacity(); }) return g.vertices().capacity(); else return 0; }; bool re = cp() == inc.size() || cp() == 0; if (re) vi.clear(); u32 n = (u32)inc.size(); typename std::decay_t<decltype(g.begin())> it; if (r.chance(50)) { it = g.create_vertex(100 + (int)n); } else { const long v = 100 + (long)n; it = g.create_vertex(v); } inc.emplace_back(); keep(vi, it, 100 + (int)n, n); say(std::format("create_vertex -> {}{}", n, re ? " (reallocates)" : "")); if (re) c.count("reallocations"); break; }
      case 2: case 3: case 4: case 5: case 6: case 7: { u32 a = rv(), b = r.chance(15) ? a : rv(); int e = next++; say(std::format("create_edge({},{}) -> {}", a, b, e)); VE it; switch (r.below(4)) { case 0: it = g.create_edge(vid(a), vid(b), int(e)); break; case 1: { const long v = e; it = g.create_edge(vid(a), vid(b), v); break; } case 2: it = g.create_edge(g.begin() + a, g.begin() + b, int(e)); break; default: { const short v = (short)e; it = g.create_edge(g.begin() + a, g.begin() + b, v); } } ends[e] = {a, b}; inc[a].push_back(e); if (a != b) inc[b].push_back(e); keep(ve, it, e, a); break; }
      case 8: { if (!edge_at(u, i)) return; bool held = !ge.empty() && r.chance(70); GE pos = held ? ge[0].it : graph_at(u, i); if (held) { u = ge[0].u; i = at(ge[0].e, u); } int e = inc[u][i]; say(std::format("erase_edge({} edge iterator at {} of vertex {})", held ? "kept" : "fresh", e, u)); std::vector<std::pair<u32, int>> rest; for (u32 x = u; x < inc.size(); ++x) for (size_t k = x == u ? i + 1 : 0; k < inc[x].size(); ++k) if (inc[x][k] != e) rest.push_back({x, inc[x][k]}); drop(e); GE nx = g.erase_edge(pos); if (rest.empty()) c.check(nx == g.edges().end(), "erase-result", "not the end after erasing the last edge"); else { c.check(nx != g.edges().end() && (int)nx->value() == rest[0].second, "erase-result", "not the next edge"); keep(ge, nx, rest[0].second, rest[0].first); } c.count("erasures"); break; }
      case 9: case 10: { bool held = !ve.empty() && r.chance(70); VE pos; if (held) { pos = ve[0].it; u = ve[0].u; i = at(ve[0].e, u); } else { if (!edge_at(u, i)) return; pos = vertex_at(u, i); } int e = inc[u][i]; say(std::format("erase edge {} through {} iterator of vertex {}", e, held ? "a kept" : "an", u)); int nx = i + 1 < inc[u].size() ? inc[u][i + 1] : 0; drop(e); VE ret = g.vertices()[u].erase_edge(g, pos); if (!nx) c.check(ret == g.vertices()[u].edges_end(g, vid(u)), "erase-result", "not the end after erasing a vertex's last edge"); else { c.check((int)ret->value() == nx, "erase-result", "not the vertex's next edge"); keep(ve, ret, nx, u); } c.count("erasures"); break; }
      case 11: { if (!edge_at(u, i)) return; size_t j = i + r.below(inc[u].size() - i + 1); say(std::format("erase edges {}..{} of vertex {}", i, j, u)); auto l = inc[u]; VE a = vertex_at(u, i), b = vertex_at(u, j); for (size_t k = i; k < j; ++k) drop(l[k]); VE ret = g.vertices()[u].erase_edge(g, a, b); if (j == l.size()) c.check(ret == g.vertices()[u].edges_end(g, vid(u)), "erase-result", "not the end after erasing a range"); else { c.check((int)ret->value() == l[j], "erase-result", "not the edge after an erased range"); keep(ve, ret, l[j], u); } c.count("erasures", j - i); break; }
      case 12: { if (r.chance(60)) return; u = rv(); say(std::format("clear_edges of vertex {}", u)); auto l = inc[u]; for (int e : l) drop(e); g.vertices()[u].clear_edges(g); c.count("erasures", l.size()); break; }
      default: shuffle(ge); shuffle(cge); shuffle(ve); shuffle(cve); shuffle(ne); shuffle(cne); shuffle(ed); shuffle(vd); shuffle(vi); c.count("shuffles"); break; } }
  void run(const char* nm) { log = std::string(nm) + ": "; int steps = c.rng.chance(85) ? 25 : 80; cap = 1 + (u32)c.rng.below(4); size_t maxv = 3 + c.rng.below(6); for (int k = 0; k < steps; ++k) { if (inc.size() >= maxv && c.rng.chance(90)) {} for (int t = 0; t < 2; ++t) take(); edit(); verify(); } if (next > 2) { c.nontrivial(hash); if (log.size() < 600) c.sample(log); } }
};
template <class G> void kept(Ctx& c, const char* nm) { Keeper<G> k{c}; k.run(nm); }
template <class V, class A> using vec = std::vector<V, A>; template <class V, class A> using deq = std::deque<V, A>;
using i1 = gc::undirected_adjacency_list<int, int, void, u32>; using i2 = gc::undirected_adjacency_list<int, int, int, u64>; using i3 = gc::undirected_adjacency_list<int, int, void, uint8_t>; using i4 = gc::undirected_adjacency_list<int, int, std::string, int>; using i5 = gc::undirected_adjacency_list<int, int, void, u32, deq>;
// vertex descriptors of the other containers, kept across loads
template <class G> void descriptors(Ctx& c, const char* nm) {
  using Id = graph::vertex_id_t<G>; using E = graph::copyable_edge_t<Id, int>; using W = graph::copyable_vertex_t<Id, int>; auto& r = c.rng; G g; std::map<u32, std::vector<std::pair<u32, int>>> out; std::map<u32, int> val; std::vector<std::pair<graph::vertex_t<G>, u32>> kept; std::string log = std::string(nm) + ": "; u32 hi = 2; constexpr bool keyed = requires { typename G::vertices_type::key_type; }; int w = 1; u64 h = 3;
  for (int round = 0; round < 6; ++round) { hi += (u32)r.below(20); std::vector<E> es; u32 top = 0; int m = 1 + (int)r.below(8); for (int k = 0; k < m; ++k) { u32 a = (u32)r.below(hi), b = (u32)r.below(hi); es.push_back({(Id)a, (Id)b, w++}); top = std::max({top, a, b}); log += std::format("{}->{} ", a, b); h = hcomb(h, a * 977 + b); } log += "| "; c.input(log); c.count("edits"); g.load_edges(es, std::identity{}); if (keyed) for (auto& e : es) { val.try_emplace((u32)e.source_id, 0); val.try_emplace((u32)e.target_id, 0); } else for (u32 x = 0; x <= top; ++x) val.try_emplace(x, 0); for (auto& e : es) out[(u32)e.source_id].push_back({(u32)e.target_id, e.value});
    if (r.chance(50)) { std::vector<W> vs; for (auto& [id, v] : val) if (r.chance(40)) { v = (int)r.below(1000); vs.push_back({(Id)id, v}); } g.load_vertices(vs, std::identity{}); }
    for (auto& [u, id] : kept) { c.count("kept_checks"); c.checkf((u32)graph::vertex_id(g, u) == id && u == *graph::find_vertex(g, (Id)id) && graph::vertex_value(g, u) == val[id], "kept-descriptor", [&] { return std::format("a descriptor of vertex {} kept across a load", id); }); std::multiset<std::pair<u32, int>> got, want(out[id].begin(), out[id].end()); for (auto uv : graph::edges(g, u)) { got.insert({(u32)graph::target_id(g, uv), (int)graph::edge_value(g, uv)}); c.count("steps_walked"); } c.checkf(got == want, "kept-descriptor", [&] { return std::format("the edges of vertex {} through a descriptor kept across a load", id); }); }
    for (auto& [id, v] : val) if (r.chance(30)) kept.push_back({*graph::find_vertex(g, (Id)id), id}); if (kept.size() > 40) kept.erase(kept.begin(), kept.begin() + 20); }
  c.nontrivial(h); if (log.size() < 400) c.sample(log); }
template <template <class, class, class, class, bool> class T> using dy = dyn<T, int, int, int>;
using d_vov = dy<gc::vov_graph_traits>; using d_vol = dy<gc::vol_graph_traits>; using d_dov = dy<gc::dov_graph_traits>; using d_dol = dy<gc::dol_graph_traits>; using d_mov = dy<gc::mov_graph_traits>; using d_mol = dy<gc::mol_graph_traits>; using d_vofl = dy<gc::vofl_graph_traits>;
#define KEPT(G, q) SUITE(kept_##G, q, q * 60) { kept<G>(c, #G); }
#define DESC(G) SUITE(descr_##G, 150, 8000) { descriptors<G>(c, #G); }
#if IN(0)
KEPT(i1, 500) DESC(d_vov) DESC(d_vol)
#elif IN(1)
KEPT(i2, 500) DESC(d_dov) DESC(d_dol)
#elif IN(2)
KEPT(i3, 400) KEPT(i5, 400)
#elif IN(3)
KEPT(i4, 400) DESC(d_mov) DESC(d_mol) DESC(d_vofl)
#endif
