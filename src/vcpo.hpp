// Content oracle: every public way of reading a graph (customisation points, lookups, totals,
// values) is compared with an abstract model of what was put into it.
#pragma once
#include "vviews.hpp"
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
namespace vg {
// An instance-counting value: knows its own address, so bitwise relocation, use of a dead object,
// missing destructor calls and writes to moved-from sources all become visible.
struct Tok {
  static inline i64 live = 0; static inline i64 ops = 0; // single-threaded harnesses only
  int v; const Tok* self; int* heap;
  static constexpr int moved = -999, dflt = 7;
  void chk() const { if (self != this || !heap || *heap != v) throw Violation{"value-corrupt", std::format("a value object is used that was never constructed, or is already destroyed (self {}, value {})", self == this, v)}; }
  Tok() : v(dflt), self(this), heap(new int(dflt)) { ++live; ++ops; }
  Tok(int x) : v(x), self(this), heap(new int(x)) { ++live; ++ops; }
  Tok(const Tok& o) : v(o.v), self(this), heap(new int(o.v)) { o.chk(); ++live; ++ops; }
  Tok(Tok&& o) noexcept : v(o.v), self(this), heap(std::exchange(o.heap, new int(moved))) { o.v = moved; ++live; ++ops; }
  Tok& operator=(const Tok& o) { chk(); o.chk(); v = o.v; *heap = v; ++ops; return *this; }
  Tok& operator=(Tok&& o) noexcept { ++ops; if (this != &o) { v = o.v; *heap = v; o.v = moved; *o.heap = moved; } return *this; }
  ~Tok() { if (self != this) { fprintf(stderr, "VH-VALUE: destroyed a value that is not alive\n"); abort(); } self = nullptr; delete heap; heap = nullptr; --live; }
  bool operator==(const Tok& o) const { return v == o.v; } auto operator<=>(const Tok& o) const { return v <=> o.v; }
};
inline int num(int v) { return v; } inline int num(const Tok& t) { t.chk(); return t.v; } inline int num(const std::string& s) { return s.empty() ? Tok::dflt : std::stoi(s); } inline int num(double d) { return (int)d; } inline int num(long d) { return (int)d; }
template <class T> T mkval(int v) { if constexpr (std::is_same_v<T, std::string>) return std::format("{:040}", v); else return T(v); }
template <class T> int dfltval() { if constexpr (std::is_same_v<T, Tok> || std::is_same_v<T, std::string>) return Tok::dflt; else return 0; }
template <class Id> std::string ids(const Id& i) { if constexpr (std::is_convertible_v<Id, std::string>) return i; else return std::to_string(i); }

template <class C> constexpr bool keyed = requires { typename C::key_type; };
template <class C> constexpr bool hashing = requires { typename C::hasher; };
template <class C> constexpr Ord ord_c() { if constexpr (hashing<C>) return Ord::hashed_unique; else if constexpr (keyed<C>) return Ord::sorted_unique; else if constexpr (!requires(C& x) { x.push_back(std::declval<typename C::value_type>()); }) return Ord::prepend; else return Ord::append; }

// what is known statically about each graph type
template <class G> struct Tr;
template <class EV_, class VV_, class GV_, class VId, bool B, class T> struct Tr<gc::dynamic_graph<EV_, VV_, GV_, VId, B, T>> {
  using Id = VId; using EV = EV_; using VV = VV_; using GV = GV_; using VC = typename T::vertices_type; using EC = typename T::edges_type;
  static constexpr bool keyed_v = keyed<VC>, hashed_v = hashing<VC>, bidir = B, dyn = true, und = false; static constexpr Ord out = ord_c<EC>();
  static constexpr Ord in = [] { if constexpr (requires { typename T::in_edges_type; }) return ord_c<typename T::in_edges_type>(); else return ord_c<EC>(); }(); };
template <class EV_, class VV_, class GV_, class VId, class EI, class A> struct Tr<gc::compressed_graph<EV_, VV_, GV_, VId, EI, A>> {
  using Id = VId; using EV = EV_; using VV = VV_; using GV = GV_; static constexpr bool keyed_v = false, hashed_v = false, bidir = false, dyn = false, und = false; static constexpr Ord out = Ord::append, in = Ord::append; };
template <class EV_, class VV_, class GV_, class VId, template <class, class> class VC, class A> struct Tr<gc::undirected_adjacency_list<EV_, VV_, GV_, VId, VC, A>> {
  using Id = VId; using EV = EV_; using VV = VV_; using GV = GV_; static constexpr bool keyed_v = false, hashed_v = false, bidir = true, dyn = false, und = true; static constexpr Ord out = Ord::append, in = Ord::append; };
template <> struct Tr<vvp> { using Id = size_t; using EV = int; using VV = void; using GV = void; static constexpr bool keyed_v = false, hashed_v = false, bidir = false, dyn = false, und = false; static constexpr Ord out = Ord::append, in = Ord::append; };
template <> struct Tr<vvi> : Tr<vvp> { using EV = void; };

template <class Id> struct Content {
  struct A { Id t; int w; bool operator==(const A&) const = default; bool operator<(const A& o) const { return std::tie(t, w) < std::tie(o.t, o.w); } };
  std::map<Id, std::vector<A>> out, in; std::map<Id, int> vv; size_t loaded = 0; int gv = 0;
  size_t stored() const { size_t m = 0; for (auto& [k, v] : out) m += v.size(); return m; }
  void vertex(const Id& id, int v) { if (!out.count(id)) { out[id]; in[id]; vv[id] = v; } }
  static void put(std::vector<A>& a, const A& x, Ord o) {
    if (o == Ord::prepend) a.insert(a.begin(), x); else if (o == Ord::append) a.push_back(x);
    else { for (auto& y : a) if (y.t == x.t) return; a.insert(std::upper_bound(a.begin(), a.end(), x, [](auto& p, auto& q) { return p.t < q.t; }), x); } }
  // unordered containers are compared sorted by target
  template <class G> void edge(const Id& s, const Id& t, int w, int dv) { using T = Tr<G>; vertex(s, dv); vertex(t, dv); if constexpr (std::is_void_v<typename T::EV>) w = 0; put(out[s], {t, w}, T::out); put(in[t], {s, w}, T::in);
    if constexpr (T::und) if (s != t) { put(out[t], {s, w}, T::out); put(in[s], {t, w}, T::in); } ++loaded; }
  std::string str() const { std::string o; for (auto& [k, a] : out) { o += ids(k) + ":"; for (auto& x : a) o += ids(x.t) + "/" + std::to_string(x.w) + " "; } return o; }
  u64 hash() const { u64 h = 1; for (auto& [k, a] : out) { h = hcomb(h, std::hash<Id>{}(k)); for (auto& x : a) h = hcomb(hcomb(h, std::hash<Id>{}(x.t)), (u64)(u32)x.w); } return h; }
};
template <class G> constexpr bool has_ev = !std::is_void_v<typename Tr<std::remove_const_t<G>>::EV>;
template <class G> constexpr bool has_vv = !std::is_void_v<typename Tr<std::remove_const_t<G>>::VV>;
template <class G> constexpr bool has_gv = !std::is_void_v<typename Tr<std::remove_const_t<G>>::GV>;

// `miss`: some ids that may not be in the graph. lookups: also test every pairwise lookup.
template <class G> void check_content(Ctx& c, G& g, const Content<typename Tr<std::remove_const_t<G>>::Id>& m, const std::vector<typename Tr<std::remove_const_t<G>>::Id>& miss, bool exact_total = true) {
  using B = std::remove_const_t<G>; using T = Tr<B>; using Id = typename T::Id; using A = typename Content<Id>::A; using CId = graph::vertex_id_t<G>;
  auto show = [](const std::vector<A>& v) { std::string s; for (auto& a : v) s += ids(a.t) + ":" + std::to_string(a.w) + " "; return s; };
  auto canon = [](std::vector<A> v, Ord o) { if (o == Ord::hashed_unique) std::sort(v.begin(), v.end()); return v; };
  const size_t n = m.out.size(); c.count("content_checks");
  auto vr = graph::vertices(g);
  c.checkf((size_t)graph::num_vertices(g) == n, "num-vertices", [&] { return std::format("num_vertices is {} expected {}", (size_t)graph::num_vertices(g), n); });
  std::vector<Id> order; for (auto&& u : vr) { c.check(order.size() <= n, "vertex-range", "more vertices than expected"); order.push_back((Id)graph::vertex_id(g, u)); }
  { auto s = order; if (T::hashed_v) std::sort(s.begin(), s.end()); std::vector<Id> want; for (auto& [k, a] : m.out) want.push_back(k); c.checkf(s == want, "vertex-range", [&] { std::string a, b; for (auto& x : s) a += ids(x) + " "; for (auto& x : want) b += ids(x) + " "; return std::format("vertices(g) lists {} expected {}", a, b); }); }
  c.check((size_t)std::ranges::distance(vr) == n, "vertex-range", "distance"); if constexpr (requires { vr.size(); }) c.check((size_t)vr.size() == n, "vertex-range", "size");
  std::vector<Id> order2; for (auto&& u : graph::vertices(g)) order2.push_back((Id)graph::vertex_id(g, u)); c.check(order2 == order, "vertex-range", "second pass differs");
  size_t degsum = 0, iterated = 0;
  for (auto&& u : vr) { // ---- per vertex
    const Id id = (Id)graph::vertex_id(g, u); auto& want = m.out.at(id); ++iterated;
    auto f = graph::find_vertex(g, (CId)id); c.checkf(f != vr.end() && *f == u && (Id)graph::vertex_id(g, *f) == id, "find-vertex", [&] { return "find_vertex(" + ids(id) + ") is another vertex"; });
    if constexpr (has_vv<G>) c.checkf(num(graph::vertex_value(g, u)) == m.vv.at(id), "vertex-value", [&] { return std::format("vertex_value({}) is {} expected {}", ids(id), num(graph::vertex_value(g, u)), m.vv.at(id)); });
    std::vector<A> got; auto er = graph::edges(g, u);
    for (auto&& e : er) { c.checkf(got.size() <= want.size(), "edge-range", [&] { return "too many edges at " + ids(id); }); A a{(Id)graph::target_id(g, e), 0}; if constexpr (has_ev<G>) a.w = num(graph::edge_value(g, e));
      c.checkf((Id)graph::source_id(g, e) == id, "source-id", [&] { return std::format("source_id is {} for an edge of {}", ids((Id)graph::source_id(g, e)), ids(id)); }); c.check((Id)graph::vertex_id(g, graph::source(g, e)) == id && graph::source(g, e) == u, "source"); c.check((Id)graph::vertex_id(g, graph::target(g, e)) == a.t, "target"); c.check(graph::target(g, e) == *graph::find_vertex(g, (CId)a.t), "target"); got.push_back(a); }
    c.checkf(canon(got, T::out) == canon(want, T::out), "edge-range", [&] { return std::format("edges of {}: {} expected {}", ids(id), show(got), show(want)); });
    c.checkf((size_t)graph::degree(g, u) == want.size() && (size_t)graph::num_edges(g, u) == want.size(), "degree", [&] { return std::format("degree({})={} num_edges={} expected {}", ids(id), (size_t)graph::degree(g, u), (size_t)graph::num_edges(g, u), want.size()); });
    if constexpr (requires { er.size(); }) c.check((size_t)er.size() == want.size(), "edge-range-size"); c.check((size_t)std::ranges::distance(er) == want.size(), "edge-range-size", "distance");
    degsum += want.size(); c.count("edges_read", want.size());
    if constexpr (requires { graph::edges(g, (CId)id); } && std::integral<Id>) if constexpr (requires { graph::degree(g, (CId)id); graph::num_edges(g, (CId)id); }) {
      std::vector<A> g2; for (auto&& e : graph::edges(g, (CId)id)) { A a{(Id)graph::target_id(g, e), 0}; if constexpr (has_ev<G>) a.w = num(graph::edge_value(g, e)); c.check((Id)graph::source_id(g, e) == id, "source-id", "edges by id"); g2.push_back(a); }
      c.check(g2 == got && (size_t)graph::degree(g, (CId)id) == want.size() && (size_t)graph::num_edges(g, (CId)id) == want.size(), "edges-by-id"); }
    if constexpr (T::bidir) { auto& win = m.in.at(id); std::vector<A> gi; auto ir = graph::in_edges(g, u); for (auto&& e : ir) { c.check(gi.size() <= win.size(), "in-edges", "too many"); A a{(Id)graph::source_id(g, e), 0}; if constexpr (has_ev<G>) a.w = num(graph::edge_value(g, e)); c.check((Id)graph::vertex_id(g, graph::source(g, e)) == a.t, "in-edge-source"); if constexpr (!T::und) c.check((Id)graph::target_id(g, e) == id && (Id)graph::vertex_id(g, graph::target(g, e)) == id, "in-edge-target"); gi.push_back(a); }
      c.checkf(canon(gi, T::in) == canon(win, T::in), "in-edges", [&] { return std::format("in-edges of {}: {} expected {}", ids(id), show(gi), show(win)); }); c.check((size_t)graph::in_degree(g, u) == win.size(), "in-degree"); }
  }
  c.check(iterated == n, "vertex-range"); c.check(degsum == m.stored(), "degree-sum");
  size_t total = T::und ? 0 : (T::dyn ? m.loaded : m.stored()); if constexpr (T::und) { size_t loops = 0; for (auto& [k, a] : m.out) for (auto& x : a) loops += x.t == k; total = (m.stored() - loops) / 2 + loops; }
  if (exact_total) c.checkf((size_t)graph::num_edges(g) == total, "num-edges", [&] { return std::format("num_edges(g) is {} expected {}", (size_t)graph::num_edges(g), total); });
  c.checkf(graph::has_edges(g) == (m.stored() > 0), "has-edges", [&] { return std::format("has_edges is {} with {} edges", graph::has_edges(g), m.stored()); });
  // ---- lookups
  std::vector<Id> probe = miss; for (size_t i = 0; i < 6 && !order.empty(); ++i) probe.push_back(order[c.rng.below(order.size())]);
  for (auto& x : probe) { bool here = m.out.count(x);
    if constexpr (T::dyn) { auto f = graph::find_vertex(g, (CId)x); c.checkf((f != graph::vertices(g).end()) == here, "find-vertex", [&] { return "id " + ids(x) + " in graph: " + (here ? "yes" : "no"); });
      c.check(g.contains_vertex(x) == here, "contains-vertex"); auto t = g.try_find_vertex(x); if constexpr (T::keyed_v) { if (here) { c.check(t->first == x, "try-find-vertex"); c.check(std::addressof(g.vertex_at(x)) == std::addressof(t->second), "vertex-at"); } } else if (here) { c.check(std::addressof(g.vertex_at(x)) == std::addressof(*t) && std::addressof(g[(size_t)x]) == std::addressof(*t), "vertex-at"); c.check((size_t)std::ranges::distance(t->edges()) == m.out.at(x).size(), "try-find-vertex"); }
      c.check((t == g.end()) == !here, "try-find-vertex"); if (!here) { bool thrown = false; try { (void)g.vertex_at(x); } catch (const std::out_of_range&) { thrown = true; } c.check(thrown, "vertex-at", "no out_of_range for a missing vertex"); } }
    if (!here) continue;
    auto u = *graph::find_vertex(g, (CId)x);
    for (auto& y : probe) { auto it = m.out.find(x); bool has = std::any_of(it->second.begin(), it->second.end(), [&](auto& a) { return a.t == y; }); bool yhere = m.out.count(y); c.count("edge_lookups");
      auto chk = [&](bool got, const char* form) { c.checkf(got == has, "contains-edge", [&] { return std::format("contains_edge {} ({}, {}) is {} expected {}", form, ids(x), ids(y), got, has); }); };
      auto chke = [&](auto e, const char* form) { A a{(Id)graph::target_id(g, e), 0}; if constexpr (has_ev<G>) a.w = num(graph::edge_value(g, e)); c.checkf((Id)graph::source_id(g, e) == x && std::find(it->second.begin(), it->second.end(), a) != it->second.end() && a.t == y, "find-edge", [&] { return std::format("find_vertex_edge {} ({}, {}) gives {}:{}", form, ids(x), ids(y), ids(a.t), a.w); }); };
      auto er = graph::edges(g, u);
      if (yhere) { auto v = *graph::find_vertex(g, (CId)y); chk(graph::contains_edge(g, u, v), "(u,v)"); auto e = graph::find_vertex_edge(g, u, v); if (has) chke(e, "(u,v)"); else if constexpr (requires { e == *er.end(); }) c.check(e == *er.end(), "find-edge", "(u,v): found an edge that is not there"); }
      if constexpr (requires { graph::contains_edge(g, (CId)x, (CId)y); }) chk(graph::contains_edge(g, (CId)x, (CId)y), "(uid,vid)");
      if constexpr (requires { graph::find_vertex_edge(g, u, (CId)y); }) { auto e = graph::find_vertex_edge(g, u, (CId)y); if (has) chke(e, "(u,vid)"); else if constexpr (requires { e == *er.end(); }) c.check(e == *er.end(), "find-edge", "(u,vid): found an edge that is not there"); }
      if constexpr (requires { graph::find_vertex_edge(g, (CId)x, (CId)y); }) { auto e = graph::find_vertex_edge(g, (CId)x, (CId)y); if (has) chke(e, "(uid,vid)"); } } }
  if constexpr (has_gv<G>) c.checkf(num(graph::graph_value(g)) == m.gv, "graph-value", [&] { return std::format("graph_value is {} expected {}", num(graph::graph_value(g)), m.gv); });
}
// writing through a value customisation point changes that element and nothing else
template <class G> void poke(Ctx& c, G& g, Content<typename Tr<G>::Id>& m) {
  using T = Tr<G>; using Id = typename T::Id; if (m.out.empty()) return;
  if constexpr (has_vv<G>) { auto it = m.vv.begin(); std::advance(it, c.rng.below(m.vv.size())); int nv = 5000 + (int)c.rng.below(100); graph::vertex_value(g, *graph::find_vertex(g, (graph::vertex_id_t<G>)it->first)) = mkval<typename T::VV>(nv); it->second = nv; }
  if constexpr (has_ev<G> && !T::bidir && T::out == Ord::append) { std::vector<Id> ne; for (auto& [k, a] : m.out) if (!a.empty()) ne.push_back(k); if (!ne.empty()) { auto& k = c.rng.pick(ne); auto& a = m.out[k]; size_t i = c.rng.below(a.size()), j = 0; int nv = 6000 + (int)c.rng.below(100); for (auto&& e : graph::edges(g, *graph::find_vertex(g, (graph::vertex_id_t<G>)k))) if (j++ == i) { graph::edge_value(g, e) = mkval<typename T::EV>(nv); break; } a[i].w = nv; } }
  if constexpr (has_gv<G>) if (c.rng.chance(30)) { m.gv = 7000 + (int)c.rng.below(100); graph::graph_value(g) = mkval<typename T::GV>(m.gv); }
}
} // namespace vg
