// Shared helpers for the view monitors: expected adjacency in container order, and a
// multi-pass iterator monitor that any forward view must satisfy.
#pragma once
#include "vg.hpp"
#include <graph/container/traits/uos_graph_traits.hpp>
namespace vg {
using mov = dyn<gc::mov_graph_traits>; using mol = dyn<gc::mol_graph_traits>; using mos = dyn<gc::mos_graph_traits>; using uov = dyn<gc::uov_graph_traits>; using uol = dyn<gc::uol_graph_traits>; using uos = dyn<gc::uos_graph_traits>;
VG_NAME(mov) VG_NAME(mol) VG_NAME(mos) VG_NAME(uov) VG_NAME(uol) VG_NAME(uos)
template <class G> constexpr bool is_sparse = std::is_same_v<G, mov> || std::is_same_v<G, mol> || std::is_same_v<G, mos> || std::is_same_v<G, uov> || std::is_same_v<G, uol> || std::is_same_v<G, uos>;
template <class G> constexpr bool hashed_vertices = std::is_same_v<G, uov> || std::is_same_v<G, uol> || std::is_same_v<G, uos>;
template <class G> constexpr bool unit = std::is_same_v<G, vvi>; // no stored edge values
template <class G> constexpr bool dedup2() { return dedupes<G>() || std::is_same_v<G, mos> || std::is_same_v<G, uos>; }
template <class G> constexpr bool append2() { return !dedup2<G>() && order_of<G>() == Ord::append; }
template <class G> constexpr bool sorted2() { return order_of<G>() == Ord::sorted_unique || std::is_same_v<G, mos> || std::is_same_v<G, uos>; }
template <class G> constexpr bool hashed2() { return order_of<G>() == Ord::hashed_unique; }

// more bidirectional graphs: deque of deque, different containers for outgoing and incoming edges, map of vertices
#define VG_BIDIR(NAME, VERTS, OUTS, INS)                                                                                   \
  template <class EV = void, class VV = void, class GV = void, class VId = u32> struct NAME##_traits {                     \
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;     \
    static constexpr bool bidirectional = true;                                                                            \
    using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, NAME##_traits>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, NAME##_traits>; \
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, NAME##_traits>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, NAME##_traits>; \
    using edges_type = OUTS; using in_edges_type = INS; using vertices_type = VERTS; };                                    \
  using NAME = gc::dynamic_graph<int, void, void, u32, true, NAME##_traits<int>>; VG_NAME(NAME)
#define VG_COMMA ,
VG_BIDIR(dob, std::deque<vertex_type>, std::deque<edge_type>, std::deque<in_edge_type>)
VG_BIDIR(vmb, std::vector<vertex_type>, std::vector<edge_type>, std::list<in_edge_type>)
VG_BIDIR(vlv, std::vector<vertex_type>, std::list<edge_type>, std::vector<in_edge_type>)
VG_BIDIR(mob, std::map<VId VG_COMMA vertex_type>, std::vector<edge_type>, std::vector<in_edge_type>)
VG_BIDIR(uob, std::unordered_map<VId VG_COMMA vertex_type>, std::list<edge_type>, std::deque<in_edge_type>)
template <class G> constexpr bool is_bidir = std::is_same_v<G, vob> || std::is_same_v<G, vlb> || std::is_same_v<G, dob> || std::is_same_v<G, vmb> || std::is_same_v<G, vlv> || std::is_same_v<G, mob> || std::is_same_v<G, uob>;
template <> inline constexpr bool is_sparse<mob> = true; template <> inline constexpr bool is_sparse<uob> = true; template <> inline constexpr bool hashed_vertices<uob> = true;

// What the container is expected to hold: vertex ids in container order (sorted when the order
// is unspecified) and, per id, (target, value) in container order.
struct Adj { u32 target; int w; auto operator<=>(const Adj&) const = default; };
struct Model { std::vector<u32> ids; std::map<u32, std::vector<Adj>> adj; size_t m = 0; std::map<u32, std::vector<Adj>> in; };
template <class G> Model model(const EL& full) { // full: symmetrized already for ual
  Model r; std::set<u32> ids; if constexpr (is_sparse<G>) { for (auto& e : full.es) { ids.insert(e.s); ids.insert(e.t); } } else for (u32 i = 0; i < full.n; ++i) ids.insert(i);
  r.ids.assign(ids.begin(), ids.end()); for (u32 i : r.ids) { r.adj[i]; r.in[i]; }
  std::set<std::pair<u32, u32>> seen;
  for (auto& e : full.es) { if (dedup2<G>() && !seen.insert({e.s, e.t}).second) continue; int w = unit<G> ? 0 : e.w; auto& a = r.adj[e.s]; if (order_of<G>() == Ord::prepend) a.insert(a.begin(), Adj{e.t, w}); else a.push_back({e.t, w}); r.in[e.t].push_back({e.s, w}); ++r.m; }
  if (sorted2<G>() || hashed2<G>()) for (auto& [i, a] : r.adj) std::stable_sort(a.begin(), a.end(), [](auto& x, auto& y) { return x.target < y.target; });
  return r; }
template <class G> G build_any(const EL& base) {
  if constexpr (is_sparse<G>) { auto v = as_ce(base); G r; r.load_edges(v, std::identity{}); return r; } else return build<G>(base); }
template <class G> EL full_of(const EL& base) { if constexpr (std::is_same_v<G, ual>) return symmetrize(base); else if constexpr (std::is_same_v<G, csr>) return sorted_edges(base); else return base; }
// edge value as stored, or 0 where the container has none
template <class G, class UV> int val_of(const G& g, const UV& uv) { if constexpr (unit<std::remove_cvref_t<G>>) return 0; else return (int)graph::edge_value(g, uv); }
struct Val { template <class G, class UV> int operator()(const G& g, const UV& uv) const { return val_of(g, uv); } };

// canonical form of one element is produced by `pr`; the monitor checks that every way of walking
// the view gives the same elements, and that iterator equality identifies positions.
template <class V, class P> auto walk(Ctx& c, V&& v, P pr, const char* what, size_t expect_max) {
  using T = std::remove_cvref_t<decltype(pr(*v.begin()))>; std::vector<T> a, b, d;
  size_t guard = 0;
  for (auto it = v.begin(); it != v.end(); ++it) { a.push_back(pr(*it)); c.checkf(++guard <= expect_max + 8, "view-does-not-end", [&] { return std::string(what); }); }
  { auto it = v.begin(); const auto e = v.end(); while (!(it == e)) { auto old = it++; b.push_back(pr(*old)); c.check(!(old == it), "view-iterator-equality", what); c.check(b.size() <= a.size(), "view-second-pass", what); } }
  c.check(a == b, "view-second-pass", what);
  c.check((v.begin() == v.end()) == a.empty(), "view-begin-equals-end", what);
  if (!a.empty()) { // a copy taken in the middle walks the same tail
    size_t k = (size_t)c.rng.below(a.size()); auto it = v.begin(); for (size_t i = 0; i < k; ++i) ++it; auto cp = it; decltype(it) as{}; as = it; c.check(cp == it && as == it, "view-iterator-copy", what);
    ++it; for (; cp != v.end(); ++cp) { c.check(d.size() <= a.size(), "view-copy-tail", what); d.push_back(pr(*cp)); } c.check(std::equal(d.begin(), d.end(), a.begin() + k, a.end()), "view-copy-tail", what);
    c.check(pr(*as) == a[k], "view-iterator-copy", what);
    if (k + 1 < a.size()) c.check(pr(*it) == a[k + 1], "view-iterator-copy", what);
    if (a.size() < 12) { std::vector<decltype(v.begin())> its; for (auto j = v.begin(); j != v.end(); ++j) its.push_back(j); for (size_t i = 0; i < its.size(); ++i) for (size_t j = 0; j < its.size(); ++j) c.checkf((its[i] == its[j]) == (i == j), "view-iterator-equality", [&] { return std::format("{}: positions {} and {}", what, i, j); }); } }
  if constexpr (requires { v.size(); }) c.checkf((size_t)v.size() == a.size(), "view-size", [&] { return std::format("{}: size() is {} but {} elements are yielded", what, (size_t)v.size(), a.size()); });
  if constexpr (std::ranges::view<std::remove_cvref_t<V>>) if constexpr (requires { v.empty(); }) c.checkf((bool)v.empty() == a.empty(), "view-empty", [&] { return std::format("{}: empty() is {} with {} elements", what, (bool)v.empty(), a.size()); });
  if constexpr (std::ranges::view<std::remove_cvref_t<V>>) c.checkf((size_t)std::ranges::distance(v) == a.size(), "view-distance", [&] { return std::format("{}: ranges::distance is {} but {} elements are yielded", what, (size_t)std::ranges::distance(v), a.size()); });
  { auto copy = v; std::vector<T> e; for (auto&& x : copy) { if (e.size() > a.size()) break; e.push_back(pr(x)); } c.check(e == a, "view-copied", what); auto moved = std::move(copy); e.clear(); for (auto&& x : moved) { if (e.size() > a.size()) break; e.push_back(pr(x)); } c.check(e == a, "view-moved", what); }
  c.count("elements", a.size()); c.count("views"); return a; }
} // namespace vg
