// Builders: the same abstract graph in every public graph representation.
#pragma once
#include "vh.hpp"
#include <graph/graph.hpp>
#include <graph/views.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include "vcust.hpp"

namespace vg {
using namespace vh;
namespace gc = graph::container;

// Bidirectional traits (non-uniform in-edges), as in the documentation of dynamic_graph.
template <class EV = void, class VV = void, class GV = void, class VId = u32>
struct vob_traits {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, vob_traits>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, vob_traits>;
  using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, vob_traits>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, vob_traits>;
  using edges_type = std::vector<edge_type>; using in_edges_type = std::vector<in_edge_type>; using vertices_type = std::vector<vertex_type>;
};
template <class EV = void, class VV = void, class GV = void, class VId = u32>
struct vlb_traits {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, vlb_traits>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, vlb_traits>;
  using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, vlb_traits>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, vlb_traits>;
  using edges_type = std::list<edge_type>; using in_edges_type = std::list<in_edge_type>; using vertices_type = std::vector<vertex_type>;
};

template <template <class, class, class, class, bool> class T, class EV = int, class VV = void, class GV = void, class VId = u32>
using dyn = gc::dynamic_graph<EV, VV, GV, VId, false, T<EV, VV, GV, VId, false>>;

using vov = dyn<gc::vov_graph_traits>;   using vol = dyn<gc::vol_graph_traits>;   using vofl = dyn<gc::vofl_graph_traits>;
using vod = dyn<gc::vod_graph_traits>;   using dov = dyn<gc::dov_graph_traits>;   using dofl = dyn<gc::dofl_graph_traits>;
using dol = dyn<gc::dol_graph_traits>;   using dod = dyn<gc::dod_graph_traits>;
using vos = dyn<gc::vos_graph_traits>;   using dos = dyn<gc::dos_graph_traits>;   using vous = dyn<gc::vous_graph_traits>;
using vom = dyn<gc::vom_graph_traits>;   using voum = dyn<gc::voum_graph_traits>;
using vob = gc::dynamic_graph<int, void, void, u32, true, vob_traits<int>>;
using vlb = gc::dynamic_graph<int, void, void, u32, true, vlb_traits<int>>;
using csr = gc::compressed_graph<int, void, void>;
using ual = gc::undirected_adjacency_list<int, int>;
using vvp = std::vector<std::vector<std::pair<int, int>>>;   // plain standard ranges, weighted
using vvi = std::vector<std::vector<int>>;                   // plain standard ranges, unweighted
using mtx = cust::matrix; using atl = cust::atlas; using fru = cust::frugal; using mir = cust::mirrored;            // user-written graphs

using CE = graph::copyable_edge_t<u32, int>;
inline std::vector<CE> as_ce(const EL& g) { std::vector<CE> v; v.reserve(g.es.size()); for (auto& e : g.es) v.push_back({e.s, e.t, e.w}); return v; }

template <class G> struct Name { static constexpr const char* v = "graph"; };
#define VG_NAME(T) template <> struct Name<T> { static constexpr const char* v = #T; };
VG_NAME(vov) VG_NAME(vol) VG_NAME(vofl) VG_NAME(vod) VG_NAME(dov) VG_NAME(dofl) VG_NAME(dol) VG_NAME(dod) VG_NAME(vos) VG_NAME(dos) VG_NAME(vous) VG_NAME(vom) VG_NAME(voum) VG_NAME(vob) VG_NAME(vlb) VG_NAME(csr) VG_NAME(ual) VG_NAME(vvp) VG_NAME(vvi) VG_NAME(mtx) VG_NAME(atl) VG_NAME(fru) VG_NAME(mir)

// order in which a container keeps the edges of one vertex
enum class Ord { append, prepend, sorted_unique, hashed_unique };
template <class G> constexpr Ord order_of() {
  if constexpr (std::is_same_v<G, vofl> || std::is_same_v<G, dofl>) return Ord::prepend;
  else if constexpr (std::is_same_v<G, vom> || std::is_same_v<G, vos> || std::is_same_v<G, dos> || std::is_same_v<G, mtx>) return Ord::sorted_unique;
  else if constexpr (std::is_same_v<G, vous> || std::is_same_v<G, voum>) return Ord::hashed_unique;
  else return Ord::append;
}
template <class G> constexpr bool dedupes() { return order_of<G>() == Ord::sorted_unique || order_of<G>() == Ord::hashed_unique; }
// containers that keep one edge per target see this reduced edge list (first one wins)
template <class G> EL effective(const EL& g) {
  if constexpr (dedupes<G>()) { EL o; o.n = g.n; o.fam = g.fam; std::set<std::pair<u32, u32>> s; for (auto& e : g.es) if (s.insert({e.s, e.t}).second) o.es.push_back(e); return o; }
  else return g; }

template <class G> G build(const EL& g) {
  if constexpr (std::is_same_v<G, vvp>) { G r(g.n); for (auto& e : g.es) r[e.s].push_back({(int)e.t, e.w}); return r; }
  else if constexpr (std::is_same_v<G, mtx>) { G r; r.n = g.n; r.a.resize((size_t)g.n * g.n); for (auto& e : g.es) if (auto& x = r.a[(size_t)e.s * g.n + e.t]; !x.on) x = {true, e.w}; return r; }
  else if constexpr (std::is_same_v<G, atl>) { G r; r.grow(g.n); for (auto& e : g.es) r.add(e.s, e.t, e.w); return r; }
  else if constexpr (std::is_same_v<G, fru>) { G r; r.rows.resize(g.n); for (auto& e : g.es) r.rows[e.s].push_back({e.t, e.w}); return r; }
  else if constexpr (std::is_same_v<G, mir>) { G r; r.grow(g.n); u64 x = g.n; for (auto& e : g.es) { if ((x = mix(x)) % 3 == 0) r.add(e.s, (u32)(x >> 20) % g.n, -1, true); r.add(e.s, e.t, e.w, false); } return r; } // closed edges anywhere between the open ones
  else if constexpr (std::is_same_v<G, vvi>) { G r(g.n); for (auto& e : g.es) r[e.s].push_back((int)e.t); return r; }
  else if constexpr (std::is_same_v<G, csr>) {
    auto v = as_ce(sorted_edges(g)); G r; 
    r.load_edges(v, std::identity{}, g.n, v.size()); return r; }
  else if constexpr (std::is_same_v<G, ual>) { // g: each undirected edge listed once
    G r; for (u32 i = 0; i < g.n; ++i) r.create_vertex(); for (auto& e : g.es) r.create_edge(e.s, e.t, int(e.w)); return r; }
  else { auto v = as_ce(g); G r; r.load_edges(v, std::identity{}, g.n, v.size()); return r; }
}
// edge weight function, for any weighted representation
struct WeightFn { template <class G, class UV> int operator()(const G& g, const UV& uv) const { return (int)graph::edge_value(g, uv); } };
inline constexpr WeightFn weight{};
} // namespace vg
