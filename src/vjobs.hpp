// Every read-only operation of the library as a named job with a hash of everything it returned
// (K04 runs them on many threads, K07 in many build configurations).
#pragma once
#include "vviews.hpp"
#include <graph/graph.hpp>
#include <graph/views/adaptors.hpp>
#include <graph/views/transpose.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace vh; using namespace vg;
namespace gv = graph::views; namespace ad = graph::views::adaptors;
template <class G> constexpr bool is_undirected = false; template <class EV, class VV, class GV, class VId, template <class, class> class C, class A> inline constexpr bool is_undirected<gc::undirected_adjacency_list<EV, VV, GV, VId, C, A>> = true;
struct H { u64 h = 1; void operator()(u64 x) { h = hcomb(h, x); } template <class C> void all(const C& r) { (*this)(std::size(r)); for (auto&& x : r) (*this)((u64)x); } };
template <class V, class E> struct BV { H* o; void on_discover_vertex(const auto& g, const V& u) { (*o)((u64)graph::vertex_id(g, u)); } void on_examine_edge(const auto& g, const E& e) { (*o)((u64)graph::target_id(g, e) + 7); } };
template <class V, class E> struct DV { H* o; void on_discover_vertex(const auto& g, const V& u) { (*o)((u64)graph::vertex_id(g, u)); } void on_finish_vertex(const auto& g, const V& u) { (*o)((u64)graph::vertex_id(g, u) + 9); } void on_back_edge(const auto& g, const E& e) { (*o)((u64)graph::target_id(g, e) + 11); } };
struct Job { const char* name; std::function<u64()> f; };
template <class G> struct Shared { const G* g; const G* h; const G* t; u32 n; bool nc; };  // directed, symmetric, transposed
// All jobs on one set of graphs.  GG is G or const G.
template <class G, class GG> void add_jobs(std::vector<Job>& J, GG& g, GG& h, GG& t, u32 n, const std::vector<u32>& ids, u32 src0, bool dag, bool simple) {
  using Id = graph::vertex_id_t<G>; constexpr bool U = is_undirected<G>; (void)h; (void)t; (void)n; (void)simple;
  GG* gp = &g; GG* hp = &h; GG* tp = &t; (void)hp; (void)tp; const Id src = (Id)src0;
  auto add = [&](const char* nm, auto f) { J.push_back({nm, f}); };
#define JOB(NM, ...) add(NM, [=]() -> u64 { GG& g = *gp; (void)g; H o; { __VA_ARGS__ } return o.h; });
  auto fv = [](const auto& g, const auto& u) { return (int)graph::vertex_id(g, u) * 3 + 1; }; auto fe = [](const auto& g, const auto& uv) { return (int)graph::target_id(g, uv) * 5 + 2; };
  JOB("vertices", o((u64)graph::num_vertices(g)); for (auto u : graph::vertices(g)) { o((u64)graph::vertex_id(g, u)); o((u64)graph::degree(g, u)); })
  JOB("edges", for (auto u : graph::vertices(g)) for (auto uv : graph::edges(g, u)) { o((u64)graph::target_id(g, uv)); o((u64)graph::source_id(g, uv)); o((u64)val_of(g, uv)); o((u64)graph::vertex_id(g, graph::target(g, uv))); o((u64)graph::vertex_id(g, graph::source(g, uv))); })
  JOB("edges by id", for (u32 i : ids) for (auto uv : graph::edges(g, (Id)i)) o((u64)graph::target_id(g, uv));)
  JOB("find_vertex", for (u32 i : ids) { auto it = graph::find_vertex(g, (Id)i); o((u64)graph::vertex_id(g, *it)); o((u64)graph::degree(g, (Id)i)); })
  JOB("find_vertex_edge", for (size_t i = 0; i < ids.size(); ++i) for (size_t j = i % 3; j < ids.size(); j += 3) { bool b = graph::contains_edge(g, (Id)ids[i], (Id)ids[j]); o(b); if (b) o((u64)val_of(g, graph::find_vertex_edge(g, (Id)ids[i], (Id)ids[j]))); })
  JOB("num_edges", o((u64)graph::num_edges(g)); o(graph::has_edges(g));)
  if constexpr (requires { graph::num_partitions(g); }) JOB("partitions", o((u64)graph::num_partitions(g)); for (auto u : graph::vertices(g)) o((u64)graph::partition_id(g, u));)
  if constexpr (is_bidir<G> || U) JOB("in_edges", for (auto u : graph::vertices(g)) { for (auto uv : graph::in_edges(g, u)) { o((u64)graph::source_id(g, uv)); o((u64)graph::edge_value(g, uv)); } o((u64)graph::in_degree(g, u)); })
  if constexpr (is_bidir<G> && !is_sparse<G>) JOB("in views", for (u32 i : ids) { for (auto&& [a, b] : gv::in_incidence(g, *graph::find_vertex(g, (Id)i))) o((u64)a); for (auto&& [a, b] : gv::in_neighbors(g, *graph::find_vertex(g, (Id)i))) o((u64)a); })
  JOB("vertexlist", for (auto&& [i, u] : gv::vertexlist(g)) o((u64)i); for (auto&& [i, u, v] : gv::vertexlist(g, fv)) o((u64)v); for (auto&& [i] : gv::basic_vertexlist(g)) o((u64)i);)
  JOB("incidence", for (u32 i : ids) { for (auto&& [tt, uv] : gv::incidence(g, *graph::find_vertex(g, (Id)i))) o((u64)tt); for (auto&& [tt, uv, v] : gv::incidence(g, *graph::find_vertex(g, (Id)i), fe)) o((u64)v); })
  JOB("neighbors", for (u32 i : ids) { for (auto&& [tt, v] : gv::neighbors(g, *graph::find_vertex(g, (Id)i))) o((u64)tt); for (auto&& [tt, v, x] : gv::neighbors(g, *graph::find_vertex(g, (Id)i), fv)) o((u64)x); })
  JOB("edgelist", for (auto&& [s, tt, uv] : gv::edgelist(g)) { o((u64)s); o((u64)tt); } for (auto&& [s, tt, uv, v] : gv::edgelist(g, fe)) o((u64)v);)
  if constexpr (!is_sparse<G>) JOB("adaptors", for (auto&& [i, u] : g | ad::vertexlist()) o((u64)i); for (auto&& [s, tt, uv] : g | ad::edgelist()) o((u64)tt); for (auto&& [tt, v] : g | ad::neighbors(src)) o((u64)tt);)
  if constexpr (!is_sparse<G>) {
    JOB("vertices_dfs", for (auto&& [v] : gv::vertices_dfs(g, src)) o((u64)graph::vertex_id(g, v)); for (auto&& [v, x] : gv::vertices_dfs(g, src, fv)) o((u64)x);)
    JOB("edges_dfs", for (auto&& [e] : gv::edges_dfs(g, src)) o((u64)graph::target_id(g, e));)
    JOB("vertices_bfs", for (auto&& [v] : gv::vertices_bfs(g, src)) o((u64)graph::vertex_id(g, v));)
    JOB("edges_bfs", for (auto&& [e, x] : gv::edges_bfs(g, src, fe)) o((u64)x);)
    JOB("vertices_topological_sort", if (dag) for (auto&& [v] : gv::vertices_topological_sort(g)) o((u64)graph::vertex_id(g, v)); auto r = gv::vertices_topological_sort_safe(g); o(r.has_value()); if (r) for (auto&& [v] : *r) o((u64)graph::vertex_id(g, v));)
    JOB("edges_topological_sort", auto r = gv::edges_topological_sort_safe(g); o(r.has_value()); if (r) for (auto&& [e] : *r) o((u64)graph::target_id(g, e));)
    auto w = [](const auto& g, const auto& uv) { return val_of(g, uv) & 255; };
    JOB("breadth_first_search", graph::breadth_first_search(g, src, BV<graph::vertex_t<GG>, graph::edge_t<GG>>{&o}); std::vector<Id> ss{src, (Id)ids[0]}; graph::breadth_first_search(g, ss, BV<graph::vertex_t<GG>, graph::edge_t<GG>>{&o});)
    JOB("depth_first_search", graph::depth_first_search(g, src, DV<graph::vertex_t<GG>, graph::edge_t<GG>>{&o});)
    JOB("topological_sort", std::vector<Id> v; o(graph::topological_sort(g, std::back_inserter(v))); if (dag) o.all(v); std::vector<Id> v2; o(graph::topological_sort(g, src, std::back_inserter(v2))); o.all(v2);)
    JOB("dijkstra", std::vector<int> d(n, INT_MAX); std::vector<u32> p(n, 0); graph::dijkstra_shortest_paths(g, src, d, p, w); o.all(d); o.all(p); std::vector<int> d2(n, INT_MAX); graph::dijkstra_shortest_distances(g, src, d2, w); o.all(d2);)
    JOB("bellman_ford", std::vector<int> d(n, INT_MAX / 2); std::vector<u32> p(n, 0); auto r = graph::bellman_ford_shortest_paths(g, src, d, p, w); o(r.has_value()); o.all(d); o.all(p);)
    JOB("connected_components", std::vector<u32> c(n); o((u64)graph::connected_components(*hp, c)); o.all(c);)
    JOB("afforest", std::vector<u32> c(n); graph::afforest(*hp, c); std::map<u32, u32> k; for (u32 x : c) o(k.emplace(x, (u32)k.size()).first->second);)
    if constexpr (!U) JOB("afforest(g,t)", std::vector<u32> c(n); graph::afforest(g, *tp, c); std::map<u32, u32> k; for (u32 x : c) o(k.emplace(x, (u32)k.size()).first->second);)
    if constexpr (!U) JOB("kosaraju", std::vector<u32> c(n); graph::kosaraju(g, *tp, c); o.all(c);)
    if constexpr (is_bidir<G>) JOB("transpose", gv::transpose_view tv(g); for (auto u : graph::vertices(tv)) for (auto uv : graph::edges(tv, u)) o((u64)graph::target_id(tv, uv)); std::vector<u32> c(n); graph::kosaraju(g, c); o.all(c);)
    JOB("prim", std::vector<u32> p(n); std::vector<int> d(n); o((u64)graph::prim(*hp, p, d, std::less<int>{}, INT_MAX, [](const auto& g, const auto& uv) { return val_of(g, uv) & 255; }, src)); o.all(d); o.all(p);)
    JOB("articulation_points", std::vector<Id> v; graph::articulation_points(*hp, std::back_inserter(v)); o.all(v);)
    JOB("biconnected_components", std::vector<std::vector<Id>> v; graph::biconnected_components(*hp, v); for (auto& x : v) o.all(x);)
    JOB("triangle_count", if constexpr (!U) o(graph::triangle_count(*hp));)
    JOB("jaccard", graph::jaccard_coefficient(*hp, [&](auto a, auto b, auto&& e, auto x) { o((u64)a); o((u64)b); o((u64)(x * 1e6)); });)
    JOB("label_propagation", std::vector<u32> l(n); std::iota(l.begin(), l.end(), 0u); graph::label_propagation(*hp, l, std::mt19937(5), 20); o.all(l);)
    JOB("maximal_independent_set", std::vector<Id> v; o(graph::maximal_independent_set(*hp, std::back_inserter(v), src)); o.all(v);)
  }
}
struct KE { using source_id_type = u32; using target_id_type = u32; using value_type = int; u32 source_id, target_id; int value; };

