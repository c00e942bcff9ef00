// PARTS: 6
// RULE: random graphs, stars, chains, cliques of the last vertices and empty graphs of as many vertices as the id type can count (255 for 8-bit unsigned, 127 for signed, 32767 and 65535 for 16-bit) or one to three fewer, edges drawn towards the largest ids and the middle of the range; compressed graphs also with as many edges as their index type can count. Each is built with the narrow id type and with 32-bit ids in every way a graph is filled (one batch, two batches, constructors, growing, copies, moves, swaps, clearing and refilling, editing for undirected lists); everything read from the graph, every view and every algorithm must give on the narrow graph what it gives on the 32-bit one, also when the arrays given to the algorithm have the narrow type. Non-trivial: an edge ends at the last vertex; distinct by representation and graph
// MIN: compared=6000
// MIN: builds_compared=2000
#include "vjobs.hpp"
#include <graph/container/traits/mos_graph_traits.hpp>
template <class T> constexpr u32 cap = (u32)std::numeric_limits<T>::max();
template <class Id> EL gen_full(Rng& r, u32 n, u32 m, bool dup = false) { // m: how many edges at most; Id only names the stream
  EL g; g.n = n; g.fam = "capacity"; std::set<std::pair<u32, u32>> seen; const u32 kind = (u32)r.below(6); auto add = [&](u32 s, u32 t) { if (g.es.size() >= m || (!dup && !seen.insert({s, t}).second)) return; g.es.push_back({s, t, (int)r.below(200)}); };
  auto id = [&]() -> u32 { switch (r.below(5)) { case 0: return n - 1 - (u32)r.below(std::min(n, 4u)); case 1: return std::min(n - 1, n / 2 + (u32)r.below(4) - std::min(n / 2, 2u)); case 2: return (u32)r.below(std::min(n, 3u)); default: return (u32)r.below(n); } };
  if (kind == 0) return g; if (kind == 1) for (u32 i = 0; i + 1 < n; ++i) add(i, i + 1); if (kind == 2) { u32 hub = n - 1 - (u32)r.below(std::min(n, 2u)); for (u32 i = 0; i < n; ++i) if (i != hub) { if (r.chance(50)) add(hub, i); else add(i, hub); } } if (kind == 3) { u32 k = std::min(n, 12u); for (u32 i = n - k; i < n; ++i) for (u32 j = n - k; j < n; ++j) if (i < j || r.chance(20)) add(i, j); }
  if (kind >= 3) for (u32 k = 0, w = (u32)r.below(3 * n + 1); k < w; ++k) add(id(), id()); else for (u32 k = 0; k < 5; ++k) add(id(), id()); if (kind == 4) while (g.es.size() < m && g.es.size() < 4 * n) add(id(), id()); return g; }
template <class G> struct IdOf; template <class EV, class VV, class GV, class Id, bool S, class T> struct IdOf<gc::dynamic_graph<EV, VV, GV, Id, S, T>> { using type = Id; static constexpr int kind = 0; }; template <class EV, class VV, class GV, class Id, class EI, class A> struct IdOf<gc::compressed_graph<EV, VV, GV, Id, EI, A>> { using type = Id; static constexpr int kind = 1; }; template <class EV, class VV, class GV, class Id, template <class, class> class C, class A> struct IdOf<gc::undirected_adjacency_list<EV, VV, GV, Id, C, A>> { using type = Id; static constexpr int kind = 2; };
template <class Id> struct IdOf<std::vector<std::vector<std::pair<Id, int>>>> { using type = Id; static constexpr int kind = 3; };
template <class Id> using DB = gc::dynamic_graph<int, void, void, Id, true, vob_traits<int, void, void, Id>>; template <class Id> using DMOV = gc::dynamic_graph<int, void, void, Id, false, gc::mov_graph_traits<int, void, void, Id, false>>; template <class Id> using DMOS = gc::dynamic_graph<int, void, void, Id, false, gc::mos_graph_traits<int, void, void, Id, false>>;
namespace vg { template <std::integral Id> requires(!std::is_same_v<Id, u32>) inline constexpr bool is_bidir<DB<Id>> = true; template <std::integral Id> requires(!std::is_same_v<Id, u32>) inline constexpr bool is_sparse<DMOV<Id>> = true; template <std::integral Id> requires(!std::is_same_v<Id, u32>) inline constexpr bool is_sparse<DMOS<Id>> = true; }
template <class G> using IdT = typename IdOf<G>::type;
template <class G> using ELoad = graph::copyable_edge_t<IdT<G>, int>;
template <class G> std::vector<ELoad<G>> recs(const EL& g) { std::vector<ELoad<G>> v; for (auto& e : (IdOf<G>::kind == 1 || IdOf<G>::kind == 2) ? sorted_edges(g).es : g.es) v.push_back({(IdT<G>)e.s, (IdT<G>)e.t, e.w}); return v; }
constexpr int WAYS = 9;
// build the graph in one of the ways; the same way is used for the wide graph.  -> false: this way does not exist for G
template <class G> G made(const EL& g, int way) {
  using Id = IdT<G>; constexpr int kind = IdOf<G>::kind; auto es = recs<G>(g); const size_t n = g.n; constexpr bool keyed = is_sparse<G>; auto cut = es.size() / 2; std::vector<ELoad<G>> a(es.begin(), es.begin() + (long)cut), b(es.begin() + (long)cut, es.end());
  auto one = [&] { G r; if constexpr (kind == 3) { r.resize(n); for (auto& e : g.es) r[e.s].push_back({(Id)e.t, e.w}); } else if constexpr (kind == 2) { for (u32 i = 0; i < n; ++i) r.create_vertex(); for (auto& e : es) r.create_edge(e.source_id, e.target_id, int(e.value)); } else if constexpr (keyed) r.load_edges(es, std::identity{}); else r.load_edges(es, std::identity{}, n, es.size()); return r; };
  if constexpr (kind == 3) return one();
  else switch (way) { case 1: { G x = one(); G y(x); return y; } case 2: { G x = one(); G y; y = x; x = G(); return y; } case 3: { G x = one(); G y(std::move(x)); return y; } case 4: { G x = one(), y; std::swap(x, y); return y; } case 5: { G x = one(); x = G(); x = one(); G y = one(); x = std::move(y); return x; }
    case 6: if constexpr (kind == 0) { G r; if constexpr (!keyed) r.resize_vertices(n); r.load_edges(a, std::identity{}); r.load_edges(b, std::identity{}); return r; } else if constexpr (kind == 2) { G r; r.resize_vertices(n); for (auto& e : es) r.create_edge(r.begin() + e.source_id, r.begin() + e.target_id, int(e.value)); return r; } else break; // sizes not given: found from the edges
    case 7: if constexpr (kind == 0) { if (es.empty() && !keyed) break; auto top = (Id)0; for (auto& e : es) top = std::max({top, e.source_id, e.target_id}); G r(top, es, std::identity{}, std::vector<Id>{}); if constexpr (!keyed) r.resize_vertices(n); return r; } else if constexpr (kind == 2) { if (es.empty()) break; std::vector<graph::copyable_vertex_t<Id, int>> vs; for (u32 i = 0; i < n; ++i) vs.push_back({(Id)i, 0}); return G(es, vs, std::identity{}, std::identity{}); } else if constexpr (kind == 1) { std::vector<graph::copyable_vertex_t<Id, void>> vs; G r; r.load_edges(es, std::identity{}); if (graph::num_vertices(r) != n) break; return r; } else break;
    case 8: if constexpr (kind == 2) { G r; for (u32 i = 0; i < n; ++i) r.create_vertex(); for (int pass = 0; pass < 2; ++pass) { if (pass) { if (n > 1000 || n % 2) for (u32 i = n; i-- > 0;) r.vertices()[i].clear_edges(r); else { auto x = r.edges(); for (auto it = x.begin(); it != r.edges().end();) it = r.erase_edge(it); } } for (auto& e : es) r.create_edge(e.source_id, e.target_id, int(e.value)); } return r; } else if constexpr (kind == 0 && !keyed) { G r; for (size_t k = 1; k <= n; k += 1 + k / 3) r.resize_vertices(k); r.resize_vertices(n); r.load_edges(es, std::identity{}); return r; } else break; }
  return one(); }
template <class G> u64 digest(const G& g) { H o; o((u64)graph::num_vertices(g)); o((u64)graph::num_edges(g)); for (auto u : graph::vertices(g)) { o((u64)graph::vertex_id(g, u)); size_t k = 0; for (auto uv : graph::edges(g, u)) { o((u64)graph::target_id(g, uv)); o((u64)graph::source_id(g, uv)); o((u64)graph::vertex_id(g, graph::target(g, uv))); o((u64)val_of(g, uv)); ++k; } o(k); o((u64)graph::degree(g, u)); } return o.h; }
template <class N, class W> void compare(Ctx& c, const char* nm, u32 n, u32 m, u32 nids) {
  constexpr bool U = is_undirected<N>; EL base = gen_full<void>(c.rng, n, m), sy = U ? base : fully_sorted(symmetrize(base)), tr = U ? base : transposed(base); if (sy.es.size() > (IdOf<N>::kind == 1 ? m : SIZE_MAX)) sy = base; if constexpr (is_sparse<N>) { if (base.es.empty()) base.es.push_back({n - 1, n - 1, 1}); sy = tr = base; }
  const std::string input = std::format("{} n={} edges={} {}", nm, n, base.es.size(), base.es.size() < 60 ? base.str() : std::string()); c.input(input); bool last = false; for (auto& e : base.es) last |= e.s == n - 1 || e.t == n - 1;
  const W w0 = made<W>(base, 0); const u64 want = digest(w0); const N n0 = made<N>(base, 0); for (int k = 0; k < WAYS; ++k) if (k == 0 || nids > 100 || c.rng.chance(30)) { const N x = made<N>(base, k); const W y = made<W>(base, k); c.count("builds_compared"); const u64 dx = digest(x), dy = digest(y); c.checkf(dx == dy, "narrow-build", [&] { return std::format("{}: built in way {}, it is not what the same graph with 32-bit ids is ({} vertices, {} edges; expected {}, {})", nm, k, (u64)graph::num_vertices(x), (u64)graph::num_edges(x), (u64)graph::num_vertices(y), (u64)graph::num_edges(y)); }); }
  c.checkf(digest(n0) == want, "narrow-build", [&] { return nm; });
  const N nh = made<N>(sy, 0), nt = made<N>(tr, 0); const W wh = made<W>(sy, 0), wt = made<W>(tr, 0); std::vector<u32> ids; if constexpr (is_sparse<N>) { for (auto u : graph::vertices(w0)) ids.push_back((u32)graph::vertex_id(w0, u)); while (ids.size() > nids) ids.erase(ids.begin() + (long)c.rng.below(ids.size())); } else { if (n <= nids) { ids.resize(n); std::iota(ids.begin(), ids.end(), 0u); } else { ids = {n - 1, n - 2, n / 2, n / 2 + 1, 0, 1}; while (ids.size() < nids) ids.push_back((u32)c.rng.below(n)); } } const u32 src = c.rng.chance(40) ? ids.back() : c.rng.pick(ids);
  bool dag = false; if constexpr (!U && !is_sparse<N>) { std::vector<u32> v; dag = graph::topological_sort(w0, std::back_inserter(v)); } const bool simple = false;
  if (n < 1000) { std::vector<Job> A, B; add_jobs<N, const N>(A, n0, nh, nt, n, ids, src, dag, simple); add_jobs<W, const W>(B, w0, wh, wt, n, ids, src, dag, simple); c.checkf(A.size() == B.size(), "jobs", [&] { return std::format("{} jobs and {}", A.size(), B.size()); });
    for (size_t i = 0; i < A.size(); ++i) { c.checkf(!strcmp(A[i].name, B[i].name), "jobs", [&] { return A[i].name; }); u64 x = A[i].f(), y = B[i].f(); c.count("compared"); c.checkf(x == y, "narrow-result", [&] { return std::format("{}: {} does not give what it gives on the same graph with 32-bit ids", nm, A[i].name); }); } }
  else if constexpr (!is_sparse<N>) { auto walk = [&](const auto& g) { using Id = IdT<std::remove_cvref_t<decltype(g)>>; H o; for (auto [u] : graph::views::vertices_bfs(g, (Id)src)) o((u64)graph::vertex_id(g, u)); for (auto [uv] : graph::views::edges_dfs(g, (Id)src)) o((u64)graph::target_id(g, uv)); for (auto&& [s, t, uv] : graph::views::edgelist(g)) { o((u64)s); o((u64)t); } for (auto&& [i, u] : graph::views::vertexlist(g)) o((u64)i); for (u32 i : ids) for (auto&& [t, uv] : graph::views::incidence(g, (Id)i)) o((u64)t); return o.h; }; c.count("compared"); c.checkf(walk(n0) == walk(w0), "narrow-result", [&] { return std::format("{}: the views do not give what they give on the same graph with 32-bit ids", nm); }); }
  // arrays of the narrow type, as far as it can hold what they hold
  if constexpr (!is_sparse<N>) { using Id = IdT<N>; auto eq = [&](const char* what, const auto& a, const auto& b) { c.count("compared"); bool ok = std::size(a) == std::size(b); for (size_t i = 0; ok && i < std::size(a); ++i) ok = (u64)a[i] == (u64)b[i]; c.checkf(ok, "narrow-result", [&] { return std::format("{}: {} in an array of the id type is not what it is in an array of 32-bit numbers", nm, what); }); }; auto wf = [](const auto& g, const auto& uv) { return val_of(g, uv) & 255; };
    std::vector<Id> p(n), q(n); std::vector<u32> P(n), Q(n); std::vector<int> d(n, INT_MAX), D(n, INT_MAX); graph::dijkstra_shortest_paths(n0, (Id)src, d, p, wf); graph::dijkstra_shortest_paths(w0, src, D, P, wf); eq("dijkstra predecessors", p, P); if (n < 1000) { std::fill(d.begin(), d.end(), INT_MAX / 2); std::fill(D.begin(), D.end(), INT_MAX / 2); { auto r = graph::bellman_ford_shortest_paths(n0, (Id)src, d, p, wf); auto R = graph::bellman_ford_shortest_paths(w0, src, D, P, wf); c.check(r.has_value() == R.has_value(), "narrow-result", "bellman_ford"); } eq("bellman_ford predecessors", p, P); }
    { size_t k = graph::connected_components(nh, q), K = graph::connected_components(wh, Q); c.check(k == K, "narrow-result", "connected_components"); eq("components", q, Q); graph::afforest(nh, q); graph::afforest(wh, Q); eq("afforest", q, Q); if constexpr (!U) { graph::kosaraju(n0, nt, q); graph::kosaraju(w0, wt, Q); eq("kosaraju", q, Q); } } { std::fill(d.begin(), d.end(), 0); std::fill(D.begin(), D.end(), 0); std::fill(p.begin(), p.end(), Id{}); std::fill(P.begin(), P.end(), 0u); graph::prim(nh, p, d, std::less<int>{}, INT_MAX, wf, (Id)src); graph::prim(wh, P, D, std::less<int>{}, INT_MAX, wf, src); eq("prim predecessors", p, P); } std::iota(q.begin(), q.end(), Id{}); std::iota(Q.begin(), Q.end(), 0u); graph::label_propagation(nh, q, std::mt19937(5), 9); graph::label_propagation(wh, Q, std::mt19937(5), 9); eq("label_propagation", q, Q);
    { std::vector<Id> o; std::vector<u32> O; graph::articulation_points(nh, std::back_inserter(o)); graph::articulation_points(wh, std::back_inserter(O)); eq("articulation_points", o, O); o.clear(); O.clear(); graph::topological_sort(n0, std::back_inserter(o)); graph::topological_sort(w0, std::back_inserter(O)); eq("topological_sort", o, O); o.clear(); O.clear(); graph::maximal_independent_set(nh, std::back_inserter(o), (Id)src); graph::maximal_independent_set(wh, std::back_inserter(O), src); eq("maximal_independent_set", o, O); } }
  if (last) c.nontrivial(hcomb(base.hash(), hstr(nm))); c.sample(input); }
#define CMP(NM, T, Id, q) SUITE(NM##_##T##_##Id, q, q * 30) { u32 n = cap<Id> - (c.rng.chance(60) ? 0 : (u32)c.rng.below(4)); compare<T<Id>, T<u32>>(c, #NM "<" #Id ">", n, 4 * n, n < 1000 ? 300 : 24); }
using u8 = uint8_t; using i8 = int8_t; using u16 = uint16_t; using i16 = int16_t;
template <template <class, class, class, class, bool> class TR, class Id> using DN = gc::dynamic_graph<int, void, void, Id, false, TR<int, void, void, Id, false>>;
template <class Id> using Dvov = DN<gc::vov_graph_traits, Id>; template <class Id> using Dvol = DN<gc::vol_graph_traits, Id>; template <class Id> using Dvofl = DN<gc::vofl_graph_traits, Id>; template <class Id> using Ddov = DN<gc::dov_graph_traits, Id>; template <class Id> using Dvos = DN<gc::vos_graph_traits, Id>; template <class Id> using Dvom = DN<gc::vom_graph_traits, Id>;
template <class Id> using CSR = gc::compressed_graph<int, void, void, Id, u32>; template <class Id> using UAL = gc::undirected_adjacency_list<int, int, void, Id>; template <class Id> using STD = std::vector<std::vector<std::pair<Id, int>>>;
// as many edges as the index type of a compressed graph can count
template <class Id, class EI> void full_index(Ctx& c, const char* nm) { u32 n = c.rng.chance(50) ? std::min(cap<Id>, 300u) : 1 + (u32)c.rng.below(60), m = cap<EI> - (c.rng.chance(60) ? 0 : (u32)c.rng.below(4)); EL g = gen_full<void>(c.rng, n, m, true); while (g.es.size() < m && c.rng.chance(95)) g.es.push_back({(u32)c.rng.below(n), (u32)c.rng.below(n), (int)c.rng.below(99)}); const std::string input = std::format("{} n={} m={}", nm, n, g.es.size()); c.input(input); using N = gc::compressed_graph<int, void, void, Id, EI>; using W = gc::compressed_graph<int, void, void, u32, u32>;
  for (int k = 0; k < WAYS; ++k) { const N x = made<N>(g, k); const W y = made<W>(g, k); c.count("builds_compared"); c.checkf(digest(x) == digest(y), "narrow-build", [&] { return std::format("{} in way {}: not the graph with 32-bit ids and indexes", nm, k); }); } if (g.es.size() + 4 > m) c.nontrivial(hcomb(g.hash(), hstr(nm))); c.sample(input); }
#define FI(Id, EI, q) SUITE(index_##Id##_##EI, q, q * 30) { full_index<Id, EI>(c, "compressed_graph<" #Id "," #EI ">"); }
#if IN(0)
CMP(vov, Dvov, u8, 24) CMP(vov, Dvov, i8, 24) CMP(std, STD, u8, 20)
#elif IN(1)
CMP(csr, CSR, u8, 24) CMP(csr, CSR, i8, 24) CMP(csr, CSR, u16, 3) FI(u8, u8, 60) FI(u32, u8, 60) FI(u8, i8, 60) FI(u16, u16, 8)
#elif IN(2)
CMP(ual, UAL, u8, 24) CMP(ual, UAL, i8, 24) CMP(ual, UAL, i16, 3)
#elif IN(3)
CMP(vol, Dvol, u8, 24) CMP(vofl, Dvofl, i8, 24) CMP(vov, Dvov, u16, 3)
#elif IN(4)
CMP(vob, DB, u8, 24) CMP(vob, DB, i8, 24) CMP(dov, Ddov, u8, 20)
#elif IN(5)
CMP(vos, Dvos, u8, 20) CMP(vom, Dvom, i8, 20) CMP(mov, DMOV, u8, 40) CMP(mos, DMOS, i8, 40)
#endif
