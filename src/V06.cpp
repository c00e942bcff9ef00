// PARTS: 10
// RULE: random multigraphs in 20 representations (4 of them user-written) x every form of vertices_bfs and edges_bfs (seed by id and descriptor, value function, allocator, incoming edges); each sequence replayed against a monitor that accepts exactly the breadth-first orders, with depth() and num_visited() read at each element; all forms must walk the same search. Non-trivial: more than two vertices reached; distinct by (graph, container, seed).
// MIN: long_paths=10
// MIN: views=20000
// MIN: elements=60000
#include "vsearch.hpp"
using namespace vg;
#define S(G) SUITE(run_##G, 350, 9000) { search_case<true, false, vg::G>(c); }
// a path longer than any 16-bit counter, walked by vertices and by edges
template <class G> void long_path(Ctx& c) { u32 n = 65530 + (u32)c.rng.below(200), seed = (u32)c.rng.below(3); EL g; g.n = n; g.fam = "path"; for (u32 i = 0; i + 1 < n; ++i) g.es.push_back({i, i + 1, 1}); c.input(std::format("{} path of {} vertices from {}", Name<G>::v, n, seed)); const G gr = build<G>(g); using Id = graph::vertex_id_t<G>; const u32 far = n - 1 - seed;
  { auto v = graph::views::vertices_bfs(gr, (Id)seed); u32 k = seed; bool ok = true; for (auto [u] : v) { ok &= (u32)graph::vertex_id(gr, u) == k && (v.depth() == k - seed || v.depth() == std::min(far, k - seed + 1)); ++k; } c.check(ok && k == n, "long-path", "vertices_bfs"); c.check(v.depth() == far, "long-path", "final depth of vertices_bfs"); c.count("elements", n); }
  { auto f = [](const auto& g, const auto& u) { return (u32)graph::vertex_id(g, u); }; auto v = graph::views::vertices_bfs(gr, (Id)seed, f); u32 k = seed; bool ok = true; for (auto [u, x] : v) { ok &= x == k; ++k; } c.check(ok && k == n && v.depth() == far, "long-path", "vertices_bfs with a value function"); }
  { auto v = graph::views::edges_bfs(gr, (Id)seed); u32 k = seed; bool ok = true; for (auto [uv] : v) { ++k; ok &= (u32)graph::target_id(gr, uv) == k && v.depth() == k - seed; } c.check(ok && k == n - 1 && v.depth() == far, "long-path", "edges_bfs"); c.count("long_paths"); }
  { auto f = [](const auto& g, const auto& uv) { return (u32)graph::target_id(g, uv); }; auto v = graph::views::edges_bfs(gr, (Id)seed, f); u32 k = seed; bool ok = true; for (auto [uv, x] : v) { ++k; ok &= x == k; } c.check(ok && k == n - 1 && v.depth() == far, "long-path", "edges_bfs with a value function"); } c.nontrivial(hcomb(n, seed)); }
#define LP(G) SUITE(long_##G, 8, 60) { long_path<vg::G>(c); }
#if IN(0)
LP(vov) LP(vvi)
S(vov) S(vvi)
#elif IN(1)
S(csr) S(vol)
#elif IN(2)
S(ual)
#elif IN(3)
S(vob)
#elif IN(4)
S(vlb) S(vvp)
#elif IN(5)
S(vos) S(vous) S(vofl)
#elif IN(6)
S(dov) S(vom) S(voum)
#elif IN(7)
S(dob) S(dod)
#elif IN(8)
S(mtx) S(atl)
#elif IN(9)
S(fru) S(mir)
#endif
