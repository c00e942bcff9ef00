// SAN: none
// PARTS: 5
// FLAGS: -pthread
// RULE: paths, reversed paths, randomly numbered paths, cycles, stars, caterpillars, combs and long ladders of 30,000 (thorough 300,000) vertices x containers: every algorithm and search view runs on a thread with a 1 MB stack painted beforehand; the high-water mark must stay below 96 KB and the results must be those known for the shape. Non-trivial: every run; distinct by (shape, container, operation, size).
// ASSUME: 96 KB at -O0 is a small fixed amount of stack: runs use about 5-20 KB
// MIN: measured=300
#include "vg.hpp"
#include <pthread.h>
#include <random>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace vh; using namespace vg;
// Runs f on a painted stack of its own and returns how many bytes of it were used.
template <class F> size_t on_small_stack(Ctx& c, F&& f) {
  constexpr size_t SZ = 1 << 20, PAINT = SZ - 32768; static char* mem = nullptr; if (!mem) { mem = (char*)mmap(0, SZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(mem, 4096, PROT_NONE); mem += 4096; }
  memset(mem, 0xA5, PAINT); using FF = std::remove_reference_t<F>; struct Arg { FF* f; std::exception_ptr ep; } a{&f, {}};
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, mem, SZ); pthread_t t;
  if (pthread_create(&t, &at, [](void* p) -> void* { auto* a = (Arg*)p; try { (*a->f)(); } catch (...) { a->ep = std::current_exception(); } return nullptr; }, &a)) { fprintf(stderr, "no thread\n"); exit(3); }
  pthread_join(t, 0); pthread_attr_destroy(&at); if (a.ep) std::rethrow_exception(a.ep);
  size_t low = 0; while (low < PAINT && (unsigned char)mem[low] == 0xA5) ++low; return SZ - low; }
template <class V> struct VD { u32* k; void on_discover_vertex(const auto&, const V&) { ++*k; } };
template <class V> struct VF { u32* k; void on_finish_vertex(const auto&, const V&) { ++*k; } };
struct Shape { EL g; bool cycle = false, tree = false; };  // undirected simple, each edge once; also read as a digraph
inline Shape make(Ctx& c, int kind, u32 n) {
  Shape s; s.g.n = n; auto& es = s.g.es; s.tree = true; std::vector<u32> p(n); std::iota(p.begin(), p.end(), 0u);
  switch (kind) { case 0: s.g.fam = "path"; for (u32 i = 0; i + 1 < n; ++i) es.push_back({i, i + 1, 1}); break;
  case 1: s.g.fam = "reversed path"; for (u32 i = 0; i + 1 < n; ++i) es.push_back({i + 1, i, 1}); break;
  case 2: s.g.fam = "shuffled path"; c.rng.shuffle(p); for (u32 i = 0; i + 1 < n; ++i) es.push_back({p[i], p[i + 1], 1}); break;
  case 3: s.g.fam = "cycle"; for (u32 i = 0; i < n; ++i) es.push_back({i, (i + 1) % n, 1}); s.cycle = true; s.tree = false; break;
  case 4: s.g.fam = "star"; for (u32 i = 1; i < n; ++i) es.push_back({0, i, 1}); break;
  case 5: s.g.fam = "caterpillar"; for (u32 i = 0; i + 2 < n; i += 2) es.push_back({i, i + 2, 1}); for (u32 i = 1; i < n; i += 2) es.push_back({i - 1, i, 1}); break;
  case 6: s.g.fam = "ladder"; s.tree = false; for (u32 i = 0; i + 2 < n; ++i) es.push_back({i, i + 2, 1}); for (u32 i = 0; i + 1 < n; i += 2) es.push_back({i, i + 1, 1}); break; }
  std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return std::pair(a.s, a.t) < std::pair(b.s, b.t); }); return s; }

template <class G> void deep(Ctx& c) {
  constexpr bool isual = std::is_same_v<G, ual>; u32 n = c.thorough ? 300000 : 30000; int kind = (int)(c.idx % 7); Shape s = make(c, kind, n); u32 m = (u32)s.g.es.size(); using Id = graph::vertex_id_t<G>;
  std::string head = std::format("{} {} n={}", Name<G>::v, s.g.fam, n);
  auto op = [&](const char* name, auto&& f) { c.input(head + " " + name); auto t0 = clock(); size_t used = on_small_stack(c, f); if (getenv("VH_TIME")) fprintf(stderr, "%s %s %.2f\n", head.c_str(), name, double(clock() - t0) / CLOCKS_PER_SEC); c.count("measured"); if (used > c.counters["max_stack_bytes"]) c.counters["max_stack_bytes"] = used;
    c.checkf(used <= 96 * 1024, "stack-grows", [&] { return std::format("{} used {} bytes of stack on {}", name, used, head); }); c.distinct.insert(hcomb(hstr(name), hstr(head.c_str()))); };
  auto eq = [&](auto got, auto want, const char* what) { c.checkf((i64)got == (i64)want, "deep-result", [&] { return std::format("{}: {} expected {}", what, (i64)got, (i64)want); }); };
  EL sy = fully_sorted(symmetrize(s.g)); std::vector<u32> src0{s.g.fam == std::string("reversed path") ? n - 1 : 0u}; if (kind == 2) { std::vector<char> in(n, 0); for (auto& e : s.g.es) in[e.t] = 1; for (u32 v = 0; v < n; ++v) if (!in[v]) src0[0] = v; }
  Id src = (Id)src0[0]; auto wd = hop(isual ? sy : s.g, src0); std::vector<u32> deg(n, 0); for (auto& e : s.g.es) { ++deg[e.s]; ++deg[e.t]; } u32 cut = 0; if (s.tree) for (u32 d : deg) cut += d >= 2;
  { // as a digraph (an undirected graph for ual)
    std::optional<G> gp; op("build", [&] { gp.emplace(build<G>(s.g)); }); G& g = *gp; 
    op("breadth_first_search", [&] { u32 k = 0; graph::breadth_first_search(g, src, VD<graph::vertex_t<G>>{&k}); eq(k, n, "bfs reach"); });
    op("depth_first_search", [&] { u32 k = 0; graph::depth_first_search(g, src, VF<graph::vertex_t<G>>{&k}); eq(k, n, "dfs reach"); });
    op("vertices_dfs", [&] { auto v = graph::views::vertices_dfs(g, src); u32 k = 0; size_t md = 0; for (auto&& x : v) { ++k; md = std::max(md, v.depth()); } eq(k, n, "dfs view"); if (kind <= 2) c.check(md + 2 >= n, "deep-result", "depth"); });
    op("edges_dfs", [&] { u32 k = 0; auto v = graph::views::edges_dfs(g, src); for (auto&& x : v) ++k; eq(k, n - 1, "dfs edges view"); });
    op("vertices_bfs", [&] { u32 k = 0; auto v = graph::views::vertices_bfs(g, src); for (auto&& x : v) ++k; eq(k, n, "bfs view"); });
    op("edges_bfs", [&] { u32 k = 0; auto v = graph::views::edges_bfs(g, src); for (auto&& x : v) ++k; eq(k, n - 1, "bfs edges view"); });
    op("topological_sort", [&] { std::vector<Id> o; bool ok = graph::topological_sort(g, std::back_inserter(o)); eq(ok, !s.cycle && !isual, "topological"); if (ok) eq(o.size(), n, "topological size"); std::vector<Id> o2; graph::topological_sort(g, src, std::back_inserter(o2)); if (ok) eq(o2.size(), n, "topological from source"); });
    op("vertices_topological_sort_safe", [&] { auto r = graph::views::vertices_topological_sort_safe(g); eq(r.has_value(), !s.cycle && !isual, "topological view"); if (r) { u32 k = 0; for (auto&& x : *r) ++k; eq(k, n, "topological view size"); } });
    op("edges_topological_sort_safe", [&] { auto r = graph::views::edges_topological_sort_safe(g); eq(r.has_value(), !s.cycle && !isual, "topological edges view"); if (r) { u32 k = 0; for (auto&& x : *r) ++k; eq(k, m, "topological edges view size"); } });
    op("dijkstra", [&] { std::vector<int> d(n, INT_MAX); std::vector<u32> p(n); graph::dijkstra_shortest_paths(g, src, d, p); for (u32 v = 0; v < n; ++v) if (d[v] != wd[v]) eq(d[v], wd[v], "dijkstra"); });
    if (kind == 0 || kind == 4 || kind == 5 || kind == 6) op("bellman_ford", [&] { std::vector<int> d(n, INT_MAX); std::vector<u32> p(n); auto r = graph::bellman_ford_shortest_paths(g, src, d, p); eq(r.has_value(), 0, "bellman-ford verdict"); for (u32 v = 0; v < n; ++v) if (d[v] != wd[v]) eq(d[v], wd[v], "bellman-ford"); });
    if constexpr (!isual) op("kosaraju", [&] { G t = build<G>(transposed(s.g)); std::vector<u32> comp(n); graph::kosaraju(g, t, comp); eq(*std::max_element(comp.begin(), comp.end()) + 1, kind == 3 ? 1 : n, "scc count"); });
    if constexpr (!isual) op("afforest(g,t)", [&] { G t = build<G>(transposed(s.g)); std::vector<u32> comp(n); graph::afforest(g, t, comp); for (u32 x : comp) if (x != comp[0]) eq(x, comp[0], "afforest"); });
    op("copy, move, clear", [&] { G a(g), b(std::move(a)); a = b; b = std::move(a); eq(graph::num_vertices(b), n, "copy"); b = G(); });
    op("destroy", [&] { gp.reset(); });
  }
  { const G g = [&] { if constexpr (isual) return build<G>(s.g); else return build<G>(sy); }();
    op("connected_components", [&] { std::vector<u32> comp(n); eq(graph::connected_components(g, comp), 1, "components"); });
    op("afforest", [&] { std::vector<u32> comp(n); graph::afforest(g, comp); for (u32 x : comp) if (x != comp[0]) eq(x, comp[0], "afforest"); });
    op("articulation_points", [&] { std::vector<Id> o; graph::articulation_points(g, std::back_inserter(o)); eq(o.size(), cut, "cut vertices"); });
    op("biconnected_components", [&] { std::vector<std::vector<Id>> o; graph::biconnected_components(g, o); eq(o.size(), s.tree ? n - 1 : 1, "blocks"); });
    op("prim", [&] { std::vector<u32> p(n); std::vector<int> w(n); int t = graph::prim(g, p, w, std::less<int>{}, INT_MAX, [](const auto&, const auto&) { return 1; }, src); eq(t, n - 1, "prim"); });
    if (kind != 4) op("maximal_independent_set", [&] { std::vector<Id> o; size_t k = graph::maximal_independent_set(g, std::back_inserter(o)); c.check(k == o.size() && 3 * k + 3 >= n, "deep-result", "mis"); });
    op("label_propagation", [&] { std::vector<u32> l(n); std::iota(l.begin(), l.end(), 0u); graph::label_propagation(g, l, std::mt19937(3), 3); });
    if constexpr (!isual) op("triangle_count", [&] { eq(graph::triangle_count(g), 0, "triangles"); });
    if (kind != 4) op("jaccard", [&] { u32 k = 0; graph::jaccard_coefficient(g, [&](auto, auto, auto&&, auto) { ++k; }); eq(k, 2 * m, "jaccard calls"); });
  }
}
#if IN(0)
SUITE(kruskal_deep, 8, 16) { // chains that make a naive union degenerate
  u32 n = c.thorough ? 300000 : 60000; struct Ed { using source_id_type = u32; using target_id_type = u32; using value_type = int; u32 source_id, target_id; int value; }; std::vector<Ed> e, t; c.input("kruskal " + std::to_string(c.idx));
  for (u32 i = 0; i + 1 < n; ++i) switch (c.idx % 4) { case 0: e.push_back({i, i + 1, (int)i}); break; case 1: e.push_back({i + 1, i, (int)(n - i)}); break; case 2: e.push_back({0, i + 1, (int)(i % 97)}); break; case 3: e.push_back({i, i + 1, (int)(mix(i) % 1000)}); break; }
  size_t used = on_small_stack(c, [&] { auto r = c.idx % 2 ? graph::kruskal(e, t) : graph::inplace_kruskal(e, t); c.check(t.size() == n - 1 && r.second == 1, "deep-result", "kruskal"); });
  c.count("measured"); c.nontrivial(c.idx); c.checkf(used <= 96 * 1024, "stack-grows", [&] { return std::format("kruskal used {} bytes", used); }); }
TS(deep, vvi, 14, 28)
#elif IN(1)
TS(deep, csr, 14, 28)
#elif IN(2)
TS(deep, vov, 14, 28)
#elif IN(3)
TS(deep, ual, 14, 28)
#elif IN(4)
TS(deep, dol, 14, 28)
#endif
