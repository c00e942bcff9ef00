// SAN: none
// PARTS: 6
// FLAGS: -fsanitize-coverage=trace-pc
// RULE: every algorithm, search view, basic view, lookup and container operation runs on stars, paths, cycles, trees, dense and sparse random graphs and graphs built to force repeated improvement, in two sizes 4x apart; executed basic blocks (compiler instrumentation counting every block of library and standard-library templates) and bytes allocated in blocks above 1 KB, divided by the documented bound, may grow by at most 2.2x and 2.6x. Weight-function calls of Dijkstra, Bellman-Ford and Prim are counted exactly. Non-trivial: every pair of runs; distinct by (shape, container, operation).
// ASSUME: a factor of 2.2 (blocks) absorbs logarithmic factors and allocation rounding; a polynomially higher order gives 4 or more
// MIN: pairs=300
// MIN: weight_calls=10000
#include "vg.hpp"
#include <random>
#include <new>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
using namespace vh; using namespace vg;
extern u64 g_work, g_bytes;
#if defined(__clang__)
#define NOCOV __attribute__((no_sanitize("coverage")))
#else
#define NOCOV __attribute__((no_sanitize_coverage))
#endif
#if IN(0)
u64 g_work = 0, g_bytes = 0;
extern "C" NOCOV void __sanitizer_cov_trace_pc() { ++g_work; }
NOCOV void* operator new(size_t n) { if (n > 1024) g_bytes += n; if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
NOCOV void* operator new(size_t n, std::align_val_t a) { if (n > 1024) g_bytes += n; if (void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a)) return p; throw std::bad_alloc(); }
NOCOV void operator delete(void* p) noexcept { free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { free(p); }
NOCOV void operator delete(void* p, std::align_val_t) noexcept { free(p); }
NOCOV void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif
struct Work { double blocks, bytes; };
template <class F> Work meter(F&& f) { g_work = g_bytes = 0; f(); return {(double)g_work, (double)g_bytes}; }

enum Shape { STAR_OUT, STAR_IN, PATH, RPATH, SHUFFLED, CYCLE, TREE, SPARSE, DENSE, IMPROVE, HUBS, NSHAPES };
inline const char* shape_name(int s) { static const char* n[] = {"star-out", "star-in", "path", "reversed-path", "shuffled-path", "cycle", "tree", "sparse", "dense", "improve", "hubs"}; return n[s]; }
inline EL shape(int s, u32 n, u64 seed) { // directed, no parallel edges; the undirected reading has each edge once
  Rng r(seed); EL g; auto& e = g.es; if (s == DENSE) n = n / 24; if (s == IMPROVE) n = n / 16; g.n = n; g.fam = shape_name(s); std::vector<u32> p(n); std::iota(p.begin(), p.end(), 0u); std::set<std::pair<u32, u32>> seen;
  auto add = [&](u32 a, u32 b, int w) { if (a != b && seen.insert(std::minmax(a, b)).second) e.push_back({a, b, w}); };
  switch (s) { case STAR_OUT: for (u32 i = 1; i < n; ++i) add(0, i, (int)(i % 7)); break; case STAR_IN: for (u32 i = 1; i < n; ++i) add(i, 0, (int)(i % 7)); break;
  case PATH: for (u32 i = 0; i + 1 < n; ++i) add(i, i + 1, 1); break; case RPATH: for (u32 i = 0; i + 1 < n; ++i) add(i + 1, i, 1); break; case SHUFFLED: r.shuffle(p); for (u32 i = 0; i + 1 < n; ++i) add(p[i], p[i + 1], 1); break;
  case CYCLE: for (u32 i = 0; i < n; ++i) add(i, (i + 1) % n, 2); break; case TREE: for (u32 i = 1; i < n; ++i) add((i - 1) / 2, i, (int)(i % 5)); break;
  case SPARSE: r.shuffle(p); for (u32 i = 0; i + 1 < n; ++i) add(p[i], p[i + 1], 50); for (u32 i = 0; i < 2 * n; ++i) { u32 x = (u32)r.below(n), y = (u32)r.below(n); add(p[std::min(x, y)], p[std::max(x, y)], (int)r.below(100)); } break; case DENSE: for (u32 i = 0; i < n; ++i) for (u32 j = i + 1; j < n; ++j) add(i, j, (int)r.below(1000)); break;
  case IMPROVE: for (u32 i = 0; i < n; ++i) for (u32 j = n - 1; j > i; --j) add(i, j, (int)(2 * (j - i) - 1)); break; // every vertex improved once by each earlier one
  case HUBS: for (u32 h = 0; h < 3; ++h) for (u32 i = 3; i < n; ++i) add(h, i, (int)(mix(i * 3 + h) % 50)); break; }
  std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return std::pair(a.s, a.t) < std::pair(b.s, b.t); }); return g; }

template <class G> struct Env { G& g; const EL& el; double ve; double jac; u32 src; };
template <class G> struct Op { const char* name; void (*run)(Env<G>&); double (*norm)(Env<G>&); };
template <class G> double lin(Env<G>& e) { return e.ve; }
#define LAM(body) [](Env<G>& E) { auto& g = E.g; const u32 n = E.el.n; (void)n; using Id = graph::vertex_id_t<G>; (void)sizeof(Id); body }
template <class G> std::vector<Op<G>> directed_ops() {
  std::vector<Op<G>> o; auto L = lin<G>;
  o.push_back({"breadth_first_search", LAM(graph::breadth_first_search(g, (Id)E.src);), L});
  o.push_back({"depth_first_search", LAM(graph::depth_first_search(g, (Id)E.src);), L});
  o.push_back({"topological_sort", LAM(std::vector<Id> out; out.reserve(n); graph::topological_sort(g, std::back_inserter(out));), L});
  o.push_back({"dijkstra", LAM(std::vector<int> d(n, INT_MAX); std::vector<Id> p(n); graph::dijkstra_shortest_paths(g, (Id)E.src, d, p, weight);), [](Env<G>& E) { return E.ve * std::log2(2 + E.el.n); }});
  o.push_back({"vertices_dfs", LAM(u32 k = 0; auto v = graph::views::vertices_dfs(g, (Id)E.src); for (auto&& x : v) ++k;), L});
  o.push_back({"edges_dfs", LAM(u32 k = 0; auto v = graph::views::edges_dfs(g, (Id)E.src); for (auto&& x : v) ++k;), L});
  o.push_back({"vertices_bfs", LAM(u32 k = 0; auto v = graph::views::vertices_bfs(g, (Id)E.src); for (auto&& x : v) ++k;), L});
  o.push_back({"edges_bfs", LAM(u32 k = 0; auto v = graph::views::edges_bfs(g, (Id)E.src); for (auto&& x : v) ++k;), L});
  o.push_back({"vertices_topological_sort_safe", LAM(u32 k = 0; auto v = graph::views::vertices_topological_sort_safe(g); if (v) for (auto&& x : *v) ++k;), L});
  o.push_back({"edges_topological_sort_safe", LAM(u32 k = 0; auto v = graph::views::edges_topological_sort_safe(g); if (v) for (auto&& x : *v) ++k;), L});
  o.push_back({"vertexlist", LAM(u32 k = 0; for (auto&& [id, u] : graph::views::vertexlist(g)) k += (u32)id;), [](Env<G>& E) { return (double)E.el.n; }});
  o.push_back({"edgelist", LAM(u32 k = 0; for (auto&& [s, t, uv] : graph::views::edgelist(g)) k += (u32)t;), L});
  o.push_back({"incidence by id", LAM(u32 k = 0; for (u32 u = 0; u < n; ++u) for (auto&& [t, uv] : graph::views::incidence(g, (Id)u)) k += (u32)t;), L});
  o.push_back({"neighbors", LAM(u32 k = 0; for (auto&& u : graph::vertices(g)) for (auto&& [t, v] : graph::views::neighbors(g, u)) k += (u32)t;), L});
  o.push_back({"num_edges", LAM((void)graph::num_edges(g);), L});
  o.push_back({"find_vertex", LAM(u32 k = 0; for (u32 u = 0; u < n; ++u) k += (u32)graph::vertex_id(g, *graph::find_vertex(g, (Id)u));), [](Env<G>& E) { return (double)E.el.n; }});
  o.push_back({"num_vertices", LAM(size_t k = 0; for (u32 u = 0; u < n; ++u) k += graph::num_vertices(g);), [](Env<G>& E) { return (double)E.el.n; }});
  o.push_back({"degree", LAM(size_t k = 0; for (auto&& u : graph::vertices(g)) k += graph::degree(g, u);), L});
  o.push_back({"build", LAM(G h = build<G>(E.el); (void)sizeof(h);), [](Env<G>& E) { return E.ve * (dedupes<G>() ? std::log2(2 + E.el.n) : 1); }});
  o.push_back({"copy", LAM(G h(g); (void)sizeof(h);), L});
  if constexpr (!std::is_same_v<G, ual>) {
    o.push_back({"kosaraju", LAM(G t = build<G>(transposed(E.el)); std::vector<u32> c(n); graph::kosaraju(g, t, c);), [](Env<G>& E) { return E.ve * (dedupes<G>() ? std::log2(2 + E.el.n) : 1); }});
    o.push_back({"afforest(g,t)", LAM(G t = build<G>(transposed(E.el)); std::vector<u32> c(n); graph::afforest(g, t, c);), [](Env<G>& E) { return E.ve * std::log2(2 + E.el.n); }}); }
  else o.push_back({"erase edges", LAM(G h(g); auto es = h.edges(); for (auto it = es.begin(); it != es.end();) it = h.erase_edge(it);), L});
  return o; }
template <class G> std::vector<Op<G>> undirected_ops() {
  std::vector<Op<G>> o; auto L = lin<G>; auto LG = [](Env<G>& E) { return E.ve * std::log2(2 + E.el.n); };
  o.push_back({"connected_components", LAM(std::vector<u32> c(n); graph::connected_components(g, c);), L});
  o.push_back({"afforest", LAM(std::vector<u32> c(n); graph::afforest(g, c);), LG});
  o.push_back({"articulation_points", LAM(std::vector<Id> x; x.reserve(n); graph::articulation_points(g, std::back_inserter(x));), L});
  o.push_back({"biconnected_components", LAM(std::vector<std::vector<Id>> x; x.reserve(n); graph::biconnected_components(g, x);), L});
  o.push_back({"prim", LAM(std::vector<u32> p(n); std::vector<int> w(n); graph::prim(g, p, w, std::less<int>{}, INT_MAX, weight, (Id)0);), LG});
  o.push_back({"maximal_independent_set", LAM(std::vector<Id> x; x.reserve(n); graph::maximal_independent_set(g, std::back_inserter(x));), L});
  o.push_back({"label_propagation", LAM(std::vector<u32> l(n); std::iota(l.begin(), l.end(), 0u); graph::label_propagation(g, l, std::mt19937(5), 2);), L});
  o.push_back({"jaccard", LAM(u32 k = 0; graph::jaccard_coefficient(g, [&](auto, auto, auto&&, auto) { ++k; });), [](Env<G>& E) { return E.ve + E.jac; }});
  if constexpr (order_of<G>() != Ord::prepend && order_of<G>() != Ord::hashed_unique && !std::is_same_v<G, ual>) o.push_back({"triangle_count", LAM((void)graph::triangle_count(g);), [](Env<G>& E) { return E.ve + E.jac; }});
  return o; }
template <class G> void work(Ctx& c) {
  int s = (int)(c.idx % NSHAPES); u64 seed = c.rng.next(); const u32 n1 = c.thorough ? 3000 : 900, n2 = 4 * n1;
  for (int und = 0; und < 2; ++und) {
    EL a = shape(s, n1, seed), b = shape(s, n2, seed); constexpr bool isu = std::is_same_v<G, ual>; EL A = und || isu ? fully_sorted(symmetrize(a)) : a, B = und || isu ? fully_sorted(symmetrize(b)) : b;
    G ga = build<G>(isu ? a : A), gb = build<G>(isu ? b : B); auto env = [&](G& g, EL& el, EL& full) { std::vector<double> deg(full.n, 0); for (auto& e : full.es) ++deg[e.s]; double j = 0; if (und) for (auto& e : full.es) j += std::min(deg[e.s], deg[e.t]); std::vector<char> in(full.n, 0); for (auto& e : el.es) in[e.t] = 1; u32 src = 0; while (src + 1 < full.n && in[src] && s != CYCLE) ++src; return Env<G>{g, isu ? el : full, (double)full.n + (double)full.es.size(), j, src}; };
    Env<G> ea = env(ga, a, A), eb = env(gb, b, B);
    for (auto& op : und ? undirected_ops<G>() : directed_ops<G>()) { c.input(std::format("{} {} {}", Name<G>::v, shape_name(s), op.name));
      Work wa = meter([&] { op.run(ea); }), wb = meter([&] { op.run(eb); }); double na = op.norm(ea), nb = op.norm(eb); c.count("pairs"); c.count("blocks", (u64)(wa.blocks + wb.blocks));
      double rb = wb.blocks / nb / (std::max(wa.blocks, 50 * 1.0) / na), ry = wb.bytes / nb / std::max(wa.bytes / na, 32.0);
      if (getenv("VH_TIME")) fprintf(stderr, "%.2f %.2f %s %s %s\n", rb, ry, Name<G>::v, shape_name(s), op.name);
      c.checkf(rb <= 2.2, "work-order", [&] { return std::format("{} on {} {}: {:.0f} blocks for bound {:.0f}, {:.0f} for {:.0f}: grew {:.2f} times more than the bound", op.name, Name<G>::v, shape_name(s), wa.blocks, na, wb.blocks, nb, rb); });
      c.checkf(ry <= 2.6, "memory-order", [&] { return std::format("{} on {} {}: {:.0f} bytes for bound {:.0f}, {:.0f} for {:.0f}: grew {:.2f} times more than the bound", op.name, Name<G>::v, shape_name(s), wa.bytes, na, wb.bytes, nb, ry); });
      c.distinct.insert(hcomb(hstr(op.name), hcomb(s, hstr(Name<G>::v)))); } }
  c.sample(std::format("{} {} sizes {} and {}", Name<G>::v, shape_name(s), n1, n2));
}
// exact counts of weight-function calls
template <class G> void calls(Ctx& c) {
  GenOpt o; o.big = 200; auto base = c.rng.chance(40) ? shape((int)c.rng.below(NSHAPES), 200 + (u32)c.rng.below(300), c.rng.next()) : gen_graph(c.rng, o, std::is_same_v<G, ual>); if (!base.n) return; EL g = std::is_same_v<G, ual> ? symmetrize(base) : effective<G>(base);
  c.input(std::string(Name<G>::v) + " " + base.str()); const G gr = build<G>(base); using Id = graph::vertex_id_t<G>; u32 src = (u32)c.rng.below(g.n); auto rc = reach(g, {src}); u64 er = 0; for (auto& e : g.es) er += rc[e.s];
  u64 k = 0; auto wf = [&k](const auto& gg, const auto& uv) { ++k; return (int)graph::edge_value(gg, uv); }; std::vector<int> d(g.n, INT_MAX); std::vector<Id> p(g.n);
  graph::dijkstra_shortest_paths(gr, (Id)src, d, p, wf); c.count("weight_calls", k); c.checkf(k <= 3 * er + 3, "dijkstra-weight-calls", [&] { return std::format("{} weight calls for {} reachable edges", k, er); });
  k = 0; std::fill(d.begin(), d.end(), INT_MAX); (void)graph::bellman_ford_shortest_paths(gr, (Id)src, d, p, wf); c.checkf(k <= 3 * (g.n + 2) * (g.es.size() + 1), "bellman-ford-weight-calls", [&] { return std::format("{} weight calls for {} vertices, {} edges", k, g.n, g.es.size()); });
  if (er) { c.nontrivial(hcomb(g.hash(), src)); c.sample(std::format("{} weight calls for {} reachable edges", k, er)); }
}
#if IN(0)
SUITE(kruskal_work, 6, 12) { auto gen = [&](u32 n) { struct Ed { using source_id_type = u32; using target_id_type = u32; using value_type = int; u32 source_id, target_id; int value; }; std::vector<Ed> e; for (u32 i = 0; i + 1 < n; ++i) switch (c.idx % 3) { case 0: e.push_back({i, i + 1, (int)i}); break; case 1: e.push_back({0, i + 1, (int)(n - i)}); break; case 2: e.push_back({(u32)(mix(i) % n), (u32)(mix(i + n) % n), (int)(mix(i) % 1000)}); break; } return e; };
  c.input("kruskal " + std::to_string(c.idx)); double r[2], y[2]; for (int k = 0; k < 2; ++k) { u32 n = k ? 8000 : 2000; auto e = gen(n); decltype(e) t; auto w = meter([&] { if (c.idx < 3) graph::kruskal(e, t); else graph::inplace_kruskal(e, t); }); r[k] = w.blocks / n / std::log2(n); y[k] = w.bytes / n; }
  c.count("pairs"); c.checkf(r[1] / r[0] <= 2, "work-order", [&] { return std::format("kruskal grew {:.2f}", r[1] / r[0]); }); c.checkf(y[1] / y[0] <= 2.6, "memory-order", [&] { return std::format("kruskal bytes grew {:.2f}", y[1] / y[0]); }); }
template <class G> void bf(Ctx& c) { int s = (int)(c.idx % NSHAPES); c.input(std::format("bellman-ford work {}", shape_name(s))); double r[2]; for (int k = 0; k < 2; ++k) { EL g = shape(s, (k ? 4 : 1) * (s == DENSE ? 24 * 12 : s == IMPROVE ? 16 * 12 : 50), 5); G gr = build<G>(g); std::vector<int> d(g.n, INT_MAX); std::vector<u32> p(g.n); auto w = meter([&] { (void)graph::bellman_ford_shortest_paths(gr, graph::vertex_id_t<G>(s == RPATH ? g.n - 1 : 0), d, p, weight); }); r[k] = w.blocks / ((double)(g.n + 2) * (double)(g.es.size() + g.n)); }
  c.count("pairs"); c.checkf(r[1] / r[0] <= 2, "work-order", [&] { return std::format("bellman-ford on {} grew {:.2f}", shape_name(s), r[1] / r[0]); }); }
TS(bf, vvp, NSHAPES, NSHAPES)
TS(calls, vvp, 1500, 40000)
#elif IN(1)
TS(work, vvp, NSHAPES, 2 * NSHAPES)
#elif IN(2)
TS(work, csr, NSHAPES, 2 * NSHAPES)
TS(calls, csr, 1000, 30000)
#elif IN(3)
TS(work, vol, NSHAPES, 2 * NSHAPES)
#elif IN(4)
TS(work, ual, NSHAPES, 2 * NSHAPES)
#elif IN(5)
TS(work, vos, NSHAPES, 2 * NSHAPES)
TS(work, dov, NSHAPES, 2 * NSHAPES)
#endif
