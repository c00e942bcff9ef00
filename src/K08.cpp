// SAN: none
// PARTS: 8
// FLAGS: -fsanitize-coverage=trace-pc -fno-builtin-memmove -fno-builtin-memcpy
// RULE: every customisation point, container edit and basic view operation of 26 representations is executed in a graph of 64 vertices and in one 64 times larger (at a hub of degree 3 or n/2, and at an ordinary vertex), counting the basic blocks entered (compiler instrumentation, so standard library templates included), bytes moved and allocations; the count may grow by the documented factor only (constant, logarithm, degree, V, V+E; x1.5, +150 blocks). Batches: loading one edge or vertex into graphs of both sizes, into empty graphs, and whole-container copy/move/swap/clear. Space: peak bytes held during every algorithm and view over a path and a complete graph of 400 vertices. Non-trivial: every pair measured; distinct by operation, representation and case
// ASSUME: blocks entered are proportional to time; operations that compile without calling instrumented code cost nothing that grows
// MIN: pairs=4000
// MIN: peaks=250
#include "vg.hpp"
#include <new>
#include <random>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <optional>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
using namespace vh; using namespace vg;
extern u64 g_work, g_allocs, g_live, g_peak;
#if defined(__clang__)
#define NOCOV __attribute__((no_sanitize("coverage")))
#else
#define NOCOV __attribute__((no_sanitize_coverage))
#endif
#if IN(0)
u64 g_work = 0, g_allocs = 0, g_live = 0, g_peak = 0;
extern "C" NOCOV void __sanitizer_cov_trace_pc() { ++g_work; }
extern "C" NOCOV void* memmove(void* d, const void* s, size_t n) { g_work += n / 16; if (d == s || !n) return d; void* r = d; if ((char*)d < (const char*)s || (char*)d >= (const char*)s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); else { char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); } return r; }
extern "C" NOCOV void* memcpy(void* d, const void* s, size_t n) { g_work += n / 16; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
extern "C" NOCOV void* memset(void* d, int v, size_t n) { g_work += n / 16; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
NOCOV static void* take(size_t n, size_t a) { size_t h = a > 16 ? a : 16; char* p = (char*)(a > 16 ? aligned_alloc(a, (n + h + a - 1) / a * a) : malloc(n + h)); if (!p) throw std::bad_alloc(); *(size_t*)(p + h - 8) = n; g_allocs += 1; g_work += 1; g_live += n; if (g_live > g_peak) g_peak = g_live; return p + h; }
NOCOV static void give(void* q, size_t a) { if (!q) return; size_t h = a > 16 ? a : 16; g_live -= *(size_t*)((char*)q - 8); g_work += 1; free((char*)q - h); }
NOCOV void* operator new(size_t n) { return take(n, 0); }
NOCOV void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
NOCOV void operator delete(void* p) noexcept { give(p, 0); }
NOCOV void operator delete(void* p, size_t) noexcept { give(p, 0); }
NOCOV void operator delete(void* p, std::align_val_t a) noexcept { give(p, (size_t)a); }
NOCOV void operator delete(void* p, size_t, std::align_val_t a) noexcept { give(p, (size_t)a); }
#endif
template <class F> double meter(F&& f) { u64 a = g_work; f(); return (double)(g_work - a); }
template <template <class, class, class, class, bool> class T> using dy = dyn<T, int, int, int>;
using k_vov = dy<gc::vov_graph_traits>; using k_vol = dy<gc::vol_graph_traits>; using k_vofl = dy<gc::vofl_graph_traits>; using k_vod = dy<gc::vod_graph_traits>; using k_dov = dy<gc::dov_graph_traits>; using k_dol = dy<gc::dol_graph_traits>;
using k_vos = dy<gc::vos_graph_traits>; using k_vous = dy<gc::vous_graph_traits>; using k_vom = dy<gc::vom_graph_traits>; using k_voum = dy<gc::voum_graph_traits>; using k_dos = dy<gc::dos_graph_traits>;
using k_mov = dy<gc::mov_graph_traits>; using k_mol = dy<gc::mol_graph_traits>; using k_mos = dy<gc::mos_graph_traits>; using k_uov = dy<gc::uov_graph_traits>; using k_uol = dy<gc::uol_graph_traits>; using k_mous = dy<gc::mous_graph_traits>; using k_uous = dy<gc::uous_graph_traits>; using k_mom = dy<gc::mom_graph_traits>;
using k_vob = gc::dynamic_graph<int, int, int, u32, true, vob_traits<int, int, int>>; using k_vlb = gc::dynamic_graph<int, int, int, u32, true, vlb_traits<int, int, int>>;
using k_csr = gc::compressed_graph<int, int, int>; using k_ual = gc::undirected_adjacency_list<int, int, int>;
using k_vvp = vvp; using k_vlp = std::vector<std::list<std::pair<int, int>>>; using k_map = std::map<int, std::vector<int>>; using k_um = std::unordered_map<int, std::list<int>>; using k_vvi = vvi;

enum Bound { ONE, LOGV, LOGD, DEG, IDEG, LINV, ALL };
inline const char* bname(int b) { static const char* n[] = {"constant", "log V", "log degree", "degree", "in-degree", "V", "V + E"}; return n[b]; }
enum EKind { SEQ, FWD, ORD, HASH }; // edge containers
template <class G> concept ek_known = requires { typename G::edges_type; };
enum VKind { IDX, MAP, UMAP };
template <class G> constexpr EKind ek() { if constexpr (requires(typename G::edges_type& e) { e.emplace_after(e.begin()); }) return FWD; else if constexpr (requires { typename G::edges_type::key_compare; }) return ORD; else if constexpr (requires { typename G::edges_type::hasher; }) return HASH; else return SEQ; }
template <class G> constexpr VKind vk() { if constexpr (requires { typename G::vertices_type::key_compare; }) return MAP; else if constexpr (requires { typename G::vertices_type::hasher; }) return UMAP; else if constexpr (std::is_same_v<G, k_map>) return MAP; else if constexpr (std::is_same_v<G, k_um>) return UMAP; else return IDX; }

template <class G> G make(const EL& g) {
  if constexpr (std::is_same_v<G, k_vlp>) { G r(g.n); for (auto& e : g.es) r[e.s].push_back({(int)e.t, e.w}); return r; }
  else if constexpr (std::is_same_v<G, k_map> || std::is_same_v<G, k_um>) { G r; for (u32 i = 0; i < g.n; ++i) r[(int)i]; for (auto& e : g.es) r[(int)e.s].push_back((int)e.t); return r; }
  else if constexpr (std::is_same_v<G, k_csr>) { auto v = as_ce(sorted_edges(g)); G r; r.load_edges(v, std::identity{}, g.n, v.size()); std::vector<graph::copyable_vertex_t<u32, int>> x; for (u32 i = 0; i < g.n; ++i) x.push_back({i, (int)i}); r.load_vertices(x, std::identity{}); return r; }
  else if constexpr (std::is_same_v<G, k_ual>) { G r; for (u32 i = 0; i < g.n; ++i) r.create_vertex(); for (auto& e : g.es) if (e.s < e.t) r.create_edge(e.s, e.t, int(e.w)); return r; }
  else return build<G>(g); }
// vertex 0: hub joined to 1..d in both directions; a ring through all the rest
inline EL hub(u32 n, u32 d) { EL g; g.n = n; for (u32 i = 1; i <= d; ++i) { g.es.push_back({0, i, (int)i}); g.es.push_back({i, 0, (int)i}); } for (u32 i = 1; i < n; ++i) { u32 j = i + 1 < n ? i + 1 : 1; g.es.push_back({i, j, 1}); g.es.push_back({j, i, 1}); } return g; }
template <class G> struct Q { G& g; u32 n, d; u32 u, v; u32 deg; }; // query vertex u, target v (last of u's)
template <class G> struct Op { std::string name; Bound b; std::function<double(Q<G>&)> run; };
template <class G> std::vector<Op<G>> ops() {
  using namespace graph; using B = std::remove_const_t<G>; std::vector<Op<G>> o; using Id = vertex_id_t<G>; constexpr EKind E = [] { if constexpr (requires { typename B::edges_type; }) return ek<B>(); else return SEQ; }(); constexpr VKind V = vk<B>();
  constexpr Bound fv = V == MAP ? LOGV : ONE; constexpr bool dynb = ek_known<B> && !std::is_same_v<B, k_ual> && !std::is_same_v<B, k_csr>;
  constexpr Bound whole = (dynb || std::is_same_v<B, k_csr> || std::is_same_v<B, k_ual>) ? ONE : ALL; constexpr Bound fe = E == ORD ? LOGD : E == HASH ? ONE : DEG; constexpr Bound dg = E == FWD ? DEG : ONE;
  auto add = [&](const char* nm, Bound b, auto f) { if constexpr (requires(Q<G>& q) { f(q); }) o.push_back({nm, b, f}); };
#define U auto u = *find_vertex(q.g, (Id)q.u); (void)u;
#define UV U auto uv = *std::ranges::begin(edges(q.g, u)); (void)uv;
#define M(expr) return meter([&] { (void)(expr); });
#define OPS(nm, b, pre, expr) if constexpr (requires(Q<G>& q, vertex_t<G> u, Id vid) { (expr); }) o.push_back({nm, b, [](Q<G>& q) -> double { pre return meter([&] { EACH(expr) }); }});
#define OP(nm, b, pre, expr) if constexpr (requires(Q<G>& q, vertex_t<G> u, edge_t<G> uv) { (expr); }) o.push_back({nm, b, [](Q<G>& q) -> double { pre M(expr) }});
  OP("vertices(g)", ONE, , vertices(q.g)) OP("num_vertices(g)", ONE, , num_vertices(q.g)) OP("find_vertex(g,uid)", fv, , find_vertex(q.g, (Id)q.u)) OP("vertex_id(g,u)", ONE, U, vertex_id(q.g, u))
  OP("edges(g,u)", ONE, U, edges(q.g, u)) OP("edges(g,uid)", fv, , edges(q.g, (Id)q.u)) OP("degree(g,u)", dg, U, degree(q.g, u)) OP("degree(g,uid)", dg == DEG ? DEG : fv, , degree(q.g, (Id)q.u))
  OP("target_id(g,uv)", ONE, UV, target_id(q.g, uv)) OP("target(g,uv)", fv, UV, target(q.g, uv)) OP("source_id(g,uv)", ONE, UV, source_id(q.g, uv)) OP("source(g,uv)", fv, UV, source(q.g, uv)) OP("edge_value(g,uv)", ONE, UV, edge_value(q.g, uv))
  OP("vertex_value(g,u)", ONE, U, vertex_value(q.g, u)) OP("vertex_value(g,uid)", fv, , vertex_value(q.g, (Id)q.u)) OP("graph_value(g)", ONE, , graph_value(q.g))
  OP("in_edges(g,u)", ONE, U, in_edges(q.g, u)) OP("in_edges(g,uid)", fv, , in_edges(q.g, (Id)q.u)) OP("in_degree(g,u)", dg, U, in_degree(q.g, u)) OP("in_degree(g,uid)", dg, , in_degree(q.g, (Id)q.u))
#define EACH(expr) for (u32 t : {1u, q.d / 4 + 1, q.d / 2 + 1, q.d, q.n - 1, q.n / 2, 2 * q.n}) { Id vid = (Id)t; (void)(expr); }
  OPS("find_vertex_edge(g,u,vid)", fe, U, find_vertex_edge(q.g, u, vid)) OPS("find_vertex_edge(g,u,v)", fe, U, find_vertex_edge(q.g, u, *find_vertex(q.g, (Id)std::min<u32>((u32)vid, q.n - 1)))) OPS("find_vertex_edge(g,uid,vid)", fe == ONE ? fv : fe, , find_vertex_edge(q.g, (Id)q.u, vid)) OPS("contains_edge(g,uid,vid)", DEG, , contains_edge(q.g, (Id)q.u, vid))
  OPS("find_in_edge(g,uid,vid)", DEG, , find_in_edge(q.g, (Id)q.u, (Id)(vid < (Id)q.n ? vid : (Id)(q.n - 1)))) OPS("contains_in_edge(g,uid,vid)", DEG, , contains_in_edge(q.g, (Id)q.u, (Id)(vid < (Id)q.n ? vid : (Id)(q.n - 1))))
  OP("num_partitions(g)", ONE, , num_partitions(q.g)) OP("partition_id(g,u)", ONE, U, partition_id(q.g, u)) OP("vertices(g,pid)", ONE, , vertices(q.g, 0)) OP("num_vertices(g,pid)", ONE, , num_vertices(q.g, 0))
  OP("num_edges(g)", whole, , num_edges(q.g)) OP("has_edges(g)", dynb ? ONE : LINV, , has_edges(q.g))
  OP("vertexlist(g)", ONE, , views::vertexlist(q.g)) OP("size of vertexlist", ONE, , views::vertexlist(q.g).size()) OP("incidence(g,u)", ONE, U, views::incidence(q.g, u)) OP("neighbors(g,u)", ONE, U, views::neighbors(q.g, u)) OP("edgelist(g)", ONE, , views::edgelist(q.g))
  OP("incidence(g,uid)", fv, , views::incidence(q.g, (Id)q.u)) OP("neighbors(g,uid)", fv, , views::neighbors(q.g, (Id)q.u)) OP("first of incidence", ONE, U, std::ranges::begin(*std::make_unique<decltype(views::incidence(q.g, u))>(views::incidence(q.g, u))))
  OP("in_incidence(g,u)", ONE, U, views::in_incidence(q.g, u)) OP("transpose view", ONE, , views::transpose(q.g))
  return o; }
template <class G> void look_in(Ctx& c, const char* nm, G& ga, G& gb, const EL& a, const EL& b, int s, bool hubby, bool onhub, u32 small);
template <class G> void look(Ctx& c, const char* nm) {
  int s = (int)c.idx; u32 n1 = c.thorough ? 128 : 64, n2 = 64 * n1; const bool hubby = s % 2, onhub = s < 2; u32 small = 3;
  EL a = hub(n1, hubby ? n1 / 2 : small), b = hub(n2, hubby ? n2 / 2 : small); G ga = make<G>(a), gb = make<G>(b);
  look_in<G>(c, nm, ga, gb, a, b, s, hubby, onhub, small); look_in<const G>(c, (std::string("const ") + nm).c_str(), ga, gb, a, b, s, hubby, onhub, small); c.sample(std::format("{} case {}", nm, s)); }
template <class G> void look_in(Ctx& c, const char* nm, G& ga, G& gb, const EL& a, const EL& b, int s, bool hubby, bool onhub, u32 small) {
  auto q = [&](G& g, const EL& el) { u32 d = hubby ? el.n / 2 : small; u32 u = onhub ? 0 : el.n - 2; u32 v = onhub ? d : el.n - 1; return Q<G>{g, el.n, d, u, v, onhub ? d : 2}; }; auto qa = q(ga, a), qb = q(gb, b);
  for (auto& op : ops<G>()) { c.input(std::format("{} {} (hub degree {}, {})", nm, op.name, hubby ? "n/2" : "3", onhub ? "at the hub" : "elsewhere"));
    double wa = op.run(qa), wb = op.run(qb); double grow = 1; switch (op.b) { case ONE: grow = 1; break; case LOGV: grow = 2; break; case LOGD: grow = 2; break; case DEG: case IDEG: grow = (double)qb.deg / qa.deg; break; case LINV: case ALL: grow = 64; break; }
    double lim = 1.5 * grow * wa + 150; c.count("pairs"); if (getenv("VH_TIME")) fprintf(stderr, "%s %6.0f %6.0f %s %s case %d\n", wb <= lim ? "ok " : "BAD", wa, wb, nm, op.name.c_str(), s);
    if (!getenv("VH_TIME")) c.checkf(wb <= lim, "operation-cost", [&] { return std::format("{} on {}: documented cost {}, but {:.0f} blocks with {} vertices (degree {}) become {:.0f} with {} (degree {})", op.name, nm, bname(op.b), wa, qa.n, qa.deg, wb, qb.n, qb.deg); });
    c.distinct.insert(hcomb(hstr(op.name.c_str()), hcomb(s, hstr(nm)))); }
}
// ---- edits: each operation on its own, in a small graph and in one 64 times larger
struct Step { const char* name; double cost; double grow = 1; };
inline void compare(Ctx& c, const char* nm, const std::vector<Step>& a, const std::vector<Step>& b) {
  c.check(a.size() == b.size(), "steps", ""); for (size_t i = 0; i < a.size(); ++i) { double lim = 1.5 * a[i].grow * a[i].cost + 150; c.input(std::format("{} {}", nm, a[i].name)); c.count("pairs"); if (getenv("VH_TIME")) fprintf(stderr, "%s %6.0f %6.0f %s %s\n", b[i].cost <= lim ? "ok " : "BAD", a[i].cost, b[i].cost, nm, a[i].name);
    if (!getenv("VH_TIME")) c.checkf(b[i].cost <= lim, "operation-cost", [&] { return std::format("{} on {}: documented cost {}, but {:.0f} blocks in a small graph become {:.0f} in one 64 times larger", a[i].name, nm, a[i].grow == 1 ? "constant" : a[i].grow == 2 ? "logarithmic" : "linear", a[i].cost, b[i].cost); }); c.distinct.insert(hcomb(hstr(a[i].name), hcomb(c.idx, hstr(nm)))); } }
// swap, move construction, move assignment, self-use: constant; destruction, clear, copy: linear
template <class G> void whole_steps(std::vector<Step>& o, const EL& el) {
  auto st = [&](const char* nm, auto f, double grow = 1) { o.push_back({nm, meter(f), grow}); }; G g = make<G>(el), h = make<G>(el);
  if constexpr (requires { g.swap(h); }) { st("swap (member)", [&] { g.swap(h); }); }
  { using std::swap; st("swap", [&] { swap(g, h); }); } st("std::ranges::swap", [&] { std::ranges::swap(g, h); });
  { std::optional<G> m; st("move construction", [&] { m.emplace(std::move(g)); }); G e{}; st("move assignment to an empty graph", [&] { e = std::move(*m); }); g = std::move(e); }
  { G x = make<G>(el); st("move assignment to a full graph", [&] { h = std::move(g); }, 64); g = std::move(x); }
  st("copy construction", [&] { G x(g); (void)sizeof(x); }, dedupes<G>() ? 128 : 64);
  if constexpr (requires { g.clear(); }) st("clear", [&] { g.clear(); }, 64);
}
template <class G> std::vector<Step> ual_steps(u32 n, u32 d, bool hubby, u64 seed) {
  std::vector<Step> o; Rng r(seed); EL el = hub(n, d); G g = make<G>(el); using VId = graph::vertex_id_t<G>; auto at = [&] { return hubby ? (VId)0 : (VId)(n - 2); }; auto oth = [&] { return (VId)(1 + r.below(n - 1)); };
  auto st = [&](const char* nm, auto f) { o.push_back({nm, meter(f)}); };
  VId a = at(), b = oth(); st("create_edge(uid,vid)", [&] { g.create_edge(a, b); }); b = oth(); st("create_edge(uid,vid,value&&)", [&] { g.create_edge(b, a, 5); }); b = oth(); st("create_edge(uid,vid,const value&)", [&] { const long w = 7; g.create_edge(a, b, w); });
  { auto u = g.begin() + a, v = g.begin() + oth(); st("create_edge(u,v)", [&] { g.create_edge(u, v); }); st("create_edge(v,u,value&&)", [&] { g.create_edge(v, u, 3); }); st("create_edge(u,u)", [&] { g.create_edge(u, u); }); st("create_edge(u,v,const value&)", [&] { const long w = 7; g.create_edge(u, v, w); }); }
  auto& uv = g.vertices()[a]; st("num_edges() of a vertex", [&] { (void)uv.num_edges(); }); st("edges_begin() of a vertex", [&] { (void)uv.edges_begin(g, a); }); st("edges_end() of a vertex", [&] { (void)uv.edges_end(g, a); });
  auto mid = [&](u32 k) { auto it = uv.edges_begin(g, a); while (k--) ++it; return it; };
  { auto it = mid(0); st("erase the first edge of a vertex", [&] { uv.erase_edge(g, it); }); } { auto it = mid((u32)uv.num_edges() / 2); st("erase a middle edge of a vertex", [&] { uv.erase_edge(g, it); }); } { auto it = mid((u32)uv.num_edges() - 1); st("erase the last edge of a vertex", [&] { uv.erase_edge(g, it); }); }
  { auto& low = g.vertices()[n / 2 + 1 < n ? n - 3 : 1]; auto it = low.edges_begin(g, (VId)(n - 3)); st("erase an edge elsewhere", [&] { low.erase_edge(g, it); }); }
  { auto es = g.edges(); auto it = es.begin(); st("edges().begin()", [&] { (void)g.edges().begin(); }); for (int k = 0; k < 5; ++k) ++it; st("erase_edge(edge iterator)", [&] { g.erase_edge(it); }); }
  st("num_edges of the whole graph", [&] { (void)g.num_edges(); });
  { double w = 0; for (u32 i = 0; i < n; ++i) w += meter([&] { g.create_edge(a, (VId)(i % n), 3); }); o.push_back({"create_edge, average", w / n * 4}); }
  { double w = 0; auto sz = uv.num_edges() / 2; for (u32 i = 0; i < sz; ++i) { auto it = uv.edges_begin(g, a); w += meter([&] { uv.erase_edge(g, it); }); } o.push_back({"erase_edge, average", w / sz * 4}); }
  { auto sz = (double)uv.num_edges(); o.push_back({"clear_edges, per edge", meter([&] { uv.clear_edges(g); }) / sz * 4}); }
  auto many = [&](const char* nm, auto f) { G h; double w = 0; for (u32 i = 0; i < n; ++i) w += meter([&] { f(h); }); o.push_back({nm, w / n * 4}); }; many("create_vertex(), average", [](G& h) { h.create_vertex(); }); many("create_vertex(value&&), average", [](G& h) { h.create_vertex(5); }); many("create_vertex(const value&), average", [](G& h) { const long v = 5; h.create_vertex(v); });
  whole_steps<G>(o, el); return o; }
template <class G> void ual_edits(Ctx& c) { int s = (int)c.idx; u32 n1 = 64, n2 = 4096; u64 seed = c.rng.next(); bool hubby = s % 2; u32 d = s / 2 % 2 ? 3 : 0; compare(c, "undirected_adjacency_list", ual_steps<G>(n1, d ? d : n1 / 2, hubby, seed), ual_steps<G>(n2, d ? d : n2 / 2, hubby, seed)); c.sample(std::format("undirected case {}", s)); }
// ---- loading in batches: a batch costs its own size, whatever is there already
template <class G> std::vector<Step> load_steps(u32 n, u32 d, bool grow_vertices, u64 seed) {
  std::vector<Step> o; Rng r(seed); EL el = hub(n, d); G g = make<G>(el); constexpr bool keyed = vk<G>() != IDX; constexpr bool logd = ek<G>() == ORD; const double gl = keyed || logd ? 2 : 1; using Id = graph::vertex_id_t<G>; using Ed = graph::copyable_edge_t<Id, int>; using Ve = graph::copyable_vertex_t<Id, int>;
  auto batch = [&](u32 k, auto mk) { std::vector<Ed> v; for (u32 i = 0; i < k; ++i) v.push_back(mk(i)); return v; };
  double w = 0; for (u32 i = 0; i < n; ++i) { auto b = batch(1, [&](u32) { return Ed{(Id)r.below(n), (Id)r.below(n), 1}; }); w += meter([&] { g.load_edges(b, std::identity{}); }); } o.push_back({"load_edges of one edge, average", w / n, gl});
  w = 0; for (u32 i = 0; i < n; ++i) { auto b = batch(1, [&](u32) { return Ed{(Id)r.below(n), (Id)r.below(n), 1}; }); w += meter([&] { g.load_edges(std::move(b), std::identity{}, n, 1); }); } o.push_back({"load_edges of one edge with counts, average", w / n, gl});
  w = 0; for (u32 i = 0; i < n; ++i) { auto b = batch(1, [&](u32) { return Ed{(Id)(n / 2), (Id)(i % n), 1}; }); w += meter([&] { g.load_edges(b, std::identity{}); }); } o.push_back({"load_edges onto one vertex, average", w / n, gl});
  if (grow_vertices) { w = 0; for (u32 i = 0; i < n; ++i) { auto b = batch(1, [&](u32) { return Ed{(Id)(n + i), (Id)(n + i), 1}; }); w += meter([&] { g.load_edges(b, std::identity{}); }); } o.push_back({"load_edges that adds one vertex, average", w / n, gl}); }
  { w = 0; for (u32 i = 0; i < n; ++i) { std::vector<Ve> b{{(Id)(i % n), 3}}; w += meter([&] { g.load_vertices(b, std::identity{}); }); } o.push_back({"load_vertices of one vertex, average", w / n, gl}); }
  { G h; auto b = batch(2 * n, [&](u32 i) { return Ed{(Id)((i * 7919ull) % n), (Id)(i % n), 1}; }); o.push_back({"load_edges into an empty graph", meter([&] { h.load_edges(b, std::identity{}); }), keyed || logd ? 128 : 64.}); }
  { G h; auto b = batch(2 * n, [&](u32 i) { return Ed{(Id)((i * 7919ull) % n), (Id)(i % n), 1}; }); o.push_back({"load_edges into an empty graph with counts", meter([&] { h.load_edges(b, std::identity{}, n, 2 * n); }), keyed || logd ? 128 : 64.}); }
  whole_steps<G>(o, el); return o; }
template <class G> void load_batches(Ctx& c, const char* nm) { int s = (int)c.idx; u64 seed = c.rng.next(); bool gv = s % 2; u32 n1 = 64, n2 = 4096; u32 d = s < 2 ? 3 : 0; compare(c, nm, load_steps<G>(n1, d ? d : n1 / 2, gv, seed), load_steps<G>(n2, d ? d : n2 / 2, gv, seed)); c.sample(std::format("{} batches case {}", nm, s)); }
// ---- space: what an algorithm or view holds at its peak, beyond its arguments and outputs
enum Space { S_NONE, S_V, S_VE };
template <class F> double peak(F&& f) { u64 base = g_live; g_peak = g_live; f(); return (double)(g_peak - base); }
template <class G> std::vector<std::pair<const char*, double>> held(G& g, G* t, u32 n, const EL& el, std::vector<Space>& sp) {
  using namespace graph; std::vector<std::pair<const char*, double>> o; using Id = vertex_id_t<G>; sp.clear(); auto put = [&](const char* nm, Space s, auto f) { o.push_back({nm, peak(f)}); sp.push_back(s); };
  std::vector<int> d(n, INT_MAX); std::vector<Id> p(n); std::vector<u32> cc(n); std::vector<Id> out; out.reserve(n + 1); auto rd = [&] { std::fill(d.begin(), d.end(), INT_MAX); std::iota(p.begin(), p.end(), (Id)0); };
  put("breadth_first_search", S_V, [&] { breadth_first_search(g, (Id)0); }); put("depth_first_search", S_V, [&] { depth_first_search(g, (Id)0); }); out.clear(); put("topological_sort", S_V, [&] { (void)topological_sort(g, std::back_inserter(out)); });
  rd(); put("bellman_ford_shortest_paths", S_NONE, [&] { (void)bellman_ford_shortest_paths(g, (Id)0, d, p, weight); }); rd(); put("bellman_ford_shortest_distances", S_NONE, [&] { (void)bellman_ford_shortest_distances(g, (Id)0, d, weight); });
  rd(); { auto cyc = bellman_ford_shortest_paths(g, (Id)0, d, p, weight); out.clear(); put("find_negative_cycle", S_NONE, [&] { find_negative_cycle(g, p, cyc, std::back_inserter(out)); }); }
  rd(); put("dijkstra_shortest_paths", S_V, [&] { dijkstra_shortest_paths(g, (Id)0, d, p, weight); }); rd(); put("dijkstra_shortest_distances", S_V, [&] { dijkstra_shortest_distances(g, (Id)0, d, weight); });
  put("connected_components", S_V, [&] { connected_components(g, cc); }); if (t) put("kosaraju", S_V, [&] { kosaraju(g, *t, cc); }); put("afforest", S_V, [&] { afforest(g, cc); }); if (t) put("afforest(g,transpose)", S_V, [&] { afforest(g, *t, cc); });
  out.clear(); put("articulation_points", S_V, [&] { articulation_points(g, std::back_inserter(out)); }); out.clear(); put("maximal_independent_set", S_V, [&] { (void)maximal_independent_set(g, std::back_inserter(out)); });
  std::iota(cc.begin(), cc.end(), 0u); put("label_propagation", S_V, [&] { label_propagation(g, cc, std::mt19937(5), 2); }); put("jaccard_coefficient", S_VE, [&] { jaccard_coefficient(g, [](auto&&...) {}); });
  if constexpr (requires { triangle_count(g); }) put("triangle_count", S_NONE, [&] { (void)triangle_count(g); }); put("label_propagation(one round)", S_V, [&] { label_propagation(g, cc, std::mt19937(6), 1); });
  { std::vector<std::vector<Id>> bc; put("biconnected_components", S_VE, [&] { biconnected_components(g, bc); }); }
  { std::vector<int> w(n); put("prim", S_V, [&] { (void)prim(g, p, w, std::less<int>{}, INT_MAX, weight, (Id)0); }); }
  put("vertices_dfs", S_V, [&] { u32 k = 0; auto v = views::vertices_dfs(g, (Id)0); for (auto&& x : v) ++k; }); put("edges_dfs", S_V, [&] { u32 k = 0; auto v = views::edges_dfs(g, (Id)0); for (auto&& x : v) ++k; });
  put("vertices_bfs", S_V, [&] { u32 k = 0; auto v = views::vertices_bfs(g, (Id)0); for (auto&& x : v) ++k; }); put("edges_bfs", S_V, [&] { u32 k = 0; auto v = views::edges_bfs(g, (Id)0); for (auto&& x : v) ++k; });
  put("vertices_topological_sort", S_V, [&] { u32 k = 0; auto v = views::vertices_topological_sort(g); for (auto&& x : v) ++k; }); put("edges_topological_sort", S_V, [&] { u32 k = 0; auto v = views::edges_topological_sort(g); for (auto&& x : v) ++k; });
  // the basic views and the customisation points hold nothing that grows
  u64 sum = 0; put("vertexlist", S_NONE, [&] { for (auto&& [id, u] : views::vertexlist(g)) sum += (u64)id; for (auto&& [id] : views::basic_vertexlist(g)) sum += (u64)id; }); put("edgelist", S_NONE, [&] { for (auto&& [a, b, uv] : views::edgelist(g)) sum += (u64)a + b; });
  put("incidence", S_NONE, [&] { for (auto&& u : vertices(g)) for (auto&& [id, uv] : views::incidence(g, u)) sum += (u64)id; }); put("neighbors", S_NONE, [&] { for (auto&& u : vertices(g)) for (auto&& [id, v] : views::neighbors(g, u)) sum += (u64)id; });
  put("customisation points", S_NONE, [&] { for (auto&& u : vertices(g)) { sum += degree(g, u) + (u64)vertex_id(g, u) + (u64)contains_edge(g, vertex_id(g, u), (Id)0); for (auto&& uv : edges(g, u)) sum += (u64)target_id(g, uv) + (u64)source_id(g, uv) + (u64)vertex_id(g, target(g, uv)); } sum += num_edges(g) + has_edges(g); });
  return o; }
template <class G> void space(Ctx& c, const char* nm) {
  u32 n = c.thorough ? 600 : 400; Rng r(c.rng.next()); EL sp, de; sp.n = de.n = n; int kind = (int)c.idx % 3; auto add = [&](EL& g, u32 a, u32 b, int w) { g.es.push_back({a, b, w}); if (kind == 2) g.es.push_back({b, a, w}); };
  for (u32 i = 0; i + 1 < n; ++i) add(sp, i, i + 1, 1);
  for (u32 i = 0; i < n; ++i) for (u32 j = n - 1; j > i; --j) add(de, i, j, kind == 1 ? (int)(2 * (j - i) - 1) : 1 + (int)r.below(1000)); // 1: every vertex is improved once by each earlier one
  sp = fully_sorted(sp); de = fully_sorted(de); G gs = make<G>(sp), gd = make<G>(de), ts = make<G>(transposed(sp)), td = make<G>(transposed(de)); std::vector<Space> k; auto a = held<G>(gs, &ts, n, sp, k), b = held<G>(gd, &td, n, de, k); double ratio = (double)de.es.size() / sp.es.size();
  for (size_t i = 0; i < a.size(); ++i) { c.input(std::format("{} {} on {} vertices", nm, a[i].first, n)); c.count("peaks"); double lim = k[i] == S_NONE ? 1024 : k[i] == S_V ? 2 * a[i].second + 160.0 * n + 1024 : 2 * ratio * a[i].second; bool ok = b[i].second <= lim; if (getenv("VH_TIME")) fprintf(stderr, "%s %6.0f %6.0f %s space %s\n", ok ? "ok " : "BAD", a[i].second, b[i].second, nm, a[i].first);
    if (!getenv("VH_TIME")) c.checkf(ok, "operation-space", [&] { return std::format("{} on {} with {} vertices: documented space {}, but holds {:.0f} bytes with {} edges and {:.0f} with {}", a[i].first, nm, n, k[i] == S_NONE ? "none beyond its arguments" : k[i] == S_V ? "O(V)" : "O(V+E)", a[i].second, sp.es.size(), b[i].second, de.es.size()); }); c.distinct.insert(hcomb(hstr(a[i].first), hcomb(c.idx, hstr(nm)))); }
}
#define SPACE(T) SUITE(space_##T, 3, 6) { space<T>(c, #T); }
#define LOAD(T) SUITE(load_##T, 4, 4) { load_batches<T>(c, #T); }
#define LOOK(T) SUITE(look_##T, 4, 4) { look<T>(c, #T); }
#if IN(0)
LOOK(k_vov) SPACE(k_vov) LOAD(k_vov) LOOK(k_vol) SPACE(k_vol) LOAD(k_vol) LOOK(k_vofl) LOAD(k_vofl)
#elif IN(1)
LOOK(k_vod) LOAD(k_vod) LOOK(k_dov) LOAD(k_dov) LOOK(k_dol) LOAD(k_dol)
#elif IN(2)
LOOK(k_vos) LOAD(k_vos) LOOK(k_vous) LOAD(k_vous) LOOK(k_vom) LOAD(k_vom)
#elif IN(3)
LOOK(k_voum) LOAD(k_voum) LOOK(k_mov) LOAD(k_mov) LOOK(k_mol) LOAD(k_mol)
#elif IN(4)
LOOK(k_mos) LOAD(k_mos) LOOK(k_uov) LOAD(k_uov) LOOK(k_uol) LOAD(k_uol)
#elif IN(5)
LOOK(k_uous) LOAD(k_uous) LOOK(k_mous) LOAD(k_mous) LOOK(k_mom) LOAD(k_mom)
#elif IN(6)
LOOK(k_vob) LOAD(k_vob) LOOK(k_vlb) LOAD(k_vlb) LOOK(k_csr) SPACE(k_csr)
#elif IN(7)
LOOK(k_ual) SUITE(edits_k_ual, 4, 4) { ual_edits<k_ual>(c); } LOOK(k_vvp) SPACE(k_vvp) LOOK(k_vlp) LOOK(k_map) LOOK(k_um)
#endif
