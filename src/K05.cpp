// PARTS: 8
// FLAGS: -DVH_CASE_CPU_SECONDS=200
// RULE: for each case one operation (container fill/copy/assign/resize/clear, view construction and walk, algorithm) on a random small graph is first run with a counter over every fault point it passes (each operator new, each copy of a user value, each user callback), then run again from an identical start with the k-th point failing, for every k (a sample of 60 when there are more), for allocations with the memory either recovering at once or staying exhausted until the exception arrives. Judged: exception type, input graph unchanged, survivor inspectable (ids, edges, values, in/out mirror), clearable, refillable, copyable, destroyable, no value object or block left. Non-trivial: an operation with a fault injected; distinct by (operation, container, graph).
// ASSUME: a fault is one failing point (or exhausted memory from one point on); library code that asks for memory with nothrow new is given none
// MIN: faults=20000
// MIN: ops=600
#include "vcpo.hpp"
#include <random>
#include <new>
#include <graph/graph.hpp>
#include <graph/views/transpose.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include "vfault.hpp"
using namespace vh; using namespace vg; namespace gv = graph::views;

// ---------------------------------------------------------------- containers
template <class Id> using E3 = std::tuple<u32, u32, int>;
using Es = std::vector<std::tuple<u32, u32, int>>;
inline Es random_edges(Ctx& c, u32 maxn, int base) { GenOpt o; o.maxn = maxn; o.allow_empty = false; auto g = gen_graph(c.rng, o); Es r; int k = base; for (auto& e : g.es) { if (r.size() >= 9) break; r.push_back({e.s, e.t, k++}); } std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); }); return r; }
inline std::string str(const Es& es) { std::string s; for (auto& [a, b, w] : es) s += std::format("{}>{}:{} ", a, b, w); return s; }
template <class G> struct Dr { // what the sweep needs to know about a container of Fv values
  using T = Tr<G>; using Id = typename T::Id; using CEd = graph::copyable_edge_t<Id, Fv>; using CV = graph::copyable_vertex_t<Id, Fv>;
  static std::vector<CEd> ce(const Es& es) { std::vector<CEd> r; r.reserve(es.size()); for (auto& [a, b, w] : es) r.push_back({(Id)a, (Id)b, Fv(w)}); return r; }
  static std::vector<CV> cv(u32 n, int base) { std::vector<CV> r; r.reserve(n); for (u32 i = 0; i < n; ++i) r.push_back({(Id)i, Fv(base + (int)i)}); return r; }
};
// everything readable, walked and checked for being a graph; returns the multiset of edges
template <class G> Es inspect(Ctx& c, const G& g, const char* op, const std::set<int>& okw) {
  using T = Tr<G>; Es out, in; std::set<u32> ids; size_t n = 0, deg = 0; const size_t nv = (size_t)graph::num_vertices(g); auto who = [&] { return std::string(op); };
  for (auto&& u : graph::vertices(g)) { ids.insert((u32)graph::vertex_id(g, u)); c.checkf(++n <= nv, "survivor-vertices", who); if constexpr (has_vv<G>) (void)num(graph::vertex_value(g, u)); } c.checkf(n == nv && ids.size() == nv, "survivor-vertices", who);
  for (auto&& u : graph::vertices(g)) { u32 s = (u32)graph::vertex_id(g, u); size_t d = 0; for (auto&& e : graph::edges(g, u)) { u32 t = (u32)graph::target_id(g, e); c.checkf(ids.count(t), "survivor-dangling-edge", [&] { return std::format("{}: edge {}>{} with {} vertices", op, s, t, nv); }); int w = num(graph::edge_value(g, e)); c.checkf(okw.count(w), "survivor-edge-value", [&] { return std::format("{}: edge {}>{} has value {}", op, s, t, w); }); out.push_back({s, t, w}); c.checkf(++d < 1000, "survivor-edges", who); } deg += d; c.checkf((size_t)graph::degree(g, u) == d, "survivor-degree", who);
    if constexpr (T::bidir && !T::und) for (auto&& e : graph::in_edges(g, u)) in.push_back({(u32)graph::source_id(g, e), s, num(graph::edge_value(g, e))}); }
  std::sort(out.begin(), out.end()); std::sort(in.begin(), in.end()); if constexpr (T::bidir && !T::und && T::out == Ord::append) c.checkf(in == out, "survivor-in-out-mismatch", [&] { return std::format("{}: out {} in {}", op, str(out), str(in)); });
  if constexpr (T::und) { Es r; for (auto [a, b, w] : out) r.push_back({b, a, w}); std::sort(r.begin(), r.end()); c.checkf(r == out, "survivor-not-symmetric", [&] { return std::format("{}: {}", op, str(out)); }); size_t loops = 0; for (auto& [a, b, w] : out) loops += a == b; c.checkf((size_t)graph::num_edges(g) == (deg - loops) / 2 + loops, "survivor-edge-count", [&] { return std::format("{}: num_edges {} with {}", op, (size_t)graph::num_edges(g), str(out)); }); }
  else if constexpr (T::out == Ord::append || T::out == Ord::prepend) c.checkf((size_t)graph::num_edges(g) == deg, "survivor-edge-count", [&] { return std::format("{}: num_edges {} but {} edges", op, (size_t)graph::num_edges(g), deg); });
  c.checkf(graph::has_edges(g) == (deg > 0), "survivor-has-edges", who); (void)num(graph::graph_value(g)); c.count("survivors_inspected"); return out; }

inline void pre(Ctx& c) { for (auto k : {"faults", "faults_memory", "faults_value_copy", "faults_callback", "faults_memory_exhausted", "ops", "fault_points", "ops_with_every_point_failed", "survivors_inspected", "refilled"}) c.count(k, 0); } // so that counting does not allocate
template <class G> void fill(Ctx& c) {
  using D = Dr<G>; using T = Tr<G>; using Id = typename T::Id; constexpr bool isual = T::und, iscsr = !T::dyn && !T::und; using CEd = typename D::CEd; using CV = typename D::CV;
  Es a = random_edges(c, 5, 100), b = random_edges(c, 6, 200); u32 n = 1; for (auto* x : {&a, &b}) for (auto& [s, t, w] : *x) n = std::max({n, s + 1, t + 1}); std::set<int> okw{Fv::dflt}; for (auto* x : {&a, &b}) for (auto& [s, t, w] : *x) okw.insert(w);
  auto ea = D::ce(a), eb = D::ce(b); auto va = D::cv(n, 500), vb = D::cv(n + 2, 600);
  // start: a graph holding a (or nothing)
  auto start = [&](bool filled) { G g; if (!filled) return g; graph::graph_value(g) = Fv(42);
    if constexpr (isual) { for (u32 i = 0; i < n; ++i) g.create_vertex(Fv(500 + (int)i)); for (auto& [s, t, w] : a) g.create_edge((Id)s, (Id)t, Fv(w)); }
    else { g.load_vertices(std::as_const(va), std::identity{}); g.load_edges(std::as_const(ea), std::identity{}, n); } return g; };
  struct Op { const char* name; bool filled; std::function<void(std::optional<G>&, const G&)> f; }; std::vector<Op> ops; std::vector<CEd> work; // work: a fresh rvalue source
  auto op = [&](const char* nm, bool filled, auto f) { ops.push_back({nm, filled, f}); };
  op("copy constructor", false, [](auto& s, const G& o) { s.reset(); s.emplace(o); });
  op("copy assignment to an empty graph", false, [](auto& s, const G& o) { *s = o; });
  op("copy assignment to a filled graph", true, [](auto& s, const G& o) { *s = o; });
  op("self assignment", true, [](auto& s, const G&) { auto& r = *s; r = std::as_const(*s); });
  op("clear", true, [](auto& s, const G&) { s->clear(); });
  op("clear of an empty graph", false, [](auto& s, const G&) { s->clear(); });
  op("move construction", true, [](auto& s, const G&) { G t(std::move(*s)); s.emplace(std::move(t)); });
  op("move assignment", true, [](auto& s, const G&) { G t; t = std::move(*s); *s = std::move(t); });
  op("swap", true, [](auto& s, const G&) { G t; std::swap(t, *s); std::swap(*s, t); });
  op("graph value constructor", false, [](auto& s, const G&) { s.reset(); Fv v(9); s.emplace(std::as_const(v)); });
  if constexpr (!isual) {
    op("load_edges(const)", false, [&, n](auto& s, const G&) { s->load_edges(std::as_const(eb), std::identity{}, n); });
    op("load_edges(const, inferred)", false, [&](auto& s, const G&) { s->load_edges(std::as_const(eb), std::identity{}); });
    op("load_edges(lvalue)", false, [&](auto& s, const G&) { s->load_edges(eb, std::identity{}); });
    op("load_edges(list)", false, [&](auto& s, const G&) { std::list<CEd> l(eb.begin(), eb.end()); s->load_edges(l, std::identity{}); });
    op("load_edges(rvalue)", false, [&](auto& s, const G&) { auto t = eb; s->load_edges(std::move(t), std::identity{}); });
    op("load_edges(projection)", false, [&](auto& s, const G&) { s->load_edges(std::as_const(b), [](const auto& x) { Inj::callback(); return CEd{(Id)std::get<0>(x), (Id)std::get<1>(x), Fv(std::get<2>(x))}; }); });
    op("load_vertices(const)", false, [&](auto& s, const G&) { s->load_vertices(std::as_const(va), std::identity{}); });
    op("load_vertices onto a graph", true, [&](auto& s, const G&) { s->load_vertices(std::as_const(vb), std::identity{}); });
    op("load_vertices(rvalue)", true, [&](auto& s, const G&) { auto t = vb; s->load_vertices(std::move(t), std::identity{}); });
    op("load_vertices(projection)", true, [&](auto& s, const G&) { std::vector<int> q{0, 1, 2}; s->load_vertices(q, [](const int& x) { Inj::callback(); return CV{(Id)x, Fv(x + 700)}; }); });
    op("load_vertices, load_edges", false, [&](auto& s, const G&) { s->load_vertices(std::as_const(vb), std::identity{}); s->load_edges(std::as_const(eb), std::identity{}); });
    op("load_edges, load_vertices", false, [&](auto& s, const G&) { s->load_edges(eb, std::identity{}); s->load_vertices(vb, std::identity{}); });
    op("constructor(edges, vertices)", false, [&](auto& s, const G&) { s.reset(); if constexpr (T::dyn) s.emplace(std::as_const(eb), std::as_const(vb), std::identity{}, std::identity{}, std::vector<Id>{}); else s.emplace(eb, vb, std::identity{}, std::identity{}, std::vector<Id>{}); });
    op("constructor(list)", false, [&](auto& s, const G&) { s.reset(); if (eb.size() > 2) s.emplace(std::initializer_list<CEd>{eb[0], eb[1], eb[2]}); else s.emplace(); });
    if constexpr (T::dyn) {
      op("load_edges onto a graph", true, [&, n](auto& s, const G&) { s->load_edges(std::as_const(eb), std::identity{}, n); });
      op("load_edges(lvalue) onto a graph", true, [&](auto& s, const G&) { s->load_edges(eb, std::identity{}); });
      if constexpr (!T::keyed_v) op("resize_vertices", true, [n](auto& s, const G&) { s->resize_vertices(n + 5); });
    } else {
      op("reserve", true, [](auto& s, const G&) { s->reserve(50, 50); });
      op("load", false, [&](auto& s, const G&) { s->load(eb, vb); });
      op("unordered edges", false, [&](auto& s, const G&) { std::vector<CEd> r(eb.rbegin(), eb.rend()); s->load_edges(std::as_const(r), std::identity{}); });
    }
  } else {
    op("create_vertex(value)", true, [](auto& s, const G&) { Fv v(900); for (int i = 0; i < 3; ++i) s->create_vertex(std::as_const(v)); });
    op("create_vertex()", true, [](auto& s, const G&) { for (int i = 0; i < 3; ++i) s->create_vertex(); });
    op("create_vertex(rvalue)", true, [](auto& s, const G&) { for (int i = 0; i < 3; ++i) s->create_vertex(Fv(3)); });
    op("create_edge(value)", true, [&](auto& s, const G&) { for (auto& [p, q, w] : b) { Fv v(w); s->create_edge((Id)p, (Id)q, std::as_const(v)); } });
    op("create_edge()", true, [&](auto& s, const G&) { for (auto& [p, q, w] : b) s->create_edge((Id)p, (Id)q); });
    op("create_edge(rvalue)", true, [&](auto& s, const G&) { for (auto& [p, q, w] : b) s->create_edge((Id)p, (Id)q, Fv(w)); });
    op("create_edge(iterators)", true, [&](auto& s, const G&) { for (auto& [p, q, w] : b) { Fv v(w); s->create_edge(s->begin() + p, s->begin() + q, std::as_const(v)); } });
    op("erase_edge", true, [](auto& s, const G&) { auto r = s->edges(); auto it = r.begin(); if (it != r.end()) s->erase_edge(it); });
    op("resize_vertices", true, [n](auto& s, const G&) { s->resize_vertices(n + 5); });
    op("constructor(edges)", false, [&](auto& s, const G&) { s.reset(); s.emplace(std::as_const(eb), std::identity{}, Fv(3)); });
    op("constructor(edges, vertices)", false, [&](auto& s, const G&) { s.reset(); s.emplace(std::as_const(eb), std::as_const(vb), std::identity{}, std::identity{}, Fv(3)); });
    op("constructor(list)", false, [&](auto& s, const G&) { s.reset(); if (b.size() > 1) { std::tuple<Id, Id, Fv> x((Id)std::get<0>(b[0]), (Id)std::get<1>(b[0]), Fv(200)), y((Id)std::get<0>(b[1]), (Id)std::get<1>(b[1]), Fv(201)); s.emplace(std::initializer_list<std::tuple<Id, Id, Fv>>{x, y}); } else s.emplace(); });
    op("member swap", true, [](auto& s, const G&) { G t; s->swap(t); s->swap(t); });
  }
  auto& o = ops[c.idx % ops.size()]; if (std::string_view(o.name) == "create_edge()") okw.insert(Fv::dflt); std::string head = std::format("{} a=[{}] b=[{}] n={}", o.name, str(a), str(b), n); c.input(head); pre(c); const i64 live0 = Fv::live;
  bool unordered = std::string_view(o.name) == "unordered edges";
  { const G other = start(true); const u64 otherfp = fp(other); std::optional<G> s; int after = 0;
    auto survivor = [&] { auto got = inspect(c, *s, o.name, okw);
        switch (after++ % 4) { case 0: break; // just destroy
        case 1: { G copy(*s); c.checkf(inspect(c, copy, o.name, okw) == got, "survivor-copy", [&] { return std::string(o.name); }); break; }
        case 2: { G m(std::move(*s)); c.checkf(inspect(c, m, o.name, okw) == got, "survivor-move", [&] { return std::string(o.name); }); s.emplace(); *s = std::move(m); break; }
        case 3: { s->clear(); c.checkf((size_t)graph::num_vertices(*s) == 0 && (size_t)graph::num_edges(*s) == 0, "survivor-clear", [&] { return std::string(o.name); });
          if constexpr (isual) { for (u32 i = 0; i < n; ++i) s->create_vertex(Fv(500 + (int)i)); for (auto& [p, q, w] : a) s->create_edge((Id)p, (Id)q, Fv(w)); } else { s->load_vertices(std::as_const(va), std::identity{}); s->load_edges(std::as_const(ea), std::identity{}, n); }
          graph::graph_value(*s) = Fv(42); c.checkf(fp(*s) == otherfp, "survivor-refill", [&] { return std::string(o.name); }); c.count("refilled"); break; } } };
    auto blocks = [&](const char* nm) { c.checkf(Inj::blocks == Inj::b0, "blocks-left", [&] { return std::format("{}: {} blocks left", nm, Inj::blocks - Inj::b0); }); };
    sweep(c, o.name, head, [&] { s.emplace(start(o.filled)); }, [&] { if (unordered) { try { o.f(s, other); } catch (const graph::graph_error&) { } } else o.f(s, other); },
      [&](bool, int) { c.checkf(fp(other) == otherfp, "source-graph-changed", [&] { return std::string(o.name); });
        for (size_t i = 0; i < eb.size(); ++i) c.checkf(num(eb[i].value) == std::get<2>(b[i]), "source-range-modified", [&] { return std::string(o.name); }); for (size_t i = 0; i < vb.size(); ++i) c.checkf(num(vb[i].value) == 600 + (int)i, "source-range-modified", [&] { return std::string(o.name); });
        if (s) survivor(); s.reset(); blocks(o.name); }); }
  c.checkf(Fv::live == live0, "value-leak", [&] { return std::format("{}: {} value objects left", o.name, Fv::live - live0); }); c.nontrivial(hcomb(hstr(head.c_str()), hstr(Name<G>::v) + c.idx % ops.size())); c.sample(head); }

// ---------------------------------------------------------------- views and algorithms
template <class V, class E> struct Vis { void on_initialize_vertex(const auto&, const V&) { Inj::callback(); } void on_discover_vertex(const auto&, const V&) { Inj::callback(); } void on_examine_vertex(const auto&, const V&) { Inj::callback(); } void on_examine_edge(const auto&, const E&) { Inj::callback(); } void on_finish_vertex(const auto&, const V&) { Inj::callback(); } };
template <class T> struct Out { using difference_type = std::ptrdiff_t; std::vector<T>* v; struct R { std::vector<T>* v; const R& operator=(const T& x) const { Inj::callback(); v->push_back(x); return *this; } }; R operator*() const { return {v}; } Out& operator++() { return *this; } Out operator++(int) { return *this; } };
template <class G> void use(Ctx& c) {
  constexpr bool U = std::is_same_v<G, ual>; GenOpt go; go.maxn = 6; go.allow_empty = false; auto base = gen_graph(c.rng, go, U || c.rng.chance(40)); if (!base.n) return; for (auto& e : base.es) e.w = std::abs(e.w) % 50; const u32 n = base.n; EL sy = U ? base : fully_sorted(symmetrize(base)); using Id = graph::vertex_id_t<G>;
  const G g = build<G>(base), h = build<G>(sy), t = build<G>(U ? base : transposed(base)); const Id src = (Id)c.rng.below(n); using V = graph::vertex_t<G>; using E = graph::edge_t<G>; using VC = graph::vertex_t<const G>; using EC = graph::edge_t<const G>;
  struct Op { const char* name; std::function<void()> f; }; std::vector<Op> ops; auto op = [&](const char* nm, auto f) { ops.push_back({nm, f}); };
  auto wf = [](const auto& g, const auto& uv) { Inj::callback(); return val_of(g, uv) % 64; }; auto vf = [](const auto& g, const auto& u) { Inj::callback(); return Fv((int)graph::vertex_id(g, u)); }; auto ef = [](const auto& g, const auto& uv) { Inj::callback(); return Fv((int)graph::target_id(g, uv)); };
  auto cmp = [](auto a, auto b) { Inj::callback(); return a < b; };
  auto walk = [](auto&& v) { i64 s = 0; for (auto&& x : v) { ++s; } return s; };
  op("vertexlist", [&] { walk(gv::vertexlist(g)); walk(gv::vertexlist(g, vf)); }); op("incidence", [&] { walk(gv::incidence(g, src)); walk(gv::incidence(g, src, ef)); }); op("neighbors", [&] { walk(gv::neighbors(g, src, vf)); }); op("edgelist", [&] { walk(gv::edgelist(g)); walk(gv::edgelist(g, ef)); });
  op("vertices_dfs", [&] { walk(gv::vertices_dfs(g, src, vf)); }); op("edges_dfs", [&] { auto v = gv::edges_dfs(g, src, ef); auto it = v.begin(); walk(v); }); op("vertices_bfs", [&] { auto v = gv::vertices_bfs(g, src, vf); walk(v); }); op("edges_bfs", [&] { walk(gv::edges_bfs(g, src, ef)); });
  op("vertices_topological_sort", [&] { walk(gv::vertices_topological_sort(g, vf)); }); op("edges_topological_sort", [&] { walk(gv::edges_topological_sort(g, ef)); }); op("vertices_topological_sort_safe", [&] { auto r = gv::vertices_topological_sort_safe(g, vf); if (r) walk(*r); }); op("edges_topological_sort_safe", [&] { auto r = gv::edges_topological_sort_safe(g, ef); if (r) walk(*r); });
  op("dfs view copied and moved", [&] { auto v = gv::vertices_dfs(g, src); auto w = v; auto x = std::move(v); walk(w); walk(x); });
  op("breadth_first_search", [&] { graph::breadth_first_search(g, src, Vis<VC, EC>{}); }); op("breadth_first_search (several)", [&] { std::vector<Id> s{src, (Id)0}; graph::breadth_first_search(g, s, Vis<VC, EC>{}); }); op("depth_first_search", [&] { graph::depth_first_search(g, src, Vis<VC, EC>{}); });
  op("topological_sort", [&] { std::vector<Id> v; graph::topological_sort(g, Out<Id>{&v}); }); op("topological_sort (source)", [&] { std::vector<Id> v; graph::topological_sort(g, src, Out<Id>{&v}); });
  op("dijkstra", [&] { std::vector<int> d(n, INT_MAX); std::vector<u32> p(n); graph::dijkstra_shortest_paths(g, src, d, p, wf, Vis<VC, EC>{}); }); op("dijkstra (compare)", [&] { std::vector<int> d(n, INT_MAX); std::vector<u32> p(n); graph::dijkstra_shortest_paths(g, src, d, p, wf, graph::empty_visitor(), cmp, std::plus<int>{}); });
  op("dijkstra distances", [&] { std::vector<int> d(n, INT_MAX); graph::dijkstra_shortest_distances(g, src, d, wf); });
  op("bellman_ford", [&] { std::vector<int> d(n, INT_MAX / 2); std::vector<u32> p(n); graph::bellman_ford_shortest_paths(g, src, d, p, wf, Vis<VC, EC>{}); }); op("bellman_ford distances", [&] { std::vector<int> d(n, INT_MAX / 2); graph::bellman_ford_shortest_distances(g, src, d, wf); });
  op("connected_components", [&] { std::vector<u32> x(n); graph::connected_components(h, x); }); op("afforest", [&] { std::vector<u32> x(n); graph::afforest(h, x); }); if constexpr (!U) { op("kosaraju", [&] { std::vector<u32> x(n); graph::kosaraju(g, t, x); }); op("afforest(g,t)", [&] { std::vector<u32> x(n); graph::afforest(g, t, x); }); }
  op("prim", [&] { std::vector<u32> p(n); std::vector<int> w(n); graph::prim(h, p, w, cmp, INT_MAX, wf, src); }); op("articulation_points", [&] { std::vector<Id> v; graph::articulation_points(h, Out<Id>{&v}); }); op("biconnected_components", [&] { std::vector<std::vector<Id>> v; graph::biconnected_components(h, v); });
  if constexpr (!U) op("triangle_count", [&] { graph::triangle_count(h); }); op("jaccard", [&] { graph::jaccard_coefficient(h, [](auto, auto, auto&&, auto) { Inj::callback(); }); });
  op("label_propagation", [&] { std::vector<Fv> l; l.reserve(n); for (u32 i = 0; i < n; ++i) l.push_back(Fv((int)i)); graph::label_propagation(h, l, std::mt19937(3), 5); for (auto& x : l) (void)num(x); }); op("label_propagation (empty label)", [&] { std::vector<Fv> l; l.reserve(n); for (u32 i = 0; i < n; ++i) l.push_back(Fv((int)(i % 3))); graph::label_propagation(h, l, Fv(0), std::mt19937(3), 5); });
  op("maximal_independent_set", [&] { std::vector<Id> v; graph::maximal_independent_set(h, Out<Id>{&v}, src); });
  auto& o = ops[c.idx % ops.size()]; std::string head = std::format("{} {} {} src={}", Name<G>::v, o.name, base.str(), (u64)src); c.input(head); const u64 f0 = fp(g), f1 = fp(h), f2 = fp(t); pre(c); const i64 live0 = Fv::live; 
  sweep(c, o.name, head, [] {}, o.f, [&](bool, int) { c.checkf(fp(g) == f0 && fp(h) == f1 && fp(t) == f2, "graph-changed", [&] { return std::string(o.name); }); c.checkf(Fv::live == live0, "value-leak", [&] { return std::format("{}: {} value objects left", o.name, Fv::live - live0); }); c.checkf(Inj::blocks == Inj::b0, "blocks-left", [&] { return std::format("{}: {} blocks left", o.name, Inj::blocks - Inj::b0); }); });
  c.nontrivial(hcomb(hstr(head.c_str()), c.idx % ops.size())); c.sample(head); (void)sizeof(V); (void)sizeof(E); }


// ---------------------------------------------------------------- ids that own memory: reading a graph copies them, so every read is a fault point
template <class G> void read_ids(Ctx& c, const char* nm, G& g, const std::string& es, auto mk) {
  struct Op { const char* name; std::function<void()> f; }; std::vector<Op> ops; auto op = [&](const char* n, auto f) { ops.push_back({n, f}); }; size_t sink = 0;
  auto len = [&](const auto& x) { if constexpr (requires { x.size(); }) sink += x.size(); else ++sink; };
  auto us = [&](auto f) { for (auto&& u : graph::vertices(g)) f(u); }; auto uvs = [&](auto f) { for (auto&& u : graph::vertices(g)) for (auto&& e : graph::edges(g, u)) f(u, e); };
  op("vertex_id", [&] { us([&](auto& u) { auto i = graph::vertex_id(g, u); len(i); }); }); op("target_id", [&] { uvs([&](auto&, auto& e) { auto i = graph::target_id(g, e); len(i); }); }); op("source_id", [&] { uvs([&](auto&, auto& e) { auto i = graph::source_id(g, e); len(i); }); });
  op("target", [&] { uvs([&](auto&, auto& e) { len(graph::target(g, e)); }); }); op("source", [&] { uvs([&](auto&, auto& e) { len(graph::source(g, e)); }); }); op("edge_value", [&] { uvs([&](auto&, auto& e) { auto v = graph::edge_value(g, e); len(v); }); });
  op("find_vertex", [&] { for (int i = 0; i < 3; ++i) len(graph::find_vertex(g, mk(i)) == std::ranges::end(graph::vertices(g))); }); op("contains_edge", [&] { us([&](auto& u) { us([&](auto& v) { len(graph::contains_edge(g, u, v)); }); }); }); op("find_vertex_edge", [&] { uvs([&](auto& u, auto& e) { auto v = graph::target(g, e); (void)graph::find_vertex_edge(g, u, v); }); });
  op("degree", [&] { us([&](auto& u) { len(graph::degree(g, u)); }); }); auto each = [&](auto&& v) { for (auto&& x : v) { auto y = x; ++sink; } };
  op("vertexlist", [&] { each(gv::vertexlist(g)); }); op("basic_vertexlist", [&] { for (auto&& [i] : gv::basic_vertexlist(g)) len(i); }); op("edgelist", [&] { each(gv::edgelist(g)); }); op("basic_edgelist", [&] { each(gv::basic_edgelist(g)); }); op("incidence", [&] { us([&](auto& u) { each(gv::incidence(g, u)); }); }); op("neighbors", [&] { us([&](auto& u) { each(gv::neighbors(g, u)); }); });
  op("vertexlist(value)", [&] { each(gv::vertexlist(g, [](const auto& gg, const auto& u) { Inj::callback(); return std::string(50, 'v'); })); }); op("incidence(value)", [&] { us([&](auto& u) { each(gv::incidence(g, u, [](const auto& gg, const auto& e) { Inj::callback(); return std::string(50, 'v'); })); }); }); op("edgelist(value)", [&] { each(gv::edgelist(g, [](const auto& gg, const auto& e) { Inj::callback(); return std::string(50, 'v'); })); });
  if constexpr (requires { graph::in_edges(g, *graph::vertices(g).begin()); }) { op("in-edge ids", [&] { us([&](auto& u) { for (auto&& e : graph::in_edges(g, u)) { auto i = graph::source_id(g, e); len(i); auto t = graph::target_id(g, e); len(t); len(graph::source(g, e)); } }); }); op("in_incidence", [&] { us([&](auto& u) { each(gv::in_incidence(g, u)); each(gv::in_neighbors(g, u)); }); }); }
  auto& o = ops[c.idx % ops.size()]; std::string head = std::format("{} {} {}", nm, o.name, es); c.input(head); pre(c); sweep(c, o.name, head, [] {}, o.f, [&](bool, int) { c.checkf(Inj::blocks == Inj::b0, "blocks-left", [&] { return std::string(o.name); }); }); c.nontrivial(hcomb(hstr(head.c_str()), c.idx % ops.size())); c.sample(head); (void)sink; }
inline std::string longid(u32 i) { return std::format("vertex-with-a-long-name-{:040}", i); }
template <class G> void ids_of(Ctx& c, const char* nm) { Es a = random_edges(c, 5, 100); std::vector<graph::copyable_edge_t<std::string, std::string>> es; for (auto& [s, t, w] : a) es.push_back({longid(s), longid(t), longid(w)});
  G g; if constexpr (requires { g.load_edges(es, std::identity{}); }) g.load_edges(std::as_const(es), std::identity{}); else { for (auto& [s, t, w] : a) { g[longid(t)]; g[longid(s)].push_back({longid(t), longid(w)}); } }
  if (c.rng.chance(50)) read_ids<G>(c, nm, g, str(a), longid); else read_ids<const G>(c, nm, g, str(a), longid); }
// filling a graph keyed by such ids: every id copied, compared or hashed on the way is a fault point
template <class G> void ids_load(Ctx& c, const char* nm) { Es a = random_edges(c, 5, 100), b = random_edges(c, 5, 200); using CE = graph::copyable_edge_t<std::string, std::string>; auto mk = [](const Es& x) { std::vector<CE> es; es.reserve(x.size()); for (auto& [s, t, w] : x) es.push_back({longid(s), longid(t), longid(w)}); return es; };
  const auto ea = mk(a), eb = mk(b); const u32 k = c.idx % 4; static const char* names[] = {"load_edges", "load_edges twice", "load_edges(moved)", "copy"}; std::optional<G> g, h; std::vector<CE> tmp; std::string head = std::format("{} {} {} + {}", nm, names[k], str(a), str(b)); c.input(head); pre(c);
  auto count = [](const G& x) { size_t n = 0; for (auto&& u : graph::vertices(x)) for (auto&& e : graph::edges(x, u)) { (void)e; ++n; } return n; }; G full; full.load_edges(ea, std::identity{}); const size_t nfull = count(full);
  sweep(c, names[k], head, [&] { h.reset(); g.reset(); tmp = std::vector<CE>{}; tmp.shrink_to_fit(); g.emplace(); if (k == 1) g->load_edges(ea, std::identity{}); if (k == 2) tmp = mk(a); },
    [&] { switch (k) { case 0: g->load_edges(ea, std::identity{}); break; case 1: g->load_edges(eb, std::identity{}); break; case 2: g->load_edges(std::move(tmp), std::identity{}); break; case 3: h.emplace(full); break; } },
    [&](bool, int) { const G& x = *g; std::set<std::string> ids; for (auto&& u : graph::vertices(x)) { std::string i = graph::vertex_id(x, u); c.checkf(i.size() == longid(0).size(), "odd-id", [&] { return i; }); c.checkf(ids.insert(i).second, "vertex-twice", [&] { return i; }); }
      size_t n = 0; for (auto&& u : graph::vertices(x)) for (auto&& e : graph::edges(x, u)) { ++n; std::string t = graph::target_id(x, e), w = graph::edge_value(x, e); c.checkf(ids.count(t) && w.size() == t.size(), "odd-edge", [&] { return t + " value " + w; }); } c.checkf(n <= a.size() + b.size(), "too-many-edges", [&] { return std::format("{}", n); });
      if (k != 3) { G y(std::move(*g)); y.clear(); y.load_edges(ea, std::identity{}); c.checkf(count(y) == nfull, "refill", [&] { return std::format("{} edges instead of {}", count(y), nfull); }); c.count("refilled"); }
      ids.clear(); h.reset(); g.reset(); tmp = std::vector<CE>{}; tmp.shrink_to_fit(); c.checkf(Inj::blocks == Inj::b0, "blocks-left", [&] { return std::format("{}: {} blocks left", names[k], Inj::blocks - Inj::b0); }); });
  c.nontrivial(hcomb(hstr(head.c_str()), k)); c.sample(head); }
template <class L> void ids_el(Ctx& c, const char* nm) { Es a = random_edges(c, 5, 100); std::vector<std::string> store; store.reserve(a.size() * 3); L l; for (auto& [s, t, w] : a) { store.push_back(longid(s)); store.push_back(longid(t)); store.push_back(longid(w)); auto* p = &store[store.size() - 3]; if constexpr (requires { l.emplace_back(p[0], p[1], p[2]); }) l.emplace_back(p[0], p[1], p[2]); else l.push_back({p[0], p[1], p[2]}); }
  static const char* names[] = {"source_id", "target_id", "edge_value", "edgelist", "edgelist(value)"}; const size_t k = c.idx % 5; size_t sink = 0; auto op = [&] { switch (k) { case 0: for (auto& e : l) { auto x = graph::source_id(l, e); sink += x.size(); } break; case 1: for (auto& e : l) { auto x = graph::target_id(l, e); sink += x.size(); } break; case 2: for (auto& e : l) { auto x = graph::edge_value(l, e); sink += x.size(); } break;
    case 3: for (auto&& e : gv::edgelist(l)) { sink += e.source_id.size() + e.target_id.size(); } break; case 4: for (auto&& e : gv::edgelist(l, [](const auto&, const auto& e) { Inj::callback(); return std::string(50, 'v'); })) { sink += e.value.size(); } break; } };
  std::string head = std::format("{} {} {}", nm, names[k], str(a)); c.input(head); pre(c); sweep(c, names[k], head, [] {}, op, [&](bool, int) { c.checkf(Inj::blocks == Inj::b0, "blocks-left", [&] { return std::string(names[k]); }); }); c.nontrivial(hcomb(hstr(head.c_str()), k)); c.sample(head); (void)sink; }
template <template <class, class, class, class, bool> class TR> using Ds = dyn<TR, std::string, std::string, void, std::string>;
using Bs = gc::dynamic_graph<std::string, std::string, void, std::string, true, mob_traits<std::string, std::string, void, std::string>>;
using Ms = std::map<std::string, std::vector<std::pair<std::string, std::string>>>;

template <template <class, class, class, class, bool> class TR> using Df = dyn<TR, Fv, Fv, Fv, u32>;
using Cf = gc::compressed_graph<Fv, Fv, Fv>; using Uf = gc::undirected_adjacency_list<Fv, Fv, Fv>;
using Bv = gc::dynamic_graph<Fv, Fv, Fv, u32, true, vob_traits<Fv, Fv, Fv>>; using Bl = gc::dynamic_graph<Fv, Fv, Fv, u32, true, vlb_traits<Fv, Fv, Fv>>; using Bm = gc::dynamic_graph<Fv, Fv, Fv, u32, true, mob_traits<Fv, Fv, Fv>>;
#define F(NAME, G, q) SUITE(fill_##NAME, q, q * 40) { fill<G>(c); }
#define S(G, q) SUITE(use_##G, q, q * 40) { use<G>(c); }
#if IN(0)
F(csr, Cf, 210) F(vov, Df<gc::vov_graph_traits>, 130) S(vov, 160)
#elif IN(1)
F(ual, Uf, 210) S(ual, 160)
#elif IN(2)
SUITE(ids_load_bi, 60, 2400) { ids_load<Bs>(c, "bidirectional map<string>"); }
SUITE(ids_bi, 120, 4800) { ids_of<Bs>(c, "bidirectional map<string>"); }
F(vol, Df<gc::vol_graph_traits>, 130) F(vofl, Df<gc::vofl_graph_traits>, 130) S(csr, 160)
#elif IN(3)
F(mov, Df<gc::mov_graph_traits>, 130) F(vos, Df<gc::vos_graph_traits>, 130) S(vvp, 100)
#elif IN(4)
F(uol, Df<gc::uol_graph_traits>, 130) F(vous, Df<gc::vous_graph_traits>, 130) S(dol, 100)
#elif IN(5)
SUITE(ids_load_mov, 40, 1600) { ids_load<Ds<gc::mov_graph_traits>>(c, "mov<string>"); }
SUITE(ids_mov, 120, 4800) { ids_of<Ds<gc::mov_graph_traits>>(c, "mov<string>"); }
SUITE(ids_map, 120, 4800) { ids_of<Ms>(c, "map<string, vector<pair>>"); }
F(bv, Bv, 210) F(bl, Bl, 130) S(vob, 100)
#elif IN(6)
SUITE(ids_mos, 120, 4800) { ids_of<Ds<gc::mos_graph_traits>>(c, "mos<string>"); }
SUITE(ids_load_mos, 80, 3200) { ids_load<Ds<gc::mos_graph_traits>>(c, "mos<string>"); }
SUITE(ids_load_mom, 40, 1600) { ids_load<Ds<gc::mom_graph_traits>>(c, "mom<string>"); }
SUITE(ids_uol, 120, 4800) { ids_of<Ds<gc::uol_graph_traits>>(c, "uol<string>"); }
F(bm, Bm, 210) F(dov, Df<gc::dov_graph_traits>, 130) F(vom, Df<gc::vom_graph_traits>, 130)
#elif IN(7)
SUITE(ids_load_mous, 80, 3200) { ids_load<Ds<gc::mous_graph_traits>>(c, "mous<string>"); }
SUITE(ids_load_uous, 40, 1600) { ids_load<Ds<gc::uous_graph_traits>>(c, "uous<string>"); }
SUITE(ids_el, 60, 2400) { switch (c.idx % 3) { case 0: ids_el<std::vector<graph::copyable_edge_t<std::string, std::string>>>(c, "vector<edge_data>"); break; case 1: ids_el<std::vector<std::tuple<std::string, std::string, std::string>>>(c, "vector<tuple>"); break; case 2: ids_el<std::vector<graph::edge_list::edge_descriptor<std::string, std::string>>>(c, "vector<descriptor>"); break; } }
F(voum, Df<gc::voum_graph_traits>, 130) F(mos, Df<gc::mos_graph_traits>, 130) S(vos, 100)
#endif
