// PARTS: 10
// RULE: random multigraphs in 16 index representations (4 of them user-written) x all 20 pipe adaptors (vertex lists, incidence, neighbours, edge lists, basic and incoming forms, DFS, BFS and topological views) with and without value function and allocator, as temporaries, stored and reused closures and direct calls of the adaptor objects, then std take, drop, filter and transform behind them; every sequence compared element by element with the view function call; value functions verify the identity of the graph they are handed; edge values count copies. Non-trivial: the graph has an edge; distinct by (graph, container, vertex).
// MIN: pipes=60000
// MIN: elements=100000
#include "vsearch.hpp"
#include <graph/views/adaptors.hpp>
using namespace vg; namespace ad = graph::views::adaptors;
using Row = std::array<i64, 6>;
static std::string show(const std::vector<Row>& v) { std::string s; size_t k = 0; for (auto& r : v) { if (k++ > 30) break; s += "("; for (auto x : r) if (x != -7777) s += std::format("{},", x); s += ") "; } return s; }
template <class G> struct Canon { G& g; template <class X> Row operator()(const X& x) const { Row r; r.fill(-7777);
  if constexpr (requires { x.source_id; }) r[0] = (i64)x.source_id; if constexpr (requires { x.target_id; }) r[1] = (i64)x.target_id; if constexpr (requires { x.id; }) r[1] = (i64)x.id;
  if constexpr (requires { x.vertex; }) r[2] = (i64)graph::vertex_id(g, x.vertex); if constexpr (requires { x.target; }) r[3] = (i64)graph::vertex_id(g, x.target);
  if constexpr (requires { x.edge; }) r[4] = (i64)graph::source_id(g, x.edge) * 100000 + (i64)graph::target_id(g, x.edge) * 100 + val_of(g, x.edge);
  if constexpr (requires { x.value; }) r[5] = (i64)x.value; return r; } };
template <class G> void run(Ctx& c) {
  GenOpt o; o.maxn = 9; o.big = 20; o.allow_empty = false; auto base = gen_graph(c.rng, o); auto full = full_of<G>(base); const u32 n = full.n; if (!n) return;
  G gr = build_any<G>(base); const G& cg = gr; const u32 uid = (u32)c.rng.below(n); c.input(std::format("{} {} u={}", Name<G>::v, base.str(), uid)); constexpr bool und = std::is_same_v<G, ual>;
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>; using Id = graph::vertex_id_t<GG>; const Id u = (Id)uid; Canon<GG> cn{g}; SFv fv{std::addressof(g)}; SFe fe{std::addressof(g)}; const size_t lim = 4 * (full.es.size() + n) + 8;
    auto rows = [&](auto&& v, const char* what) { std::vector<Row> r; for (auto&& x : v) { r.push_back(cn(x)); c.checkf(r.size() <= lim, "pipe-does-not-end", [&] { return std::string(what); }); if (r.back()[5] == -99) c.fail("pipe-graph-identity", std::string(what) + ": the value function was handed another graph"); } c.count("elements", r.size()); c.count("pipes"); return r; };
    auto eq = [&](const std::vector<Row>& a, const std::vector<Row>& b, const char* what, const char* kind) { c.checkf(a == b, "pipe-differs", [&] { return std::format("{} ({}): {} instead of {}", what, kind, show(a), show(b)); }); };
    // `closure` is used as a temporary copy, as a stored object twice, and with std adaptors behind it
    auto same = [&](const char* what, auto direct, auto closure) { auto want = rows(direct(), what); eq(rows(g | closure, what), want, what, "stored closure"); const auto cc = closure; eq(rows(g | cc, what), want, what, "reused const closure"); eq(rows(g | decltype(closure)(closure), what), want, what, "temporary closure");
      { auto view = g | closure; auto moved = std::move(view); eq(rows(moved, what), want, what, "moved view"); }
      size_t k = c.rng.below(want.size() + 2); { std::vector<Row> got; for (auto&& x : g | closure | std::views::take(k)) got.push_back(cn(x)); auto w = want; if (w.size() > k) w.resize(k); eq(got, w, what, "take"); }
      { std::vector<Row> got; for (auto&& x : g | closure | std::views::drop(k)) got.push_back(cn(x)); std::vector<Row> w; if (k < want.size()) w.assign(want.begin() + k, want.end()); eq(got, w, what, "drop"); }
      { std::vector<Row> got; auto odd = [](const Row& r) { i64 s = 0; for (auto x : r) s += x; return s & 1; }; for (auto&& x : g | closure | std::views::transform(cn) | std::views::filter(odd)) got.push_back(x); std::vector<Row> w; for (auto& r : want) if (odd(r)) w.push_back(r); eq(got, w, what, "transform and filter"); } return want; };
    auto dir = [&](const char* what, auto&& view, const std::vector<Row>& want) { eq(rows(view, what), want, what, "adaptor object called directly"); };
    { auto w = same("vertexlist", [&] { return gv::vertexlist(g); }, ad::vertexlist()); dir("vertexlist", ad::vertexlist(g), w); w = same("vertexlist+vvf", [&] { return gv::vertexlist(g, fv); }, ad::vertexlist(fv)); dir("vertexlist+vvf", ad::vertexlist(g, fv), w); }
    { auto w = same("basic_vertexlist", [&] { return gv::basic_vertexlist(g); }, ad::basic_vertexlist()); dir("basic_vertexlist", ad::basic_vertexlist(g), w); w = same("basic_vertexlist+vvf", [&] { return gv::basic_vertexlist(g, fv); }, ad::basic_vertexlist(fv)); dir("basic_vertexlist+vvf", ad::basic_vertexlist(g, fv), w); }
    { auto w = same("incidence", [&] { return gv::incidence(g, u); }, ad::incidence(u)); dir("incidence", ad::incidence(g, u), w); eq(rows(g | ad::out_incidence(u), "out_incidence"), w, "out_incidence", "alias"); w = same("incidence+evf", [&] { return gv::incidence(g, u, fe); }, ad::incidence(u, fe)); dir("incidence+evf", ad::incidence(g, u, fe), w); }
    { auto w = same("basic_incidence", [&] { return gv::basic_incidence(g, u); }, ad::basic_incidence(u)); dir("basic_incidence", ad::basic_incidence(g, u), w); eq(rows(g | ad::basic_out_incidence(u), "basic_out_incidence"), w, "basic_out_incidence", "alias"); w = same("basic_incidence+evf", [&] { return gv::basic_incidence(g, u, fe); }, ad::basic_incidence(u, fe)); dir("basic_incidence+evf", ad::basic_incidence(g, u, fe), w); }
    { auto w = same("neighbors", [&] { return gv::neighbors(g, u); }, ad::neighbors(u)); dir("neighbors", ad::neighbors(g, u), w); eq(rows(g | ad::out_neighbors(u), "out_neighbors"), w, "out_neighbors", "alias"); w = same("neighbors+vvf", [&] { return gv::neighbors(g, u, fv); }, ad::neighbors(u, fv)); dir("neighbors+vvf", ad::neighbors(g, u, fv), w); }
    { auto w = same("basic_neighbors", [&] { return gv::basic_neighbors(g, u); }, ad::basic_neighbors(u)); dir("basic_neighbors", ad::basic_neighbors(g, u), w); eq(rows(g | ad::basic_out_neighbors(u), "basic_out_neighbors"), w, "basic_out_neighbors", "alias"); w = same("basic_neighbors+vvf", [&] { return gv::basic_neighbors(g, u, fv); }, ad::basic_neighbors(u, fv)); dir("basic_neighbors+vvf", ad::basic_neighbors(g, u, fv), w); }
    { auto w = same("edgelist", [&] { return gv::edgelist(g); }, ad::edgelist()); dir("edgelist", ad::edgelist(g), w); w = same("edgelist+evf", [&] { return gv::edgelist(g, fe); }, ad::edgelist(fe)); dir("edgelist+evf", ad::edgelist(g, fe), w); }
    { auto w = same("basic_edgelist", [&] { return gv::basic_edgelist(g); }, ad::basic_edgelist()); dir("basic_edgelist", ad::basic_edgelist(g), w); w = same("basic_edgelist+evf", [&] { return gv::basic_edgelist(g, fe); }, ad::basic_edgelist(fe)); dir("basic_edgelist+evf", ad::basic_edgelist(g, fe), w); }
    if constexpr (graph::adj_list::index_bidirectional_adjacency_list<GG>) {
      { auto w = same("in_incidence", [&] { return gv::in_incidence(g, u); }, ad::in_incidence(u)); dir("in_incidence", ad::in_incidence(g, u), w); w = same("in_incidence+evf", [&] { return gv::in_incidence(g, u, fe); }, ad::in_incidence(u, fe)); dir("in_incidence+evf", ad::in_incidence(g, u, fe), w); }
      { auto w = same("basic_in_incidence", [&] { return gv::basic_in_incidence(g, u); }, ad::basic_in_incidence(u)); dir("basic_in_incidence", ad::basic_in_incidence(g, u), w); w = same("basic_in_incidence+evf", [&] { return gv::basic_in_incidence(g, u, fe); }, ad::basic_in_incidence(u, fe)); dir("basic_in_incidence+evf", ad::basic_in_incidence(g, u, fe), w); }
      { auto w = same("in_neighbors", [&] { return gv::in_neighbors(g, u); }, ad::in_neighbors(u)); dir("in_neighbors", ad::in_neighbors(g, u), w); w = same("in_neighbors+vvf", [&] { return gv::in_neighbors(g, u, fv); }, ad::in_neighbors(u, fv)); dir("in_neighbors+vvf", ad::in_neighbors(g, u, fv), w); }
      { auto w = same("basic_in_neighbors", [&] { return gv::basic_in_neighbors(g, u); }, ad::basic_in_neighbors(u)); dir("basic_in_neighbors", ad::basic_in_neighbors(g, u), w); w = same("basic_in_neighbors+vvf", [&] { return gv::basic_in_neighbors(g, u, fv); }, ad::basic_in_neighbors(u, fv)); dir("basic_in_neighbors+vvf", ad::basic_in_neighbors(g, u, fv), w); } }
    Tally tl; { TallyAlloc<bool> al(&tl); 
#define SEARCH(NAME, F) { auto w = same(#NAME, [&] { return gv::NAME(g, u); }, ad::NAME(u)); dir(#NAME, ad::NAME(g, u), w); w = same(#NAME "+f", [&] { return gv::NAME(g, u, F); }, ad::NAME(u, F)); dir(#NAME "+f", ad::NAME(g, u, F), w); eq(rows(g | ad::NAME(u, F, al), #NAME "+f+alloc"), w, #NAME, "allocator"); dir(#NAME "+f+alloc", ad::NAME(g, u, F, al), w); }
    SEARCH(vertices_dfs, fv) SEARCH(edges_dfs, fe) SEARCH(vertices_bfs, fv) SEARCH(edges_bfs, fe)
#define TOPO(NAME, F) { auto w = same(#NAME, [&] { return gv::NAME(g); }, ad::NAME()); dir(#NAME, ad::NAME(g), w); w = same(#NAME "+f", [&] { return gv::NAME(g, F); }, ad::NAME(F)); dir(#NAME "+f", ad::NAME(g, F), w); eq(rows(g | ad::NAME(F, al), #NAME "+f+alloc"), w, #NAME, "allocator"); dir(#NAME "+f+alloc", ad::NAME(g, F, al), w); }
    TOPO(vertices_topological_sort, fv) TOPO(edges_topological_sort, fe) } c.check(tl.live == 0, "pipe-allocator-leak"); c.check(tl.calls > 0, "pipe-allocator-unused");
    (void)und; };
  // half of the representations piped as mutable graphs, half as const ones
  if constexpr (std::string_view(Name<G>::v).back() & 1) all(gr); else all(cg);
  if (!full.es.empty()) { c.nontrivial(hcomb(hcomb(full.hash(), hstr(Name<G>::v)), uid)); c.sample(std::string(Name<G>::v) + " " + base.str()); }
}
// a graph whose edge and vertex values cannot be copied silently: every copy is counted
struct Cn { static inline u64 copies = 0; int v = 0; Cn() = default; explicit Cn(int x) : v(x) {} Cn(const Cn& o) : v(o.v) { ++copies; } Cn& operator=(const Cn& o) { v = o.v; ++copies; return *this; } Cn(Cn&&) = default; Cn& operator=(Cn&&) = default; };
template <class G> void nocopy(Ctx& c) {
  GenOpt o; o.maxn = 8; o.allow_empty = false; auto base = gen_graph(c.rng, o); if (!base.n) return; c.input(base.str());
  using CE2 = graph::copyable_edge_t<u32, Cn>; std::vector<CE2> es; for (auto& e : base.es) es.push_back({e.s, e.t, Cn(e.w)}); std::vector<graph::copyable_vertex_t<u32, Cn>> vs; for (u32 i = 0; i < base.n; ++i) vs.push_back({i, Cn((int)i + 50)});
  G g; g.load_vertices(vs, std::identity{}, base.n); g.load_edges(es, std::identity{}, base.n, es.size()); const u64 before = Cn::copies; i64 sum = 0; u64 k = 0;
  auto touch = [&](auto&& v) { for ([[maybe_unused]] auto&& x : v) { ++k; } };
  touch(g | ad::vertexlist()); touch(g | ad::edgelist()); touch(g | ad::incidence(0u)); touch(g | ad::neighbors(0u)); touch(g | ad::basic_edgelist()); touch(g | ad::basic_vertexlist()); touch(g | ad::basic_incidence(0u)); touch(g | ad::basic_neighbors(0u)); touch(g | ad::vertices_dfs(0u)); touch(g | ad::edges_dfs(0u)); touch(g | ad::vertices_bfs(0u)); touch(g | ad::edges_bfs(0u)); touch(g | ad::vertices_topological_sort()); touch(g | ad::edges_topological_sort());
  for (auto&& x : g | ad::edgelist() | std::views::take(1000)) sum += graph::edge_value(g, x.edge).v; i64 want = 0; for (auto& e : base.es) want += e.w; c.check(sum == want, "pipe-values");
  c.checkf(Cn::copies == before, "pipe-copies-the-graph", [&] { return std::format("{} values copied", Cn::copies - before); });
  // a change made through the graph is seen by views created before it
  auto view = g | ad::edgelist(); auto vl = g | ad::vertexlist(); for (auto&& x : view) graph::edge_value(g, x.edge).v += 1000; for (auto&& x : vl) graph::vertex_value(g, x.vertex).v += 1000; i64 s2 = 0, s3 = 0; for (auto&& x : view) s2 += graph::edge_value(g, x.edge).v; for (auto&& x : vl) s3 += graph::vertex_value(g, x.vertex).v; i64 w3 = 0; for (u32 i = 0; i < base.n; ++i) w3 += i + 1050;
  c.check(s2 == want + 1000 * (i64)base.es.size(), "pipe-sees-changes", "edge values"); c.check(s3 == w3, "pipe-sees-changes", "vertex values"); c.count("pipes", 20); c.count("elements", k); if (base.es.size()) c.nontrivial(hcomb(base.hash(), 77)); }
#define S(G) TS(run, G, 120, 4000)
#if IN(0)
S(vov) 
using ncv = gc::dynamic_graph<Cn, Cn, void, u32, false, gc::vov_graph_traits<Cn, Cn, void, u32, false>>; using ncl = gc::dynamic_graph<Cn, Cn, void, u32, false, gc::vol_graph_traits<Cn, Cn, void, u32, false>>;
SUITE(nocopy_vov, 1000, 20000) { nocopy<ncv>(c); }
SUITE(nocopy_vol, 1000, 20000) { nocopy<ncl>(c); }
#elif IN(1)
S(csr) S(vofl)
#elif IN(2)
S(ual)
#elif IN(3)
S(vob)
#elif IN(4)
S(vlb)
#elif IN(5)
S(vos) S(vvi)
#elif IN(6)
S(dov) S(vom)
#elif IN(7)
S(vvp) S(vol)
#elif IN(8)
S(mtx) S(atl)
#elif IN(9)
S(fru) S(mir)
#endif
