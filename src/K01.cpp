// PARTS: 10
// RULE: random contents in every supported representation (27 dynamic-graph container combinations, bidirectional pairings, compressed and undirected graphs, standard containers used directly as graphs with each documented edge element pattern, and user graphs that override customisation points by members and by free functions), const and non-const; all customisation points (vertices, counts, lookups by descriptor and id, degrees, sources, targets, in-edges, edge tests, totals, values, partitions) are compared with the content and with each other, and writes through the value points must land in exactly that element. Non-trivial: at least two edges; distinct by (content, representation).
// MIN: content_checks=8000
// MIN: edges_read=40000
// MIN: in_lookups=20000
// MIN: raw_checks=6000
// MIN: typed_queries=50000
#include "vslots.hpp"
using namespace vg;
template <class G> void more(Ctx& c, G& g, const Content<typename Tr<std::remove_const_t<G>>::Id>& m) {
  using T = Tr<std::remove_const_t<G>>; using Id = typename T::Id; using CId = graph::vertex_id_t<G>; std::vector<Id> ids_; for (auto& [k, a] : m.out) ids_.push_back(k);
  for (int q = 0; q < 12 && !ids_.empty(); ++q) { Id x = c.rng.pick(ids_), y = c.rng.pick(ids_); auto u = *graph::find_vertex(g, (CId)x), v = *graph::find_vertex(g, (CId)y); auto& o = m.out.at(y); bool has = std::any_of(o.begin(), o.end(), [&](auto& a) { return a.t == x; }); c.count("in_lookups"); // is there an edge y -> x
    auto ends = [&](auto e, const char* w) { Id s = (Id)graph::source_id(g, e), t = (Id)graph::target_id(g, e); bool ok = T::und ? (s == x && t == y) || (s == y && t == x) : s == y && t == x; c.checkf(ok, "find-in-edge", [&] { return std::format("{}: looking for {}->{}, got {}->{}", w, ids(y), ids(x), ids(s), ids(t)); }); if constexpr (has_ev<G>) c.check(std::any_of(o.begin(), o.end(), [&](auto& a) { return a.t == x && a.w == num(graph::edge_value(g, e)); }), "find-in-edge", "value"); };
    if constexpr (requires { graph::contains_in_edge(g, u, v); }) c.checkf(graph::contains_in_edge(g, u, v) == has, "contains-in-edge", [&] { return std::format("({}, {}) expected {}", ids(x), ids(y), has); });
    if constexpr (requires { graph::contains_in_edge(g, (CId)x, (CId)y); }) c.check(graph::contains_in_edge(g, (CId)x, (CId)y) == has, "contains-in-edge", "by ids");
    if (has) { if constexpr (requires { graph::find_in_edge(g, u, v); }) ends(graph::find_in_edge(g, u, v), "(u,v)"); if constexpr (requires { graph::find_in_edge(g, u, (CId)y); }) ends(graph::find_in_edge(g, u, (CId)y), "(u,vid)"); if constexpr (requires { graph::find_in_edge(g, (CId)x, (CId)y); }) ends(graph::find_in_edge(g, (CId)x, (CId)y), "(uid,vid)"); } }
  // one partition unless told otherwise
  c.check((size_t)graph::num_partitions(g) == 1, "num-partitions"); for (auto&& u : graph::vertices(g)) c.check((size_t)graph::partition_id(g, u) == 0, "partition-id");
  if constexpr (requires { graph::vertices(g, 0); }) { size_t k = 0; auto it = graph::vertices(g).begin(); for (auto&& u : graph::vertices(g, 0)) { c.check(u == *it, "partition-vertices"); ++it; ++k; } c.check(k == m.out.size(), "partition-vertices"); for ([[maybe_unused]] auto&& u : graph::vertices(g, 1)) c.check(false, "partition-vertices", "partition 1"); }
  if constexpr (requires { graph::num_vertices(g, 0); }) c.check((size_t)graph::num_vertices(g, 0) == m.out.size() && (size_t)graph::num_vertices(g, 1) == 0, "partition-size");
  for (auto&& u : graph::vertices(g)) { c.check((size_t)graph::out_degree(g, u) == (size_t)graph::degree(g, u), "out-degree"); size_t k = 0; for (auto&& e : graph::out_edges(g, u)) { (void)e; ++k; } c.check(k == (size_t)graph::degree(g, u), "out-edges"); }
}
template <class G, class D> void kind(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { D d(c, c.rng.chance(85) ? 9 : 40); d.log = std::string(name) + " "; typename D::M m; G g = d.make(m); for (int k = 0; k < 5 && d.stored(m) < 2; ++k) d.step(g, m); d.verify(g, m);
    auto ct = [&] { if constexpr (requires { m.c; }) return m.c; else if constexpr (requires { m.es; }) return m.template content<typename Tr<G>::Id>(); else return m; }();
    std::vector<typename Tr<G>::Id> miss; check_content<G>(c, g, ct, miss); check_content<const G>(c, g, ct, miss); more<G>(c, g, ct); more<const G>(c, g, ct);
    if (d.stored(m) > 1) { c.nontrivial(hcomb(d.hash(m), hstr(name))); if (d.log.size() < 300) c.sample(d.log); } }
  c.check(Tok::live == live0, "value-leak");
}
// ---- standard containers used directly as graphs
struct EdgeM { int t; int w; int target_id() const { return t; } bool operator==(const EdgeM&) const = default; };
template <class E> auto tgt(const E& e) { if constexpr (std::integral<E>) return (int)e; else if constexpr (requires { e.t; }) return e.t; else return std::get<0>(e); }
template <class E, class T> E mke(T t, int w) { if constexpr (std::integral<E>) return (E)t; else if constexpr (requires(E e) { e.t; }) return E{t, w}; else if constexpr (std::tuple_size_v<E> == 2) return E{t, w}; else if constexpr (std::is_same_v<E, std::array<int, 3>>) return E{t, w, w + 1}; else return E{t, w, std::to_string(w)}; }
template <class G> constexpr bool mapv = requires { typename G::mapped_type; };
template <class G> struct inner_of { using type = typename G::value_type; }; template <class G> requires mapv<G> struct inner_of<G> { using type = typename G::mapped_type; };
template <class G> void raw(Ctx& c, const char* name) {
  using In = typename inner_of<G>::type; using E = typename In::value_type; using CId = graph::vertex_id_t<G>;
  GenOpt o; o.maxn = c.rng.chance(85) ? 9 : 40; auto el = gen_graph(c.rng, o); std::vector<std::vector<E>> want(el.n); std::set<std::pair<u32, u32>> once;
  auto key = [&](u32 v) -> CId { if constexpr (mapv<G> && !std::integral<CId>) return std::format("vertex number {:03}", v); else if constexpr (mapv<G>) return (CId)(v * 7) - 3; else return (CId)v; };
  auto tkey = [&](u32 v) { if constexpr (std::integral<CId>) return (int)key(v); else return key(v); }; int w = 1;
  G g{}; if constexpr (!mapv<G>) { if constexpr (requires { g.resize(el.n); }) g.resize(el.n); else { el.n = (u32)g.size(); want.resize(el.n); } } std::string log = std::string(name) + std::format(" n={} ", el.n);
  auto inner = [&](u32 v) -> In& { if constexpr (mapv<G>) return g[key(v)]; else return g[v]; };
  for (u32 v = 0; v < el.n; ++v) inner(v);
  for (auto& e : el.es) { if (e.s >= el.n || e.t >= el.n) continue; E x = mke<E>(tkey(e.t), w++); auto& in = inner(e.s); log += std::format("{}>{} ", e.s, e.t); if constexpr (keyed<In>) { if (in.insert(x).second) { want[e.s].push_back(x); std::sort(want[e.s].begin(), want[e.s].end()); } } else if constexpr (requires { in.push_back(x); }) { in.push_back(x); want[e.s].push_back(x); } else { in.push_front(x); want[e.s].insert(want[e.s].begin(), x); } }
  c.input(log); size_t total = 0; for (auto& x : want) total += x.size();
  auto chk = [&](auto& gg) { c.count("raw_checks"); using GG = std::remove_reference_t<decltype(gg)>; c.check((size_t)graph::num_vertices(gg) == el.n, "num-vertices"); std::map<CId, u32> num_of; for (u32 v = 0; v < el.n; ++v) num_of[key(v)] = v; size_t seen = 0;
    for (auto&& u : graph::vertices(gg)) { CId id = graph::vertex_id(gg, u); auto f = num_of.find(id); c.check(f != num_of.end(), "vertex-id"); u32 v = f->second; ++seen; auto fv = graph::find_vertex(gg, id); c.check(fv != graph::vertices(gg).end() && *fv == u, "find-vertex");
      c.checkf((size_t)graph::degree(gg, u) == want[v].size(), "degree", [&] { return std::format("degree of {} is {} expected {}", v, (size_t)graph::degree(gg, u), want[v].size()); }); if constexpr (requires { graph::num_edges(gg, u); }) c.check((size_t)graph::num_edges(gg, u) == want[v].size(), "num-edges", "of a vertex"); if constexpr (requires { graph::degree(gg, id); }) c.check((size_t)graph::degree(gg, id) == want[v].size(), "degree", "by id");
      if constexpr (requires { graph::vertex_value(gg, u); }) { auto& vv = graph::vertex_value(gg, u); if constexpr (std::is_same_v<std::remove_cvref_t<decltype(vv)>, In>) { if constexpr (mapv<G>) c.check((const void*)&vv == (const void*)&gg.find(id)->second, "vertex-value"); else c.check((const void*)&vv == (const void*)&gg[v], "vertex-value"); } }
      size_t k = 0; for (auto&& e : graph::edges(gg, u)) { c.check(k < want[v].size(), "edge-range"); auto& x = want[v][k]; { c.checkf((CId)graph::target_id(gg, e) == (CId)tgt(x), "target-id", [&] { return std::format("edge {} of {}: target {} expected {}", k, v, (CId)graph::target_id(gg, e), tgt(x)); }); auto t = graph::target(gg, e); c.check((CId)graph::vertex_id(gg, t) == (CId)tgt(x), "target"); }
        c.check((CId)graph::source_id(gg, e) == id && graph::source(gg, e) == u, "source-id"); decltype(auto) ev = graph::edge_value(gg, e);
        if constexpr (std::integral<E>) c.check((int)ev == tgt(x), "edge-value"); else if constexpr (std::is_same_v<E, EdgeM>) c.check(ev == x, "edge-value"); else if constexpr (std::tuple_size_v<E> == 2) c.check(ev == std::get<1>(x), "edge-value"); else c.check(std::get<0>(ev) == std::get<1>(x) && std::get<1>(ev) == std::get<2>(x), "edge-value"); ++k; c.count("edges_read"); }
      c.check(k == want[v].size(), "edge-range"); c.check((size_t)std::ranges::distance(graph::edges(gg, u)) == k, "edge-range", "distance"); if constexpr (requires { graph::edges(gg, id); }) { k = 0; for (auto&& e : graph::edges(gg, id)) { c.check(k < want[v].size() && (CId)graph::source_id(gg, e) == id, "edges-by-id"); c.check((CId)graph::target_id(gg, e) == (CId)tgt(want[v][k]), "edges-by-id"); ++k; } c.check(k == want[v].size(), "edges-by-id"); }
      for (u32 t = 0; t < el.n; ++t) { bool has = false; for (auto& x : want[v]) has |= (CId)tgt(x) == key(t); auto tv = *graph::find_vertex(gg, key(t)); c.checkf(graph::contains_edge(gg, u, tv) == has, "contains-edge", [&] { return std::format("({}, {}) expected {}", v, t, has); }); if constexpr (requires { graph::contains_edge(gg, id, key(t)); }) c.check(graph::contains_edge(gg, id, key(t)) == has, "contains-edge", "by ids"); if (has) { auto e = graph::find_vertex_edge(gg, u, tv); c.check((CId)graph::target_id(gg, e) == key(t) && (CId)graph::source_id(gg, e) == id, "find-edge"); if constexpr (requires { graph::find_vertex_edge(gg, u, key(t)); }) c.check((CId)graph::target_id(gg, graph::find_vertex_edge(gg, u, key(t))) == key(t), "find-edge", "(u,vid)"); if constexpr (requires { graph::find_vertex_edge(gg, id, key(t)); }) c.check((CId)graph::target_id(gg, graph::find_vertex_edge(gg, id, key(t))) == key(t), "find-edge", "(uid,vid)"); } } }
    c.check(seen == el.n, "vertex-range"); if constexpr (requires { graph::num_edges(gg); }) c.checkf((size_t)graph::num_edges(gg) == total, "num-edges", [&] { return std::format("num_edges(g) is {} expected {}", (size_t)graph::num_edges(gg), total); }); if constexpr (requires { graph::has_edges(gg); }) c.check(graph::has_edges(gg) == (total > 0), "has-edges"); c.check((size_t)graph::num_partitions(gg) == 1, "num-partitions"); (void)sizeof(GG); };
  chk(g); chk(std::as_const(g));
  // writing through edge_value changes that element and nothing else
  if constexpr (!std::integral<E> && !keyed<In> && !std::is_same_v<E, EdgeM>) if constexpr (std::tuple_size_v<E> == 2) if (total) { std::vector<u32> ne; for (u32 v = 0; v < el.n; ++v) if (!want[v].empty()) ne.push_back(v); u32 v = c.rng.pick(ne); size_t k = c.rng.below(want[v].size()), j = 0; for (auto&& e : graph::edges(g, *graph::find_vertex(g, key(v)))) if (j++ == k) { graph::edge_value(g, e) = 99; break; } std::get<1>(want[v][k]) = 99; chk(g); }
  if (total > 1) { c.nontrivial(hcomb(el.hash(), hstr(name))); c.sample(log); }
}
// ---- graphs of the user's own that override customisation points
namespace user {
struct Net { using R = std::vector<std::vector<std::pair<int, int>>>; using iterator = R::iterator; using const_iterator = R::const_iterator; R rows; std::vector<int> vals; int title = 0; mutable int calls = 0; auto begin() { return rows.begin(); } auto end() { return rows.end(); } auto begin() const { return rows.begin(); } auto end() const { return rows.end(); } auto size() const { return rows.size(); } auto& operator[](size_t i) { return rows[i]; } auto& operator[](size_t i) const { return rows[i]; } };
template <class U> int& vertex_value(Net& g, const U& u) { ++g.calls; return g.vals[u.vertex_id()]; } template <class U> const int& vertex_value(const Net& g, const U& u) { ++g.calls; return g.vals[u.vertex_id()]; }
inline int& graph_value(Net& g) { return g.title; } inline const int& graph_value(const Net& g) { return g.title; } inline size_t num_edges(const Net& g) { ++g.calls; size_t m = 0; for (auto& r : g.rows) m += r.size(); return m; }
struct Mem : Net { size_t num_vertices() const { ++calls; return rows.size(); } bool has_edges() const { ++calls; for (auto& r : rows) if (!r.empty()) return true; return false; } size_t num_partitions() const { return 3; } template <class U> size_t partition_id(const U& u) const { return u.vertex_id() % 3; } };
}
template <class N> void custom(Ctx& c, const char* name) {
  GenOpt o; o.maxn = 9; auto el = gen_graph(c.rng, o); N g; g.rows.resize(el.n); g.vals.resize(el.n); for (u32 v = 0; v < el.n; ++v) g.vals[v] = 100 + (int)v; g.title = 5; size_t total = 0; for (auto& e : el.es) { g.rows[e.s].push_back({(int)e.t, (int)total}); ++total; } c.input(el.str()); c.count("custom_checks");
  const N& k = g; c.check((size_t)graph::num_vertices(k) == el.n && graph::graph_value(k) == 5 && (size_t)graph::num_edges(k) == total && graph::has_edges(k) == (total > 0), "custom-counts"); graph::graph_value(g) = 6; c.check(g.title == 6, "custom-graph-value");
  for (auto&& u : graph::vertices(g)) { size_t v = graph::vertex_id(g, u); c.check(graph::vertex_value(g, u) == 100 + (int)v && &graph::vertex_value(k, u) == &k.vals[v], "custom-vertex-value"); graph::vertex_value(g, u) += 0; size_t j = 0; for (auto&& e : graph::edges(g, u)) { c.check((size_t)graph::target_id(g, e) == (size_t)g.rows[v][j].first && graph::edge_value(g, e) == g.rows[v][j].second && (size_t)graph::source_id(g, e) == v, "custom-edges"); ++j; } c.check(j == g.rows[v].size() && (size_t)graph::degree(g, u) == j, "custom-edges");
    if constexpr (std::is_same_v<N, user::Mem>) c.check((size_t)graph::partition_id(g, u) == v % 3 && (size_t)graph::num_partitions(g) == 3, "custom-partition"); }
  c.check(g.calls > 0 || el.n == 0, "custom-not-called"); if (total > 1) c.nontrivial(hcomb(el.hash(), hstr(name)));
}
// ---- ids of every integral type, on graphs with more vertices than the narrow ones can count
template <class I, class J, class G> void query(Ctx& c, G& g, u32 x, u32 y, bool has, size_t deg) {
  if (!std::in_range<I>(x) || !std::in_range<J>(y)) return; const I i = (I)x; const J j = (J)y; using Id = graph::vertex_id_t<G>; c.count("typed_queries");
  auto say = [&](const char* what) { return std::format("{} with ids {} ({} bytes) and {} ({} bytes)", what, x, sizeof(I), y, sizeof(J)); };
  auto f = graph::find_vertex(g, i); c.checkf((u32)graph::vertex_id(g, *f) == x, "find-vertex", [&] { return say("find_vertex"); }); auto u = *f;
  if constexpr (requires { graph::contains_edge(g, i, j); }) c.checkf(graph::contains_edge(g, i, j) == has, "contains-edge", [&] { return say("contains_edge"); });
  if constexpr (requires { graph::degree(g, i); }) c.checkf((size_t)graph::degree(g, i) == deg, "degree", [&] { return say("degree"); });
  if constexpr (requires { graph::edges(g, i); }) { size_t k = 0; for (auto&& e : graph::edges(g, i)) { c.check((u32)graph::source_id(g, e) == x, "edges-by-id"); ++k; } c.checkf(k == deg, "edges-by-id", [&] { return say("edges"); }); }
  if constexpr (requires { graph::vertex_value(g, graph::find_vertex(g, i)); }) {}
  if (has) { auto ok = [&](auto e) { return (u32)graph::source_id(g, e) == x && (u32)graph::target_id(g, e) == y; };
    if constexpr (requires { graph::find_vertex_edge(g, i, j); }) c.checkf(ok(graph::find_vertex_edge(g, i, j)), "find-edge", [&] { return say("find_vertex_edge(uid,vid)"); });
    if constexpr (requires { graph::find_vertex_edge(g, u, j); }) c.checkf(ok(graph::find_vertex_edge(g, u, j)), "find-edge", [&] { return say("find_vertex_edge(u,vid)"); }); }
  if constexpr (requires { graph::contains_in_edge(g, j, i); }) c.checkf(graph::contains_in_edge(g, j, i) == has, "contains-in-edge", [&] { return say("contains_in_edge"); });
  (void)sizeof(Id);
}
template <class G> void wide(Ctx& c, const char* name) {
  EL el; el.n = 258 + (u32)c.rng.below(500); el.fam = "wide"; std::vector<u32> hub; for (int k = 0; k < 4; ++k) hub.push_back((u32)c.rng.below(k % 2 ? 120 : 256)); std::set<u32> near; for (u32 h : hub) for (u32 d : {0u, 256u, 512u}) if (h + d < el.n) near.insert(h + d); const std::vector<u32> pool(near.begin(), near.end());
  std::set<std::pair<u32, u32>> has; std::map<u32, size_t> deg; for (int k = 4 + (int)c.rng.below(30); k > 0; --k) { u32 s = c.rng.pick(pool), t = c.rng.pick(pool); if (std::is_same_v<G, ual> && has.count({t, s})) continue; if (!has.insert({s, t}).second) continue; el.es.push_back({s, t, k}); }
  if constexpr (std::is_same_v<G, ual>) { auto h = has; for (auto& [s, t] : h) has.insert({t, s}); }
  for (auto& [s, t] : has) ++deg[s];
  c.input(std::string(name) + " " + el.str()); G g = build<G>(el); const G& k = g;
  for (int q = 0; q < 60; ++q) { u32 x = c.rng.pick(pool), y = c.rng.pick(pool); if (c.rng.chance(50) && !el.es.empty()) { auto& e = c.rng.pick(el.es); x = e.s; y = c.rng.chance(50) ? e.t : (e.t + 256) % 512; if (y >= el.n) y = e.t; } bool h = has.count({x, y}); size_t d = deg.count(x) ? deg[x] : 0;
    query<unsigned char, unsigned char>(c, k, x, y, h, d); query<short, short>(c, k, x, y, h, d); query<int, int>(c, k, x, y, h, d); query<i64, i64>(c, k, x, y, h, d); query<size_t, size_t>(c, g, x, y, h, d); query<unsigned, unsigned char>(c, g, x, y, h, d); query<signed char, u64>(c, k, x, y, h, d); query<i64, std::uint16_t>(c, g, x, y, h, d); }
  if (el.es.size() > 1) c.nontrivial(hcomb(el.hash(), hstr(name)));
}
#define W(G, q) SUITE(wide_##G, q, q * 100) { wide<G>(c, #G); }
template <template <class, class, class, class, bool> class T> using Gt = dyn<T, Tok, Tok, Tok, u32>;
template <template <class, class, class, class, bool> class T> using Gn = dyn<T, Tok, std::string, void, std::string>;
template <class EV, class VV, class GV, class ID> using dobG = gc::dynamic_graph<EV, VV, GV, ID, true, dob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using mobG = gc::dynamic_graph<EV, VV, GV, ID, true, mob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using uobG = gc::dynamic_graph<EV, VV, GV, ID, true, uob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using vmbG = gc::dynamic_graph<EV, VV, GV, ID, true, vmb_traits<EV, VV, GV, ID>>;
using b1 = dobG<Tok, Tok, Tok, u32>; using b2 = mobG<Tok, int, void, u32>; using b3 = uobG<Tok, void, void, std::string>; using b4 = vmbG<int, void, int, u64>;
using c1 = gc::compressed_graph<Tok, Tok, Tok>; using c2 = gc::compressed_graph<void, void, void>; using c3 = gc::compressed_graph<int, void, std::string, u64, u64>; using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<int, std::string, void, u64>;
#define D(K, TR, q) SUITE(K##_##TR, q, q * 100) { kind<K<gc::TR##_graph_traits>, DynD<K<gc::TR##_graph_traits>>>(c, #K " " #TR); }
#define B(G, q) SUITE(bidir_##G, q, q * 100) { kind<G, DynD<G>>(c, #G); }
#define C(G, q) SUITE(csr_##G, q, q * 100) { kind<G, CsrD<G>>(c, #G); }
#define U(G, q) SUITE(ual_##G, q, q * 100) { kind<G, UalD<G>>(c, #G); }
#define R(N, q, ...) using N = __VA_ARGS__; SUITE(raw_##N, q, q * 100) { raw<N>(c, #N); }
using pid = std::pair<int, int>; using tid = std::tuple<int, int>; using tids = std::tuple<int, int, std::string>; using a2 = std::array<int, 2>; using a3 = std::array<int, 3>;
#if IN(0)
D(Gt, vov, 200) D(Gt, vol, 150) D(Gt, vofl, 150) D(Gt, vod, 150)
R(vec_vec_int, 300, std::vector<std::vector<int>>) R(vec_vec_size, 200, std::vector<std::vector<size_t>>) R(vec_list_int, 200, std::vector<std::list<int>>)
#elif IN(1)
D(Gt, vos, 150) D(Gt, vom, 150) D(Gt, vous, 150) D(Gt, voum, 150)
R(vec_fl_pair, 200, std::vector<std::forward_list<pid>>) R(vec_set_int, 200, std::vector<std::set<int>>) R(vec_deque_pair, 200, std::vector<std::deque<pid>>)
#elif IN(2)
D(Gt, dov, 120) D(Gt, dol, 120) D(Gt, dofl, 120) D(Gt, dod, 120)
R(deq_vec_int, 200, std::deque<std::vector<int>>) R(deq_list_tuple, 200, std::deque<std::list<tid>>) R(arr_vec_pair, 200, std::array<std::vector<pid>, 7>)
#elif IN(3)
D(Gt, dos, 120) D(Gt, dous, 120) D(Gt, mov, 120) D(Gn, mov, 120)
R(vec_vec_tids, 200, std::vector<std::vector<tids>>) R(vec_vec_a2, 150, std::vector<std::vector<a2>>) R(vec_vec_a3, 150, std::vector<std::vector<a3>>)
#elif IN(4)
D(Gn, mol, 120) D(Gt, mofl, 120) D(Gt, mod, 120) D(Gn, mos, 120)
R(vec_vec_pair, 200, std::vector<std::vector<pid>>) R(vec_vec_tuple, 200, std::vector<std::vector<tid>>) R(vec_vec_struct, 200, std::vector<std::vector<EdgeM>>)
#elif IN(5)
D(Gt, mom, 120) D(Gt, mous, 120) D(Gt, uov, 120) D(Gn, uol, 120)
R(map_vec_pair, 200, std::map<int, std::vector<pid>>) R(map_list_int, 200, std::map<int, std::list<int>>)
#elif IN(6)
D(Gt, uofl, 120) D(Gt, uod, 120) D(Gt, uos, 120) D(Gn, uous, 120)
R(umap_vec_pair, 200, std::unordered_map<int, std::vector<pid>>) R(umap_fl_int, 200, std::unordered_map<int, std::forward_list<int>>) R(smap_vec, 200, std::map<std::string, std::vector<std::pair<std::string, int>>>) R(sumap_list, 200, std::unordered_map<std::string, std::list<std::tuple<std::string, int>>>)
SUITE(custom_adl, 300, 20000) { custom<user::Net>(c, "adl"); } SUITE(custom_member, 300, 20000) { custom<user::Mem>(c, "member"); }
#elif IN(7)
B(b1, 150) B(b2, 120) B(b3, 120) B(b4, 120) C(c1, 200) C(c2, 120) C(c3, 120) U(u1, 200) U(u2, 150)
#elif IN(8)
W(vov, 40) W(vofl, 30) W(vom, 30) W(vous, 30) W(dol, 30) W(vob, 40) W(csr, 40)
#elif IN(9)
W(ual, 40) W(vvi, 40) W(vvp, 40) W(mtx, 20) W(atl, 30) W(fru, 30) W(mir, 30)
#endif
