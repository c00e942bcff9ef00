// PARTS: 3
// RULE: random vertex counts and edge sets with random strictly increasing partition start lists (from one partition to one per vertex, last start up to the vertex count), given to every partition-taking constructor as vector, list, deque, array-like span or vector of another integer type; per partition the listed vertices, counts, and per vertex its partition id are compared with the declared ranges, on const and non-const graphs, after copies, moves, assignments, swaps, later loads and clear; lists that do not start at zero, do not increase strictly, or start beyond the last vertex must throw. Non-trivial: at least two partitions; distinct by (vertex count, list).
// ASSUME: vertices loaded after construction belong to the last partition
// MIN: partition_checks=10000
// MIN: vertices_seen=100000
// MIN: refused=800
#include "vcsr.hpp"
using namespace vg;
template <class G> void parts_ok(Ctx& c, G& g, const std::vector<u64>& starts, u64 n, const char* when) {
  auto ctx = [&](const char* k) { std::string s; for (u64 x : starts) s += std::to_string(x) + " "; return std::format("{} {}: {} vertices, partitions start at {}", when, k, n, s); }; c.count("partition_checks");
  const u64 np = starts.size(); c.checkf((u64)graph::num_vertices(g) == n, "num-vertices", [&] { return ctx("num_vertices"); }); c.checkf((u64)graph::num_partitions(g) == np, "num-partitions", [&] { return ctx("num_partitions") + std::format(" but num_partitions is {}", (u64)graph::num_partitions(g)); });
  std::vector<u64> all;
  for (u64 p = 0; p < np; ++p) { u64 lo = starts[p], hi = p + 1 < np ? starts[p + 1] : n, k = lo; auto r = graph::vertices(g, p);
    for (auto&& u : r) { u64 id = (u64)graph::vertex_id(g, u); c.checkf(id == k && k < hi, "partition-vertices", [&] { return ctx("vertices") + std::format(": partition {} lists vertex {}", p, id); }); c.checkf((u64)graph::partition_id(g, u) == p, "partition-id", [&] { return ctx("partition_id") + std::format(": vertex {} says {} expected {}", id, (u64)graph::partition_id(g, u), p); }); c.check(u == *graph::find_vertex(g, (graph::vertex_id_t<G>)id), "partition-vertices", "other descriptor"); all.push_back(id); ++k; }
    c.checkf(k == hi, "partition-vertices", [&] { return ctx("vertices") + std::format(": partition {} ends before {}", p, k); }); c.checkf((u64)graph::num_vertices(g, p) == hi - lo && (u64)r.size() == hi - lo, "partition-size", [&] { return ctx("num_vertices") + std::format(": partition {} has {}", p, (u64)graph::num_vertices(g, p)); });
    if (np < 100) { int ip = (int)p; u64 z = 0; for (auto&& u : graph::vertices(g, ip)) { (void)u; ++z; } c.check(z == hi - lo && (u64)graph::num_vertices(g, ip) == z, "partition-vertices", "signed partition id"); } }
  c.check(all.size() == n, "partition-cover"); { u64 k = 0; for (auto&& u : graph::vertices(g)) { c.check((u64)graph::vertex_id(g, u) == all[k], "partition-cover"); u64 want = 0; while (want + 1 < np && starts[want + 1] <= k) ++want; c.checkf((u64)graph::partition_id(g, u) == want, "partition-id", [&] { return ctx("partition_id"); }); ++k; } }
  for (u64 p : {np, np + 1, np + 1000}) { u64 z = 0; for (auto&& u : graph::vertices(g, p)) { (void)u; ++z; } c.check(z == 0 && (u64)graph::num_vertices(g, p) == 0, "partition-out-of-range"); } { u64 z = 0; for (auto&& u : graph::vertices(g, -1)) { (void)u; ++z; } c.check(z == 0, "partition-out-of-range", "-1"); }
  c.count("vertices_seen", n);
}
template <class G> void run(Ctx& c, const char* name) {
  using T = Tr<G>; using Id = typename T::Id; using EV = typename T::EV; using VV = typename T::VV; using CEd = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>;
  const i64 live0 = Tok::live;
  { u64 n = 1 + c.rng.below(c.rng.chance(80) ? 12 : sizeof(Id) == 1 ? 100 : 300); std::vector<CEd> es; u64 top = 0; u64 m = c.rng.chance(15) ? 0 : 1 + c.rng.below(2 * n); for (u64 i = 0; i < m; ++i) { Id s = (Id)c.rng.below(n), t = (Id)c.rng.below(n); top = std::max({top, (u64)s + 1, (u64)t + 1}); if constexpr (std::is_void_v<EV>) es.push_back(CEd{s, t}); else es.push_back(CEd{s, t, mkval<EV>((int)i)}); }
    std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.source_id < b.source_id; });
    std::vector<CV> vs; const bool withv = has_vv<G> && c.rng.chance(50); if (withv) { for (u64 i = 0; i < n; ++i) { if constexpr (std::is_void_v<VV>) vs.push_back(CV{(Id)i}); else vs.push_back(CV{(Id)i, mkval<VV>((int)i)}); } } else n = top;
    std::vector<u64> starts{0}; const bool bad = c.rng.chance(20); for (u64 k = 1, x = 0; k < 40; ++k) { x += 1 + c.rng.below(c.rng.chance(50) ? 2 : std::max<u64>(n / 3, 1)); if (x > n || (x == n && c.rng.chance(50)) || c.rng.chance(10)) break; starts.push_back(x); }
    std::vector<u64> given = starts; bool refuse = false;
    if (bad) { switch (c.rng.below(4)) { case 0: given[0] = 1 + c.rng.below(2); for (u64 i = 1; i < given.size(); ++i) given[i] += given[0]; refuse = true; break; case 1: given.insert(given.begin() + (long)c.rng.below(given.size()) + 1, given[0]); refuse = true; break; case 2: if (given.size() > 2) { std::swap(given[1 + c.rng.below(given.size() - 2)], given.back()); refuse = given != starts; } break; case 3: given.push_back(std::max(n, given.back()) + 1 + c.rng.below(5)); refuse = true; break; } if (sizeof(Id) == 1) for (u64 x : given) if (x > 120) return; }
    if (!bad && c.rng.chance(15)) { starts = {0}; given.clear(); } // no list: one partition
    std::string in = std::string(name) + std::format(" n={} starts=", n); for (u64 x : given) in += std::to_string(x) + " "; c.input(in);
    auto conv = [&]<class R>(R) { R r; for (u64 x : given) r.insert(r.end(), (typename R::value_type)x); return r; };
    auto build = [&](auto ps) -> G { auto id = std::identity{};
      if constexpr (has_gv<G>) if (c.rng.chance(40)) { auto gv = mkval<typename T::GV>(5); if constexpr (has_vv<G>) if (withv) return c.rng.chance(50) ? G(std::as_const(gv), es, vs, id, id, ps) : G(std::move(gv), es, vs, id, id, ps); return c.rng.chance(50) ? G(std::as_const(gv), es, id, ps) : G(std::move(gv), es, id, ps); }
      if constexpr (has_vv<G>) if (withv) return G(es, vs, id, id, ps); return G(es, id, ps); };
    std::optional<G> g; bool thrown = false; try { switch (c.rng.below(5)) { case 0: case 1: g.emplace(build(conv(std::vector<Id>{}))); break; case 2: g.emplace(build(conv(std::list<Id>{}))); break; case 3: g.emplace(build(conv(std::deque<u64>{}))); break; default: { auto v = conv(std::vector<int>{}); g.emplace(build(std::span<const int>(v))); break; } } } catch (const graph::graph_error&) { thrown = true; }
    c.checkf(thrown == refuse, "partition-list-refused", [&] { return std::format("list is {}, graph_error: {}", refuse ? "invalid" : "valid", thrown); }); if (thrown) { c.count("refused"); c.nontrivial(hcomb(hstr(in.c_str()), 1)); }
    if (!thrown) { auto chk = [&](G& x, const char* w) { if (c.rng.chance(50)) parts_ok<G>(c, x, starts, n, w); else parts_ok<const G>(c, x, starts, n, w); };
      chk(*g, "after construction"); { G cp(std::as_const(*g)); chk(cp, "copy"); G asg; if (c.rng.chance(50)) asg = build(std::vector<Id>{}); asg = cp; chk(asg, "copy-assigned"); G mv(std::move(cp)); chk(mv, "moved"); G o; std::swap(o, mv); chk(o, "swapped"); *g = std::move(o); chk(*g, "move-assigned"); }
      if (has_vv<G> && c.rng.chance(40)) { u64 n2 = n + c.rng.below(6); std::vector<CV> v2; for (u64 i = 0; i < n2; ++i) { if constexpr (std::is_void_v<VV>) v2.push_back(CV{(Id)i}); else v2.push_back(CV{(Id)i, mkval<VV>((int)i)}); } g->load_vertices(v2); n = n2; c.count("grown"); chk(*g, "after more vertices were loaded"); }
      if (es.empty() && c.rng.chance(60)) { auto e2 = es; for (u64 i = 0; i < n + 2; ++i) { if constexpr (std::is_void_v<EV>) e2.push_back(CEd{(Id)i, (Id)0}); else e2.push_back(CEd{(Id)i, (Id)0, mkval<EV>(1)}); } g->load_edges(e2); n = n + 2; chk(*g, "after edges were loaded"); }
      if (starts.size() > 1) { c.nontrivial(hcomb(hstr(in.c_str()), 2)); c.sample(in); }
      if (c.rng.chance(30)) { g->clear(); starts = {0}; n = 0; chk(*g, "after clear"); if (!es.empty()) { g->load_edges(es); n = top; chk(*g, "refilled"); } } } }
  c.check(Tok::live == live0, "value-leak");
}
using g1 = gc::compressed_graph<int, int, int>; using g2 = gc::compressed_graph<Tok, Tok, Tok, u64, u64>; using g3 = gc::compressed_graph<void, void, void>; using g4 = gc::compressed_graph<void, Tok, void, uint8_t, uint16_t>; using g5 = gc::compressed_graph<Tok, void, std::string, int, u64>; using g6 = gc::compressed_graph<std::string, int, void, i64, u32>;
#define D(G, q) SUITE(part_##G, q, q * 100) { run<G>(c, #G); }
#if IN(0)
D(g1, 3000) D(g2, 2000)
#elif IN(1)
D(g3, 2000) D(g4, 2000)
#elif IN(2)
D(g5, 2000) D(g6, 2000)
#endif
