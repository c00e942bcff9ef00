// PARTS: 6
// RULE: random graphs in 28 representations (4 of them user-written) x full/basic form x whole graph, sub-ranges by descriptor, id and vertex range x value functions (plain, capturing, reference-returning, throwing); each view's elements, size, emptiness and iterator laws compared with the graph's expected vertices. Non-trivial: at least two vertices; distinct by (graph, container).
// ASSUME: sub-ranges only of graphs whose ids ascend in vertex order; sub-range bounds come from the same graph, first not after last
// MIN: views=20000
// MIN: elements=100000
#include "vviews.hpp"
using namespace vg; namespace gv = graph::views;
struct Boom {};
struct Fn { int k = 3; template <class G, class U> i64 operator()(const G& g, const U& u) const { return (i64)graph::vertex_id(g, u) * k + 1; } };
template <class G> void run(Ctx& c) {
  GenOpt o; o.big = 40; auto base = gen_graph(c.rng, o); auto full = full_of<G>(base); c.input(std::string(Name<G>::v) + " " + base.str());
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full);
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>;
    std::vector<u32> order; for (auto&& u : graph::vertices(g)) order.push_back((u32)graph::vertex_id(g, u));
    { auto s = order; if (hashed_vertices<G> || std::is_same_v<G, mir>) std::sort(s.begin(), s.end()); c.checkf(s == md.ids, "graph-vertices", [&] { return std::format("vertices(g) gives {} expected {}", seq(order), seq(md.ids)); }); }
    size_t calls = 0; auto f = [&](const auto& gg, const auto& u) { ++calls; c.check((const void*)std::addressof(gg) == (const void*)std::addressof(g), "value-fn-graph"); return (i64)graph::vertex_id(gg, u) * 3 + 1; };
    auto expect = [&](const std::vector<u32>& got, size_t lo, size_t hi, const char* w) { c.checkf(std::equal(got.begin(), got.end(), order.begin() + lo, order.begin() + hi), "vertexlist-elements", [&] { return std::format("{} yields {} expected {} [{}, {})", w, seq(got), seq(order), lo, hi); }); };
    auto pf = [&](auto&& x) { auto&& [id, u] = x; c.check((u32)graph::vertex_id(g, u) == (u32)id, "vertexlist-descriptor"); return (u32)id; };
    auto pv = [&](auto&& x) { auto&& [id, u, v] = x; c.check((u32)graph::vertex_id(g, u) == (u32)id, "vertexlist-descriptor"); c.check((i64)v == (i64)id * 3 + 1, "vertexlist-value"); return (u32)id; };
    auto bf = [&](auto&& x) { auto&& [id] = x; return (u32)id; };
    auto bv = [&](auto&& x) { auto&& [id, v] = x; c.check((i64)v == (i64)id * 3 + 1, "vertexlist-value"); return (u32)id; };
    size_t n = order.size();
    expect(walk(c, gv::vertexlist(g), pf, "vertexlist", n), 0, n, "vertexlist");
    expect(walk(c, gv::vertexlist(g, f), pv, "vertexlist+vvf", n), 0, n, "vertexlist+vvf");
    expect(walk(c, gv::basic_vertexlist(g), bf, "basic_vertexlist", n), 0, n, "basic_vertexlist");
    expect(walk(c, gv::basic_vertexlist(g, f), bv, "basic_vertexlist+vvf", n), 0, n, "basic_vertexlist+vvf");
    expect(walk(c, gv::vertexlist(g, Fn{}), pv, "vertexlist+functor", n), 0, n, "vertexlist+functor"); expect(walk(c, gv::basic_vertexlist(g, Fn{}), bv, "basic_vertexlist+functor", n), 0, n, "basic_vertexlist+functor");
    { calls = 0; auto v = gv::vertexlist(g, f); size_t k = 0; for (auto it = v.begin(); it != v.end(); ++it) { (void)*it; ++k; } c.checkf(calls == k, "value-fn-calls", [&] { return std::format("{} calls for {} elements", calls, k); }); }
    // reference-returning and throwing value functions
    { std::map<u32, i64> store; for (u32 i : order) store[i] = (i64)i * 3 + 1; auto rf = [&](const auto& gg, const auto& u) -> i64& { return store.at((u32)graph::vertex_id(gg, u)); }; auto v = gv::vertexlist(g, rf);
      for (auto&& [id, u, val] : v) { c.check(val == (i64)id * 3 + 1, "vertexlist-value"); c.check(std::addressof(val) == &store.at((u32)id), "vertexlist-value-reference"); val = -(i64)id; } for (u32 i : order) c.check(store[i] == -(i64)i, "vertexlist-value-reference"); }
    if (n) { size_t k = c.rng.below(n), seen = 0; size_t cnt = 0; auto tf = [&](const auto& gg, const auto& u) -> u32 { if (cnt++ == k) throw Boom{}; return (u32)graph::vertex_id(gg, u); }; auto v = gv::vertexlist(g, tf); try { for (auto&& [id, u, val] : v) { c.check(val == (u32)id && id == order[seen], "vertexlist-value"); ++seen; } c.check(false, "value-fn-exception-lost"); } catch (Boom&) { c.check(seen == k, "value-fn-exception-position"); } }
    // whole vertex range, and sub-ranges where vertex ids are indices
    auto vr = graph::vertices(g); expect(walk(c, gv::vertexlist(g, vr), pf, "vertexlist(range)", n), 0, n, "vertexlist(range)"); expect(walk(c, gv::basic_vertexlist(g, vr, f), bv, "basic_vertexlist(range)+vvf", n), 0, n, "basic_vertexlist(range)+vvf");
    expect(walk(c, gv::vertexlist(g, vr, f), pv, "vertexlist(range)+vvf", n), 0, n, "vertexlist(range)+vvf"); expect(walk(c, gv::basic_vertexlist(g, vr), bf, "basic_vertexlist(range)", n), 0, n, "basic_vertexlist(range)");
    if constexpr (graph::adj_list::index_adjacency_list<GG> && !std::is_same_v<G, mir>) { for (int k = 0; k < 3; ++k) { size_t a = c.rng.below(n + 1), b = c.rng.below(n + 1); if (a > b) std::swap(a, b); using Id = graph::vertex_id_t<GG>;
      auto fu = *graph::find_vertex(g, (Id)a), lu = *graph::find_vertex(g, (Id)b); std::string tag = std::format("sub-range {}..{}", a, b);
      expect(walk(c, gv::vertexlist(g, fu, lu), pf, tag.c_str(), b - a), a, b, "vertexlist(first,last)");
      expect(walk(c, gv::vertexlist(g, fu, lu, f), pv, tag.c_str(), b - a), a, b, "vertexlist(first,last)+vvf");
      if (b < n) { // an id names a vertex of the graph
        expect(walk(c, gv::basic_vertexlist(g, (Id)a, (Id)b), bf, tag.c_str(), b - a), a, b, "basic_vertexlist(first,last)");
        expect(walk(c, gv::basic_vertexlist(g, (Id)a, (Id)b, f), bv, tag.c_str(), b - a), a, b, "basic_vertexlist(first,last)+vvf"); } } }
  };
  if (c.rng.chance(50)) all(gr); else all(cg);
  if (md.ids.size() > 1) { c.nontrivial(hcomb(full.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); }
}
#if IN(0)
TS(run, vov, 300, 9000) TS(run, vol, 300, 9000) TS(run, vofl, 200, 9000) TS(run, vod, 200, 9000) TS(run, csr, 400, 9000)
#elif IN(1)
TS(run, dov, 200, 9000) TS(run, dofl, 200, 9000) TS(run, dol, 200, 9000) TS(run, vos, 200, 9000) TS(run, vous, 200, 9000) TS(run, vvi, 400, 9000)
#elif IN(2)
TS(run, vom, 200, 9000) TS(run, voum, 200, 9000) TS(run, vob, 300, 9000) TS(run, vlb, 200, 9000) TS(run, ual, 400, 9000) TS(run, vvp, 300, 9000)
#elif IN(3)
TS(run, mov, 300, 9000) TS(run, mol, 300, 9000) TS(run, mos, 300, 9000) TS(run, uov, 300, 9000) TS(run, uol, 300, 9000) TS(run, uos, 300, 9000)
#elif IN(4)
TS(run, mtx, 200, 9000) TS(run, atl, 200, 9000)
#elif IN(5)
TS(run, fru, 200, 9000) TS(run, mir, 200, 9000)
#endif
