// PARTS: 10
// RULE: random multigraphs in 28 representations (4 of them user-written) x every vertex x incidence, out_incidence, neighbors, out_neighbors and their basic forms, by descriptor and by id, with and without value functions; elements, order, multiplicity, descriptors, values, size, emptiness and iterator laws compared with the expected adjacency. Non-trivial: some vertex has two or more edges; distinct by (graph, container).
// MIN: views=60000
// MIN: elements=80000
// MIN: empty_views=3000
#include "vviews.hpp"
using namespace vg; namespace gv = graph::views;
struct Fe { int k = 5; template <class G, class UV> i64 operator()(const G& g, const UV& uv) const { return (i64)graph::target_id(g, uv) * k + val_of(g, uv); } };
struct Fv { int k = 7; template <class G, class U> i64 operator()(const G& g, const U& u) const { return (i64)graph::vertex_id(g, u) * k + 2; } };
template <class G> void run(Ctx& c) {
  GenOpt o; o.maxn = 10; o.big = 25; auto base = gen_graph(c.rng, o); auto full = full_of<G>(base); c.input(std::string(Name<G>::v) + " " + base.str());
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full); bool multi = false;
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>; using Id = graph::vertex_id_t<GG>;
    constexpr bool ref_vvp = false; (void)ref_vvp;
    for (u32 uid : md.ids) { auto u = *graph::find_vertex(g, (Id)uid); std::vector<Adj> want = md.adj[uid]; if (want.size() > 1) multi = true; if (want.empty()) c.count("empty_views");
      if constexpr (hashed2<G>()) { std::vector<Adj> raw; for (auto&& uv : graph::edges(g, u)) raw.push_back({(u32)graph::target_id(g, uv), val_of(g, uv)}); auto s = raw; std::sort(s.begin(), s.end()); auto w = want; std::sort(w.begin(), w.end()); c.check(s == w, "graph-edges", "edges(g,u) differ from the loaded ones"); want = raw; }
      auto show = [&](const std::vector<Adj>& v) { std::string s; for (auto& a : v) s += std::format("{}:{} ", a.target, a.w); return s; };
      auto eq = [&](const std::vector<Adj>& got, const char* w) { c.checkf(got == want, "incidence-elements", [&] { return std::format("{} of {} yields {} expected {}", w, uid, show(got), show(want)); }); };
      std::vector<u32> wid; for (auto& a : want) wid.push_back(a.target);
      auto eqi = [&](const std::vector<u32>& got, const char* w) { c.checkf(got == wid, "neighbor-elements", [&] { return std::format("{} of {} yields {} expected {}", w, uid, seq(got), seq(wid)); }); };
      auto edge = [&](auto tid, const auto& e) { c.checkf((u32)graph::target_id(g, e) == (u32)tid && (u32)graph::source_id(g, e) == uid, "incidence-descriptor", [&] { return std::format("descriptor {}->{} under target {} of {}", (u64)graph::source_id(g, e), (u64)graph::target_id(g, e), (u64)tid, uid); }); return Adj{(u32)tid, val_of(g, e)}; };
      auto pe = [&](auto&& x) { auto&& [t, e] = x; return edge(t, e); };
      auto pev = [&](auto&& x) { auto&& [t, e, v] = x; auto a = edge(t, e); c.check((i64)v == (i64)t * 5 + a.w, "incidence-value"); return a; };
      auto pb = [&](auto&& x) { auto&& [t] = x; return (u32)t; };
      auto pbv = [&](auto&& x) { auto&& [t, v] = x; return Adj{(u32)t, (int)((i64)v - (i64)t * 5)}; };
      auto pn = [&](auto&& x) { auto&& [t, n] = x; c.check((u32)graph::vertex_id(g, n) == (u32)t, "neighbor-descriptor"); return (u32)t; };
      auto pnv = [&](auto&& x) { auto&& [t, n, v] = x; c.check((u32)graph::vertex_id(g, n) == (u32)t, "neighbor-descriptor"); c.check((i64)v == (i64)t * 7 + 2, "neighbor-value"); return (u32)t; };
      auto pnb = [&](auto&& x) { auto&& [t, v] = x; c.check((i64)v == (i64)t * 7 + 2, "neighbor-value"); return (u32)t; };
      size_t k = want.size(); size_t calls = 0; auto lf = [&](const auto& gg, const auto& uv) { ++calls; c.check((const void*)std::addressof(gg) == (const void*)std::addressof(g), "value-fn-graph"); return Fe{}(gg, uv); };
      eq(walk(c, gv::incidence(g, u), pe, "incidence", k), "incidence"); eq(walk(c, gv::incidence(g, u, Fe{}), pev, "incidence+evf", k), "incidence+evf"); eq(walk(c, gv::incidence(g, u, lf), pev, "incidence+lambda", k), "incidence+lambda");
      { calls = 0; auto v = gv::incidence(g, u, lf); for (auto it = v.begin(); it != v.end(); ++it) (void)*it; c.check(calls == k, "value-fn-calls"); }
      eq(walk(c, gv::out_incidence(g, u), pe, "out_incidence", k), "out_incidence"); eq(walk(c, gv::out_incidence(g, u, Fe{}), pev, "out_incidence+evf", k), "out_incidence+evf");
      eqi(walk(c, gv::basic_incidence(g, (Id)uid), pb, "basic_incidence", k), "basic_incidence"); eq(walk(c, gv::basic_incidence(g, (Id)uid, Fe{}), pbv, "basic_incidence+evf", k), "basic_incidence+evf");
      eqi(walk(c, gv::basic_out_incidence(g, (Id)uid), pb, "basic_out_incidence", k), "basic_out_incidence"); eq(walk(c, gv::basic_out_incidence(g, (Id)uid, Fe{}), pbv, "basic_out_incidence+evf", k), "basic_out_incidence+evf");
      eqi(walk(c, gv::neighbors(g, u), pn, "neighbors", k), "neighbors"); eqi(walk(c, gv::neighbors(g, u, Fv{}), pnv, "neighbors+vvf", k), "neighbors+vvf");
      eqi(walk(c, gv::out_neighbors(g, u), pn, "out_neighbors", k), "out_neighbors"); eqi(walk(c, gv::out_neighbors(g, u, Fv{}), pnv, "out_neighbors+vvf", k), "out_neighbors+vvf");
      eqi(walk(c, gv::basic_neighbors(g, (Id)uid), pb, "basic_neighbors", k), "basic_neighbors"); eqi(walk(c, gv::basic_neighbors(g, (Id)uid, Fv{}), pnb, "basic_neighbors+vvf", k), "basic_neighbors+vvf");
      eqi(walk(c, gv::basic_out_neighbors(g, (Id)uid), pb, "basic_out_neighbors", k), "basic_out_neighbors"); eqi(walk(c, gv::basic_out_neighbors(g, (Id)uid, Fv{}), pnb, "basic_out_neighbors+vvf", k), "basic_out_neighbors+vvf");
      if constexpr (graph::adj_list::index_adjacency_list<GG>) {
        eq(walk(c, gv::incidence(g, (Id)uid), pe, "incidence(id)", k), "incidence(id)"); eq(walk(c, gv::incidence(g, (Id)uid, Fe{}), pev, "incidence(id)+evf", k), "incidence(id)+evf");
        eq(walk(c, gv::out_incidence(g, (Id)uid), pe, "out_incidence(id)", k), "out_incidence(id)"); eq(walk(c, gv::out_incidence(g, (Id)uid, Fe{}), pev, "out_incidence(id)+evf", k), "out_incidence(id)+evf");
        eqi(walk(c, gv::neighbors(g, (Id)uid), pn, "neighbors(id)", k), "neighbors(id)"); eqi(walk(c, gv::neighbors(g, (Id)uid, Fv{}), pnv, "neighbors(id)+vvf", k), "neighbors(id)+vvf");
        eqi(walk(c, gv::out_neighbors(g, (Id)uid), pn, "out_neighbors(id)", k), "out_neighbors(id)"); eqi(walk(c, gv::out_neighbors(g, (Id)uid, Fv{}), pnv, "out_neighbors(id)+vvf", k), "out_neighbors(id)+vvf"); }
      // assigning through a reference-returning value function reaches what the function names
      { std::map<u32, i64> st; auto rf = [&](const auto& gg, const auto& uv) -> i64& { return st[(u32)graph::target_id(gg, uv)]; }; auto v = gv::incidence(g, u, rf); for (auto&& [t, e, val] : v) val = 100 + (i64)t; for (auto& a : want) c.check(st[a.target] == 100 + (i64)a.target, "incidence-value-reference"); }
    } };
  if (c.rng.chance(50)) all(gr); else all(cg);
  if (multi) { c.nontrivial(hcomb(full.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); }
}
#if IN(0)
TS(run, vov, 150, 9000) TS(run, vol, 150, 9000) TS(run, vofl, 150, 9000)
#elif IN(1)
TS(run, vod, 150, 9000) TS(run, csr, 200, 9000) TS(run, dov, 150, 9000)
#elif IN(2)
TS(run, dofl, 150, 9000) TS(run, dol, 150, 9000) TS(run, vos, 150, 9000)
#elif IN(3)
TS(run, vous, 150, 9000) TS(run, vvi, 200, 9000) TS(run, vom, 150, 9000)
#elif IN(4)
TS(run, voum, 150, 9000) TS(run, vob, 150, 9000) TS(run, vlb, 150, 9000)
#elif IN(5)
TS(run, ual, 200, 9000) TS(run, vvp, 200, 9000) TS(run, mov, 150, 9000)
#elif IN(6)
TS(run, mol, 150, 9000) TS(run, mos, 150, 9000) TS(run, uov, 150, 9000)
#elif IN(7)
TS(run, uol, 150, 9000) TS(run, uos, 150, 9000) TS(run, dod, 150, 9000)
#elif IN(8)
TS(run, mtx, 200, 9000) TS(run, atl, 200, 9000)
#elif IN(9)
TS(run, fru, 200, 9000) TS(run, mir, 200, 9000)
#endif
