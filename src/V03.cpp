// PARTS: 10
// RULE: random multigraphs (with edgeless vertices at the front, middle and end) in 28 representations (4 of them user-written) x edgelist and basic_edgelist with and without value functions, plus edge lists as vectors, deques, lists, forward lists, sets and arrays of pairs, tuples and edge records; elements, order, descriptors, values, sizes and iterator laws compared with the stored edges. Non-trivial: at least two edges; distinct by (graph, container).
// MIN: views=20000
// MIN: elements=150000
// MIN: edgeless_runs=2000
#include "vviews.hpp"
#include <forward_list>
using namespace vg; namespace gv = graph::views;
struct Fe { int k = 5; template <class G, class UV> i64 operator()(const G& g, const UV& uv) const { return (i64)graph::target_id(g, uv) * k + val_of(g, uv); } };
static std::string show(const std::vector<E>& v) { std::string s; size_t k = 0; for (auto& e : v) { if (k++ > 60) break; s += std::format("{}>{}:{} ", e.s, e.t, e.w); } return s; }
template <class G> void run(Ctx& c) {
  GenOpt o; o.big = 40; auto base = gen_graph(c.rng, o); if (base.n > 3 && c.rng.chance(40)) { u32 lo = (u32)c.rng.below(base.n), hi = lo + (u32)c.rng.below(4); std::erase_if(base.es, [&](const E& e) { return e.s >= lo && e.s <= hi; }); }
  auto full = full_of<G>(base); c.input(std::string(Name<G>::v) + " " + base.str());
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full);
  auto all = [&](auto& g) {
    std::vector<E> want; u32 gap = 0;
    for (auto&& u : graph::vertices(g)) { u32 s = (u32)graph::vertex_id(g, u); c.check(md.adj.count(s), "graph-vertices"); auto w = md.adj[s]; if (w.empty()) ++gap;
      if constexpr (hashed2<G>()) { std::vector<Adj> raw; for (auto&& uv : graph::edges(g, u)) raw.push_back({(u32)graph::target_id(g, uv), val_of(g, uv)}); auto a = raw; std::sort(a.begin(), a.end()); auto b = w; std::sort(b.begin(), b.end()); c.check(a == b, "graph-edges"); w = raw; }
      for (auto& a : w) want.push_back({s, a.target, a.w}); }
    c.count("edgeless_runs", gap); c.check(want.size() == md.m, "graph-vertices", "not every vertex is listed"); size_t m = want.size();
    auto eq = [&](const std::vector<E>& got, const char* w) { c.checkf(got == want, "edgelist-elements", [&] { return std::format("{} yields {} expected {}", w, show(got), show(want)); }); };
    auto eqi = [&](const std::vector<E>& got, const char* w) { bool ok = got.size() == m; for (size_t i = 0; ok && i < m; ++i) ok = got[i].s == want[i].s && got[i].t == want[i].t; c.checkf(ok, "edgelist-elements", [&] { return std::format("{} yields {} expected {}", w, show(got), show(want)); }); };
    auto desc = [&](auto s, auto t, const auto& e) { c.checkf((u32)graph::target_id(g, e) == (u32)t && (u32)graph::source_id(g, e) == (u32)s, "edgelist-descriptor", [&] { return std::format("descriptor {}->{} under {}->{}", (u64)graph::source_id(g, e), (u64)graph::target_id(g, e), (u64)s, (u64)t); }); return E{(u32)s, (u32)t, val_of(g, e)}; };
    auto pf = [&](auto&& x) { auto&& [s, t, e] = x; return desc(s, t, e); };
    auto pv = [&](auto&& x) { auto&& [s, t, e, v] = x; auto r = desc(s, t, e); c.check((i64)v == (i64)t * 5 + r.w, "edgelist-value"); return r; };
    auto bf = [&](auto&& x) { auto&& [s, t] = x; return E{(u32)s, (u32)t, 0}; };
    auto bv = [&](auto&& x) { auto&& [s, t, v] = x; return E{(u32)s, (u32)t, (int)((i64)v - (i64)t * 5)}; };
    size_t calls = 0; auto lf = [&](const auto& gg, const auto& uv) { ++calls; c.check((const void*)std::addressof(gg) == (const void*)std::addressof(g), "value-fn-graph"); return Fe{}(gg, uv); };
    eq(walk(c, gv::edgelist(g), pf, "edgelist", m), "edgelist"); eq(walk(c, gv::edgelist(g, Fe{}), pv, "edgelist+evf", m), "edgelist+evf"); eq(walk(c, gv::edgelist(g, lf), pv, "edgelist+lambda", m), "edgelist+lambda");
    eqi(walk(c, gv::basic_edgelist(g), bf, "basic_edgelist", m), "basic_edgelist"); eq(walk(c, gv::basic_edgelist(g, Fe{}), bv, "basic_edgelist+evf", m), "basic_edgelist+evf"); eq(walk(c, gv::basic_edgelist(g, lf), bv, "basic_edgelist+lambda", m), "basic_edgelist+lambda");
    { calls = 0; auto v = gv::edgelist(g, lf); for (auto it = v.begin(); it != v.end(); ++it) (void)*it; c.check(calls == m, "value-fn-calls"); }
    { std::vector<E> got; for (auto&& [s, t, e] : gv::edgelist(g) | std::views::take(5)) got.push_back({(u32)s, (u32)t, val_of(g, e)}); c.check(got.size() == std::min<size_t>(5, m) && std::equal(got.begin(), got.end(), want.begin()), "edgelist-take"); std::vector<u32> ts; for (auto t : gv::edgelist(g, Fe{}) | std::views::filter([](const auto& x) { return x.target_id % 2 == 0; }) | std::views::transform([](const auto& x) { return (u32)x.target_id; })) ts.push_back(t); std::vector<u32> ws; for (auto& e : want) if (e.t % 2 == 0) ws.push_back(e.t); c.check(ts == ws, "edgelist-filter"); }
    if (m > 1) { c.nontrivial(hcomb(full.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); } };
  if (c.rng.chance(50)) all(gr); else all(cg);
}
// ---- edge lists as plain ranges of edges
template <class X> struct Get;
template <> struct Get<std::pair<u32, u32>> { static auto make(const E& e) { return std::pair<u32, u32>(e.s, e.t); } };
template <> struct Get<std::tuple<u32, u32>> { static auto make(const E& e) { return std::tuple<u32, u32>(e.s, e.t); } };
template <> struct Get<std::tuple<u32, u32, int>> { static auto make(const E& e) { return std::tuple<u32, u32, int>(e.s, e.t, e.w); } };
template <> struct Get<std::tuple<int, int, double>> { static auto make(const E& e) { return std::tuple<int, int, double>((int)e.s, (int)e.t, (double)e.w); } };
template <> struct Get<graph::copyable_edge_t<u32, void>> { static auto make(const E& e) { return graph::copyable_edge_t<u32, void>{e.s, e.t}; } };
template <> struct Get<graph::copyable_edge_t<u32, int>> { static auto make(const E& e) { return graph::copyable_edge_t<u32, int>{e.s, e.t, e.w}; } };
template <> struct Get<std::tuple<std::string, std::string, int>> { static auto make(const E& e) { return std::tuple(std::to_string(e.s), std::to_string(e.t), e.w); } };
template <class T> static u32 num(const T& t) { if constexpr (std::is_convertible_v<T, u32>) return (u32)t; else return (u32)std::stoul(t); }
template <class L, class X> void list_form(Ctx& c, const EL& g, const char* nm) {
  L lst; if constexpr (std::is_same_v<L, std::forward_list<X>>) { auto at = lst.before_begin(); for (auto& e : g.es) at = lst.insert_after(at, Get<X>::make(e)); } else if constexpr (requires { lst.push_back(Get<X>::make(g.es[0])); }) { for (auto& e : g.es) lst.push_back(Get<X>::make(e)); } else { for (auto& e : g.es) lst.insert(Get<X>::make(e)); }
  std::vector<std::pair<u32, u32>> want; std::vector<const void*> where; constexpr bool assoc = !requires { lst.front(); }; (void)assoc;
  if constexpr (requires { lst.front(); }) for (auto& e : g.es) want.push_back({e.s, e.t}); else { std::multiset<X> s; for (auto& e : g.es) s.insert(Get<X>::make(e)); for (auto& x : s) want.push_back({num(graph::source_id(lst, x)), num(graph::target_id(lst, x))}); }
  auto go = [&](auto& el) { auto v = gv::edgelist(el); auto val = [](auto& l, const auto& e) { (void)l; if constexpr (requires { graph::edge_value(l, e); }) return (i64)graph::edge_value(l, e) + 3; else return (i64)3; };
    auto pf = [&](auto&& x) { auto&& [s, t, e] = x; c.check(num(graph::source_id(el, e)) == num(s) && num(graph::target_id(el, e)) == num(t), "edgelist-descriptor", nm); return std::pair<u32, u32>(num(s), num(t)); };
    c.checkf(walk(c, v, pf, nm, want.size()) == want, "edge-list-elements", [&] { return std::string(nm); });
    size_t i = 0; for (auto&& [s, t, e, w] : gv::edgelist(el, val)) { c.check(i < want.size() && num(s) == want[i].first && num(t) == want[i].second, "edge-list-elements", nm); if constexpr (requires { lst.front(); }) if constexpr (requires { graph::edge_value(el, e); }) c.check((i64)w == g.es[i].w + 3, "edgelist-value", nm); ++i; } c.check(i == want.size(), "edge-list-elements", nm); };
  if (c.rng.chance(50)) go(lst); else { const L& cl = lst; go(cl); }
  c.count("edge_lists"); }
template <class X> void lists(Ctx& c, const EL& g, const char* nm) {
  switch (c.rng.below(5)) { case 0: list_form<std::vector<X>, X>(c, g, nm); break; case 1: list_form<std::deque<X>, X>(c, g, nm); break; case 2: list_form<std::list<X>, X>(c, g, nm); break; case 3: list_form<std::forward_list<X>, X>(c, g, nm); break;
  case 4: if constexpr (requires(X a, X b) { a < b; }) list_form<std::multiset<X>, X>(c, g, nm); break; } }
SUITE(edge_lists, 2500, 60000) { GenOpt o; o.big = 30; auto g = gen_graph(c.rng, o); c.input("edge list " + g.str());
#define L(...) lists<__VA_ARGS__>(c, g, #__VA_ARGS__);
#if IN(0)
  L(std::pair<u32, u32>)
#elif IN(1)
  L(std::tuple<u32, u32>)
#elif IN(2)
  L(std::tuple<u32, u32, int>)
#elif IN(3)
  L(std::tuple<int, int, double>)
#elif IN(4)
  L(graph::copyable_edge_t<u32, void>)
#elif IN(5)
  L(graph::copyable_edge_t<u32, int>)
#elif IN(6)
  L(std::tuple<std::string, std::string, int>)
#endif
  if (g.es.size() > 1) c.nontrivial(hcomb(g.hash(), PART)); }
#if IN(0)
TS(run, vov, 200, 9000) TS(run, vol, 200, 9000) TS(run, vofl, 200, 9000)
#elif IN(1)
TS(run, vod, 200, 9000) TS(run, csr, 250, 9000) TS(run, dov, 200, 9000)
#elif IN(2)
TS(run, dofl, 200, 9000) TS(run, dol, 200, 9000) TS(run, vos, 200, 9000)
#elif IN(3)
TS(run, vous, 200, 9000) TS(run, vvi, 250, 9000) TS(run, vom, 200, 9000)
#elif IN(4)
TS(run, voum, 200, 9000) TS(run, vob, 200, 9000) TS(run, vlb, 200, 9000)
#elif IN(5)
TS(run, ual, 250, 9000) TS(run, vvp, 250, 9000) TS(run, mov, 200, 9000)
#elif IN(6)
TS(run, mol, 200, 9000) TS(run, mos, 200, 9000) TS(run, uov, 200, 9000)
#elif IN(7)
TS(run, uol, 200, 9000) TS(run, uos, 200, 9000) TS(run, dod, 200, 9000)
#elif IN(8)
TS(run, mtx, 200, 9000) TS(run, atl, 200, 9000)
#elif IN(9)
TS(run, fru, 200, 9000) TS(run, mir, 200, 9000)
#endif
