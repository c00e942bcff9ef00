// PARTS: 4
// RULE: every algorithm with documented exceptions (Dijkstra 4 forms, Bellman-Ford 4 forms, Prim 2 forms) x containers x valid calls with exactly-sized heap arrays, one violated argument (source/seed N, N+1, huge; each array shorter by 1..N; one reachable edge negative) and calls with the violation made unreachable; arrays are exact heap blocks under ASan. Non-trivial: an exception was demanded; distinct by (graph, violated argument).
// MIN: demanded=12000
// MIN: valid=3000
// MIN: neg_unreachable=200
#include "vg.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/mst.hpp>
using namespace vh; using namespace vg;
// exactly n elements on the heap, so that every access outside is seen by ASan
template <class T> struct Exact { std::unique_ptr<T[]> p; size_t n = 0; std::vector<T> init;
  Exact(size_t k, T v) : p(new T[k ? k : 1]), n(k), init(k, v) { std::fill_n(p.get(), k, v); if (!k) p.reset(); }
  std::span<T> span() { return {p.get(), n}; } bool same() { return std::equal(init.begin(), init.end(), p.get()); } };
template <class F> int outcome(Ctx& c, const char* what, F&& f) { // 1 = out_of_range, 0 = normal
  try { f(); return 0; } catch (const std::out_of_range&) { return 1; } catch (const Violation&) { throw; } catch (const std::exception& e) { c.fail("wrong-exception", std::string(what) + ": not std::out_of_range but " + e.what()); } return 2; }

template <class D, class G> void paths(Ctx& c) {
  GenOpt o; o.allow_empty = true; auto base = gen_graph(c.rng, o, std::is_same_v<G, ual>);
  EL g = std::is_same_v<G, ual> ? symmetrize(base) : effective<G>(base); using Id = graph::vertex_id_t<G>;
  const D inf = std::numeric_limits<D>::max(); enum { VALID, SRC, DSHORT, PSHORT, NEG, NEGUNREACH, MODES }; int mode = (int)c.rng.below(MODES);
  bool dij = c.rng.chance(50), preds = c.rng.chance(60), multi = c.rng.chance(50); if (mode >= NEG) dij = true; if (!g.n && mode != SRC && mode != VALID) return;
  if (mode == PSHORT) preds = true; if (mode >= NEG && std::is_unsigned_v<D>) { /* signed weights, unsigned distances */ }
  std::vector<u32> src = pick_sources(c.rng, g.n); if (!multi && !src.empty()) src.resize(1); if (!g.n && mode == VALID) multi = true;
  std::vector<Id> S(src.begin(), src.end()); size_t dn = g.n, pn = g.n; std::pair<u32, u32> negedge{~0u, ~0u}; bool must = false, any = false;
  if (mode == SRC) { const u64 cand[] = {g.n, g.n + 1, g.n + 100, 0x7fffffffull, 0x80000000ull, 0xffffffffull}; Id bad = (Id)cand[c.rng.below(6)]; if constexpr (sizeof(Id) == 8) if (c.rng.chance(30)) bad = c.rng.chance(50) ? (Id)-1 : (Id)(1ull << 32); if (multi && !S.empty()) S.insert(S.begin() + c.rng.below(S.size() + 1), bad); else S.assign(1, bad); must = true; }
  if (mode == DSHORT) { dn = c.rng.below(g.n); if (c.rng.chance(50)) dn = g.n - 1; must = true; }
  if (mode == PSHORT) { pn = c.rng.below(g.n); if (c.rng.chance(50)) pn = g.n - 1; must = true; }
  if (mode >= NEG) { auto r = reach(g, src); std::vector<E> cand; for (auto& e : g.es) if ((r[e.s] != 0) == (mode == NEG)) cand.push_back(e); if (cand.empty()) return; auto e = cand[c.rng.below(cand.size())]; negedge = {e.s, e.t}; must = mode == NEG; if (mode == NEGUNREACH) { c.count("neg_unreachable"); if (std::is_same_v<G, ual>) return; } }
  if (mode == VALID) { dn += c.rng.below(3); pn += c.rng.below(3); }
  c.input(std::format("{} {} mode {} arrays {} {} preds {} sources {} neg {}>{} {}", Name<G>::v, dij ? "dijkstra" : "bellman-ford", mode, dn, pn, preds, seq(S), negedge.first, negedge.second, base.str()));
  const G gr = build<G>(base); Exact<D> d(dn, inf); Exact<u32> p(pn, 12345u); auto ds = d.span(); auto ps = p.span();
  auto neg = [&](const auto& gg, const auto& uv) { auto s = graph::source_id(gg, uv); auto t = graph::target_id(gg, uv); return (u32)s == negedge.first && (u32)t == negedge.second || std::is_same_v<G, ual> && (u32)t == negedge.first && (u32)s == negedge.second; };
  using W = std::conditional_t<std::is_floating_point_v<D>, D, int>; static const W table[] = {W(-1), W(0), W(1), W(2), W(3), W(4), W(5), W(6), W(7), W(8), W(9), W(10)};
  auto wf = [&](const auto& gg, const auto& uv) -> W { return neg(gg, uv) ? W(-1) : table[1 + graph::edge_value(gg, uv) % 10]; };
  auto wr = [&](const auto& gg, const auto& uv) -> const W& { return neg(gg, uv) ? table[0] : table[1 + graph::edge_value(gg, uv) % 10]; };
  bool ref = c.rng.chance(40);
  auto call = [&](auto&& src_arg, auto&& w) {
    if (dij) { if (preds) graph::dijkstra_shortest_paths(gr, src_arg, ds, ps, w); else graph::dijkstra_shortest_distances(gr, src_arg, ds, w); }
    else { if (preds) (void)graph::bellman_ford_shortest_paths(gr, src_arg, ds, ps, w); else (void)graph::bellman_ford_shortest_distances(gr, src_arg, ds, w); } };
  int got = outcome(c, dij ? "dijkstra" : "bellman-ford", [&] { if (S.size() == 1 && !multi) { if (ref) call(S[0], wr); else call(S[0], wf); } else { if (ref) call(S, wr); else call(S, wf); } });
  c.checkf(got == (int)must, must ? "no-exception" : "spurious-exception", [&] { return must ? "std::out_of_range is documented but nothing was thrown" : "std::out_of_range from a valid call"; });
  if (mode == DSHORT || mode == PSHORT) c.check(d.same() && p.same(), "harm-before-throw", "an array was written although another one is undersized");
  if (must) { c.count("demanded"); c.count(mode == SRC ? "bad_source" : mode == NEG ? "negative_weight" : "short_array"); c.nontrivial(hcomb(hcomb(g.hash(), mode), hcomb(dn * 77 + pn, S.empty() ? 0 : (u64)S.back()))); c.sample(c.descr); } else c.count("valid");
}
template <class G> void primm(Ctx& c) {
  GenOpt o; auto base = gen_graph(c.rng, o, true); EL full = symmetrize(base); using Id = graph::vertex_id_t<G>; int mode = (int)c.rng.below(4); if (!full.n && mode != 1) return;
  size_t wn = full.n, pn = full.n; Id seed = full.n ? (Id)c.rng.below(full.n) : 0; bool must = mode != 0; if (mode == 1) { const u64 cand[] = {full.n, full.n + 1, full.n + 64, 0x7fffffffull, 0xffffffffull}; seed = (Id)cand[c.rng.below(5)]; }
  if (mode == 2) pn = c.rng.chance(50) ? full.n - 1 : c.rng.below(full.n); if (mode == 3) wn = c.rng.chance(50) ? full.n - 1 : c.rng.below(full.n);
  c.input(std::format("{} prim mode {} seed {} arrays {} {} {}", Name<G>::v, mode, (u64)seed, pn, wn, full.str())); const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(full); }();
  Exact<u32> p(pn, 12345u); Exact<int> w(wn, 77); auto ps = p.span(); auto ws = w.span(); bool cmp = c.rng.chance(50);
  int got = outcome(c, "prim", [&] { if (cmp) graph::prim(gr, ps, ws, std::greater<int>{}, std::numeric_limits<int>::lowest(), weight, seed); else graph::prim(gr, ps, ws, seed); });
  c.checkf(got == (int)must, must ? "no-exception" : "spurious-exception", [&] { return must ? "std::out_of_range is documented but nothing was thrown" : "std::out_of_range from a valid call"; });
  if (must) { c.check(p.same() && w.same(), "harm-before-throw", "prim wrote to an array before it threw"); c.count("demanded"); c.count("prim_demanded"); c.nontrivial(hcomb(hcomb(full.hash(), mode), hcomb(pn * 77 + wn, (u64)seed))); c.sample(c.descr); } else c.count("valid");
}
#define PA(D, G, q, t) SUITE(paths_##D##_##G, q, t) { paths<D, G>(c); }
#if IN(0)
PA(int, vvp, 4000, 80000)
PA(unsigned, vov, 3000, 60000)
#elif IN(1)
PA(double, csr, 4000, 80000)
PA(long, dofl, 3000, 60000)
#elif IN(2)
PA(float, ual, 3000, 60000)
PA(int, vos, 3000, 60000)
TS(primm, vvp, 2500, 50000)
#elif IN(3)
PA(int, vob, 3000, 60000)
TS(primm, vov, 1500, 40000)
TS(primm, csr, 1500, 40000)
TS(primm, ual, 1500, 40000)
#endif
