// PARTS: 3
// RULE: random edge lists (18 families, ids with gaps, loops, parallel edges, ties, negative weights, unsorted) x id/value types x input and output containers x comparators x both forms; output judged by a union-find and an independent minimum-forest oracle. Non-trivial: two or more edges; distinct by edge list and form.
// MIN: runs=3000
// MIN: forest_edges=5000
#include "vg.hpp"
#include <graph/algorithm/mst.hpp>
using namespace vh;
template <class VId, class EV> struct Ed { VId source_id{}; VId target_id{}; EV value{}; using source_id_type = VId; using target_id_type = VId; using value_type = EV; bool operator==(const Ed&) const = default; };
// reference by repeated cheapest crossing edge (independent of the library's method): Boruvka-free Prim per tree
template <class EV, class Cmp> EV ref_total(const EL& g, auto val, Cmp cmp) { std::vector<size_t> ix(g.es.size()); std::iota(ix.begin(), ix.end(), size_t(0)); std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return cmp(val(g.es[a]), val(g.es[b])); });
  DSU d(g.n); EV t{}; for (size_t i : ix) if (d.join(g.es[i].s, g.es[i].t)) t += val(g.es[i]); return t; }
template <class VId, class EV, class In, class Out, class Cmp> void run(Ctx& c, const EL& g, Cmp cmp, bool usecmp, const char* form) {
  using Edge = Ed<VId, EV>; auto val = [](const E& e) { return (EV)(std::is_floating_point_v<EV> ? e.w * 0.25 : e.w); };
  In in; for (auto& e : g.es) in.push_back(Edge{(VId)e.s, (VId)e.t, val(e)}); const In orig = in; Out out; bool inplace = c.rng.chance(50); std::pair<EV, size_t> r;
  if (inplace) r = usecmp ? graph::inplace_kruskal(in, out, cmp) : graph::inplace_kruskal(in, out);
  else { r = usecmp ? graph::kruskal(in, out, cmp) : graph::kruskal(in, out); c.check(std::ranges::equal(in, orig), "kruskal-input-modified", form); if (c.rng.chance(30)) { Out o2; auto r2 = usecmp ? graph::kruskal(orig, o2, cmp) : graph::kruskal(orig, o2); c.check(r2 == r && std::ranges::equal(out, o2), "kruskal-const-input", form); } }
  auto key = [](const Edge& e) { return std::tuple((u64)e.source_id, (u64)e.target_id, e.value); };
  { std::multiset<std::tuple<u64, u64, EV>> a, b; for (auto& e : in) a.insert(key(e)); for (auto& e : orig) b.insert(key(e)); c.check(a == b, "kruskal-input-lost", form); }
  if (g.es.empty()) { c.check(r.first == EV{} && r.second == 0 && out.empty(), "kruskal-empty", form); return; }
  std::multiset<std::tuple<u64, u64, EV>> avail; for (auto& e : orig) avail.insert(key(e)); u32 ids = 0; for (auto& e : g.es) ids = std::max({ids, e.s + 1, e.t + 1});
  DSU d(ids), all(ids); size_t trees = ids, comps = ids; EV tot{}; for (auto& e : g.es) if (all.join(e.s, e.t)) --comps;
  for (auto& e : out) { auto it = avail.find(key(e)); c.checkf(it != avail.end(), "kruskal-not-subset", [&] { return std::format("{}: {}-{} is not an (unused) input edge", form, (u64)e.source_id, (u64)e.target_id); }); avail.erase(it);
    c.checkf(d.join((u32)e.source_id, (u32)e.target_id), "kruskal-cycle", [&] { return std::format("{}: {}-{} closes a cycle", form, (u64)e.source_id, (u64)e.target_id); }); --trees; tot += e.value; }
  c.checkf(trees == comps, "kruskal-not-spanning", [&] { return std::format("{}: {} trees, {} components", form, trees, comps); });
  EL gg = g; gg.n = ids; EV want = ref_total<EV>(gg, val, cmp);
  c.checkf(tot == want, "kruskal-not-minimal", [&] { return std::format("{}: total {} expected {}", form, (double)tot, (double)want); });
  c.checkf(r.first == tot && r.second == trees, "kruskal-return", [&] { return std::format("{}: returned ({}, {}), actual ({}, {})", form, (double)r.first, r.second, (double)tot, trees); });
  c.count("runs"); c.count("forest_edges", out.size()); if (g.es.size() > 1) { c.nontrivial(hcomb(g.hash(), hstr(form))); c.sample(std::format("{} {} -> weight {} trees {}", form, g.str(), (double)tot, trees)); }
}
inline EL gen(Ctx& c, u32 big = 150) { GenOpt o; o.big = big; o.wlo = c.rng.chance(40) ? -9 : 0; if (c.rng.chance(30)) o.whi = 2; auto g = gen_graph(c.rng, o, true); if (c.rng.chance(30)) { u32 f = 1 + (u32)c.rng.below(4); for (auto& e : g.es) { e.s = e.s * f + 2; e.t = e.t * f + 2; } g.n = g.n * f + 3; } c.input(g.str()); return g; }
#if IN(0)
SUITE(u32_int, 6000, 150000) { auto g = gen(c); if (c.rng.chance(50)) run<u32, int, std::vector<Ed<u32, int>>, std::vector<Ed<u32, int>>>(c, g, std::less<int>{}, false, "u32/int default"); else if (c.rng.chance(50)) run<u32, int, std::vector<Ed<u32, int>>, std::vector<Ed<u32, int>>>(c, g, std::greater<int>{}, true, "u32/int max"); else { auto cmp = [](int a, int b) { return std::abs(a) < std::abs(b); }; (void)cmp; run<u32, int, std::vector<Ed<u32, int>>, std::vector<Ed<u32, int>>>(c, g, std::less<int>{}, true, "u32/int less"); } }
#elif IN(1)
SUITE(i32_double, 3000, 80000) { auto g = gen(c); if (c.rng.chance(50)) run<int, double, std::vector<Ed<int, double>>, std::vector<Ed<int, double>>>(c, g, std::less<double>{}, false, "int/double default"); else run<int, double, std::vector<Ed<int, double>>, std::vector<Ed<int, double>>>(c, g, std::greater<double>{}, true, "int/double max"); }
SUITE(u8_i64, 2000, 60000) { auto g = gen(c, 0); if (g.n > 255) return; run<uint8_t, i64, std::vector<Ed<uint8_t, i64>>, std::vector<Ed<uint8_t, i64>>>(c, g, std::less<i64>{}, false, "u8/i64"); }
#elif IN(2)
SUITE(size_deque, 2500, 60000) { auto g = gen(c); run<size_t, int, std::deque<Ed<size_t, int>>, std::vector<Ed<size_t, int>>>(c, g, std::less<int>{}, c.rng.chance(50), "size_t/int deque"); }
SUITE(u8_full, 400, 5000) { // ids up to the type's largest value
  EL g; g.n = 256; u32 m = (u32)c.rng.below(300); for (u32 i = 0; i < m; ++i) g.es.push_back({(u32)c.rng.below(256), (u32)c.rng.below(256), (int)c.rng.below(50)}); if (c.rng.chance(70)) g.es.push_back({255, (u32)c.rng.below(256), 3}); c.rng.shuffle(g.es); c.input(g.str());
  run<uint8_t, int, std::vector<Ed<uint8_t, int>>, std::vector<Ed<uint8_t, int>>>(c, g, std::less<int>{}, false, "u8 full range"); }
SUITE(large, 20, 500) { EL g; g.n = 3000; for (u32 i = 0; i < 9000; ++i) g.es.push_back({(u32)c.rng.below(3000), (u32)c.rng.below(3000), (int)c.rng.below(1000)}); c.input("large random"); run<u32, int, std::vector<Ed<u32, int>>, std::vector<Ed<u32, int>>>(c, g, std::less<int>{}, false, "large"); }
#endif
