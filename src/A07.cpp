// PARTS: 4
// RULE: random digraphs, half of them acyclic, some with one planted back edge or self-loop, x containers x (all vertices, one source, several sources); verdict and order judged. Non-trivial: an edge lies in the covered part; distinct by (graph, form, sources).
// MIN: acyclic_runs=2000
// MIN: cyclic_runs=1000
// MIN: cycle_outside_sources=100
#include "vg.hpp"
#include <graph/algorithm/topological_sort.hpp>
using namespace vh; using namespace vg;
inline bool cyclic(const EL& g, const std::vector<char>& in) { std::vector<u32> deg(g.n, 0); for (auto& e : g.es) if (in[e.s] && in[e.t]) ++deg[e.t]; std::vector<u32> q; u32 seen = 0, tot = 0; auto a = g.adj();
  for (u32 v = 0; v < g.n; ++v) if (in[v]) { ++tot; if (!deg[v]) q.push_back(v); } while (!q.empty()) { u32 u = q.back(); q.pop_back(); ++seen; for (auto& [t, w] : a[u]) if (!--deg[t]) q.push_back(t); } return seen != tot; }
template <class G> void topo(Ctx& c) {
  GenOpt o; o.big = 100; bool dag = c.rng.chance(65); if (dag) o.loops = false; auto base = gen_graph(c.rng, o);
  if (dag) { std::vector<u32> p(base.n); std::iota(p.begin(), p.end(), 0u); c.rng.shuffle(p); std::erase_if(base.es, [](auto& e) { return e.s == e.t; }); for (auto& e : base.es) { if (p[e.s] > p[e.t]) std::swap(e.s, e.t); }
    if (!base.es.empty() && c.rng.chance(25)) { auto e = c.rng.pick(base.es); base.es.push_back({e.t, e.s, 1}); } else if (base.n && c.rng.chance(10)) { u32 v = (u32)c.rng.below(base.n); base.es.push_back({v, v, 1}); } }
  EL g = effective<G>(base); c.input(std::string(Name<G>::v) + " " + base.str()); const G gr = build<G>(base); using Id = graph::vertex_id_t<G>;
  auto judge = [&](bool ok, const std::vector<Id>& out, const std::vector<char>& in, const char* form, const std::vector<u32>& src) {
    bool cy = cyclic(g, in); c.checkf(ok == !cy, "topo-verdict", [&] { return std::format("{}: returned {}, cyclic {}; sources {}", form, ok, cy, seq(src)); });
    if (!ok) { c.check(out.empty(), "topo-output-on-failure", form); c.count("cyclic_runs"); }
    else { std::vector<i64> pos(g.n, -1); for (size_t i = 0; i < out.size(); ++i) { c.checkf((u64)out[i] < g.n && in[out[i]] && pos[out[i]] < 0, "topo-output", [&] { return std::format("{}: {} output twice or not covered; {}", form, (u64)out[i], seq(out)); }); pos[out[i]] = (i64)i; }
      for (u32 v = 0; v < g.n; ++v) c.checkf(!in[v] || pos[v] >= 0, "topo-missing", [&] { return std::format("{}: vertex {} missing in {}; sources {}", form, v, seq(out), seq(src)); });
      for (auto& e : g.es) if (in[e.s]) c.checkf(pos[e.s] < pos[e.t], "topo-order", [&] { return std::format("{}: edge {}->{} points backwards in {}", form, e.s, e.t, seq(out)); });
      std::vector<char> all(g.n, 1); if (cyclic(g, all)) c.count("cycle_outside_sources"); c.count("acyclic_runs"); }
    for (auto& e : g.es) if (in[e.s]) { c.nontrivial(hcomb(g.hash(), hcomb(hstr(form), src.empty() ? 99 : src[0]))); c.sample(std::format("{} {} -> {} {}", form, g.str(), ok, seq(out))); break; } };
  { std::vector<Id> out; bool ok = graph::topological_sort(gr, std::back_inserter(out)); judge(ok, out, std::vector<char>(g.n, 1), "all", {}); }
  if (!g.n) return; auto src = pick_sources(c.rng, g.n); if (c.rng.chance(20)) src.push_back(src[0]); std::vector<Id> S(src.begin(), src.end());
  { std::vector<Id> out; bool ok = graph::topological_sort(gr, S, std::back_inserter(out)); judge(ok, out, reach(g, src), "sources", src); }
  { std::vector<Id> out; bool ok = graph::topological_sort(gr, S[0], std::back_inserter(out)); judge(ok, out, reach(g, {src[0]}), "single", {src[0]}); }
  { std::vector<Id> out, none; bool ok = graph::topological_sort(gr, none, std::back_inserter(out)); c.check(ok && out.empty(), "topo-no-sources"); }
}
#if IN(0)
TS(topo, vvi, 4000, 100000)
TS(topo, vov, 2000, 40000)
#elif IN(1)
TS(topo, csr, 3000, 60000)
TS(topo, vofl, 2000, 40000)
#elif IN(2)
TS(topo, dol, 2000, 40000)
TS(topo, vous, 2000, 40000)
#elif IN(3)
TS(topo, vvp, 2000, 40000)
TS(topo, dov, 1500, 40000)
#endif
