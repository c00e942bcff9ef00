// PARTS: 3
// RULE: random undirected graphs (18 families incl. cacti, joined cliques, multigraphs with loops and parallel edges, several components; both directions stored, adjacency shuffled) x containers x output container types; the blocks are compared with an oracle that merges edges at v when their other ends stay connected without v. Non-trivial: two or more blocks with edges; distinct by graph.
// ASSUME: every edge is stored in both directions
// MIN: runs=3000
// MIN: blocks=8000
#include "vg.hpp"
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
using namespace vh; using namespace vg;
using Blocks = std::multiset<std::set<u32>>;
inline Blocks ref(const EL& u) { // u: each undirected edge listed once
  DSU d(u.es.size()); for (u32 v = 0; v < u.n; ++v) { DSU w(u.n); for (auto& e : u.es) if (e.s != v && e.t != v) w.join(e.s, e.t); std::map<u32, u32> first;
    for (u32 i = 0; i < u.es.size(); ++i) { auto& e = u.es[i]; if (e.s == e.t || (e.s != v && e.t != v)) continue; u32 o = w.find(e.s == v ? e.t : e.s); auto [it, n] = first.emplace(o, i); if (!n) d.join(i, it->second); } }
  std::map<u32, std::set<u32>> b; std::vector<char> has(u.n, 0); for (u32 i = 0; i < u.es.size(); ++i) { auto& e = u.es[i]; if (e.s == e.t) continue; auto& s = b[d.find(i)]; s.insert(e.s); s.insert(e.t); has[e.s] = has[e.t] = 1; }
  Blocks r; for (auto& [k, s] : b) r.insert(s); for (u32 v = 0; v < u.n; ++v) if (!has[v]) r.insert({v}); return r; }
template <class G> void bc(Ctx& c) {
  GenOpt o; o.maxn = 14; o.big = 40; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); if (c.rng.chance(70)) c.rng.shuffle(g.es); c.input(std::string(Name<G>::v) + " " + g.str());
  const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(g); }(); using Id = graph::vertex_id_t<G>;
  auto judge = [&](auto& comps, size_t skip) { Blocks got; size_t i = 0; std::string all; for (auto& x : comps) { if (i++ < skip) continue; std::set<u32> s(x.begin(), x.end()); all += seq(x); c.check(s.size() == x.size(), "bcc-repeats-vertex", seq(x)); got.insert(s); }
    auto want = ref(base); if (got == want) return got.size(); std::string w; for (auto& x : want) w += seq(x); c.fail("bcc-blocks", all + " expected " + w); };
  size_t k = 0;
  switch (c.rng.below(3)) {
  case 0: { std::vector<std::vector<Id>> comps; k = judge((graph::biconnected_components(gr, comps), comps), 0); break; }
  case 1: { std::list<std::vector<Id>> comps; k = judge((graph::biconnected_components(gr, comps), comps), 0); break; }
  case 2: { std::deque<std::vector<Id>> comps; k = judge((graph::biconnected_components(gr, comps), comps), 0); break; } }
  std::vector<std::vector<Id>> cs; graph::biconnected_components(gr, cs); std::map<u32, u32> in; for (auto& x : cs) for (auto v : x) ++in[(u32)v]; std::set<u32> multi; for (auto& [v, n] : in) if (n > 1) multi.insert(v);
  std::vector<Id> aps; graph::articulation_points(gr, std::back_inserter(aps)); std::set<u32> A(aps.begin(), aps.end()); c.check(multi == A, "bcc-articulation", "vertices in several blocks " + seq(multi) + ", articulation points " + seq(A));
  c.count("runs"); c.count("blocks", k); size_t big = 0; for (auto& x : cs) big += x.size() > 1; if (big > 1) { c.nontrivial(g.hash()); c.sample(g.str() + " -> " + std::to_string(k) + " blocks"); }
}
#if IN(0)
TS(bc, vvi, 5000, 120000)
TS(bc, vov, 2000, 50000)
#elif IN(1)
TS(bc, csr, 3000, 60000)
TS(bc, vofl, 2000, 50000)
#elif IN(2)
TS(bc, ual, 3000, 60000)
TS(bc, dos, 2000, 50000)
#endif
