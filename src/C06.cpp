// PARTS: 4
// RULE: long random edit histories of undirected graphs (create vertices and edges by id and iterator, with default, moved and copied values; erase through graph-wide and per-vertex iterators, ranges, clear_edges, erasing walks; write values; clear; self-loops, parallel edges, both endpoint orders) over value types int, string, instance-counting and id types of 8 to 64 bits; after every edit, both ends' lists in both directions, the graph-wide range, neighbours, degrees, totals, lookups and values are compared with an edge-set model. Non-trivial: at least three live edges and one erasure; distinct by final content.
// MIN: ual_checks=40000
// MIN: member_checks=500000
// MIN: edits=50000
// MIN: erasures=8000
#include "vslots.hpp"
using namespace vg;
template <class G> void run(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { UalD<G> d(c, c.rng.chance(80) ? 7 : 24); d.log = std::string(name) + " "; UM m; G g = d.make(m); d.verify(g, m); int steps = c.rng.chance(80) ? 20 : 70; bool nt = false; size_t er = 0; const int bias = (int)c.rng.below(3);
    for (int k = 0; k < steps; ++k) { if (c.rng.chance(2)) d.clear(g, m); else if (bias == 1 && c.rng.chance(40) && m.inc.size()) d.add_edge(g, m); else if (bias == 2 && c.rng.chance(30) && !m.es.empty()) { d.erase(g, m); ++er; } else { size_t b = m.es.size(); d.step(g, m); er += m.es.size() < b; } d.verify(g, m); nt |= m.es.size() > 2 && er; }
    if (nt) { c.nontrivial(hcomb(m.hash(), hstr(name) + er)); if (d.log.size() < 500) c.sample(d.log); } }
  c.checkf(Tok::live == live0, "value-leak", [&] { return std::format("{} value objects still alive after the graph was destroyed", Tok::live - live0); });
}
using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<int, int, void, u32>; using u3 = gc::undirected_adjacency_list<int, Tok, void, u64>; using u4 = gc::undirected_adjacency_list<Tok, int, std::string, uint8_t>; using u5 = gc::undirected_adjacency_list<std::string, int, void, i64>; using u6 = gc::undirected_adjacency_list<Tok, std::string, Tok, int>; using u7 = gc::undirected_adjacency_list<double, Tok, void, uint16_t>;
#define D(G, q) SUITE(edit_##G, q * 2, q * 100) { run<G>(c, #G); }
#if IN(0)
D(u1, 500) D(u2, 300)
#elif IN(1)
D(u3, 400) D(u4, 300)
#elif IN(2)
D(u5, 300) D(u6, 300)
#elif IN(3)
D(u7, 300)
#endif
