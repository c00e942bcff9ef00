// PARTS: 4
// RULE: random source-ordered edge sequences loaded into compressed graphs through every constructor and load function (vectors, lists, deques, forward lists, views; lvalue, const, rvalue; vertices before, after, both or never; vertex counts; values none, int, string, instance-counting; ids and edge indices of 8 to 64 bits, signed and unsigned); rows, columns, values, totals and lookups compared with a content model, repeatedly after clear and reload. Non-trivial: at least two edges and an edgeless vertex; distinct by (content, instantiation).
// ASSUME: edges are given in source order, as documented; an edge count fits the edge index type
// MIN: content_checks=15000
// MIN: edges_read=100000
// MIN: index_walks=8000
#include "vcsr.hpp"
using namespace vg;
template <class G> void run(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { CL<G> L(c, c.rng.chance(85) ? 10 : 45); L.log = std::string(name) + " "; bool loaded = false; G g = L.make(loaded); c.input(L.log); L.verify(g);
    int rounds = 1 + (int)c.rng.below(3);
    for (int i = 0; i < rounds; ++i) {
      if (loaded) { if (c.rng.chance(50)) { L.load_v(g, L.m.out.size()); L.verify(g); if (c.rng.chance(40)) { L.load_v(g, L.m.out.size()); L.verify(g); } } }
      else { for (u64 k = c.rng.below(3); k--;) { L.load_v(g, 5); L.verify(g); } L.load_e(g); L.verify(g); loaded = true; if (c.rng.chance(50)) { L.load_v(g, L.m.out.size()); L.verify(g); } }
      if (c.rng.chance(40)) { poke(c, g, L.m); L.log += "poke "; c.input(L.log); L.verify(g); }
      bool gap = false; for (auto& [k, a] : L.m.out) gap |= a.empty(); if (gap && L.m.stored() > 1) { c.nontrivial(hcomb(L.m.hash(), hstr(name))); if (L.log.size() < 300) c.sample(L.log); }
      if (c.rng.chance(60)) { g.clear(); int gvv = L.m.gv; L.m = {}; L.m.gv = gvv; L.log += "clear "; c.input(L.log); L.verify(g); loaded = false; } else if (c.rng.chance(30)) { g.reserve(c.rng.below(50), c.rng.below(50)); L.log += "reserve "; L.verify(g); } } }
  c.checkf(Tok::live == live0, "value-leak", [&] { return std::format("{} value objects still alive", Tok::live - live0); });
}
// a load that is not in source order is refused
template <class G> void unordered(Ctx& c) {
  CL<G> L(c, 8); auto es = L.L.edges(8); bool ord = std::is_sorted(es.begin(), es.end(), [](auto& a, auto& b) { return a.s < b.s; }); const auto r = L.L.template ce<std::vector<typename CL<G>::CEd>>(es); L.L.note("unordered ", es); bool thrown = false;
  fflush(stdout); G g; try { g.load_edges(r); } catch (const graph::graph_error&) { thrown = true; }
  c.checkf(thrown == !ord, "unordered-refused", [&] { return std::format("source-ordered: {}, graph_error: {}", ord, thrown); }); if (!ord) { c.count("refusals"); c.nontrivial(hcomb(1, c.idx)); }
  if (thrown) { g.clear(); std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.s < b.s; }); auto s = L.L.template ce<std::vector<typename CL<G>::CEd>>(es); g.load_edges(s); L.L.grow(L.L.maxid(es)); L.L.apply(es); L.verify(g); }
}
using g0 = gc::compressed_graph<int, int, int>; using g1 = gc::compressed_graph<void, void, void>; using g2 = gc::compressed_graph<Tok, Tok, Tok>; using g3 = gc::compressed_graph<std::string, std::string, void, u64, u64>;
using g4 = gc::compressed_graph<Tok, void, Tok, uint8_t, uint16_t>; using g5 = gc::compressed_graph<void, Tok, void, i64, int>; using g6 = gc::compressed_graph<int, Tok, std::string, uint16_t, u64>; using g7 = gc::compressed_graph<double, void, void, int, uint16_t>;
#define D(G, q) SUITE(load_##G, q, q * 50) { run<G>(c, #G); }
#if IN(0)
D(g0, 700) D(g1, 500)
#elif IN(1)
D(g2, 900) D(g3, 500)
#elif IN(2)
D(g4, 600) D(g5, 600)
#elif IN(3)
D(g6, 600) D(g7, 600) SUITE(unordered_g2, 300, 10000) { unordered<g2>(c); } SUITE(unordered_g7, 200, 10000) { unordered<g7>(c); }
#endif
