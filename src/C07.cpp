// PARTS: 4
// RULE: random histories over four undirected graphs: built by every constructor (initialiser lists, ranges with and without vertices, graph values) or by edits, with edges given in both endpoint orders, self-loops and parallel edges; copied, moved, assigned over empty and non-empty targets, swapped, self-assigned, kept in vectors, edited afterwards and destroyed in every order; each compared with its own edge-set model after every operation (a copy's edges as a multiset whose objects are distinct from the original's), moved-from graphs checked empty and reused, value objects counted. Non-trivial: a graph with at least two edges took part; distinct by content history.
// MIN: ual_checks=40000
// MIN: copies=5000
// MIN: moves=3000
// MIN: moved_from_checks=2000
#include "vslots.hpp"
using namespace vg;
using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<int, int, void, u32>; using u3 = gc::undirected_adjacency_list<int, Tok, void, u64>; using u4 = gc::undirected_adjacency_list<Tok, int, std::string, uint8_t>; using u5 = gc::undirected_adjacency_list<std::string, int, void, i64>; using u6 = gc::undirected_adjacency_list<Tok, std::string, Tok, int>; using u7 = gc::undirected_adjacency_list<double, Tok, void, uint16_t>;
// straight from a content to its copies
template <class G> void direct(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { UalD<G> d(c, c.rng.chance(80) ? 8 : 40); d.log = std::string(name) + " "; UM m; G g = d.make(m); if (c.rng.chance(70)) for (u64 k = c.rng.below(12); k--;) d.step(g, m); d.verify(g, m);
    UM mt; std::optional<G> t; if (c.rng.chance(60)) { t.emplace(d.make(mt)); for (u64 k = c.rng.below(6); k--;) d.step(*t, mt); } else t.emplace();
    std::set<const void*> own; for (auto& [p, i] : d.number(g, m)) own.insert(p);
    G cp(std::as_const(g)); *t = std::as_const(g); UM m1 = m, m2 = m; d.copied(cp, m1); d.copied(*t, m2); d.verify(cp, m1); d.verify(*t, m2); for (auto& [p, i] : d.number(cp, m1)) c.check(!own.count(p), "copy-independent", "copy shares an edge object"); for (auto& [p, i] : d.number(*t, m2)) c.check(!own.count(p), "copy-independent", "assigned graph shares an edge object");
    G cc(std::as_const(cp)); UM m3 = m1; d.copied(cc, m3); d.verify(cc, m3); // a copy of the copy
    for (int k = 0; k < 3; ++k) { d.step(cp, m1); d.step(*t, m2); } d.verify(g, m); d.verify(cp, m1); d.verify(*t, m2);
    std::vector<const void*> before; for (auto& [p, i] : d.number(g, m)) before.push_back(p); G mv(std::move(g)); d.verify(mv, m); std::vector<const void*> after; for (auto& [p, i] : d.number(mv, m)) after.push_back(p); if (before != after) c.count("moves_that_copy"); c.check((size_t)g.num_vertices() == 0 && (size_t)g.num_edges() == 0, "moved-from-empty"); c.count("moved_from_checks");
    UM mm; d.regv(g, mm); for (int k = 0; k < 4; ++k) d.step(g, mm); d.verify(g, mm); *t = std::move(mv); d.verify(*t, m); d.step(*t, m); d.verify(*t, m); mv = std::move(cp); d.verify(mv, m1); std::swap(mv, *t); d.verify(mv, m); d.verify(*t, m1); d.verify(g, mm); d.verify(cc, m3); c.count("copies", 3); c.count("moves", 3);
    if (m.es.size() > 1) { c.nontrivial(hcomb(hcomb(m.hash(), m1.hash()), hstr(name))); if (d.log.size() < 500) c.sample(d.log); } }
  c.checkf(Tok::live == live0, "value-leak", [&] { return std::format("{} value objects still alive after all graphs were destroyed", Tok::live - live0); });
}
#define D(G, q) SUITE(slots_##G, q, q * 50) { history<G, UalD<G>>(c, #G, 20); } SUITE(direct_##G, q * 2, q * 100) { direct<G>(c, #G); }
#if IN(0)
D(u1, 500) D(u2, 300)
#elif IN(1)
D(u3, 400) D(u4, 300)
#elif IN(2)
D(u5, 300) D(u6, 300)
#elif IN(3)
D(u7, 300)
#endif
