// PARTS: 8
// RULE: random load histories (constructors from initialiser lists, ranges, ranges with vertices, graph values; then several load_edges/load_vertices from vectors, lists, deques, spans, views, single-pass ranges, lvalues, const and rvalues, with and without vertex counts and hints) over all 27 shipped container combinations with value types none, int, string and an instance-counting type, and ids of 8 to 64 bits, signed and string; after each step everything readable is compared with a content model, and the caller's ranges with their originals. Non-trivial: at least two edges stored; distinct by (content, container).
// ASSUME: without a vertex count, a single-pass range is only loaded into a graph that has the vertices already or stores them by key
// MIN: content_checks=20000
// MIN: loads=20000
// MIN: edges_read=100000
#include "vload.hpp"
using namespace vg;
template <class G> void run(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { Loader<G> L(c); L.log = std::string(name) + " "; u32 maxn = c.rng.chance(85) ? 9 : 40; if constexpr (sizeof(typename Tr<G>::Id) == 1) maxn = c.rng.chance(85) ? 9 : 60;
    G g = L.make(maxn); c.input(L.log); L.verify(g, maxn); int steps = 1 + (int)c.rng.below(4);
    for (int i = 0; i < steps; ++i) { if (c.rng.chance(65)) L.load_edges(g, maxn); else L.load_vertices(g, maxn); L.verify(g, maxn); if (c.rng.chance(30)) { poke(c, g, L.m); L.log += "poke "; c.input(L.log); L.verify(g, maxn); } }
    if (L.m.stored() > 1) { c.nontrivial(hcomb(L.m.hash(), hstr(name))); if (L.log.size() < 300) c.sample(L.log); } }
  c.checkf(Tok::live == live0, "value-leak", [&] { return std::format("{} value objects still alive after the graph was destroyed", Tok::live - live0); });
}
// ids beyond the declared vertex count are refused, with what was loaded before them kept
template <class G> void refuse(Ctx& c, const char* name) {
  const i64 live0 = Tok::live;
  { Loader<G> L(c); using Id = typename Tr<G>::Id; auto es = L.edges(8); size_t need = L.maxid(es); if (need < 2) return; size_t vc = 1 + c.rng.below(need - 1); L.log = std::string(name) + " refuse "; L.note(std::format("load_edges vertex_count={}", vc), es);
    G g; bool thrown = false; auto r = L.template ce<std::vector<typename Loader<G>::CEd>>(es); try { if (c.rng.chance(50)) g.load_edges(r, std::identity{}, vc); else { size_t reads = 0; g.load_edges(OnePass<decltype(r)>{&r, &reads}, std::identity{}, vc); } } catch (const std::runtime_error&) { thrown = true; }
    c.check(thrown, "no-exception", "an id beyond the vertex count was accepted"); L.intact(r, es, "load_edges that throws"); L.grow(vc); std::vector<typename Loader<G>::Ed> pre; for (auto& e : es) { if ((size_t)e.s >= vc || (size_t)e.t >= vc) break; pre.push_back(e); } L.apply(pre); L.verify(g, 8);
    if constexpr (!std::is_void_v<typename Tr<G>::VV>) { std::vector<typename Loader<G>::CV> vs; vs.push_back({(Id)(vc + 3), mkval<typename Tr<G>::VV>(1)}); thrown = false; try { g.load_vertices(vs, std::identity{}); } catch (const std::out_of_range&) { thrown = true; } c.check(thrown == (vc + 3 >= L.m.out.size()), "no-exception", "load_vertices of an id beyond the vertices"); L.verify(g, 8); }
    c.count("refusals"); c.nontrivial(hcomb(L.m.hash(), hstr(name) + 1)); }
  c.check(Tok::live == live0, "value-leak");
}
template <template <class, class, class, class, bool> class T> using Gi = dyn<T, int, void, void, u32>;
template <template <class, class, class, class, bool> class T> using Gv = dyn<T, void, void, void, u32>;
template <template <class, class, class, class, bool> class T> using Gt = dyn<T, Tok, Tok, Tok, u32>;
template <template <class, class, class, class, bool> class T> using Gs = dyn<T, std::string, int, std::string, u64>;
template <template <class, class, class, class, bool> class T> using Gp = dyn<T, void, Tok, void, i64>;
template <template <class, class, class, class, bool> class T> using Gb = dyn<T, Tok, void, void, uint8_t>;
template <template <class, class, class, class, bool> class T> using Gn = dyn<T, Tok, std::string, void, std::string>;
#define D(K, TR, q) SUITE(K##_##TR, q * 4, q * 120) { run<K<gc::TR##_graph_traits>>(c, #K " " #TR); }
#define R(K, TR) SUITE(refuse_##K##_##TR, 60, 3000) { refuse<K<gc::TR##_graph_traits>>(c, #K " " #TR); }
#if IN(0)
D(Gt, vov, 250) D(Gi, vov, 80) D(Gb, vov, 150) D(Gt, vol, 150) D(Gs, vol, 80) R(Gt, vov) R(Gi, vol)
#elif IN(1)
D(Gt, vofl, 150) D(Gv, vofl, 80) D(Gp, vod, 150) D(Gt, vod, 100) R(Gt, vofl) D(Gp, vov, 100)
#elif IN(2)
D(Gt, vos, 150) D(Gi, vos, 80) D(Gt, vom, 150) D(Gi, vous, 100) D(Gt, vous, 100) R(Gt, vos)
#elif IN(3)
D(Gt, voum, 150) D(Gi, dov, 80) D(Gt, dov, 100) D(Gt, dol, 100) D(Gs, dofl, 100) R(Gt, dov)
#elif IN(4)
D(Gt, dofl, 100) D(Gt, dod, 100) D(Gv, dod, 80) D(Gt, dos, 100) D(Gi, dous, 80) R(Gt, dod)
#elif IN(5)
D(Gt, mov, 150) D(Gn, mov, 120) D(Gt, mol, 100) D(Gi, mol, 80) D(Gt, mofl, 100)
#elif IN(6)
D(Gn, mod, 100) D(Gt, mos, 100) D(Gn, mos, 100) D(Gt, mom, 100) D(Gt, mous, 100) D(Gt, uov, 100)
#elif IN(7)
D(Gt, uol, 100) D(Gn, uofl, 100) D(Gp, uod, 100) D(Gt, uos, 100) D(Gt, uous, 100) D(Gn, uov, 100)
#endif
