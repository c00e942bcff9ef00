// PARTS: 12
// SHARDS: 4
// FLAGS: -DVH_TRACE -DVH_CASE_CPU_SECONDS=100
// VARIANT: clang-O2-NDEBUG clang++ -std=c++20 -O2 -DNDEBUG -funsigned-char -ftrivial-auto-var-init=pattern -DVH_FILL=0xA7
// VARIANT: gcc-O0-checked g++ -std=c++20 -O0 -D_GLIBCXX_DEBUG -ftrivial-auto-var-init=zero -DVH_FILL=0
// VARIANT: gcc-O2-NDEBUG g++ -std=c++20 -O2 -DNDEBUG -ftrivial-auto-var-init=pattern -DVH_FILL=0x5B
// TVARIANT: gcc-O3-c++23-NDEBUG g++ -std=c++23 -O3 -DNDEBUG -ftrivial-auto-var-init=zero -DVH_FILL=0xFF
// TVARIANT: clang-O3-c++23-checked clang++ -std=c++23 -O3 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC -ftrivial-auto-var-init=pattern -DVH_FILL=1
// TVARIANT: gcc-Os-fwrapv-NDEBUG g++ -std=c++20 -Os -fwrapv -DNDEBUG -funsigned-char -DVH_FILL=0x80
// RULE: the same cases are run by several builds of one program (different compilers, optimisation levels, with and without NDEBUG, standard-library debug checks, char signedness, and with uninitialised automatic and heap memory filled with different patterns); every build records, for every case, what each operation returned, which exception it ended with and how the history went, and the records are compared line by line: all read-only operations, views, searches and algorithms on 9 representations, histories of fills, copies, moves, edits and erasures of the containers, and refused calls. A difference between two builds is the violation, a failure common to all builds is not. Non-trivial: a case whose record is complete in every build; distinct by input
// ASSUME: two builds given the same seed build the same input (compared by a hash of its description; a case whose inputs differ because the harness's own expressions are evaluated in another order is compared only between builds of the same compiler)
// ASSUME: configurations outside the listed ones (other standard libraries, 32-bit targets, LTO) are not explored
// MIN: compared=8000
// MIN: compared_across_compilers=3000
// MIN: refused_calls_compared=300
#include "vjobs.hpp"
#include "vslots.hpp"
#include <random>
#if defined(VH_FILL) && PART == 0
#include <new>
// fresh memory holds a pattern that differs between the builds
static void* vh_get(size_t n, size_t al) { void* p = al > 16 ? aligned_alloc(al, (n + al) / al * al) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, VH_FILL, n); return p; }
void* operator new(size_t n) { return vh_get(n, 0); }
void* operator new[](size_t n) { return vh_get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return vh_get(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return vh_get(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif

template <class G> void jobs(Ctx& c) {
  GenOpt o; o.maxn = c.rng.chance(30) ? 40 : 14; o.allow_empty = false; constexpr bool U = std::is_same_v<G, ual>; bool und = U || c.rng.chance(30); auto base = gen_graph(c.rng, o, und); if (!base.n) return;
  for (auto& e : base.es) e.w = (e.w < 0 ? -e.w : e.w) & 255; EL sy = U ? base : fully_sorted(symmetrize(base)), tr = U ? base : transposed(base); c.input(std::string(Name<G>::v) + " " + base.str());
  G g = build_any<G>(base), h = build_any<G>(sy), t = build_any<G>(tr); std::vector<u32> ids; if (graph::num_vertices(g) == 0) return; for (auto u : graph::vertices(g)) ids.push_back((u32)graph::vertex_id(g, u)); u32 src = ids[c.rng.below(ids.size())];
  bool dag = false; if constexpr (!is_sparse<G>) if (!U) { std::vector<graph::vertex_id_t<G>> v; dag = graph::topological_sort(g, std::back_inserter(v)); }
  std::vector<Job> J; const G &cg = g, &ch = h, &ct = t; add_jobs<G, const G>(J, cg, ch, ct, base.n, ids, src, dag, false);
  for (auto& j : J) { u64 r = 0; try { r = j.f(); } catch (const std::exception& e) { r = hstr(e.what()); } c.trace(j.name, r); c.count("jobs"); }
  { G q(cg); H x; for (auto u : graph::vertices(q)) for (auto uv : graph::edges(q, u)) x((u64)graph::target_id(q, uv)); c.trace("copy", x.h); }
}
#define J7(G) TS(jobs, G, 240, 12000)
// containers' histories, one model each
#define H7(NM, G, D, q) SUITE(hist_##NM, q, q * 50) { history<G, D<G>>(c, #NM, 14); }
template <template <class, class, class, class, bool> class T> using Gt = dyn<T, Tok, Tok, Tok, u32>;
using d1 = Gt<gc::vov_graph_traits>; using d2 = Gt<gc::vofl_graph_traits>; using d3 = Gt<gc::mos_graph_traits>; using d4 = Gt<gc::uol_graph_traits>; using d5 = dyn<gc::dov_graph_traits, void, int, void, u64>;
using c1 = gc::compressed_graph<Tok, Tok, Tok>; using c2 = gc::compressed_graph<void, void, void>; using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<Tok, std::string, void, uint8_t>;
// calls the documentation refuses: which exception, and what it left behind
template <class G> void refused(Ctx& c) {
  using Id = graph::vertex_id_t<G>; auto base = gen_graph(c.rng, {.maxn = 9, .allow_empty = false}); c.input(std::string(Name<G>::v) + " " + base.str()); if (!base.n) return; const G g = build_any<G>(base); const size_t n = graph::num_vertices(g); if (!n) return;
  auto w = [](const auto& g, const auto& uv) { return val_of(g, uv) & 255; }; auto neg = [](const auto& g, const auto& uv) { return (val_of(g, uv) & 7) - 3; };
  auto call = [&](const char* nm, auto f) { H o; u64 kind = 0; try { f(o); } catch (const std::out_of_range& e) { kind = 1; } catch (const std::invalid_argument& e) { kind = 2; } catch (const std::logic_error& e) { kind = 3; } catch (const graph::graph_error& e) { kind = 4; } catch (const std::runtime_error& e) { kind = 5; } catch (const std::exception& e) { kind = 6; }
    c.trace(nm, hcomb(kind, o.h)); if (kind) c.count("refused_calls"); };
  std::vector<Id> bad{(Id)0, (Id)(n + c.rng.below(5))}; const Id far = bad[1], src = (Id)c.rng.below(n); std::vector<int> d(n, INT_MAX / 2), few(n - 1, INT_MAX / 2); std::vector<u32> p(n), fewp(n - 1);
  call("dijkstra source", [&](H& o) { graph::dijkstra_shortest_paths(g, far, d, p, w); o.all(d); });
  call("dijkstra sources", [&](H& o) { graph::dijkstra_shortest_paths(g, bad, d, p, w); o.all(d); });
  call("dijkstra distances", [&](H&) { graph::dijkstra_shortest_paths(g, src, few, p, w); });
  call("dijkstra predecessors", [&](H&) { graph::dijkstra_shortest_paths(g, src, d, fewp, w); });
  call("dijkstra negative", [&](H& o) { std::vector<int> d(n, INT_MAX / 2); graph::dijkstra_shortest_paths(g, src, d, p, neg); o.all(d); });
  call("dijkstra distances only", [&](H&) { graph::dijkstra_shortest_distances(g, far, d, w); });
  call("bellman_ford source", [&](H&) { auto r = graph::bellman_ford_shortest_paths(g, far, d, p, w); (void)r; });
  call("bellman_ford distances", [&](H&) { auto r = graph::bellman_ford_shortest_paths(g, src, few, p, w); (void)r; });
  call("bellman_ford predecessors", [&](H&) { auto r = graph::bellman_ford_shortest_paths(g, src, d, fewp, w); (void)r; });
  call("bellman_ford negative", [&](H& o) { std::vector<int> d(n, INT_MAX / 2); std::vector<u32> p(n); auto r = graph::bellman_ford_shortest_paths(g, src, d, p, neg); o(r.has_value()); if (r) { o.all(d); std::vector<Id> cyc; } else o(1); });
  call("prim seed", [&](H&) { std::vector<int> w2(n); graph::prim(g, p, w2, far); });
  call("prim predecessors", [&](H&) { std::vector<int> w2(n); graph::prim(g, fewp, w2, src); });
  call("prim weights", [&](H&) { std::vector<int> w2(n - 1); graph::prim(g, p, w2, src); });
  if constexpr (Tr<G>::dyn) {
    auto es = as_ce(base); call("load_edges too far", [&](H& o) { G q; auto e2 = es; e2.push_back({(u32)(base.n + 2), 0, 1}); try { q.load_edges(e2, std::identity{}, base.n); } catch (...) { o((u64)graph::num_vertices(q)); throw; } });
  }
  if constexpr (std::is_same_v<G, csr>) { call("partitions", [&](H&) { std::vector<u32> st{0, 5, 5}; G q(as_ce(fully_sorted(base)), std::identity{}, st); }); call("partitions beyond", [&](H&) { std::vector<u32> st{0, (u32)n + 3}; G q(as_ce(fully_sorted(base)), std::identity{}, st); });
    call("unordered", [&](H&) { auto es = as_ce(fully_sorted(base)); std::reverse(es.begin(), es.end()); const auto ce = es; G q; fflush(stdout); q.load_edges(ce); }); }
  for (auto i : bad) { call("degree of ids", [&](H& o) { if ((size_t)i < n) o((u64)graph::degree(g, i)); }); call("contains", [&](H& o) { if constexpr (!std::is_same_v<G, csr>) o(graph::contains_edge(g, src, i)); }); }
}
#if IN(0)
J7(vov)
#elif IN(1)
J7(vofl)
#elif IN(2)
J7(mov)
#elif IN(3)
J7(csr)
#elif IN(4)
J7(ual)
#elif IN(5)
J7(vob)
#elif IN(6)
J7(vvp)
#elif IN(7)
J7(vos)
#elif IN(8)
J7(dol)
#elif IN(9)
H7(vov, d1, DynD, 400) H7(vofl, d2, DynD, 400)
SUITE(refused_vov, 300, 20000) { refused<vov>(c); }
#elif IN(10)
H7(mos, d3, DynD, 400) H7(uol, d4, DynD, 400) H7(dov, d5, DynD, 300)
SUITE(refused_csr, 300, 20000) { refused<csr>(c); }
#elif IN(11)
H7(csr, c1, CsrD, 400) H7(csrv, c2, CsrD, 300) H7(ual, u1, UalD, 500) H7(ual8, u2, UalD, 400)
#endif
