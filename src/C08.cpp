// PARTS: 9
// RULE: graphs whose allocators belong to distinguishable arenas that log every block. (1) the histories of C03 (fill, copy, move, assign, swap, clear, return, destroy, over four graphs of one type) with every graph made in an arena of its own or all in one, with allocators that do and do not propagate; contents are compared with the models after every operation, a block returned to another arena or with another size stops the run, and no arena holds a block when its graphs are gone. (2) every constructor that accepts an allocator, followed by loading, editing, copying and clearing, over random edges: all memory the graph keeps is in the caller's arena, none in a default-constructed allocator's and none on the global heap; a copy's memory is where select_on_container_copy_construction says. Non-trivial: a graph with an edge; distinct by (edges, type, form).
// ASSUME: allocators passed to dynamic graphs are not uses-allocator-propagating (polymorphic_allocator, scoped_allocator_adaptor)
// ASSUME: graphs with unequal, non-propagating allocators are not exchanged with member swap (as for standard containers)
// MIN: content_checks=20000
// MIN: contained=4000
// MIN: blocks=200000
// MIN: soccc_copies=400
#include "vslots.hpp"
namespace arena { using vg::i64;
template <class T> struct Raw { using value_type = T; Raw() = default; template <class U> Raw(const Raw<U>&) noexcept {} T* allocate(size_t n) { return (T*)std::malloc(n * sizeof(T)); } void deallocate(T* p, size_t) noexcept { std::free(p); } friend bool operator==(const Raw&, const Raw&) { return true; } };
template <class V> using RawMap = std::map<void*, V, std::less<void*>, Raw<std::pair<void* const, V>>>;
struct A { i64 live = 0, total = 0; RawMap<size_t> blocks; };
inline A orphan, *cur = &orphan, *soccc = nullptr;
// global heap blocks obtained while the library runs
inline RawMap<bool> heapset; inline bool metering = false; struct Off { bool old = metering; Off() { metering = false; } ~Off() { metering = old; } };
// P: propagates on copy/move/swap; S: copies of a container use the arena `soccc`
template <class T, int P> struct TA { using value_type = T; using is_always_equal = std::false_type; template <class U> struct rebind { using other = TA<U, P>; };
  using propagate_on_container_copy_assignment = std::bool_constant<P == 1>; using propagate_on_container_move_assignment = std::bool_constant<P == 1>; using propagate_on_container_swap = std::bool_constant<P == 1>;
  A* a; TA() noexcept : a(cur) {} explicit TA(A* x) noexcept : a(x) {} template <class U> TA(const TA<U, P>& o) noexcept : a(o.a) {}
  TA select_on_container_copy_construction() const { if constexpr (P == 2) return TA(soccc ? soccc : a); else return *this; }
  T* allocate(size_t n) { static_assert(alignof(T) <= 16); void* p = std::malloc(n * sizeof(T) ? n * sizeof(T) : 1); if (!p) throw std::bad_alloc(); a->blocks[p] = n; ++a->live; ++a->total; return (T*)p; }
  void deallocate(T* p, size_t n) noexcept { auto it = a->blocks.find(p); if (it == a->blocks.end() || it->second != n) { std::fprintf(stderr, "block %p of %zu returned to an arena it does not come from (or with another size)\n", (void*)p, n); std::abort(); } a->blocks.erase(it); --a->live; std::free(p); }
  template <class U> friend bool operator==(const TA& x, const TA<U, P>& y) noexcept { return x.a == y.a; } };
struct On { A* old; explicit On(A* a) : old(cur) { cur = a; } ~On() { cur = old; } };
}
using namespace vg; using arena::TA;
#define TRAITS(NAME, P, VERTS, EDGES) template <class EV, class VV, class GV, class VId, bool B = false> struct NAME { using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId; static constexpr bool bidirectional = B; \
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, B, NAME>; using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, B, NAME>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, B, NAME>; \
  template <class T> using vec = std::vector<T, TA<T, P>>; template <class T> using lst = std::list<T, TA<T, P>>; template <class T> using fwd = std::forward_list<T, TA<T, P>>; template <class T> using deq = std::deque<T, TA<T, P>>; template <class T> using set = std::set<T, std::less<T>, TA<T, P>>; template <class T> using uset = std::unordered_set<T, std::hash<T>, std::equal_to<T>, TA<T, P>>; \
  template <class T> using map = std::map<VId, T, std::less<VId>, TA<std::pair<const VId, T>, P>>; template <class T> using umap = std::unordered_map<VId, T, std::hash<VId>, std::equal_to<VId>, TA<std::pair<const VId, T>, P>>; \
  using vertices_type = VERTS<vertex_type>; using edges_type = EDGES; };
#define BOTH(N, V, E) TRAITS(N##0, 0, V, E) TRAITS(N##1, 1, V, E)
#define C_ ,
namespace c08 {
BOTH(vov, vec, vec<edge_type>) BOTH(vol, vec, lst<edge_type>) BOTH(vofl, vec, fwd<edge_type>) BOTH(dod, deq, deq<edge_type>) BOTH(vos, vec, set<edge_type>) BOTH(vous, vec, uset<edge_type>) BOTH(vom, vec, map<edge_type>) BOTH(mov, map, vec<edge_type>) BOTH(mol, map, lst<edge_type>) BOTH(uov, umap, vec<edge_type>) BOTH(uous, umap, uset<edge_type>)
template <template <class, class, class, class, bool> class T, class EV, class VV, class GV, class Id = u32> using dg = gc::dynamic_graph<EV, VV, GV, Id, false, T<EV, VV, GV, Id, false>>;
TRAITS(vov2, 2, vec, vec<edge_type>) TRAITS(mol2, 2, map, lst<edge_type>)
#define BIDI(NAME, P, VERTS, OUTS, INS) template <class EV, class VV, class GV, class VId> struct NAME##_t { using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId; static constexpr bool bidirectional = true; \
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, NAME##_t>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, NAME##_t>; using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, NAME##_t>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, NAME##_t>; \
  template <class T> using vec = std::vector<T, TA<T, P>>; template <class T> using lst = std::list<T, TA<T, P>>; template <class T> using map = std::map<VId, T, std::less<VId>, TA<std::pair<const VId, T>, P>>; using edges_type = OUTS; using in_edges_type = INS; using vertices_type = VERTS; }; \
  template <class EV, class VV, class GV> using NAME = gc::dynamic_graph<EV, VV, GV, u32, true, NAME##_t<EV, VV, GV, u32>>;
BIDI(vvb0, 0, vec<vertex_type>, vec<edge_type>, vec<in_edge_type>) BIDI(vvb1, 1, vec<vertex_type>, lst<edge_type>, vec<in_edge_type>) BIDI(mvb0, 0, map<vertex_type>, vec<edge_type>, lst<in_edge_type>) BIDI(mvb1, 1, map<vertex_type>, lst<edge_type>, lst<in_edge_type>)
template <int P, class EV, class VV, class GV, class Id = u32> using cg = gc::compressed_graph<EV, VV, GV, Id, Id, TA<Id, P>>;
template <int P, class EV, class VV, class GV, class Id = u32> using ug = gc::undirected_adjacency_list<EV, VV, GV, Id, std::vector, TA<char, P>>;

// (1) the drivers of the histories, with an arena per graph
inline std::deque<arena::A> pool; inline bool single;
template <class G, class D> struct In : D { using D::D; auto make(typename D::M& m) { if (pool.empty() || !single) { pool.emplace_back(); } arena::On on(&pool.back()); this->c.count("made_in_arena"); return D::make(m); }
  bool may_swap() const { return single; }
  void verify(G& g, typename D::M& m) { D::verify(g, m); this->c.check(arena::orphan.live == 0, "orphan-memory", "a default-constructed allocator's arena holds blocks of a graph"); } };
template <class G, class D> void hist(Ctx& c, const char* nm, int P) { pool.clear(); arena::soccc = nullptr; single = P == 0 ? c.rng.chance(50) : c.rng.chance(20); history<G, In<G, D>>(c, nm, 14); i64 t = 0; for (auto& a : pool) { c.check(a.live == 0, "blocks-left", "an arena still holds blocks after all its graphs were destroyed"); t += a.total; } c.count("blocks", (u64)t); c.count("arenas", pool.size()); pool.clear(); }

// (2) where the memory of one graph is
template <class A> constexpr int pk = 0; template <class T, int P> constexpr int pk<TA<T, P>> = P;
template <class G> struct AlOf { using type = typename G::allocator_type; }; template <class EV, class VV, class GV, class I, class E, class A> struct AlOf<gc::compressed_graph<EV, VV, GV, I, E, A>> { using type = A; };
template <class G> void contained(Ctx& c, const char* nm) {
  using T = Tr<G>; using Id = typename T::Id; using EV = typename T::EV; using VV = typename T::VV; using GV = typename T::GV; using Al = AlOf<G>::type; using CEd = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>;
  GenOpt o; o.maxn = 10; auto g0 = gen_graph(c.rng, o); std::stable_sort(g0.es.begin(), g0.es.end(), [](auto& x, auto& y) { return x.s < y.s; }); c.input(std::string(nm) + " " + g0.str());
  arena::A own, cop, third; using namespace arena; On on(&orphan); soccc = nullptr;
  std::vector<CEd> es; for (auto& e : g0.es) { if constexpr (std::is_void_v<EV>) es.push_back(CEd{(Id)e.s, (Id)e.t}); else es.push_back(CEd{(Id)e.s, (Id)e.t, mkval<EV>((int)es.size() + 1)}); }
  std::vector<CV> vs; for (u32 i = 0; i < g0.n; ++i) { if constexpr (std::is_void_v<VV>) vs.push_back(CV{(Id)i}); else vs.push_back(CV{(Id)i, mkval<VV>((int)i + 50)}); }
  size_t mu = 0; { std::set<std::pair<u32, u32>> s; for (auto& e : g0.es) { s.insert({e.s, e.t}); } mu = s.size(); }
  auto id = std::identity{}; int form = (int)c.rng.below(8); std::vector<Id> parts; if (!T::und && !es.empty() && g0.es.back().s > 1 && c.rng.chance(30)) { parts = {(Id)0, (Id)(g0.es.back().s / 2)}; } // partition ids are kept too; every constructor makes the vertices of all sources
  auto ok = [&](bool b, const char* key, const char* what = "") { if (!b) { Off off; c.check(false, key, what); } };
  auto count = [](const G& x) { size_t k = 0; for (auto&& u : graph::vertices(x)) for (auto&& e : graph::edges(x, u)) { (void)e; ++k; } return k; };
  auto where = [&](arena::A& w, const G& x, const char* what) { Off off; c.count("contained"); size_t k = count(x); c.checkf(orphan.live == 0, "orphan-memory", [&] { return std::format("{}: {} blocks in the arena of a default-constructed allocator ({} form {})", what, orphan.live, nm, form); });
    c.checkf(k == 0 || w.live > 0, "not-in-arena", [&] { return std::format("{}: nothing in the arena of the graph's allocator ({} form {})", what, nm, form); }); };
  auto heaped = [&](const char* what) { Off off; c.checkf(arena::heapset.empty(), "global-heap", [&] { return std::format("{}: {} blocks kept on the global heap ({} form {})", what, arena::heapset.size(), nm, form); }); };
  { std::optional<G> g; const Al al(&own); metering = true; size_t want = es.size();
    if constexpr (T::dyn) { using EA = typename G::edge_allocator_type;
      switch (form) {
      case 0: g.emplace(al); break;
      case 1: if constexpr (!std::is_void_v<GV>) { const GV v = mkval<GV>(7); g.emplace(v, al); } else g.emplace(al); break;
      case 2: if constexpr (!std::is_void_v<GV>) g.emplace(mkval<GV>(7), al); else g.emplace(al); break;
      case 3: case 4: if constexpr (T::keyed_v) { std::vector<Id> none; g.emplace(es, vs, id, id, none, al); } else g.emplace(es, vs, id, id, parts, al); where(own, *g, "constructed from ranges"); break;
      case 5: { if constexpr (std::is_void_v<EV>) g.emplace(G({CEd{0, 1}, CEd{1, 3}, CEd{2, 0}}, EA(&own))); else g.emplace(G({CEd{0, 1, mkval<EV>(1)}, CEd{1, 3, mkval<EV>(2)}, CEd{2, 0, mkval<EV>(3)}}, EA(&own))); where(own, *g, "constructed from a list"); ok(count(*g) == 3, "content"); break; }
      case 6: if constexpr (!std::is_void_v<GV> && !std::is_void_v<EV>) { g.emplace(G(mkval<GV>(3), {CEd{0, 1, mkval<EV>(1)}, CEd{1, 3, mkval<EV>(2)}}, EA(&own))); where(own, *g, "constructed from a value and a list"); break; } [[fallthrough]];
      default: g.emplace(al); if constexpr (requires { g->resize_vertices(5); }) g->resize_vertices(g0.n + 2); where(own, *g, "resized"); break; }
      if (form != 3 && form != 4) { g->clear(); ok(count(*g) == 0, "content"); if (c.rng.chance(50)) g->load_vertices(vs, id); where(own, *g, "vertices loaded"); if (c.rng.chance(50)) g->load_edges(es, id); else g->load_edges(es, id, g0.n, es.size()); }
      else if (c.rng.chance(40)) { Off o1; std::vector<CEd> more(es.begin(), es.begin() + (std::ptrdiff_t)(es.size() / 2)); arena::metering = true; g->load_edges(more, id); want += more.size(); }
      if constexpr (T::out == Ord::append || T::out == Ord::prepend) ok(count(*g) == want, "content"); else ok(count(*g) == mu, "content");
    } else if constexpr (!T::und) {
      switch (form) {
      case 0: case 1: g.emplace(al); g->load_edges(es, id); break;
      case 2: if constexpr (!std::is_void_v<GV>) g.emplace(mkval<GV>(7), al); else g.emplace(al); g->load(es, vs, id, id); break;
      case 3: if constexpr (!std::is_void_v<GV>) { g.emplace(mkval<GV>(7), es, id, parts, al); break; } [[fallthrough]];
      case 4: g.emplace(es, id, parts, al); break;
      case 5: if constexpr (!std::is_void_v<GV>) { g.emplace(mkval<GV>(7), es, vs, id, id, parts, al); break; } [[fallthrough]];
      case 6: g.emplace(es, vs, id, id, parts, al); break;
      default: if constexpr (std::is_void_v<EV>) g.emplace(G({CEd{0, 1}, CEd{1, 3}, CEd{2, 0}}, al)); else g.emplace(G({CEd{0, 1, mkval<EV>(1)}, CEd{1, 3, mkval<EV>(2)}, CEd{2, 0, mkval<EV>(3)}}, al)); ok(count(*g) == 3, "content"); where(own, *g, "constructed from a list"); g->clear(); g->load_edges(es, id); break; }
      ok(count(*g) == want, "content");
      if (c.rng.chance(30)) if constexpr (requires { g->reserve(50, 90); }) g->reserve(50, 90);
    } else { using Il = std::initializer_list<std::tuple<Id, Id, EV>>;
      switch (form) {
      case 0: case 1: g.emplace(al); break;
      case 2: if constexpr (!std::is_void_v<GV>) g.emplace(mkval<GV>(7), al); else g.emplace(al); break;
      case 3: case 4: if constexpr (!std::is_void_v<GV>) g.emplace(es, id, mkval<GV>(7), al); else g.emplace(es, id, al); where(own, *g, "constructed from edges"); break;
      case 5: case 6: if constexpr (!std::is_void_v<GV>) g.emplace(es, vs, id, id, mkval<GV>(7), al); else g.emplace(es, vs, id, id, al); where(own, *g, "constructed from ranges"); break;
      default: g.emplace(Il{{0, 1, mkval<EV>(1)}, {1, 3, mkval<EV>(2)}, {2, 0, mkval<EV>(3)}}, al); where(own, *g, "constructed from a list"); break; }
      g->clear(); while ((size_t)graph::num_vertices(*g) < g0.n) { if (c.rng.chance(50)) g->create_vertex(); else g->create_vertex(mkval<VV>(5)); } std::vector<std::pair<Id, Id>> made; for (auto& e : g0.es) { if (c.rng.chance(50)) g->create_edge((Id)e.s, (Id)e.t); else g->create_edge((Id)e.s, (Id)e.t, mkval<EV>(e.w)); { Off off; made.emplace_back(e.s, e.t); } }
      want = 0; for (auto& [s, t] : made) want += s == t ? 1 : 2; ok(count(*g) == want, "content"); }
    where(own, *g, "filled"); heaped("filled");
    { G k(std::as_const(*g)); where(own, k, "copied"); heaped("copied"); ok(count(k) == count(*g), "content", "copy");
      if constexpr (pk<Al> == 2) { const i64 before = own.live; soccc = &cop; G s(std::as_const(*g)); soccc = nullptr; arena::Off off; c.count("soccc_copies"); ok(own.live == before, "soccc", "a copy took memory from the arena of its source"); ok(count(*g) == 0 || cop.live > 0, "soccc", "a copy has no memory in the selected arena"); ok(count(s) == count(*g), "content", "copy"); }
      { G m(std::move(k)); ok(count(m) == count(*g), "content", "moved"); heaped("moved");
        G d{Al(&third)}; d = std::as_const(*g); where(own, d, "assigned"); heaped("assigned"); ok(count(d) == count(*g), "content", "assigned"); if constexpr (!T::dyn) if (count(d) > 0) ok(pk<Al> == 1 ? third.live == 0 : third.live > 0, "assigned-allocator", "copy assignment must keep its own allocator exactly when it does not propagate");
        G f{Al(&third)}; f = std::move(m); heaped("move-assigned"); ok(count(f) == count(*g), "content", "move-assigned"); ok(orphan.live == 0, "orphan-memory", "move-assigned"); } }
    ok(own.live > 0 || count(*g) == 0, "not-in-arena"); g->clear(); heaped("cleared"); if constexpr (T::und) { auto ua = g->create_vertex(); (void)ua; } else g->load_edges(es, id); where(own, *g, "used again"); heaped("used again"); g.reset(); heaped("destroyed"); metering = false; }
  for (auto* a : {&own, &cop, &third, &orphan}) { ok(a->live == 0, "blocks-left"); } c.count("blocks", (u64)(own.total + cop.total + third.total));
  if (!es.empty()) { c.nontrivial(hcomb(g0.hash(), hcomb(hstr(nm), (u64)form))); if (es.size() < 10) c.sample(std::string(nm) + " form " + std::to_string(form) + " " + g0.str()); }
}
#define D(TR, q) SUITE(hist_##TR##0, q, q * 30) { using G = dg<TR##0, Tok, Tok, Tok>; hist<G, DynD<G>>(c, #TR, 0); } SUITE(hist_##TR##1, q, q * 30) { using G = dg<TR##1, Tok, void, int>; hist<G, DynD<G>>(c, #TR, 1); } \
  SUITE(in_##TR##0, q * 3, q * 300) { contained<dg<TR##0, int, int, int>>(c, #TR "0"); } SUITE(in_##TR##1, q * 3, q * 300) { contained<dg<TR##1, void, void, void>>(c, #TR "1"); }
#define B(TR, q) SUITE(in_##TR##0, q * 3, q * 300) { contained<TR##0<int, int, int>>(c, #TR "0"); } SUITE(in_##TR##1, q * 3, q * 300) { contained<TR##1<void, void, void>>(c, #TR "1"); } SUITE(hist_##TR##0, q, q * 30) { using G = TR##0<Tok, Tok, Tok>; hist<G, DynD<G>>(c, #TR, 0); }
#define K(N, P, q) SUITE(hist_csr##N, q, q * 30) { using G = cg<P, Tok, Tok, Tok>; hist<G, CsrD<G>>(c, "compressed", P); } SUITE(in_csr##N, q * 3, q * 300) { contained<cg<P, int, int, int>>(c, "compressed"); } SUITE(in_csrv##N, q * 3, q * 300) { contained<cg<P, int, void, void, u64>>(c, "compressed64"); } SUITE(in_csrw##N, q * 3, q * 300) { contained<cg<P, void, int, void>>(c, "compressedv"); }
#define U(N, P, q) SUITE(hist_ual##N, q, q * 30) { using G = ug<P, Tok, Tok, Tok>; hist<G, UalD<G>>(c, "undirected", P); } SUITE(in_ual##N, q * 3, q * 300) { contained<ug<P, int, int, int>>(c, "undirected"); } SUITE(in_ualv##N, q * 3, q * 300) { contained<ug<P, int, int, void, u64>>(c, "undirected64"); }
#if IN(0)
D(vov, 60) D(vol, 60)
#elif IN(1)
D(vofl, 60) D(dod, 60)
#elif IN(2)
D(vos, 60) D(vous, 60)
#elif IN(3)
D(vom, 60) D(mov, 60)
#elif IN(4)
D(mol, 60) D(uov, 60)
#elif IN(5)
D(uous, 60) B(vvb, 60)
#elif IN(6)
B(mvb, 60) K(0, 0, 120)
#elif IN(7)
K(1, 1, 120) K(2, 2, 120)
#elif IN(8)
U(0, 0, 120) U(1, 1, 120) U(2, 2, 120) SUITE(in_vov2, 180, 18000) { contained<dg<vov2, int, int, int>>(c, "vov2"); } SUITE(in_mol2, 180, 18000) { contained<dg<mol2, int, int, int>>(c, "mol2"); }
#endif
}
#if IN(0)
static void* got(void* p) { if (!p) throw std::bad_alloc(); if (arena::metering) { arena::metering = false; arena::heapset[p] = true; arena::metering = true; } return p; }
static void gone(void* p) { if (!arena::heapset.empty()) arena::heapset.erase(p); std::free(p); }
void* operator new(std::size_t n) { return got(std::malloc(n ? n : 1)); } void* operator new[](std::size_t n) { return got(std::malloc(n ? n : 1)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); } void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); } void operator delete(void* p, const std::nothrow_t&) noexcept { gone(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { gone(p); }
void operator delete(void* p) noexcept { gone(p); } void operator delete[](void* p) noexcept { gone(p); } void operator delete(void* p, std::size_t) noexcept { gone(p); } void operator delete[](void* p, std::size_t) noexcept { gone(p); }
#endif
