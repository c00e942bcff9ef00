// PARTS: 6
// RULE: random graphs (parallel edges, self-loops, empty vertices) in 60 nests of standard containers (vector, deque, map, unordered_map of vector, deque, list, forward_list, map of integers, pairs, tuples of 1-4 elements and structs), in vertex objects with edges() and in_edges() members, and in library containers. For every vertex and edge descriptor reached by iteration, every accessor (underlying_value, inner_value, target_id, source_id, and the customisation points built on them) is called with the mutable and the constant graph, from descriptors of the mutable and the constant graph, and the ADDRESS of what it returns is compared with the address of the element in the container; values are then written through the accessor and read back from the container. Non-trivial: the graph has at least two edges at one vertex; distinct by representation and content
// MIN: addresses=300000
// MIN: written=20000
#include "vg.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
using namespace vh; using namespace vg;
struct Rec { u32 target; int w; bool operator==(const Rec&) const = default; };
inline u32 tgt(const u32& e) { return e; } template <class A, class B> u32 tgt(const std::pair<A, B>& e) { return (u32)e.first; } template <class... A> u32 tgt(const std::tuple<A...>& e) { return (u32)std::get<0>(e); } inline u32 tgt(const Rec& e) { return e.target; }
inline void mk(u32& e, u32 t, int) { e = t; } template <class B> void mk(std::pair<u32, B>& e, u32 t, int w) { e.first = t; e.second = (B)w; } inline void mk(std::tuple<u32>& e, u32 t, int) { e = {t}; } inline void mk(std::tuple<u32, int>& e, u32 t, int w) { e = {t, w}; }
inline void mk(std::tuple<u32, int, std::string>& e, u32 t, int w) { e = {t, w, std::to_string(w)}; } inline void mk(std::tuple<u32, int, std::string, double>& e, u32 t, int w) { e = {t, w, std::to_string(w), w / 2.0}; } inline void mk(Rec& e, u32 t, int w) { e = {t, w}; }
template <class T> struct is_tup : std::false_type {}; template <class... A> struct is_tup<std::tuple<A...>> : std::true_type {}; template <class T> struct is_pr : std::false_type {}; template <class A, class B> struct is_pr<std::pair<A, B>> : std::true_type {};
template <class C, class E> void add(C& c, E e) { if constexpr (requires { c.push_back(e); }) c.push_back(std::move(e)); else if constexpr (requires { c.push_front(e); }) c.push_front(std::move(e)); else c.insert(std::move(e)); }
// a vertex object with members
template <class EC> struct VX { std::string name = "v"; EC out, in; EC& edges() { return out; } const EC& edges() const { return out; } EC& in_edges() { return in; } const EC& in_edges() const { return in; } };
template <class V> struct vx : std::false_type {}; template <class EC> struct vx<VX<EC>> : std::true_type {};
template <class X> auto& ec(X& v) { if constexpr (vx<std::remove_const_t<X>>::value) return v.out; else return v; }
template <class P> const void* adr(P& p) { return (const void*)std::addressof(p); }
struct Chk { Ctx& c; const char* nm; void same(const void* a, const void* b, const char* what) { c.count("addresses"); c.checkf(a == b, "not-the-element", [&] { return std::format("{}: {} is not the element in the container", nm, what); }); } void ok(bool b, const char* what) { c.count("values"); c.checkf(b, "wrong-value", [&] { return std::format("{}: {}", nm, what); }); } };
// the parts of an edge element behind inner_value()
template <class Get, class E> void inner(Chk& k, E& el, Get&& got, const char* what) { using T = std::remove_const_t<E>;
  if constexpr (is_tup<T>::value) { constexpr size_t n = std::tuple_size_v<T>; if constexpr (n == 1) k.same(adr(got), adr(std::get<0>(el)), what); else if constexpr (n == 2) k.same(adr(got), adr(std::get<1>(el)), what); else { static_assert(std::tuple_size_v<std::decay_t<Get>> == n - 1); [&]<size_t... I>(std::index_sequence<I...>) { static_assert((std::is_reference_v<std::tuple_element_t<I, std::decay_t<Get>>> && ...)); (k.same(adr(std::get<I>(got)), adr(std::get<I + 1>(el)), what), ...); }(std::make_index_sequence<n - 1>{}); } }
  else if constexpr (is_pr<T>::value) k.same(adr(got), adr(el.second), what); else k.same(adr(got), adr(el), what); }
// one edge: uv comes from iterating g (constant or not); the accessors are asked about the vertex datum vd
template <class G, class U, class UV, class VD, class E> void edge_of(Chk& k, G& g, const U& u, const UV& uv, VD& vd, E& el, bool in) {
  const auto& cvd = vd; const E& cel = el; if (!in) k.ok((u32)uv.target_id(vd) == tgt(el) && (u32)uv.target_id(cvd) == tgt(el), "target_id(data)");
  k.same(adr(uv.underlying_value(vd)), adr(el), in ? "underlying_value of an in-edge" : "underlying_value"); k.same(adr(uv.underlying_value(cvd)), adr(el), in ? "underlying_value(const) of an in-edge" : "underlying_value(const)");
  inner(k, el, uv.inner_value(vd), in ? "inner_value of an in-edge" : "inner_value"); inner(k, cel, uv.inner_value(cvd), in ? "inner_value(const) of an in-edge" : "inner_value(const)");
  k.ok(graph::vertex_id(g, uv.source()) == graph::vertex_id(g, u), "source()");
  if (!in) { k.ok((u32)graph::target_id(g, uv) == tgt(el), "target_id(g, uv)"); k.ok((u32)graph::source_id(g, uv) == (u32)graph::vertex_id(g, u), "source_id(g, uv)"); inner(k, el, graph::edge_value(g, uv), "edge_value(g, uv)"); inner(k, cel, graph::edge_value(std::as_const(g), uv), "edge_value(const g, uv)"); } }
template <class E, class R> bool write(E& el, R&& ref, int w) { using T = std::remove_const_t<E>; // true: something was written
  if constexpr (std::is_same_v<T, u32>) { u32 old = el; ref = old ^ 1; bool k = el == (old ^ 1); ref = old; return k && el == old; } else if constexpr (is_tup<T>::value) { if constexpr (std::tuple_size_v<T> == 1) { auto old = el; ref = 77; bool k = std::get<0>(el) == 77; el = old; return k; } else if constexpr (std::tuple_size_v<T> == 2) { ref = w; return std::get<1>(el) == w; } else { std::get<0>(ref) = w; std::get<1>(ref) = "written " + std::to_string(w); return std::get<1>(el) == w && std::get<2>(el) == "written " + std::to_string(w); } }
  else if constexpr (is_pr<T>::value) { ref = w; return el.second == w; } else { ref.w = w; return el.w == w; } }
template <class G> void run(Ctx& c, const char* nm) {
  Chk k{c, nm}; constexpr bool keyed = requires(G& x) { typename G::key_type; }; GenOpt o; o.maxn = 7; auto gg = gen_graph(c.rng, o); G g; std::string in = std::string(nm) + " n=" + std::to_string(gg.n);
  for (u32 i = 0; i < gg.n; ++i) { if constexpr (keyed) g[i * 3 + 1]; else g.resize(i + 1); } auto key = [&](u32 i) { return keyed ? i * 3 + 1 : i; };
  auto at = [&](u32 i) -> auto& { if constexpr (keyed) return g.at(key(i)); else return g[i]; }; bool two = false;
  for (auto& e : gg.es) { auto& v = at(e.s); auto& cont = ec(v); using E0 = typename std::remove_cvref_t<decltype(cont)>::value_type; int w = (int)c.rng.below(1000); if constexpr (requires { typename std::remove_cvref_t<decltype(cont)>::mapped_type; }) { cont[key(e.t)] = w; } else { E0 el; mk(el, key(e.t), w); add(cont, el); if constexpr (vx<std::remove_cvref_t<decltype(v)>>::value) { E0 b; mk(b, key(e.s), w); add(at(e.t).in, b); } } in += std::format(" {}>{}", e.s, e.t); two |= std::ranges::distance(cont) > 1; }
  c.input(in); const G& cg = g; std::map<u32, u32> seen;
  auto visit = [&](auto& x, auto& where) { // x: the graph as seen when the descriptors are made; where: the graph handed to the accessors
    u32 nv = 0; for (auto u : graph::vertices(x)) { ++nv; const u32 id = (u32)graph::vertex_id(x, u); using W = std::remove_reference_t<decltype(where)>; auto& v = [&]() -> auto& { if constexpr (keyed) return where.at(id); else return where[id]; }();
      k.same(adr(u.inner_value(where)), adr(v), "vertex inner_value"); k.same(adr(u.inner_value(std::as_const(where))), adr(v), "vertex inner_value(const)"); if constexpr (!keyed) k.same(adr(u.underlying_value(where)), adr(v), "vertex underlying_value"); else { k.same(adr(u.underlying_value(where).second), adr(v), "vertex underlying_value"); k.ok(u.underlying_value(where).first == id, "vertex underlying_value: key"); }
      k.same(adr(u.underlying_value(std::as_const(where))), adr(u.underlying_value(where)), "vertex underlying_value(const)"); if constexpr (requires { graph::vertex_value(where, u); }) k.same(adr(graph::vertex_value(where, u)), adr(v), "vertex_value(g, u)");
      auto& cont = ec(v); auto it = cont.begin(); size_t n = 0; auto&& ud = u.underlying_value(where); (void)sizeof(W);
      for (auto uv : graph::edges(x, u)) { k.ok(it != cont.end(), "too many edges"); auto& el = *it; edge_of(k, where, u, uv, ud, el, false); if constexpr (!keyed || !vx<std::remove_cvref_t<decltype(v)>>::value) edge_of(k, where, u, uv, cont, el, false); else edge_of(k, where, u, uv, v, el, false); ++it; ++n; } k.ok(it == cont.end(), "too few edges");
      if constexpr (vx<std::remove_cvref_t<decltype(v)>>::value) { auto ii = v.in.begin(); for (auto uv : graph::in_edges(x, u)) { k.ok(ii != v.in.end(), "too many in-edges"); edge_of(k, where, u, uv, ud, *ii, true); k.ok((u32)uv.source_id(ud) == tgt(*ii), "source_id(data) of an in-edge"); k.ok((u32)graph::source_id(where, uv) == tgt(*ii), "source_id(g, uv) of an in-edge"); ++ii; } k.ok(ii == v.in.end(), "too few in-edges"); } }
    k.ok(nv == gg.n, "number of vertices"); };
  visit(g, g); visit(cg, cg); visit(g, cg);
  int w = 1000; for (auto u : graph::vertices(g)) { const u32 id = (u32)graph::vertex_id(g, u); auto& v = [&]() -> auto& { if constexpr (keyed) return g.at(id); else return g[id]; }(); auto& cont = ec(v); auto it = cont.begin(); auto& raw = u.inner_value(g);
    for (auto uv : graph::edges(g, u)) { using E0 = std::remove_reference_t<decltype(*it)>; if constexpr (!std::is_same_v<std::remove_const_t<E0>, u32> || !std::is_const_v<E0>) { c.count("written"); k.ok(write(*it, uv.inner_value(raw), ++w), "written through inner_value"); if constexpr (requires { write(*it, graph::edge_value(g, uv), w); }) k.ok(write(*it, graph::edge_value(g, uv), ++w), "written through edge_value(g, uv)"); } ++it; } }
  if (two) c.nontrivial(hcomb(hstr(in.c_str()), w)); c.sample(in); (void)seen; }
// library containers: the descriptor's datum is the container's own vertex
template <class G> void lib(Ctx& c, const char* nm) { Chk k{c, nm}; GenOpt o; o.maxn = 8; auto gg = gen_graph(c.rng, o); using Id = graph::vertex_id_t<G>; std::vector<graph::copyable_edge_t<Id, int>> es; int w = 0; std::string in = nm; for (auto& e : gg.es) { es.push_back({(Id)e.s, (Id)e.t, ++w}); in += std::format(" {}>{}", e.s, e.t); } c.input(in); G g; g.load_edges(es, std::identity{}); bool two = false;
  auto visit = [&](auto& x, auto& where) { for (auto u : graph::vertices(x)) { auto& v = u.inner_value(where); auto& cont = v.edges(); auto it = cont.begin(); auto&& ud = u.underlying_value(where); k.same(adr(u.inner_value(std::as_const(where))), adr(v), "vertex inner_value(const)"); size_t n = 0; auto whole = [](auto& e) -> auto& { return e; };
      for (auto uv : graph::edges(x, u)) { k.ok(it != cont.end(), "too many edges"); auto& el = *it; auto& edge = [&]() -> auto& { if constexpr (requires { el.second; }) return el.second; else return whole(el); }(); k.same(adr(uv.underlying_value(ud)), adr(el), "underlying_value"); k.same(adr(uv.underlying_value(v)), adr(el), "underlying_value(vertex)"); k.same(adr(uv.underlying_value(std::as_const(v))), adr(el), "underlying_value(const)"); k.same(adr(uv.inner_value(v)), adr(edge), "inner_value"); k.same(adr(uv.inner_value(std::as_const(v))), adr(edge), "inner_value(const)"); k.ok(uv.target_id(v) == edge.target_id() && uv.target_id(ud) == edge.target_id() && graph::target_id(where, uv) == edge.target_id(), "target_id");
        k.same(adr(graph::edge_value(where, uv)), adr(edge.value()), "edge_value(g, uv)"); if constexpr (!std::is_const_v<std::remove_reference_t<decltype(edge)>>) { graph::edge_value(where, uv) = ++w; c.count("written"); k.ok(edge.value() == w, "written through edge_value(g, uv)"); } ++it; two |= ++n > 1; } k.ok(it == cont.end(), "too few edges");
      if constexpr (requires { v.in_edges(); }) { auto& ic = v.in_edges(); auto ii = ic.begin(); for (auto uv : graph::in_edges(x, u)) { k.ok(ii != ic.end(), "too many in-edges"); auto& el = *ii; auto& edge = [&]() -> auto& { if constexpr (requires { el.second; }) return el.second; else return whole(el); }(); k.same(adr(uv.underlying_value(v)), adr(el), "underlying_value of an in-edge"); k.same(adr(uv.inner_value(v)), adr(edge), "inner_value of an in-edge"); k.same(adr(uv.inner_value(std::as_const(v))), adr(edge), "inner_value(const) of an in-edge"); k.ok(uv.source_id(v) == edge.source_id() && graph::source_id(where, uv) == edge.source_id(), "source_id of an in-edge"); k.same(adr(graph::edge_value(where, uv)), adr(edge.value()), "edge_value of an in-edge"); ++ii; } k.ok(ii == ic.end(), "too few in-edges"); } } };
  visit(g, g); visit(std::as_const(g), std::as_const(g)); visit(g, std::as_const(g)); if (two) c.nontrivial(hcomb(hstr(in.c_str()), w)); c.sample(in); }
template <class T> using vec = std::vector<T>; template <class T> using deq = std::deque<T>; template <class T> using lst = std::list<T>; template <class T> using fwd = std::forward_list<T>; template <class T> using mapv = std::map<u32, T>; template <class T> using umapv = std::unordered_map<u32, T>;
using t1 = std::tuple<u32>; using t2 = std::tuple<u32, int>; using t3 = std::tuple<u32, int, std::string>; using t4 = std::tuple<u32, int, std::string, double>; using pr = std::pair<u32, int>;
#define N(O, I, E) SUITE(O##_##I##_##E, 60, 1500) { run<O<I<E>>>(c, #O " of " #I " of " #E); }
#define X(O, I, E) SUITE(O##_vx_##I##_##E, 60, 1500) { run<O<VX<I<E>>>>(c, #O " of vertices with " #I " of " #E); }
#define ALL(M, O, I) M(O, I, u32) M(O, I, pr) M(O, I, t1) M(O, I, t2) M(O, I, t3) M(O, I, t4)
#define L(T) SUITE(lib_##T, 60, 1500) { lib<T>(c, #T); }
template <template <class, class, class, class, bool> class TR, class Id = u32> using DG = gc::dynamic_graph<int, void, void, Id, false, TR<int, void, void, Id, false>>;
using d_vov = DG<gc::vov_graph_traits>; using d_vol = DG<gc::vol_graph_traits>; using d_vom = DG<gc::vom_graph_traits>; using d_voum = DG<gc::voum_graph_traits>; using d_dofl = DG<gc::dofl_graph_traits>; using d_mov = DG<gc::mov_graph_traits>; using d_mol = DG<gc::mol_graph_traits>; using d_mom = DG<gc::mom_graph_traits>; using d_uov = DG<gc::uov_graph_traits>; using d_uod = DG<gc::uod_graph_traits>;
#if IN(0)
ALL(N, vec, vec) ALL(N, vec, lst)
#elif IN(1)
ALL(N, mapv, vec) ALL(N, mapv, fwd) N(vec, mapv, int) N(mapv, mapv, int)
#elif IN(2)
ALL(N, umapv, lst) ALL(N, deq, deq) L(d_vov) L(d_mov)
#elif IN(3)
ALL(X, vec, vec) ALL(X, vec, fwd) L(d_vol) L(d_uov)
#elif IN(4)
ALL(X, mapv, deq) ALL(X, deq, lst) L(d_dofl) L(d_mom)
#elif IN(5)
L(d_vom) L(d_voum) L(d_mol) L(d_uod) ALL(X, mapv, lst)
#endif
