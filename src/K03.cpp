// PARTS: 8
// RULE: random edge sequences (with repeats and self-loops, ids int, unsigned, 64-bit, string and user-defined) as ranges of every documented element shape (pair, 2-, 3-, 4-tuples, edge records with and without values and edge references, edge-list descriptors, user types adapted by data members, by free functions and by members of the list) in vectors, deques, lists, forward lists, spans, sets, transformed and filtered ranges and single-pass ranges; const and non-const, read repeatedly. Source, target and value read through the customisation points are compared with what was stored; value objects count their copies, so reading must not copy elements. Non-trivial: at least two edges; distinct by (edges, shape, range).
// MIN: elements=300000
// MIN: no_copy_checks=60000
// MIN: single_pass=800
// MIN: descriptor_compares=40000
// MIN: shared_id_compares=100000
#include "vcpo.hpp"
#include <forward_list>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/views/edgelist.hpp>
using namespace vg; namespace ge = graph::edge_list;
struct City { std::string name; int zip; bool operator==(const City&) const = default; auto operator<=>(const City&) const = default; };
struct Stored { std::deque<u32> s, t; std::deque<int> w; };
template <class Id> Id mk(u32 k) { if constexpr (std::is_same_v<Id, std::string>) return std::format("a vertex name too long for the small buffer {:05}", k); else if constexpr (std::is_same_v<Id, City>) return City{std::format("the city of the number {:05}", k), (int)k}; else if constexpr (sizeof(Id) == 8) return (Id)k + ((Id)1 << 40); else return (Id)k; }
template <class EV> EV mv(int w) { if constexpr (std::is_same_v<EV, std::string>) return std::format("a long enough value string {}", w); else if constexpr (std::is_same_v<EV, double>) return w + 0.5; else return EV(w); }
// user-defined edges
namespace user {
struct Road { int from, to; Tok len; };                                   // adapted by free functions
template <class EL> int source_id(const EL&, const Road& r) { return r.from; } template <class EL> int target_id(const EL&, const Road& r) { return r.to; } template <class EL> const Tok& edge_value(const EL&, const Road& r) { return r.len; }
struct Rail { u32 source_id, target_id; Tok value; };                      // data members with the documented names
struct Pipe { std::string source_id, target_id; };
struct Wire { int a, b, w; };                                              // adapted by members of the list
struct Wires : std::vector<Wire> { using vector::vector; int source_id(const Wire& x) const { return x.a; } const int& edge_value(const Wire& x) const { return x.w; } }; inline int target_id(const Wires&, const Wire& x) { return x.b; }
}
struct Src { u32 s, t; int w; };
// how an element is made (from storage that outlives it), and what it must read as
template <class Id, class EV> struct Sh0 { using I = Id; using V = EV; std::deque<Id> ids; std::deque<std::conditional_t<std::is_void_v<EV>, int, EV>> vals; const Id& id(u32 k) { ids.push_back(mk<Id>(k)); return ids.back(); } auto& val(int w) { if constexpr (std::is_void_v<EV>) { vals.push_back(w); } else vals.push_back(mv<EV>(w)); return vals.back(); } };
#define SHAPE(N, ID, EV, TYPE, ...) struct N : Sh0<ID, EV> { using E = TYPE; static constexpr const char* nm = #N; [[maybe_unused]] auto make(const Src& x) { return __VA_ARGS__; } };
#define COMMA ,
using pii = std::pair<int, int>; using pss = std::pair<std::string, std::string>; using pcc = std::pair<City, City>; using t2 = std::tuple<u32, u32>; using t3 = std::tuple<int, int, Tok>; using t3s = std::tuple<std::string, std::string, Tok>; using t4 = std::tuple<u64, u64, std::string, double>; using ar = std::array<i64, 2>; using ar3 = std::array<int, 3>;
SHAPE(pair_int, int, void, pii, pii((int)x.s, (int)x.t)) SHAPE(pair_str, std::string, void, pss, pss(mk<std::string>(x.s), mk<std::string>(x.t))) SHAPE(pair_city, City, void, pcc, pcc(mk<City>(x.s), mk<City>(x.t)))
SHAPE(tup2, u32, void, t2, t2(x.s, x.t)) SHAPE(tup3, int, Tok, t3, t3((int)x.s, (int)x.t, Tok(x.w))) SHAPE(tup3s, std::string, Tok, t3s, t3s(mk<std::string>(x.s), mk<std::string>(x.t), Tok(x.w))) SHAPE(tup4, u64, std::string, t4, t4(mk<u64>(x.s), mk<u64>(x.t), mv<std::string>(x.w), 0.25))
using e0 = graph::edge_data<u32, true, void, void>; using e1 = graph::edge_data<int, true, void, Tok>; using e2 = graph::edge_data<u64, true, int&, void>; using e3 = graph::edge_data<std::string, true, int&, Tok>; using e4 = graph::edge_data<std::string, true, void, std::string>; using e5 = graph::edge_data<int, true, const char*, double>;
static int some_edge = 3;
SHAPE(rec, u32, void, e0, e0{x.s, x.t}) SHAPE(rec_v, int, Tok, e1, e1{(int)x.s, (int)x.t, Tok(x.w)}) SHAPE(rec_e, u64, void, e2, e2{mk<u64>(x.s), mk<u64>(x.t), some_edge}) SHAPE(rec_ev, std::string, Tok, e3, e3{mk<std::string>(x.s), mk<std::string>(x.t), some_edge, Tok(x.w)}) SHAPE(rec_s, std::string, std::string, e4, e4{mk<std::string>(x.s), mk<std::string>(x.t), mv<std::string>(x.w)}) SHAPE(rec_p, int, double, e5, e5{(int)x.s, (int)x.t, "e", mv<double>(x.w)})
using d0 = ge::edge_descriptor<int, void>; using d1 = ge::edge_descriptor<u32, Tok>; using d2 = ge::edge_descriptor<std::string, void>; using d3 = ge::edge_descriptor<std::string, std::string>; using d4 = ge::edge_descriptor<u64, int>; using d5 = ge::edge_descriptor<int, double>;
SHAPE(des, int, void, d0, d0(id(x.s), id(x.t))) SHAPE(des_tok, u32, Tok, d1, d1(id(x.s), id(x.t), val(x.w))) SHAPE(des_str, std::string, void, d2, d2(id(x.s), id(x.t))) SHAPE(des_ss, std::string, std::string, d3, d3(id(x.s), id(x.t), val(x.w))) SHAPE(des_i, u64, int, d4, d4(id(x.s), id(x.t), val(x.w)))
SHAPE(des_d, int, double, d5, d5(id(x.s), id(x.t), val(x.w)))
SHAPE(road, int, Tok, user::Road, user::Road{(int)x.s COMMA (int)x.t COMMA Tok(x.w)}) SHAPE(rail, u32, Tok, user::Rail, user::Rail{x.s COMMA x.t COMMA Tok(x.w)}) SHAPE(pipe_, std::string, void, user::Pipe, user::Pipe{mk<std::string>(x.s) COMMA mk<std::string>(x.t)}) SHAPE(wire, int, int, user::Wire, user::Wire{(int)x.s COMMA (int)x.t COMMA x.w})
template <class S> constexpr bool refv = std::is_same_v<typename S::E, t3> || std::is_same_v<typename S::E, t3s> || std::is_same_v<typename S::E, d1> || std::is_same_v<typename S::E, user::Road>; // the value comes back as a reference to the stored one
template <class S, class EL> void read_one(Ctx& c, EL& el, auto&& uv, const Src& x, size_t k, const char* how) {
  using I = typename S::I; using V = typename S::V; c.count("elements"); auto bad = [&](const char* w) { return [&, w] { return std::format("{} of element {} ({}->{}) of a {} list, {}", w, k, x.s, x.t, S::nm, how); }; };
  c.checkf(I(graph::source_id(el, uv)) == mk<I>(x.s), "source-id", bad("source id")); c.checkf(I(graph::target_id(el, uv)) == mk<I>(x.t), "target-id", bad("target id"));
  if constexpr (!std::is_void_v<V>) { if constexpr (refv<S>) { i64 o = Tok::ops; decltype(auto) v = graph::edge_value(el, uv); static_assert(std::is_reference_v<decltype(v)>); c.checkf(Tok::ops == o, "copied", bad("value was copied: value")); c.checkf(num(v) == x.w, "edge-value", bad("value")); c.count("no_copy_checks"); } else { decltype(auto) v = graph::edge_value(el, uv); if constexpr (std::is_same_v<V, Tok>) c.checkf(num(v) == x.w, "edge-value", bad("value")); else c.checkf(v == mv<V>(x.w), "edge-value", bad("value")); } }
}
template <class S, class EL> void statics() { static_assert(ge::basic_sourced_edgelist<EL>); static_assert(ge::has_edge_value<EL> == !std::is_void_v<typename S::V>); static_assert(ge::basic_sourced_index_edgelist<EL> == std::integral<typename S::I>); static_assert(std::is_same_v<ge::vertex_id_t<EL>, typename S::I>); if constexpr (!std::is_void_v<typename S::V>) static_assert(std::is_same_v<ge::edge_value_t<EL>, typename S::V>); static_assert(std::is_same_v<ge::edge_t<EL>, typename S::E>); }
template <class S, class EL> void read(Ctx& c, EL& el, const std::vector<Src>& want, const char* how, bool byref = true) {
  statics<S, EL>(); for (int pass = 0; pass < 2; ++pass) { size_t k = 0; i64 o = Tok::ops; for (auto&& uv : el) { c.check(k < want.size(), "count"); read_one<S>(c, el, uv, want[k], k, how); ++k; } c.check(k == want.size(), "count", how); if (byref && (refv<S> || std::is_void_v<typename S::V>)) c.check(Tok::ops == o, "copied", how);
    if (byref) { k = 0; for (const auto& uv : el) { read_one<S>(c, el, uv, want[k], k, how); ++k; } } }
  if constexpr (std::ranges::forward_range<EL> && std::is_lvalue_reference_v<std::ranges::range_reference_t<EL>>) { size_t k = 0; auto v = graph::views::edgelist(el); for (int pass = 0; pass < 2; ++pass, k = 0) { for (auto&& [s, t, uv] : v) { c.check(k < want.size() && s == mk<typename S::I>(want[k].s) && t == mk<typename S::I>(want[k].t), "view", how); read_one<S>(c, el, uv, want[k], k, "edgelist view"); ++k; } c.check(k == want.size(), "view", how); }
    if constexpr (refv<S>) if (byref) { k = 0; i64 o = Tok::ops; auto f = [](auto& l, auto&& uv) -> const Tok* { return &graph::edge_value(l, uv); }; auto it = std::ranges::begin(el); for (auto&& [s, t, uv, p] : graph::views::edgelist(el, f)) { auto&& e = *it; c.check(p == &graph::edge_value(el, e) && num(*p) == want[k].w, "view", "value"); ++it; ++k; } c.count("view_values", k); (void)o; } }
}
template <class E> struct OnePass { const std::vector<E>* v; size_t* at; struct It { using value_type = E; using difference_type = std::ptrdiff_t; const OnePass* p; const E& operator*() const { return (*p->v)[*p->at]; } It& operator++() { ++*p->at; return *this; } void operator++(int) { ++*p->at; } bool operator==(std::default_sentinel_t) const { return *p->at == p->v->size(); } }; It begin() const { return {this}; } std::default_sentinel_t end() const { return {}; } };
template <class S> void shape(Ctx& c, const char*) {
  GenOpt o; o.big = 20; auto g = gen_graph(c.rng, o); c.rng.shuffle(g.es); std::vector<Src> want; int w = 0; for (auto& e : g.es) want.push_back({e.s, e.t, ++w}); c.input(std::string(S::nm) + " " + g.str()); const i64 live0 = Tok::live;
  { S sh; using E = typename S::E;
    auto fill = [&](auto& l) { for (auto& x : want) l.push_back(sh.make(x)); };
    int form = (int)c.rng.below(8); u64 h = hcomb(g.hash(), hcomb(hstr(S::nm), (u64)form));
    if constexpr (std::is_same_v<E, user::Wire>) { user::Wires v; fill(v); read<S>(c, v, want, "list with members"); read<S>(c, std::as_const(v), want, "const list with members"); }
    else if (form <= 1) { std::vector<E> v; v.reserve(want.size()); fill(v); std::vector<const void*> at; for (auto& x : v) at.push_back(&x); read<S>(c, v, want, "vector"); read<S>(c, std::as_const(v), want, "const vector"); std::span<E> sp(v); read<S>(c, sp, want, "span"); std::span<const E> cs(v); statics_const<S>(c, cs, want); for (size_t i = 0; i < v.size(); ++i) { c.check(at[i] == &v[i], "moved"); read_one<S>(c, v, v[i], want[i], i, "afterwards"); } }
    else if (form == 2) { std::deque<E> v; fill(v); read<S>(c, v, want, "deque"); read<S>(c, std::as_const(v), want, "const deque"); }
    else if (form == 3) { std::list<E> v; fill(v); read<S>(c, v, want, "list"); read<S>(c, std::as_const(v), want, "const list"); }
    else if (form == 4) { std::forward_list<E> v; for (size_t i = want.size(); i-- > 0;) v.push_front(sh.make(want[i])); read<S>(c, v, want, "forward_list"); read<S>(c, std::as_const(v), want, "const forward_list"); }
    else if (form == 5) { if constexpr (!std::is_same_v<E, d0> && !std::is_same_v<E, d1> && !std::is_same_v<E, d2> && !std::is_same_v<E, d3> && !std::is_same_v<E, d4> && !std::is_same_v<E, d5>) { auto tv = want | std::views::transform([&](const Src& x) { return sh.make(x); }); read<S>(c, tv, want, "transformed range of temporaries", false); } std::vector<E> v; fill(v); auto fv = v | std::views::filter([](auto&&) { return true; }); read<S>(c, fv, want, "filtered range"); auto rv = v | std::views::reverse | std::views::reverse; read<S>(c, rv, want, "reversed twice"); }
    else if (form == 6) { std::vector<E> v; fill(v); size_t at = 0; OnePass<E> op{&v, &at}; static_assert(std::ranges::input_range<OnePass<E>> && !std::ranges::forward_range<OnePass<E>>); statics<S, OnePass<E>>(); size_t k = 0; for (auto&& uv : op) { read_one<S>(c, op, uv, want[k], k, "single-pass range"); ++k; } c.check(k == want.size(), "count", "single pass"); c.count("single_pass"); }
    else { std::vector<E> v; fill(v); auto nv = std::vector<E>(v); read<S>(c, nv, want, "copied vector"); auto mvd = std::move(nv); read<S>(c, mvd, want, "moved vector"); auto sub = v | std::views::take(want.size() / 2); std::vector<Src> half(want.begin(), want.begin() + want.size() / 2); read<S>(c, sub, half, "first half"); }
    // descriptors compare by what they refer to
    if constexpr (requires(const E& a) { { a.source_id() } -> std::same_as<const typename S::I&>; }) { std::vector<E> v; fill(v); for (int q = 0; q < 20 && !v.empty(); ++q) { size_t i = c.rng.below(v.size()), j = c.rng.below(v.size()); auto& a = v[i]; auto& b = v[j]; c.count("descriptor_compares"); auto ka = std::tuple(want[i].s, want[i].t, std::is_void_v<typename S::V> ? 0 : want[i].w), kb = std::tuple(want[j].s, want[j].t, std::is_void_v<typename S::V> ? 0 : want[j].w); c.check((a == b) == (ka == kb) && (a != b) == (ka != kb), "descriptor-compare"); if constexpr (requires { a <=> b; } && !std::is_same_v<typename S::V, std::string>) c.check((a < b) == (ka < kb) && (a > b) == (ka > kb), "descriptor-compare", "order"); { S s2; using I2 = typename S::I; const I2 *ps = &a.source_id(), *pt = &a.target_id(); int w2 = c.rng.chance(50) ? want[i].w : want[i].w + (int)c.rng.range(-1, 1); // the same id objects, another value object
          auto twin = [&](const I2& s, const I2& t, int w) { if constexpr (std::is_void_v<typename S::V>) return E(s, t); else return E(s, t, s2.val(w)); }; auto cmp = [&](const E& y, auto ky, const char* what) { c.check((a == y) == (ka == ky) && (y == a) == (ka == ky), "descriptor-compare", what); if constexpr (std::is_same_v<E, d5>) static_assert(std::is_same_v<decltype(a <=> y), std::partial_ordering>); if constexpr (requires { a <=> y; } && !std::is_same_v<typename S::V, std::string>) c.check((a < y) == (ka < ky) && (a > y) == (ka > ky) && (a <= y) == (ka <= ky), "descriptor-compare", what); };
          const int wk = std::is_void_v<typename S::V> ? 0 : w2; cmp(twin(*ps, *pt, w2), std::tuple(want[i].s, want[i].t, wk), "same id objects"); cmp(twin(*ps, b.target_id(), w2), std::tuple(want[i].s, want[j].t, wk), "same source object"); cmp(twin(b.source_id(), *pt, w2), std::tuple(want[j].s, want[i].t, wk), "same target object"); cmp(twin(*pt, *ps, w2), std::tuple(want[i].t, want[i].s, wk), "ends exchanged"); cmp(twin(s2.id(want[i].s), s2.id(want[i].t), w2), std::tuple(want[i].s, want[i].t, wk), "equal id objects"); c.count("shared_id_compares", 5); }
        E cp(a), mvd(std::move(cp)); c.check(mvd == a && &mvd.source_id() == &a.source_id() && &mvd.target_id() == &a.target_id(), "descriptor-copy"); } }
    if (want.size() > 1) { c.nontrivial(h); if (g.es.size() < 12) c.sample(std::string(S::nm) + " " + g.str()); } }
  c.check(Tok::live == live0, "value-leak");
}
template <class S, class EL> void statics_const(Ctx& c, EL& el, const std::vector<Src>& want) { size_t k = 0; for (auto&& uv : el) { read_one<S>(c, el, uv, want[k], k, "span of const"); ++k; } c.check(k == want.size(), "count"); }
#define Q(N) SUITE(N, 500, 60000) { shape<::N>(c, #N); }
namespace k03 {
#if IN(0)
Q(pair_int) Q(pair_str) Q(pair_city)
#elif IN(1)
Q(tup2) Q(tup3) Q(tup3s)
#elif IN(2)
Q(tup4) Q(des_d)
#elif IN(3)
Q(rec) Q(rec_v) Q(rec_e)
#elif IN(4)
Q(rec_ev) Q(rec_s) Q(rec_p)
#elif IN(5)
Q(des) Q(des_tok) Q(des_str)
#elif IN(6)
Q(des_ss) Q(des_i) Q(road)
#elif IN(7)
Q(rail) Q(pipe_) Q(wire)
#endif
}
