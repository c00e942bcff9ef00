// PARTS: 8
// RULE: random contents in every supported representation (dynamic-graph container combinations, bidirectional pairings, compressed and undirected graphs, standard containers used as graphs), const and non-const; all vertex, out-edge and in-edge descriptors are collected, and equality, inequality, ordering, hashing, use as keys of ordered and unordered containers, sorting, increments of iterators and descriptors, copies and repeated passes are judged against the position at which each descriptor was delivered. Non-trivial: at least three edges; distinct by (content, representation).
// MIN: descriptor_pairs=1000000
// MIN: triples=200000
// MIN: keyed=20000
// MIN: ranges=60000
#include "vslots.hpp"
using namespace vg;
template <class T> concept orderd = requires(const T& a, const T& b) { { a < b } -> std::convertible_to<bool>; a <=> b; };
// laws for a list of pairwise different descriptors `a`, delivered again as `b`; group[i] is the range it came from
template <class Dsc> void laws(Ctx& c, const char* what, const std::vector<Dsc>& a, const std::vector<Dsc>& b, const std::vector<u32>& group, auto&& name) {
  const size_t n = a.size(); c.check(b.size() == n, "second-pass", std::string(what) + ": different number of elements"); std::hash<Dsc> H;
  auto bad = [&](size_t i, size_t j, const char* w) { return [&, i, j, w] { return std::format("{}: {} for {} and {}", what, w, name(i), name(j)); }; };
  for (size_t i = 0; i < n; ++i) { c.checkf(a[i] == b[i] && !(a[i] != b[i]), "equality", bad(i, i, "== on the second pass")); c.checkf(H(a[i]) == H(b[i]), "hash", bad(i, i, "hash on the second pass")); Dsc cp = a[i], as{}; as = cp; c.check(cp == a[i] && as == a[i] && H(as) == H(a[i]), "copies"); if constexpr (orderd<Dsc>) c.check(!(a[i] < b[i]) && !(a[i] > b[i]) && a[i] <= b[i] && a[i] >= b[i], "order", "of equal ones"); }
  auto pair = [&](size_t i, size_t j) { if (i == j) return; c.count("descriptor_pairs"); c.checkf(!(a[i] == a[j]) && a[i] != a[j], "equality", bad(i, j, "== "));
    if constexpr (orderd<Dsc>) { bool lt = a[i] < a[j], gt = a[i] > a[j]; c.checkf(lt != gt && (a[j] < a[i]) == gt && (a[i] <= a[j]) == lt && (a[i] >= a[j]) == gt, "order", bad(i, j, "trichotomy")); if (group[i] == group[j]) c.checkf(lt == (i < j), "order", bad(i, j, "not the iteration order")); auto o = a[i] <=> a[j]; c.check((o < 0) == lt && (o > 0) == gt, "order", "<=>"); } };
  if (n <= 40) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) pair(i, j); } else for (int q = 0; q < 1600; ++q) pair(c.rng.below(n), c.rng.below(n));
  if constexpr (orderd<Dsc>) if (n) { for (int q = 0; q < 60; ++q) { size_t i = c.rng.below(n), j = c.rng.below(n), k = c.rng.below(n); c.count("triples"); c.check(!(a[i] < a[j] && a[j] < a[k]) || a[i] < a[k], "order", "not transitive"); }
    auto s = b; c.rng.shuffle(s); std::sort(s.begin(), s.end()); auto s2 = a; c.rng.shuffle(s2); std::sort(s2.begin(), s2.end()); c.check(s == s2, "order", "sorting is not deterministic"); if (std::all_of(group.begin(), group.end(), [&](u32 g) { return g == group[0]; })) c.check(s == a, "order", "sorting does not give the iteration order");
    std::set<Dsc> os(s.begin(), s.end()); c.check(os.size() == n, "keys", "ordered set size"); std::map<Dsc, size_t> om; for (size_t i = 0; i < n; ++i) om[a[i]] = i; for (size_t i = 0; i < n; ++i) c.check(os.count(b[i]) == 1 && om.at(b[i]) == i, "keys", "ordered lookup"); }
  std::unordered_map<Dsc, size_t> um; for (size_t i = 0; i < n; ++i) c.checkf(um.emplace(a[i], i).second, "keys", bad(i, i, "unordered insert")); for (size_t i = 0; i < n; ++i) { auto f = um.find(b[i]); c.checkf(f != um.end() && f->second == i, "keys", bad(i, i, "unordered lookup")); c.count("keyed"); }
  std::unordered_set<size_t> hs; for (auto& x : a) hs.insert(H(x)); c.counters["max_hash_clash"] = std::max<u64>(c.counters["max_hash_clash"], n - hs.size());
}
// a descriptor range: every pass the same, size right, iterators multi-pass, copies independent
template <class R> auto range(Ctx& c, const char* what, R r, R again) {
  static_assert(std::ranges::forward_range<R> && std::ranges::view<R> && std::ranges::borrowed_range<R> && std::ranges::sized_range<R>); using Dsc = std::ranges::range_value_t<R>; c.count("ranges"); std::vector<Dsc> a;
  for (auto&& x : r) a.push_back(x); const size_t n = a.size(); auto ok = [&](bool b, const char* w) { c.checkf(b, "iteration", [&] { return std::format("{}: {} ({} elements)", what, w, n); }); };
  ok((size_t)r.size() == n && (size_t)std::ranges::size(r) == n && (size_t)std::ranges::distance(r) == n && r.empty() == (n == 0) && (bool)r == (n != 0), "size"); { size_t k = 0; for (auto&& x : again) { ok(k < n && x == a[k], "a second range differs"); ++k; } ok(k == n, "a second range differs"); } { R cp = r; size_t k = 0; for (auto it = cp.cbegin(); it != cp.cend(); it++) { ok(k < n && *it == a[k], "a copy differs"); ++k; } ok(k == n, "a copy differs"); }
  if (n) ok(r.front() == a[0], "front"); R none{}; ok(none.begin() == none.end(), "a default range is not empty");
  auto it = r.begin(); std::vector<decltype(it)> its; for (size_t k = 0; k < n; ++k) { its.push_back(it); auto old = it++; ok(old == its.back() && *old == a[k] && it != old, "post-increment"); auto p = old; auto& q = ++p; ok(&q == &p && p == it && old == its.back(), "pre-increment"); if (k + 1 < n) { ok(*p == a[k + 1], "increment"); Dsc d = a[k], e = d++; ok(e == a[k] && d == a[k + 1], "descriptor post-increment"); e = a[k]; auto& f = ++e; ok(&f == &e && e == a[k + 1], "descriptor pre-increment"); } } ok(it == r.end(), "end");
  for (size_t k = 0; k < n; ++k) { ok(*its[k] == a[k] && *its[k] == a[k], "multi-pass"); ok(std::ranges::next(r.begin(), (std::ptrdiff_t)k) == its[k], "next"); size_t j = c.rng.below(n); ok((its[k] == its[j]) == (k == j), "iterator equality"); } ok((size_t)std::ranges::count_if(r, [](auto) { return true; }) == n, "count"); if (n) { auto f = std::ranges::find(r, a[n / 2]); ok(f != r.end() && f == its[n / 2], "find"); }
  return a;
}
template <class G> void all(Ctx& c, G& g) {
  auto vs = range(c, "vertices", graph::vertices(g), graph::vertices(g)); std::vector<u32> one(vs.size(), 0); std::vector<graph::vertex_t<G>> vb; for (auto&& u : graph::vertices(g)) vb.push_back(*graph::find_vertex(g, graph::vertex_id(g, u)));
  laws(c, "vertices", vs, vb, one, [](size_t i) { return std::format("vertex #{}", i); }); for (size_t i = 0; i < vs.size(); ++i) { c.check(graph::vertex_id(g, vs[i]) == vs[i].vertex_id(), "vertex-id"); if constexpr (std::random_access_iterator<typename graph::vertex_t<G>::iterator_type>) c.check((size_t)vs[i].value() == i && (size_t)vs[i].vertex_id() == i, "vertex-value"); }
  using Ed = graph::edge_t<G>; std::vector<Ed> ea, eb; std::vector<u32> grp; for (u32 i = 0; i < vs.size(); ++i) { auto r = graph::edges(g, vs[i]); for (auto& e : range(c, "edges", r, graph::edges(g, vb[i]))) { ea.push_back(e); grp.push_back(i); c.check(e.source() == vs[i] && e.source_id() == vs[i].vertex_id(), "edge-source"); } c.check(r.size() == 0 || r.source() == vs[i], "edge-range-source"); for (auto&& e : graph::edges(g, vb[i])) eb.push_back(e); }
  laws(c, "edges", ea, eb, grp, [&](size_t i) { return std::format("edge #{} of vertex #{}", i, grp[i]); });
  if constexpr (requires { graph::in_edges(g, vs[0]); }) { using Id = graph::in_edge_t<G>; std::vector<Id> ia, ib; std::vector<u32> ig; for (u32 i = 0; i < vs.size(); ++i) { for (auto& e : range(c, "in-edges", graph::in_edges(g, vs[i]), graph::in_edges(g, vb[i]))) { ia.push_back(e); ig.push_back(i); } for (auto&& e : graph::in_edges(g, vb[i])) ib.push_back(e); } laws(c, "in-edges", ia, ib, ig, [&](size_t i) { return std::format("in-edge #{} of vertex #{}", i, ig[i]); }); c.count("in_edges", ia.size()); }
}
template <class G, class D> void kind(Ctx& c, const char* name) {
  D d(c, c.rng.chance(85) ? 8 : 30); d.log = std::string(name) + " "; typename D::M m; G g = d.make(m); for (int k = 0; k < 6 && d.stored(m) < 3; ++k) d.step(g, m); c.input(d.log);
  all<G>(c, g); all<const G>(c, g); if (d.stored(m) > 2) { c.nontrivial(hcomb(d.hash(m), hstr(name))); if (d.log.size() < 300) c.sample(d.log); }
}
template <class G> constexpr bool mapv = requires { typename G::mapped_type; };
template <class G> struct inner_of { using type = typename G::value_type; }; template <class G> requires mapv<G> struct inner_of<G> { using type = typename G::mapped_type; };
template <class G> void raw(Ctx& c, const char* name) {
  using In = typename inner_of<G>::type; using E = typename In::value_type; GenOpt o; o.maxn = c.rng.chance(85) ? 8 : 30; auto el = gen_graph(c.rng, o); G g{}; if constexpr (!mapv<G>) { if constexpr (requires { g.resize(1); }) g.resize(el.n); else el.n = (u32)g.size(); } c.input(std::string(name) + " " + el.str());
  auto key = [&](u32 v) { if constexpr (!mapv<G>) return v; else if constexpr (std::is_same_v<typename G::key_type, std::string>) return std::format("v{}", v); else return (int)v * 5 - 4; }; for (u32 v = 0; v < el.n; ++v) (void)g[key(v)]; int w = 0;
  for (auto& e : el.es) if (e.s < el.n && e.t < el.n) { E x = [&] { auto t = key(e.t); ++w; if constexpr (std::integral<E>) return (E)t; else { E y{}; using T = std::remove_cvref_t<decltype(std::get<0>(y))>; std::get<0>(y) = (T)t; if constexpr (std::tuple_size_v<E> > 1) if constexpr (std::is_arithmetic_v<std::tuple_element_t<1, E>>) std::get<1>(y) = w; return y; } }(); auto& in = g[key(e.s)]; if constexpr (requires { in.push_back(x); }) in.push_back(x); else if constexpr (requires { in.push_front(x); }) in.push_front(x); else in.insert(x); }
  all<G>(c, g); all<const G>(c, g); if (el.es.size() > 2) { c.nontrivial(hcomb(el.hash(), hstr(name))); c.sample(std::string(name) + " " + el.str()); }
}
template <template <class, class, class, class, bool> class T> using Gt = dyn<T, Tok, Tok, Tok, u32>;
template <template <class, class, class, class, bool> class T> using Gn = dyn<T, Tok, std::string, void, std::string>;
template <class EV, class VV, class GV, class ID> using dobG = gc::dynamic_graph<EV, VV, GV, ID, true, dob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using mobG = gc::dynamic_graph<EV, VV, GV, ID, true, mob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using uobG = gc::dynamic_graph<EV, VV, GV, ID, true, uob_traits<EV, VV, GV, ID>>; template <class EV, class VV, class GV, class ID> using vmbG = gc::dynamic_graph<EV, VV, GV, ID, true, vmb_traits<EV, VV, GV, ID>>;
using b1 = dobG<Tok, Tok, Tok, u32>; using b2 = mobG<Tok, int, void, u32>; using b3 = uobG<Tok, void, void, std::string>; using b4 = vmbG<int, void, int, u64>;
using c1 = gc::compressed_graph<Tok, Tok, Tok>; using c2 = gc::compressed_graph<void, void, void>; using c3 = gc::compressed_graph<int, void, std::string, u64, u64>; using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<int, std::string, void, u64>;
#define D(K, TR, q) SUITE(K##_##TR, q, q * 60) { kind<K<gc::TR##_graph_traits>, DynD<K<gc::TR##_graph_traits>>>(c, #K " " #TR); }
#define B(G, q) SUITE(bidir_##G, q, q * 60) { kind<G, DynD<G>>(c, #G); }
#define C(G, q) SUITE(csr_##G, q, q * 60) { kind<G, CsrD<G>>(c, #G); }
#define U(G, q) SUITE(ual_##G, q, q * 60) { kind<G, UalD<G>>(c, #G); }
#define R(N, q, ...) using N = __VA_ARGS__; SUITE(raw_##N, q, q * 60) { raw<N>(c, #N); }
using pid = std::pair<int, int>; using tid = std::tuple<int, int>; using tids = std::tuple<int, int, std::string>; using a2 = std::array<int, 2>; using a3 = std::array<int, 3>;
#if IN(0)
D(Gt, vov, 200) D(Gt, vol, 150) D(Gt, vofl, 150) D(Gt, vod, 150)
R(vec_vec_int, 300, std::vector<std::vector<int>>) R(vec_vec_size, 200, std::vector<std::vector<size_t>>) R(vec_list_int, 200, std::vector<std::list<int>>)
#elif IN(1)
D(Gt, vos, 150) D(Gt, vom, 150) D(Gt, vous, 150) D(Gt, voum, 150)
R(vec_fl_pair, 200, std::vector<std::forward_list<pid>>) R(vec_set_int, 200, std::vector<std::set<int>>) R(vec_deque_pair, 200, std::vector<std::deque<pid>>)
#elif IN(2)
D(Gt, dov, 120) D(Gt, dol, 120) D(Gt, dofl, 120) D(Gt, dod, 120)
R(deq_vec_int, 200, std::deque<std::vector<int>>) R(deq_list_tuple, 200, std::deque<std::list<tid>>) R(arr_vec_pair, 200, std::array<std::vector<pid>, 7>)
#elif IN(3)
D(Gt, dos, 120) D(Gt, dous, 120) D(Gt, mov, 120) D(Gn, mov, 120)
R(vec_vec_tids, 200, std::vector<std::vector<tids>>) R(vec_vec_a2, 150, std::vector<std::vector<a2>>) R(vec_vec_a3, 150, std::vector<std::vector<a3>>)
#elif IN(4)
D(Gn, mol, 120) D(Gt, mofl, 120) D(Gt, mod, 120) D(Gn, mos, 120)
R(vec_vec_pair, 200, std::vector<std::vector<pid>>) R(vec_vec_tuple, 200, std::vector<std::vector<tid>>) R(vec_vec_struct, 200, std::vector<std::vector<std::tuple<int, double, char>>>)
#elif IN(5)
D(Gt, mom, 120) D(Gt, mous, 120) D(Gt, uov, 120) D(Gn, uol, 120)
R(map_vec_pair, 200, std::map<int, std::vector<pid>>) R(map_list_int, 200, std::map<int, std::list<int>>)
#elif IN(6)
D(Gt, uofl, 120) D(Gt, uod, 120) D(Gt, uos, 120) D(Gn, uous, 120)
R(umap_vec_pair, 200, std::unordered_map<int, std::vector<pid>>) R(umap_fl_int, 200, std::unordered_map<int, std::forward_list<int>>) R(smap_vec, 200, std::map<std::string, std::vector<std::pair<std::string, int>>>) R(sumap_list, 200, std::unordered_map<std::string, std::list<std::tuple<std::string, int>>>)
#elif IN(7)
B(b1, 150) B(b2, 120) B(b3, 120) B(b4, 120) C(c1, 200) C(c2, 120) C(c3, 120) U(u1, 200) U(u2, 150)
#endif
