// PARTS: 9
// RULE: (own_ids) types that number their vertices themselves, every job compared with the same graph in plain vectors; (the rest) graph types that provide, for every customisation point, a member function, a free function found by argument lookup, both, or neither (uniformly, and in fixed random mixtures), each provision logging its calls and, in the uniform types, answering with a recognisably different result; every point is called, in every form, on the constant and non-constant graph, and the log (which provision ran, how often, and that no other ran) and the returned value are compared with the documented precedence; defaults are compared with the model. Non-trivial: the graph has an edge; distinct by graph and type.
// MIN: dispatches=100000
// MIN: defaults=20000
// MIN: references=2000
// MIN: own_ids_jobs=5000
#include "vh.hpp"
#if PART == 8 || !defined(PART)
#include "vjobs.hpp"
#endif
#include <graph/graph.hpp>
#include <list>
using namespace vh;
namespace al = graph::adj_list;
enum X : int { NV, NVP, VS, VP, VI, FV, EU, EUI, IU, IUI, ID_U, ID_I, TG, NE, NE_U, NE_I, DG_U, DG_I, FE_UU, FE_UI, FE_II, FI_UU, FI_UI, FI_II, CI_UV, CI_II, CE_UV, CE_II, HE, VV, GV, SR, PI, NP, TI, SI, EV, NX };
static const char* const xname[NX] = {"num_vertices(g)", "num_vertices(g,pid)", "vertices(g)", "vertices(g,pid)", "vertex_id(g,u)", "find_vertex(g,uid)", "edges(g,u)", "edges(g,uid)", "in_edges(g,u)", "in_edges(g,uid)", "in_degree(g,u)", "in_degree(g,uid)", "target(g,uv)", "num_edges(g)", "num_edges(g,u)", "num_edges(g,uid)", "degree(g,u)", "degree(g,uid)", "find_vertex_edge(g,u,v)", "find_vertex_edge(g,u,vid)", "find_vertex_edge(g,uid,vid)", "find_in_edge(g,u,v)", "find_in_edge(g,u,vid)", "find_in_edge(g,uid,vid)", "contains_in_edge(g,u,v)", "contains_in_edge(g,uid,vid)", "contains_edge(g,u,v)", "contains_edge(g,uid,vid)", "has_edges(g)", "vertex_value(g,u)", "graph_value(g)", "source(g,uv)", "partition_id(g,u)", "num_partitions(g)", "target_id(g,uv)", "source_id(g,uv)", "edge_value(g,uv)"};
constexpr u64 B(int x) { return 1ull << x; }
constexpr u64 ALL = (1ull << NX) - 1, NOMEM = B(VI) | B(EUI) | B(IUI) | B(TI); // points documented without a member form
inline unsigned lmem[NX], ladl[NX];
inline void wipe() { memset(lmem, 0, sizeof lmem); memset(ladl, 0, sizeof ladl); }
using Ed = std::pair<u32, int>; using El = std::list<Ed>;
template <u64 M> struct Vx : El { // the vertex object is itself a range of edges
  El om, oa, im, ia; int val = 0;
  const El& edges() const requires((M & B(EU)) != 0) { ++lmem[EU]; return om; }
  const El& in_edges() const requires((M & B(IU)) != 0) { ++lmem[IU]; return im; }
};
template <u64 M, u64 A> class Pg {
public:
  using vertex = Vx<M>; using store = std::vector<vertex>; using iterator = typename store::iterator; using const_iterator = typename store::const_iterator; using value_type = vertex;
  store t_; size_t m_ = 0; size_t lm = 0, la = 0; std::vector<u64> adj; int gval = 0;
  using Vdv = al::vertex_descriptor_view<iterator>; using Vd = al::vertex_descriptor<iterator>; using EI = El::const_iterator; using Edd = al::edge_descriptor<EI, iterator>;
  auto begin() { return t_.begin(); } auto end() { return t_.end(); } auto begin() const { return t_.begin(); } auto end() const { return t_.end(); } size_t size() const { return t_.size(); } auto& operator[](size_t i) { return t_[i]; } auto& operator[](size_t i) const { return t_[i]; }
  // ---- truth, straight from the storage
  bool has(size_t s, size_t t) const { return s < t_.size() && t < 64 && (adj[s] >> t & 1); }
  size_t ind(size_t t) const { return t_[t].im.size(); }
  Edd first(size_t s, size_t t) const { const El& l = t_[s]; auto i = std::find_if(l.begin(), l.end(), [&](const Ed& e) { return e.first == t; }); return Edd(i, Vd(s)); }
  size_t sh(size_t x, size_t k) const { return t_.empty() ? x : (x + k) % t_.size(); }
#define MEMQ(x) requires((M & B(x)) != 0)
#define ADLQ(x) requires((A & B(x)) != 0)
#define LM(x) ++lmem[x]
#define LA(x) ++ladl[x]
#define DU template <al::vertex_descriptor_type U>
#define DI template <std::integral I>
  // ---- members
  size_t num_vertices() const MEMQ(NV) { LM(NV); return t_.size() + lm; }
  DI size_t num_vertices(I p) const MEMQ(NVP) { LM(NVP); return (p == 0 ? t_.size() : 0) + lm; }
  auto& vertices() MEMQ(VS) { LM(VS); return t_; } auto& vertices() const MEMQ(VS) { LM(VS); return t_; }
  DI auto vertices(I p) const MEMQ(VP) { LM(VP); return p == 0 ? Vdv(size_t(lm ? 1 : 0), t_.size()) : Vdv(size_t(0), size_t(0)); }
  DI auto find_vertex(I i) const MEMQ(FV) { LM(FV); return typename Vdv::iterator(sh(i, lm)); }
  DU size_t in_degree(const U& u) const MEMQ(ID_U) { LM(ID_U); return ind(u.value()) + lm; }
  DI size_t in_degree(I u) const MEMQ(ID_I) { LM(ID_I); return ind(u) + lm; }
  template <al::edge_descriptor_type E> auto target(const E& uv) const MEMQ(TG) { LM(TG); return Vd(sh(uv.value()->first, lm)); }
  template <al::edge_descriptor_type E> auto source(const E& uv) const MEMQ(SR) { LM(SR); return Vd(sh(uv.source().value(), lm)); }
  size_t num_edges() const MEMQ(NE) { LM(NE); return m_ + lm; }
  DU size_t num_edges(const U& u) const MEMQ(NE_U) { LM(NE_U); return t_[u.value()].size() + lm; }
  DI size_t num_edges(I u) const MEMQ(NE_I) { LM(NE_I); return t_[u].size() + lm; }
  DU size_t degree(const U& u) const MEMQ(DG_U) { LM(DG_U); return t_[u.value()].size() + lm; }
  DI size_t degree(I u) const MEMQ(DG_I) { LM(DG_I); return t_[u].size() + lm; }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> auto find_vertex_edge(const U& u, const V& v) const MEMQ(FE_UU) { LM(FE_UU); return first(u.value(), v.value()); }
  template <al::vertex_descriptor_type U, std::integral I> auto find_vertex_edge(const U& u, I v) const MEMQ(FE_UI) { LM(FE_UI); return first(u.value(), v); }
  template <std::integral I, std::integral J> auto find_vertex_edge(I u, J v) const MEMQ(FE_II) { LM(FE_II); return first(u, v); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> auto find_in_edge(const U& u, const V& v) const MEMQ(FI_UU) { LM(FI_UU); return first(v.value(), u.value()); }
  template <al::vertex_descriptor_type U, std::integral I> auto find_in_edge(const U& u, I v) const MEMQ(FI_UI) { LM(FI_UI); return first(v, u.value()); }
  template <std::integral I, std::integral J> auto find_in_edge(I u, J v) const MEMQ(FI_II) { LM(FI_II); return first(v, u); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> bool contains_in_edge(const U& u, const V& v) const MEMQ(CI_UV) { LM(CI_UV); return has(v.value(), u.value()) ^ (lm & 1); }
  template <std::integral I, std::integral J> bool contains_in_edge(I u, J v) const MEMQ(CI_II) { LM(CI_II); return has(v, u) ^ (lm & 1); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> bool contains_edge(const U& u, const V& v) const MEMQ(CE_UV) { LM(CE_UV); return has(u.value(), v.value()) ^ (lm & 1); }
  template <std::integral I, std::integral J> bool contains_edge(I u, J v) const MEMQ(CE_II) { LM(CE_II); return has(u, v) ^ (lm & 1); }
  bool has_edge() const MEMQ(HE) { LM(HE); return (m_ != 0) ^ (lm & 1); }
  DU const int& vertex_value(const U& u) const MEMQ(VV) { LM(VV); return t_[u.value()].val; }
  const int& graph_value() const MEMQ(GV) { LM(GV); return gval; }
  DU size_t partition_id(const U&) const MEMQ(PI) { LM(PI); return 0 + lm; }
  size_t num_partitions() const MEMQ(NP) { LM(NP); return 1 + lm; }
  template <al::edge_descriptor_type E> size_t source_id(const E& uv) const MEMQ(SI) { LM(SI); return sh(uv.source().value(), lm); }
  template <al::edge_descriptor_type E> int edge_value(const E& uv) const MEMQ(EV) { LM(EV); return uv.value()->second + (int)lm; }
  // ---- free functions found by argument lookup
  friend size_t num_vertices(const Pg& g) ADLQ(NV) { LA(NV); return g.t_.size() + g.la; }
  DI friend size_t num_vertices(const Pg& g, const I& p) ADLQ(NVP) { LA(NVP); return (p == 0 ? g.t_.size() : 0) + g.la; }
  friend auto vertices(const Pg& g) ADLQ(VS) { LA(VS); return Vdv(size_t(g.la && !g.t_.empty()), g.t_.size()); }
  DI friend auto vertices(const Pg& g, const I& p) ADLQ(VP) { LA(VP); return p == 0 ? Vdv(size_t(0), g.t_.size() - (g.la && !g.t_.empty())) : Vdv(size_t(0), size_t(0)); }
  DU friend u32 vertex_id(const Pg& g, const U& u) ADLQ(VI) { LA(VI); return (u32)g.sh(u.value(), g.la); }
  DI friend auto find_vertex(const Pg& g, const I& i) ADLQ(FV) { LA(FV); return typename Vdv::iterator(g.sh(i, g.la)); }
  DU friend const El& edges(const Pg& g, const U& u) ADLQ(EU) { LA(EU); return g.t_[u.value()].oa; }
  DI friend const El& edges(const Pg& g, const I& u) ADLQ(EUI) { LA(EUI); return g.t_[u].oa; }
  DU friend const El& in_edges(const Pg& g, const U& u) ADLQ(IU) { LA(IU); return g.t_[u.value()].ia; }
  DI friend const El& in_edges(const Pg& g, const I& u) ADLQ(IUI) { LA(IUI); return g.t_[u].ia; }
  DU friend size_t in_degree(const Pg& g, const U& u) ADLQ(ID_U) { LA(ID_U); return g.ind(u.value()) + g.la; }
  DI friend size_t in_degree(const Pg& g, const I& u) ADLQ(ID_I) { LA(ID_I); return g.ind(u) + g.la; }
  template <al::edge_descriptor_type E> friend auto target(const Pg& g, const E& uv) ADLQ(TG) { LA(TG); return Vd(g.sh(uv.value()->first, g.la)); }
  template <al::edge_descriptor_type E> friend auto source(const Pg& g, const E& uv) ADLQ(SR) { LA(SR); return Vd(g.sh(uv.source().value(), g.la)); }
  friend size_t num_edges(const Pg& g) ADLQ(NE) { LA(NE); return g.m_ + g.la; }
  DU friend size_t num_edges(const Pg& g, const U& u) ADLQ(NE_U) { LA(NE_U); return g.t_[u.value()].size() + g.la; }
  DI friend size_t num_edges(const Pg& g, const I& u) ADLQ(NE_I) { LA(NE_I); return g.t_[u].size() + g.la; }
  DU friend size_t degree(const Pg& g, const U& u) ADLQ(DG_U) { LA(DG_U); return g.t_[u.value()].size() + g.la; }
  DI friend size_t degree(const Pg& g, const I& u) ADLQ(DG_I) { LA(DG_I); return g.t_[u].size() + g.la; }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> friend auto find_vertex_edge(const Pg& g, const U& u, const V& v) ADLQ(FE_UU) { LA(FE_UU); return g.first(u.value(), v.value()); }
  template <al::vertex_descriptor_type U, std::integral I> friend auto find_vertex_edge(const Pg& g, const U& u, const I& v) ADLQ(FE_UI) { LA(FE_UI); return g.first(u.value(), v); }
  template <std::integral I, std::integral J> friend auto find_vertex_edge(const Pg& g, const I& u, const J& v) ADLQ(FE_II) { LA(FE_II); return g.first(u, v); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> friend auto find_in_edge(const Pg& g, const U& u, const V& v) ADLQ(FI_UU) { LA(FI_UU); return g.first(v.value(), u.value()); }
  template <al::vertex_descriptor_type U, std::integral I> friend auto find_in_edge(const Pg& g, const U& u, const I& v) ADLQ(FI_UI) { LA(FI_UI); return g.first(v, u.value()); }
  template <std::integral I, std::integral J> friend auto find_in_edge(const Pg& g, const I& u, const J& v) ADLQ(FI_II) { LA(FI_II); return g.first(v, u); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> friend bool contains_in_edge(const Pg& g, const U& u, const V& v) ADLQ(CI_UV) { LA(CI_UV); return g.has(v.value(), u.value()) ^ (g.la & 1); }
  template <std::integral I, std::integral J> friend bool contains_in_edge(const Pg& g, const I& u, const J& v) ADLQ(CI_II) { LA(CI_II); return g.has(v, u) ^ (g.la & 1); }
  template <al::vertex_descriptor_type U, al::vertex_descriptor_type V> friend bool contains_edge(const Pg& g, const U& u, const V& v) ADLQ(CE_UV) { LA(CE_UV); return g.has(u.value(), v.value()) ^ (g.la & 1); }
  template <std::integral I, std::integral J> friend bool contains_edge(const Pg& g, const I& u, const J& v) ADLQ(CE_II) { LA(CE_II); return g.has(u, v) ^ (g.la & 1); }
  friend bool has_edge(const Pg& g) ADLQ(HE) { LA(HE); return (g.m_ != 0) ^ (g.la & 1); }
  DU friend const int& vertex_value(const Pg& g, const U& u) ADLQ(VV) { LA(VV); return g.t_[u.value()].val; }
  friend const int& graph_value(const Pg& g) ADLQ(GV) { LA(GV); return g.gval; }
  DU friend size_t partition_id(const Pg& g, const U&) ADLQ(PI) { LA(PI); return 0 + g.la; }
  friend size_t num_partitions(const Pg& g) ADLQ(NP) { LA(NP); return 1 + g.la; }
  template <al::edge_descriptor_type E> friend u32 target_id(const Pg& g, const E& uv) ADLQ(TI) { LA(TI); return (u32)g.sh(uv.value()->first, g.la); }
  template <al::edge_descriptor_type E> friend size_t source_id(const Pg& g, const E& uv) ADLQ(SI) { LA(SI); return g.sh(uv.source().value(), g.la); }
  template <al::edge_descriptor_type E> friend int edge_value(const Pg& g, const E& uv) ADLQ(EV) { LA(EV); return uv.value()->second + (int)g.la; }
};
struct PModel { size_t n; std::vector<std::vector<Ed>> out, in; };
template <u64 M, u64 A, class G> void probe(Ctx& c, G& g, const PModel& m, bool lying) {
  auto has = [&](size_t s, size_t t) { for (auto& e : m.out[s]) if (e.first == t) return true; return false; };
  // after the call of point x: the right provision ran, exactly once, and (when one exists) nothing else did
  auto seen = [&](X x, u64 also = 0) {
    bool mem = M & B(x), adl = !mem && (A & B(x)); c.count(mem || adl ? "dispatches" : "defaults");
    c.checkf(lmem[x] == mem && ladl[x] == adl, "precedence", [&] { return std::format("{}: member called {} times, free function {} times; the graph provides{}{}", xname[x], lmem[x], ladl[x], M & B(x) ? " a member" : "", A & B(x) ? " a free function" : " no free function"); });
    if (mem || adl) for (int y = 0; y < NX; ++y) if (y != x && !(also & B(y))) c.checkf(!lmem[y] && !ladl[y], "other-point-used", [&] { return std::format("{}, which the graph customises, also called {}", xname[x], xname[y]); }); };
  auto off = [&](X x) -> size_t { return M & B(x) ? g.lm : A & B(x) ? g.la : 0; };
  auto num = [&](X x, auto got, size_t truth, u64 also = 0) { seen(x, also); c.checkf((size_t)got == truth + off(x), "value", [&] { return std::format("{} gave {}, expected {} (true answer {})", xname[x], (size_t)got, truth + off(x), truth); }); };
  auto yes = [&](X x, bool got, bool truth) { seen(x); c.checkf(got == (truth ^ bool(off(x) & 1)), "value", [&] { return std::format("{} gave {}, true answer {}", xname[x], got, truth); }); };
  auto idx = [&](X x, size_t got, size_t truth, u64 also = 0) { seen(x, also); c.checkf(got == g.sh(truth, off(x)), "value", [&] { return std::format("{} gave vertex {}, expected {} (truth {})", xname[x], got, g.sh(truth, off(x)), truth); }); };
  size_t n = m.n, e = 0; for (auto& o : m.out) e += o.size();
#define DO(expr) (wipe(), expr)
  num(NV, DO(graph::num_vertices(g)), n);
  // a default derived from lying provisions tells us nothing: the uniform types never mix the two
  num(NVP, DO(graph::num_vertices(g, 0)), n); num(NVP, DO(graph::num_vertices(g, 1)), 0);
  { auto vs = DO(graph::vertices(g)); seen(VS); bool mem = M & B(VS), adl = !mem && (A & B(VS)); size_t lo = adl && g.la && n; c.checkf((size_t)std::ranges::distance(vs) == n - lo, "value", [&] { return std::format("vertices(g) has {} elements", (size_t)std::ranges::distance(vs)); }); if (n > lo) c.check((*vs.begin()).value() == lo, "value", "first of vertices(g)"); }
  for (int p : {0, 2}) { auto vs = DO(graph::vertices(g, p)); seen(VP); bool mem = M & B(VP), adl = !mem && (A & B(VP)), lie = lying && n && p == 0; size_t want = p ? 0 : n; if (mem && lie) c.check(n == 0 || ((*vs.begin()).value() == 1 || n == 1), "value", "first of vertices(g,pid)"); if ((mem || adl) && lie) --want; if (!(p == 0 && mem && lying && n == 0)) c.checkf((size_t)std::ranges::distance(vs) == want, "value", [&] { return std::format("vertices(g,{}) has {} elements, expected {}", p, (size_t)std::ranges::distance(vs), want); }); }
  num(NE, DO(graph::num_edges(g)), e); yes(HE, DO(graph::has_edges(g)), e != 0); num(NP, DO(graph::num_partitions(g)), 1);
  if constexpr ((M | A) & B(GV)) { auto&& v = DO(graph::graph_value(g)); seen(GV); c.check(&v == &g.gval, "reference", "graph_value(g)"); c.count("references"); }
  using Vd = al::vertex_descriptor<typename std::remove_const_t<G>::iterator>;
  auto list = [&](X x, auto&& r, size_t u, const std::vector<Ed>& truth, u64 also = 0) { seen(x, also); int k = M & B(x) ? 1000 : A & B(x) ? 2000 : (x == EUI || x == IUI) && lying ? -1 : 0; std::vector<Ed> got; for (auto uv : r) { got.push_back(*uv.value()); c.check((x == EUI || x == IUI) && lying ? true : uv.source().value() == u, "edge-source", xname[x]); } c.checkf(got.size() == truth.size() && std::equal(got.begin(), got.end(), truth.begin(), [&](const Ed& a, const Ed& b) { return a.first == b.first && (k < 0 || !lying || a.second == b.second + k); }), "value", [&] { return std::format("{} listed {} edges, expected {}, or another provision's", xname[x], got.size(), truth.size()); }); };
  for (size_t i = 0; i < n && i < 5; ++i) { Vd u(i); u32 id = (u32)i;
    idx(VI, DO(graph::vertex_id(g, u)), i); idx(FV, (*DO(graph::find_vertex(g, id))).value(), i);
    list(EU, DO(graph::edges(g, u)), i, m.out[i]); if (!lying || ((M | A) & B(EUI))) list(EUI, DO(graph::edges(g, id)), i, m.out[i], B(FV) | B(VS) | B(NV));
    if constexpr ((M | A) & B(IU)) { list(IU, DO(graph::in_edges(g, u)), i, m.in[i]); if (!lying || (A & B(IUI))) list(IUI, DO(graph::in_edges(g, id)), i, m.in[i], B(FV) | B(VS) | B(NV)); }
    if constexpr ((M | A) & (B(IU) | B(ID_U))) num(ID_U, DO(graph::in_degree(g, u)), m.in[i].size()); if constexpr ((M | A) & (B(IU) | B(ID_I))) num(ID_I, DO(graph::in_degree(g, id)), m.in[i].size());
    num(NE_U, DO(graph::num_edges(g, u)), m.out[i].size()); num(NE_I, DO(graph::num_edges(g, id)), m.out[i].size()); num(DG_U, DO(graph::degree(g, u)), m.out[i].size()); num(DG_I, DO(graph::degree(g, id)), m.out[i].size());
    num(PI, DO(graph::partition_id(g, u)), 0);
    if constexpr ((M | A) & B(VV)) { auto&& v = DO(graph::vertex_value(g, u)); seen(VV); c.check(&v == &g.t_[i].val, "reference", "vertex_value(g,u)"); } else { auto&& v = DO(graph::vertex_value(g, u)); seen(VV); c.check((const void*)&v == (const void*)&g.t_[i], "reference", "vertex_value(g,u) by default"); } c.count("references");
    for (size_t j = 0; j < n && j < 5; ++j) { Vd v(j); u32 jd = (u32)j; bool h = has(i, j), ih = has(j, i);
      yes(CE_UV, DO(graph::contains_edge(g, u, v)), h); yes(CE_II, DO(graph::contains_edge(g, id, jd)), h); yes(CI_UV, DO(graph::contains_in_edge(g, u, v)), ih); yes(CI_II, DO(graph::contains_in_edge(g, id, jd)), ih);
      auto fe = [&](X x, auto r, size_t s, size_t t) { seen(x); c.checkf(r.source().value() == s && r.value()->first == t, "value", [&] { return std::format("{}: found {}->{}, asked for {}->{}", xname[x], (size_t)r.source().value(), r.value()->first, s, t); }); };
      if (h) { fe(FE_UU, DO(graph::find_vertex_edge(g, u, v)), i, j); fe(FE_UI, DO(graph::find_vertex_edge(g, u, jd)), i, j); fe(FE_II, DO(graph::find_vertex_edge(g, id, jd)), i, j); }
      if (ih) { fe(FI_UU, DO(graph::find_in_edge(g, u, v)), j, i); fe(FI_UI, DO(graph::find_in_edge(g, u, jd)), j, i); fe(FI_II, DO(graph::find_in_edge(g, id, jd)), j, i); } }
    for (auto uv : graph::edges(g, u)) { size_t t = uv.value()->first; int w = uv.value()->second;
      idx(TG, DO(graph::target(g, uv)).value(), t); idx(SR, DO(graph::source(g, uv)).value(), i); idx(TI, DO(graph::target_id(g, uv)), t); idx(SI, DO(graph::source_id(g, uv)), i); num(EV, DO(graph::edge_value(g, uv)), (size_t)w); } }
}
template <u64 M, u64 A> void run(Ctx& c, bool lying) {
  using G = Pg<M, A>; Rng& r = c.rng; size_t n = r.below(9); PModel m{n, {}, {}}; m.out.resize(n); m.in.resize(n); G g; g.t_.resize(n); g.adj.assign(n, 0); std::string d = std::format("n={}", n); u64 h = hcomb(M, A);
  if (n) for (u64 k = r.below(3 * n); k--;) { u32 s = (u32)r.below(n), t = (u32)r.below(n); int w = (int)r.below(100); m.out[s].push_back({t, w}); m.in[t].push_back({s, w}); g.adj[s] |= 1ull << t; ++g.m_; h = hcomb(h, s * 4096 + t * 128 + w); d += std::format(" {}->{}({})", s, t, w); }
  int km = lying ? 1000 : 0, ka = lying ? 2000 : 0;
  for (size_t i = 0; i < n; ++i) { for (auto [t, w] : m.out[i]) { g.t_[i].push_back({t, w}); g.t_[i].om.push_back({t, w + km}); g.t_[i].oa.push_back({t, w + ka}); } for (auto [t, w] : m.in[i]) { g.t_[i].im.push_back({t, w + km}); g.t_[i].ia.push_back({t, w + ka}); } }
  if (lying) { g.lm = 1 + 2 * r.below(3); g.la = g.lm + 1 + r.below(4); }
  c.input(std::format("provisions {:x}/{:x} answers {} {}: {}", M, A, g.lm, g.la, d)); if (g.m_) c.nontrivial(h); c.sample(d);
  probe<M, A>(c, g, m, lying); const G& cg = g; probe<M, A>(c, cg, m, lying);
}
constexpr u64 MEMS = ALL & ~NOMEM;
constexpr u64 cmix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
template <u64 S> void mixrun(Ctx& c) { run<cmix(S) & MEMS, cmix(S + 77) & ALL>(c, false); }
#if IN(0)
SUITE(nothing_provided, 300, 20000) { run<0, 0>(c, false); }
#endif
#if IN(1)
SUITE(members, 300, 20000) { run<MEMS, 0>(c, c.idx & 1); }
#endif
#if IN(2)
SUITE(free_functions, 300, 20000) { run<0, ALL>(c, c.idx & 1); }
#endif
#if IN(3)
SUITE(both, 300, 20000) { run<MEMS, ALL>(c, c.idx & 1); }
#endif
#if IN(4)
SUITE(mixture1, 300, 20000) { mixrun<1>(c); }
#endif
#if IN(5)
SUITE(mixture2, 300, 20000) { mixrun<2>(c); }
#endif
#if IN(6)
SUITE(mixture3, 300, 20000) { mixrun<3>(c); }
// native edges: the edge object's own members come first; values are passed through exactly as provided
struct lane { u32 s, t; int w; u32 target_id() const { return t; } u32 source_id() const { return s; } };
struct ng { std::vector<std::list<lane>> t_; using iterator = std::vector<std::list<lane>>::iterator; auto begin() { return t_.begin(); } auto end() { return t_.end(); } auto begin() const { return t_.begin(); } auto end() const { return t_.end(); } size_t size() const { return t_.size(); } auto& operator[](size_t i) { return t_[i]; } auto& operator[](size_t i) const { return t_[i]; }
  template <al::edge_descriptor_type E> u32 source_id(const E&) const { ++lmem[SI]; return 77; }
  template <al::edge_descriptor_type E> friend u32 source_id(const ng&, const E&) { ++ladl[SI]; return 78; }
  template <al::edge_descriptor_type E> friend u32 target_id(const ng&, const E&) { ++ladl[TI]; return 79; } };
SUITE(native_edges, 200, 5000) { Rng& r = c.rng; ng g; size_t n = 1 + r.below(6); g.t_.resize(n); std::string d = std::format("n={}", n); u64 h = 5; for (u64 k = r.below(12); k--;) { u32 s = (u32)r.below(n), t = (u32)r.below(n); g.t_[s].push_back({s, t, (int)k}); h = hcomb(h, s * 64 + t); d += std::format(" {}->{}", s, t); c.nontrivial(h); } c.input(d);
  auto go = [&](auto& q) { for (auto u : graph::vertices(q)) for (auto uv : graph::edges(q, u)) { wipe(); c.check(graph::target_id(q, uv) == uv.value()->t && graph::source_id(q, uv) == uv.value()->s, "native-edge", "target_id/source_id of an edge object with these members"); c.check(!lmem[SI] && !ladl[SI] && !ladl[TI], "precedence", "edge object members come first"); c.count("dispatches", 2); c.check((const void*)&graph::edge_value(q, uv) == (const void*)&*uv.value(), "reference", "edge_value of an edge object is the object"); c.count("references"); } }; go(g); go(std::as_const(g)); }
// by value, reference, constant reference: what the provision returns is what the caller gets
template <int K, bool MEM> struct rt { std::vector<std::list<Ed>> t_; mutable std::vector<int> ev, vv; mutable int gv = 9;
  auto begin() { return t_.begin(); } auto end() { return t_.end(); } auto begin() const { return t_.begin(); } auto end() const { return t_.end(); } size_t size() const { return t_.size(); } auto& operator[](size_t i) { return t_[i]; } auto& operator[](size_t i) const { return t_[i]; }
  template <class T> static decltype(auto) give(T& x) { if constexpr (K == 0) return T(x); else if constexpr (K == 1) return (x); else return std::as_const(x); }
  template <al::edge_descriptor_type E> decltype(auto) edge_value(const E& uv) const requires MEM { return give(ev[(size_t)uv.value()->second]); }
  template <al::vertex_descriptor_type U> decltype(auto) vertex_value(const U& u) const requires MEM { return give(vv[u.value()]); }
  decltype(auto) graph_value() const requires MEM { return give(gv); }
  template <al::edge_descriptor_type E> friend decltype(auto) edge_value(const rt& g, const E& uv) requires(!MEM) { return give(g.ev[(size_t)uv.value()->second]); }
  template <al::vertex_descriptor_type U> friend decltype(auto) vertex_value(const rt& g, const U& u) requires(!MEM) { return give(g.vv[u.value()]); }
  friend decltype(auto) graph_value(const rt& g) requires(!MEM) { return give(g.gv); } };
template <int K, bool MEM> void rtest(Ctx& c) { Rng& r = c.rng; rt<K, MEM> g; size_t n = 1 + r.below(6); g.t_.resize(n); u64 h = hcomb(K, MEM); for (size_t i = 0; i < n; ++i) g.vv.push_back((int)r.below(1000)); for (u64 k = r.below(12); k--;) { u32 s = (u32)r.below(n), t = (u32)r.below(n); g.t_[s].push_back({t, (int)g.ev.size()}); g.ev.push_back((int)r.below(1000)); h = hcomb(h, s * 64 + t); c.nontrivial(h); } g.gv = (int)r.below(1000);
  using W = std::conditional_t<K == 0, int, std::conditional_t<K == 1, int&, const int&>>;
  auto go = [&](auto& q) {
    auto same = [&](const char* what, auto&& got, const int& want, bool type_ok) { c.count("references"); c.check(type_ok, "return-type", what); c.check(got == want, "value", what); if (K) c.check(&got == &want, "reference", what); };
    same("graph_value", graph::graph_value(q), q.gv, std::is_same_v<decltype(graph::graph_value(q)), W>);
    for (auto u : graph::vertices(q)) { same("vertex_value", graph::vertex_value(q, u), q.vv[u.value()], std::is_same_v<decltype(graph::vertex_value(q, u)), W>); for (auto uv : graph::edges(q, u)) same("edge_value", graph::edge_value(q, uv), q.ev[(size_t)uv.value()->second], std::is_same_v<decltype(graph::edge_value(q, uv)), W>); } };
  go(g); go(std::as_const(g)); }
SUITE(return_types, 300, 6000) { switch (c.idx % 6) { case 0: rtest<0, true>(c); break; case 1: rtest<1, true>(c); break; case 2: rtest<2, true>(c); break; case 3: rtest<0, false>(c); break; case 4: rtest<1, false>(c); break; default: rtest<2, false>(c); } }
#endif
#if IN(7)
SUITE(mixture4, 300, 20000) { mixrun<4>(c); }
#endif
// vertices numbered by the type itself: storage slot k + i holds vertex i, and only vertices, num_vertices, vertex_id, source_id and find_vertex say so; everything else must follow
#if IN(8)
template <bool MEM> struct own_ids { using store = std::vector<std::vector<Ed>>; using iterator = store::iterator; using const_iterator = store::const_iterator; using value_type = store::value_type; store t_; size_t k = 0;
  auto begin() { return t_.begin(); } auto end() { return t_.end(); } auto begin() const { return t_.begin(); } auto end() const { return t_.end(); } size_t size() const { return t_.size(); } auto& operator[](size_t i) { return t_[i]; } auto& operator[](size_t i) const { return t_[i]; }
  using Vdv = al::vertex_descriptor_view<iterator>;
  auto vertices() const requires MEM { return Vdv(k, t_.size()); } friend auto vertices(const own_ids& g) requires(!MEM) { return Vdv(g.k, g.t_.size()); }
  template <std::integral I> auto find_vertex(I i) const requires MEM { ++lmem[FV]; return typename Vdv::iterator(k + (size_t)i); } template <std::integral I> friend auto find_vertex(const own_ids& g, const I& i) requires(!MEM) { ++ladl[FV]; return typename Vdv::iterator(g.k + (size_t)i); }
  template <al::vertex_descriptor_type U> friend u32 vertex_id(const own_ids& g, const U& u) { ++ladl[VI]; return (u32)(u.value() - g.k); }
  template <al::edge_descriptor_type E> friend u32 source_id(const own_ids& g, const E& uv) { return (u32)(uv.source().value() - g.k); } // the documented default is the storage slot
  friend size_t num_vertices(const own_ids& g) { return g.t_.size() - g.k; } };
template <bool MEM> void own_test(Ctx& c) { using G = own_ids<MEM>; using S = std::vector<std::vector<Ed>>; GenOpt go; go.maxn = 14; EL base = gen_graph(c.rng, go), sy = symmetrize(base), tr = transposed(base); if (!base.n) base.n = sy.n = tr.n = 1; c.input(base.str()); size_t k = 1 + c.rng.below(9); u32 n = base.n;
  auto std_ = [&](const EL& e) { S s(n); for (auto& x : fully_sorted(e).es) s[x.s].push_back({x.t, x.w}); return s; }; auto own = [&](const S& s) { G g; g.k = k; g.t_.resize(k); for (auto& x : g.t_) for (u64 q = c.rng.below(4); q--;) x.push_back({(u32)c.rng.below(n), -5}); g.t_.insert(g.t_.end(), s.begin(), s.end()); return g; };
  const S s0 = std_(base), s1 = std_(sy), s2 = std_(tr); const G g0 = own(s0), g1 = own(s1), g2 = own(s2); std::vector<u32> ids(n), v; std::iota(ids.begin(), ids.end(), 0u); u32 src = (u32)c.rng.below(n); bool dag = graph::topological_sort(s0, std::back_inserter(v)); wipe();
  std::vector<Job> A, B; add_jobs<G, const G>(A, g0, g1, g2, n, ids, src, dag, false); add_jobs<S, const S>(B, s0, s1, s2, n, ids, src, dag, false); c.check(A.size() == B.size(), "own-ids", "same jobs");
  for (size_t i = 0; i < A.size(); ++i) { u64 x = A[i].f(), y = B[i].f(); c.count("own_ids_jobs"); c.checkf(x == y, "own-ids", [&] { return std::format("{} on a graph type that numbers its vertices itself (slot {} is vertex 0) differs from the same graph without that", A[i].name, k); }); }
  c.count("own_lookups", lmem[FV] + ladl[FV] + ladl[VI]); c.nontrivial(base.hash()); }
SUITE(own_ids_member, 120, 4000) { own_test<true>(c); }
SUITE(own_ids_adl, 120, 4000) { own_test<false>(c); }
#endif
