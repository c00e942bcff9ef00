// Random load histories for dynamic_graph: every constructor and load function, with every kind of
// source range, mirrored into a Content model.
#pragma once
#include "vcpo.hpp"
namespace vg {
template <class Id, class EV> struct SrcE { Id s, t; EV val; };
template <class Id> struct SrcE<Id, void> { Id s, t; };
template <class Id, class VV> struct SrcV { Id id; VV val; };
template <class Id> struct SrcV<Id, void> { Id id; };
template <class Id, class EV> struct EProj { auto operator()(const SrcE<Id, EV>& r) const { if constexpr (std::is_void_v<EV>) return graph::copyable_edge_t<Id, EV>{r.s, r.t}; else return graph::copyable_edge_t<Id, EV>{r.s, r.t, r.val}; } };
template <class Id, class VV> struct VProj { auto operator()(const SrcV<Id, VV>& r) const { if constexpr (std::is_void_v<VV>) return graph::copyable_vertex_t<Id, VV>{r.id}; else return graph::copyable_vertex_t<Id, VV>{r.id, r.val}; } };
// a single-pass input range over a vector; counts how far it was read
template <class V> struct OnePass { const V* v; size_t* reads;
  struct It { const V* v; size_t i; size_t* reads; using value_type = typename V::value_type; using difference_type = std::ptrdiff_t; const value_type& operator*() const { return (*v)[i]; } It& operator++() { ++i; ++*reads; return *this; } void operator++(int) { ++*this; } bool operator==(std::default_sentinel_t) const { return i == v->size(); } };
  It begin() const { return {v, 0, reads}; } std::default_sentinel_t end() const { return {}; } };

template <class G> struct Loader {
  using T = Tr<G>; using Id = typename T::Id; using EV = typename T::EV; using VV = typename T::VV; using GV = typename T::GV; using CEd = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>; using SE = SrcE<Id, EV>; using SV = SrcV<Id, VV>;
  Ctx& c; u32 stride = 1, off = 0; int nextv = 100; std::string log; Content<Id> m; int dv;
  explicit Loader(Ctx& cc) : c(cc) { if constexpr (has_vv<G>) dv = dfltval<VV>(); else dv = 0; if constexpr (has_gv<G>) m.gv = dfltval<GV>(); if constexpr (T::keyed_v && sizeof(Id) >= 4) { static const u32 st[] = {1, 1, 3, 1009, 65537}; stride = st[c.rng.below(5)]; off = (u32)c.rng.below(5); } }
  Id mk(u32 k) const { if constexpr (std::is_same_v<Id, std::string>) return std::format("{}vertex-{:03}-{}", k % 3 ? "" : "x", k * stride % 977, k); else if constexpr (std::is_signed_v<Id> && T::keyed_v) return (Id)((i64)k * stride - 5 - off); else return (Id)(k * stride + off); }
  struct Ed { Id s, t; int w; };
  std::vector<Ed> edges(u32 maxn) { GenOpt o; o.maxn = maxn; auto g = gen_graph(c.rng, o); std::vector<Ed> r; for (auto& e : g.es) r.push_back({mk(e.s), mk(e.t), nextv++}); if (c.rng.chance(8)) r.clear(); return r; }
  template <class R> R ce(const std::vector<Ed>& es) const { R r; for (auto& e : es) { if constexpr (std::is_void_v<EV>) r.insert(r.end(), CEd{e.s, e.t}); else r.insert(r.end(), CEd{e.s, e.t, mkval<EV>(e.w)}); } return r; }
  std::vector<SE> se(const std::vector<Ed>& es) const { std::vector<SE> r; for (auto& e : es) { if constexpr (std::is_void_v<EV>) r.push_back({e.s, e.t}); else r.push_back({e.s, e.t, mkval<EV>(e.w)}); } return r; }
  // a source range must not have been modified
  template <class R> void intact(const R& r, const std::vector<Ed>& es, const char* how) { size_t i = 0; for (auto& x : r) { c.check(i < es.size(), "source-range-modified", how); Id s, t; int w = 0; if constexpr (requires { x.source_id; }) { s = x.source_id; t = x.target_id; if constexpr (!std::is_void_v<EV>) w = num(x.value); } else { s = x.s; t = x.t; if constexpr (!std::is_void_v<EV>) w = num(x.val); } c.checkf(s == es[i].s && t == es[i].t && (std::is_void_v<EV> || w == es[i].w), "source-range-modified", [&] { return std::format("{}: element {} of the caller's range changed by the load", how, i); }); ++i; } c.check(i == es.size(), "source-range-modified", how); }
  size_t maxid(const std::vector<Ed>& es) const { size_t r = 0; if constexpr (!T::keyed_v) for (auto& e : es) r = std::max({r, (size_t)e.s + 1, (size_t)e.t + 1}); return r; }
  void grow(size_t n) { if constexpr (!T::keyed_v) for (size_t i = m.out.size(); i < n; ++i) m.vertex((Id)i, dv); }
  void apply(const std::vector<Ed>& es) { for (auto& e : es) m.template edge<G>(e.s, e.t, e.w, dv); }
  void note(const std::string& s, const std::vector<Ed>& es) { log += s + "("; for (auto& e : es) log += ids(e.s) + ">" + ids(e.t) + ":" + std::to_string(e.w) + " "; log += ") "; c.input(log); c.count("loads"); }

  void load_edges(G& g, u32 maxn) {
    auto es = edges(maxn); const size_t need = maxid(es); size_t vc = 0; if constexpr (!T::keyed_v) if (c.rng.chance(50)) { vc = need + (c.rng.chance(60) ? 0 : c.rng.below(3)); if (c.rng.chance(10)) vc += 5; if constexpr (sizeof(Id) == 1) vc = std::min<size_t>(vc, 255); }
    size_t hint = c.rng.chance(50) ? 0 : c.rng.chance(70) ? es.size() : c.rng.below(2 * es.size() + 3); const int how = (int)c.rng.below(9); const bool infer = vc == 0;
    note(std::format("load_edges#{} vertex_count={} hint={} ", how, vc, hint), es); size_t reads = 0; const size_t m0 = m.loaded;
    bool onepass = how == 6;
    if (onepass && infer && !T::keyed_v) { vc = std::max<size_t>(need, 1); }
    auto grown = std::max<size_t>(vc, infer && !onepass ? need : 0); if (!T::keyed_v) grow(grown);
    switch (how) {
    case 0: { auto r = ce<std::vector<CEd>>(es); g.load_edges(r, std::identity{}, vc, hint); intact(r, es, "load_edges(lvalue vector)"); break; }
    case 1: { const auto r = ce<std::vector<CEd>>(es); g.load_edges(r, std::identity{}, vc, hint); intact(r, es, "load_edges(const vector)"); break; }
    case 2: { g.load_edges(ce<std::vector<CEd>>(es), std::identity{}, vc, hint); break; }
    case 3: { auto r = se(es); g.load_edges(r, EProj<Id, EV>{}, vc, hint); intact(r, es, "load_edges(projected vector)"); break; }
    case 4: { auto r = ce<std::list<CEd>>(es); g.load_edges(r, std::identity{}, vc, hint); intact(r, es, "load_edges(list)"); break; }
    case 5: { auto r = ce<std::deque<CEd>>(es); g.load_edges(std::move(r), std::identity{}, vc, hint); break; }
    case 6: { auto r = ce<std::vector<CEd>>(es); g.load_edges(OnePass<std::vector<CEd>>{&r, &reads}, std::identity{}, vc, hint); intact(r, es, "load_edges(input range)"); c.check(reads == es.size(), "input-range-reads", "a single-pass range was not read exactly once"); break; }
    case 7: { auto r = se(es); g.load_edges(std::span(r), [k = 1](auto& x) { (void)k; return EProj<Id, EV>{}(x); }, vc, hint); intact(r, es, "load_edges(span)"); break; }
    case 8: { auto r = ce<std::vector<CEd>>(es); g.load_edges(r | std::views::all, [](auto& x) -> auto& { return x; }, vc, hint); intact(r, es, "load_edges(view, reference projection)"); break; }
    }
    apply(es); (void)m0;
  }
  void load_vertices(G& g, u32 maxn) {
    std::vector<std::pair<Id, int>> vs; size_t cnt = c.rng.below(maxn + 1); 
    if constexpr (T::keyed_v) { for (size_t i = 0; i < cnt; ++i) vs.push_back({mk((u32)c.rng.below(maxn)), nextv++}); }
    else { cnt = std::max<size_t>(cnt, c.rng.chance(50) ? m.out.size() : 0); std::vector<u32> p(std::max<size_t>(cnt, m.out.size())); std::iota(p.begin(), p.end(), 0u); c.rng.shuffle(p); for (size_t i = 0; i < cnt; ++i) vs.push_back({(Id)p[i], nextv++}); if (c.rng.chance(30)) std::sort(vs.begin(), vs.end()); if (cnt && c.rng.chance(20)) { auto d = vs[c.rng.below(cnt)]; d.second = nextv++; vs.push_back(d); } }
    size_t vc = 0; if constexpr (!T::keyed_v) if (c.rng.chance(40)) vc = c.rng.below(maxn + 4);
    const int how = (int)c.rng.below(6); log += std::format("load_vertices#{} vertex_count={} (", how, vc); for (auto& [i, v] : vs) log += ids(i) + ":" + std::to_string(v) + " "; log += ") "; c.input(log); c.count("loads");
    if constexpr (!T::keyed_v) { grow(std::max(vc, vs.size())); size_t top = 0; for (auto& v : vs) top = std::max<size_t>(top, (size_t)v.first + 1); if (how == 5 && vc < top && top > m.out.size()) return; }
    auto cv = [&](auto r) { for (auto& [i, v] : vs) { if constexpr (std::is_void_v<VV>) r.insert(r.end(), CV{i}); else r.insert(r.end(), CV{i, mkval<VV>(v)}); } return r; };
    auto sv = [&] { std::vector<SV> r; for (auto& [i, v] : vs) { if constexpr (std::is_void_v<VV>) r.push_back({i}); else r.push_back({i, mkval<VV>(v)}); } return r; };
    auto intact = [&](const auto& r, const char* w) { size_t i = 0; for (auto& x : r) { if constexpr (!std::is_void_v<VV>) { if constexpr (requires { x.value; }) c.check(num(x.value) == vs[i].second, "source-range-modified", w); else c.check(num(x.val) == vs[i].second, "source-range-modified", w); } c.check(x.id == vs[i].first, "source-range-modified", w); ++i; } c.check(i == vs.size(), "source-range-modified", w); };
    switch (how) {
    case 0: { auto r = cv(std::vector<CV>{}); g.load_vertices(r, std::identity{}, vc); intact(r, "load_vertices(lvalue vector)"); break; }
    case 1: { const auto r = cv(std::vector<CV>{}); g.load_vertices(r, std::identity{}, vc); intact(r, "load_vertices(const vector)"); break; }
    case 2: { g.load_vertices(cv(std::vector<CV>{}), std::identity{}, vc); break; }
    case 3: { auto r = sv(); g.load_vertices(r, VProj<Id, VV>{}, vc); intact(r, "load_vertices(projected)"); break; }
    case 4: { auto r = cv(std::list<CV>{}); g.load_vertices(r, std::identity{}, vc); intact(r, "load_vertices(list)"); break; }
    case 5: { auto r = sv(); g.load_vertices(std::span(r), [](auto& x) { return VProj<Id, VV>{}(x); }, vc); intact(r, "load_vertices(span)"); break; }
    }
    for (auto& [i, v] : vs) { m.vertex(i, dv); if constexpr (has_vv<G>) m.vv[i] = v; }
  }
  // one of the constructors
  G make(u32 maxn) {
    const int how = (int)c.rng.below(9); int gval = 0; if constexpr (has_gv<G>) gval = 3000 + (int)c.rng.below(100);
    const std::vector<Id> nopart;
    switch (how) {
    case 1: { log += "ctor(alloc) "; return G(typename G::allocator_type{}); }
    case 2: if constexpr (has_gv<G>) { log += std::format("ctor(gv {}) ", gval); m.gv = gval; if (c.rng.chance(50)) { auto v = mkval<GV>(gval); G g(std::as_const(v)); c.check(num(v) == gval, "source-range-modified", "graph value"); return g; } return G(mkval<GV>(gval)); } break;
    case 3: { auto es = edges(maxn); if (es.size() > 5) es.resize(c.rng.below(6)); note("ctor(init list)", es); grow(maxid(es)); auto r = ce<std::vector<CEd>>(es); apply(es);
      auto go = [&](std::initializer_list<CEd> il) { if constexpr (has_gv<G>) if (c.rng.chance(60)) { m.gv = gval; auto v = mkval<GV>(gval); if (c.rng.chance(50)) return G(std::as_const(v), il); return G(std::move(v), il); } return G(il); };
      switch (r.size()) { case 0: return go({}); case 1: return go({r[0]}); case 2: return go({r[0], r[1]}); case 3: return go({r[0], r[1], r[2]}); case 4: return go({r[0], r[1], r[2], r[3]}); default: return go({r[0], r[1], r[2], r[3], r[4]}); } }
    case 4: if constexpr (std::integral<Id>) { auto es = edges(maxn); size_t top = std::max<size_t>(maxid(es), 1) + c.rng.below(3); if constexpr (sizeof(Id) == 1) top = std::min<size_t>(top, 200); note(std::format("ctor(max id {}, range)", top - 1), es); if (!T::keyed_v) grow(top); auto r = se(es); auto part = c.rng.chance(30) && top > 1 && !T::keyed_v ? std::vector<Id>{0, (Id)(top / 2)} : nopart; G g((Id)(top - 1), r, EProj<Id, EV>{}, part); intact(r, es, "ctor(max id, range)"); apply(es); return g; } break;
    case 5: { auto es = edges(maxn); note("ctor(edges, vertices)", es); std::vector<std::pair<Id, int>> vs; std::set<Id> seen;
      if constexpr (T::keyed_v) { for (u32 k = 0; k < maxn; ++k) if (c.rng.chance(50)) vs.push_back({mk(k), nextv++}); } else if (c.rng.chance(70)) { size_t top = std::max<size_t>(maxid(es), 1) + c.rng.below(2); for (size_t i = 0; i < top; ++i) vs.push_back({(Id)i, nextv++}); }
      c.rng.shuffle(vs); log += "V("; for (auto& [i, v] : vs) log += ids(i) + ":" + std::to_string(v) + " "; log += ") "; c.input(log);
      std::vector<CV> cvv; for (auto& [i, v] : vs) { if constexpr (std::is_void_v<VV>) cvv.push_back(CV{i}); else cvv.push_back(CV{i, mkval<VV>(v)}); }
      const auto r = ce<std::vector<CEd>>(es); const auto& cvr = cvv; if (!T::keyed_v) grow(std::max(maxid(es), vs.size())); for (auto& [i, v] : vs) { m.vertex(i, dv); if constexpr (has_vv<G>) m.vv[i] = v; }
      G g(r, cvr, std::identity{}, std::identity{}, nopart); intact(r, es, "ctor(edges, vertices)"); for (size_t i = 0; i < vs.size(); ++i) { c.check(cvv[i].id == vs[i].first, "source-range-modified"); if constexpr (has_vv<G>) c.check(num(cvv[i].value) == vs[i].second, "source-range-modified", "ctor(edges, vertices): vertices"); } apply(es); return g; }
    default: break;
    }
    log += "ctor() "; return G();
  }
  std::vector<Id> miss(u32 maxn) { std::vector<Id> r; for (int i = 0; i < 3; ++i) r.push_back(mk((u32)c.rng.below(maxn + 6))); if constexpr (!T::keyed_v && sizeof(Id) > 1) { r.push_back((Id)m.out.size()); r.push_back(std::numeric_limits<Id>::max()); if constexpr (std::is_signed_v<Id>) r.push_back((Id)-1); } return r; }
  void verify(G& g, u32 maxn) { if (c.rng.chance(50)) check_content<G>(c, g, m, miss(maxn)); else check_content<const G>(c, g, m, miss(maxn)); }
};
} // namespace vg
