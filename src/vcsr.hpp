// Random load histories for compressed_graph, mirrored into a Content model.
#pragma once
#include "vload.hpp"
#include <forward_list>
namespace vg {
template <class G> struct csr_alloc; template <class EV, class VV, class GV, class I, class E, class A> struct csr_alloc<gc::compressed_graph<EV, VV, GV, I, E, A>> { using type = A; };
template <class G> struct CL {
  using T = Tr<G>; using Id = typename T::Id; using EV = typename T::EV; using VV = typename T::VV; using GV = typename T::GV; using CEd = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>; using Ed = typename Loader<G>::Ed;
  Ctx& c; Loader<G> L; std::string& log; Content<Id>& m; u32 maxn; u32 seed_gv = 0;
  CL(Ctx& cc, u32 mx) : c(cc), L(cc), log(L.log), m(L.m), maxn(mx) {}
  std::vector<Ed> sorted() { auto es = L.edges(maxn); std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.s < b.s; }); return es; }
  std::vector<std::pair<Id, int>> verts(size_t want) { std::vector<std::pair<Id, int>> vs; size_t cnt = c.rng.chance(40) ? want : c.rng.below(maxn + 1); for (size_t i = 0; i < cnt; ++i) if (c.rng.chance(80)) vs.push_back({(Id)i, L.nextv++}); if (c.rng.chance(40)) c.rng.shuffle(vs); if (!vs.empty() && c.rng.chance(15)) { auto d = vs[c.rng.below(vs.size())]; d.second = L.nextv++; vs.push_back(d); } return vs; }
  template <class R> R cv(const std::vector<std::pair<Id, int>>& vs) { R r; for (auto& [i, v] : vs) { if constexpr (std::is_void_v<VV>) r.insert(r.end(), CV{i}); else r.insert(r.end(), CV{i, mkval<VV>(v)}); } return r; }
  void vapply(const std::vector<std::pair<Id, int>>& vs) { size_t top = 0; for (auto& [i, v] : vs) top = std::max<size_t>(top, (size_t)i + 1); L.grow(top); for (auto& [i, v] : vs) if constexpr (has_vv<G>) m.vv[i] = v; }
  void vlog(const std::vector<std::pair<Id, int>>& vs) { log += "V("; for (auto& [i, v] : vs) log += ids(i) + ":" + std::to_string(v) + " "; log += ") "; c.input(log); }
  void vintact(const auto& r, const std::vector<std::pair<Id, int>>& vs) { size_t i = 0; for (auto& x : r) { c.check(x.id == vs[i].first, "source-range-modified", "vertices"); if constexpr (has_vv<G>) c.check(num(x.value) == vs[i].second, "source-range-modified", "vertex values"); ++i; } }
  void load_e(G& g) {
    auto es = sorted(); size_t need = L.maxid(es), vc = c.rng.chance(40) ? need + c.rng.below(4) : c.rng.chance(20) ? c.rng.below(maxn) : 0; if constexpr (sizeof(Id) == 1) vc = std::min<size_t>(vc, 120); size_t ec = c.rng.chance(50) ? 0 : c.rng.below(es.size() * 2 + 2); int how = (int)c.rng.below(9);
    L.note(std::format("load_edges#{} vertex_count={} edge_count={} ", how, vc, ec), es); L.grow(std::max(vc, need)); auto id = std::identity{};
    switch (how) {
    case 0: { auto r = L.template ce<std::vector<CEd>>(es); g.load_edges(r, id, vc, ec); L.intact(r, es, "load_edges(lvalue)"); break; }
    case 1: { const auto r = L.template ce<std::vector<CEd>>(es); g.load_edges(r, id, vc, ec); L.intact(r, es, "load_edges(const)"); break; }
    case 2: g.load_edges(L.template ce<std::vector<CEd>>(es), id, vc, ec); break;
    case 3: { auto r = L.se(es); g.load_edges(r, EProj<Id, EV>{}, vc, ec); L.intact(r, es, "load_edges(projected)"); break; }
    case 4: { auto r = L.template ce<std::list<CEd>>(es); g.load_edges(r, id, vc, ec); L.intact(r, es, "load_edges(list)"); break; }
    case 5: { auto r = L.template ce<std::deque<CEd>>(es); g.load_edges(std::move(r), id, vc, ec); break; }
    case 6: { auto v = L.template ce<std::vector<CEd>>(es); std::forward_list<CEd> r(v.begin(), v.end()); if (c.rng.chance(50)) g.load_edges(r, id, vc, ec); else g.load_edges(std::as_const(r), id, vc, ec); L.intact(r, es, "load_edges(forward_list)"); break; }
    case 7: { auto r = L.template ce<std::vector<CEd>>(es); g.load_edges(std::span(r), id, vc, ec); L.intact(r, es, "load_edges(span)"); break; }
    case 8: { auto r = L.template ce<std::vector<CEd>>(es); g.load_edges(r | std::views::all, [](auto& x) -> auto& { return x; }, vc, ec); L.intact(r, es, "load_edges(view, reference projection)"); break; }
    }
    L.apply(es);
  }
  void load_v(G& g, size_t want) {
    auto vs = verts(want); size_t vc = c.rng.chance(30) ? c.rng.below(maxn + 3) : 0; int how = (int)c.rng.below(4); log += std::format("load_vertices#{} vertex_count={} ", how, vc); vlog(vs); L.grow(vc);
    auto id = std::identity{};
    switch (how) {
    case 0: { auto r = cv<std::vector<CV>>(vs); g.load_vertices(r, id, vc); vintact(r, vs); break; }
    case 1: g.load_vertices(cv<std::vector<CV>>(vs), id, vc); break;
    case 2: { auto r = cv<std::list<CV>>(vs); g.load_vertices(r, id, vc); vintact(r, vs); break; }
    case 3: { auto v = cv<std::vector<CV>>(vs); std::forward_list<CV> r(v.begin(), v.end()); g.load_vertices(r, [](const auto& x) { return x; }, vc); vintact(r, vs); break; }
    }
    vapply(vs);
  }
  G make(bool& loaded) {
    loaded = true; int how = (int)c.rng.below(9); [[maybe_unused]] int gval = 3000 + (int)c.rng.below(99); std::vector<Id> np; auto id = std::identity{};
    if (how < 3) { loaded = false; if (how == 0) { log += "ctor() "; return G(); } if (how == 1) { log += "ctor(alloc) "; return G(typename csr_alloc<G>::type{}); } if constexpr (has_gv<G>) { log += "ctor(gv) "; m.gv = gval; auto v = mkval<GV>(gval); if (c.rng.chance(50)) { G g(std::as_const(v)); c.check(num(v) == gval, "source-range-modified", "graph value"); return g; } return G(std::move(v)); } return G(); }
    auto es = sorted(); auto r = L.template ce<std::vector<CEd>>(es);
    if (how == 3 || how == 4) { if (es.size() > 4) { es.resize(c.rng.below(5)); r.erase(r.begin() + (long)es.size(), r.end()); } L.note("ctor(init list)", es); L.grow(L.maxid(es)); L.apply(es); switch (r.size()) { case 0: return G(std::initializer_list<CEd>{}); case 1: return G({r[0]}); case 2: return G({r[0], r[1]}); case 3: return G({r[0], r[1], r[2]}); default: return G({r[0], r[1], r[2], r[3]}); } }
    if (how == 5 || how == 6) { L.note(std::format("ctor(edges){}", how), es); L.grow(L.maxid(es)); L.apply(es); const auto s = L.se(es);
      auto pr = [](const SrcE<Id, EV>& x) -> CEd { return EProj<Id, EV>{}(x); };
      if constexpr (has_gv<G>) if (how == 6) { m.gv = gval; auto v = mkval<GV>(gval); G g = c.rng.chance(50) ? G(std::as_const(v), s, pr, np) : G(std::move(v), s, pr, np); L.intact(s, es, "ctor"); return g; }
      if (c.rng.chance(50)) { G g(s, pr, np); L.intact(s, es, "ctor"); return g; } G g(r, id, np); L.intact(r, es, "ctor"); return g; }
    auto vs = verts(L.maxid(es)); L.note(std::format("ctor(edges, vertices){}", how), es); vlog(vs); auto vr = cv<std::vector<CV>>(vs); L.grow(L.maxid(es)); vapply(vs); L.apply(es);
    if constexpr (has_gv<G>) if (how == 8) { m.gv = gval; auto v = mkval<GV>(gval); G g = c.rng.chance(50) ? G(std::as_const(v), r, vr, id, id, np) : G(std::move(v), r, vr, id, id, np); L.intact(r, es, "ctor"); vintact(vr, vs); return g; }
    if constexpr (!has_vv<G>) { G g(r, id, np); return vs.empty() ? g : [&] { G h; h.load_edges(r); h.load_vertices(vr); return h; }(); } else { G g(r, vr, id, id, np); L.intact(r, es, "ctor"); vintact(vr, vs); return g; }
  }
  void verify(G& g) { L.verify(g, maxn); const G& cg = g; // the index-based members agree as well
    c.check(g.size() == m.out.size() && g.num_vertices() == m.out.size() && g.empty() == m.out.empty(), "csr-size"); size_t k = 0, e = 0; c.count("index_walks");
    for (auto i : cg.vertex_ids()) { c.check((size_t)i == k++, "csr-vertex-ids"); auto& want = m.out.at((Id)i); size_t j = 0; if constexpr (has_vv<G>) { c.check(num(cg.vertex_value(i)) == m.vv.at((Id)i) && num(g.vertex_value(i)) == m.vv.at((Id)i), "csr-vertex-value"); }
      for (auto ei : cg.edge_ids((Id)i)) { c.checkf(j < want.size() && (size_t)ei == e && cg.target_id(ei) == want[j].t, "csr-edge-ids", [&] { return std::format("edge {} of {}", (u64)ei, (u64)i); }); if constexpr (has_ev<G>) c.check(num(cg.edge_value(ei)) == want[j].w && num(g.edge_value(ei)) == want[j].w, "csr-edge-value"); ++j; ++e; } c.check(j == want.size(), "csr-edge-ids"); }
    c.check(k == m.out.size() && e == m.stored(), "csr-edge-ids"); e = 0; for (auto ei : cg.edge_ids()) c.check((size_t)ei == e++, "csr-edge-ids"); c.check(e == m.stored(), "csr-edge-ids"); { size_t z = 0; for ([[maybe_unused]] auto ei : cg.edge_ids((Id)m.out.size())) ++z; c.check(z == 0, "csr-edge-ids", "past the end"); } }
};
} // namespace vg
