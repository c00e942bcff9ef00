// Random edit histories for undirected_adjacency_list, mirrored into an edge-set model.
#pragma once
#include "vcpo.hpp"
#include <graph/container/undirected_adjacency_list.hpp>
namespace vg {
struct UM { // the model: edges by number, and per vertex the edges of its list in order
  struct E { u32 s, t; int w; }; std::map<size_t, E> es; std::vector<std::vector<size_t>> inc; std::vector<int> vv; int gv = 0; size_t next = 0;
  void link(size_t i) { auto& e = es[i]; inc[e.s].push_back(i); if (e.s != e.t) inc[e.t].push_back(i); }
  void add(u32 s, u32 t, int w) { es[next] = {s, t, w}; link(next++); }
  void drop(size_t i) { auto e = es.at(i); std::erase(inc[e.s], i); std::erase(inc[e.t], i); es.erase(i); }
  u32 other(size_t i, u32 u) const { auto& e = es.at(i); return e.s == u ? e.t : e.s; }
  template <class Id> Content<Id> content() const { Content<Id> c; c.gv = gv; for (u32 v = 0; v < inc.size(); ++v) { c.vertex((Id)v, vv[v]); for (size_t i : inc[v]) { c.out[(Id)v].push_back({(Id)other(i, v), es.at(i).w}); c.in[(Id)v].push_back({(Id)other(i, v), es.at(i).w}); } } return c; }
  std::multiset<std::tuple<u32, u32, int>> bag() const { std::multiset<std::tuple<u32, u32, int>> b; for (auto& [i, e] : es) b.insert({std::min(e.s, e.t), std::max(e.s, e.t), e.w}); return b; }
  u64 hash() const { u64 h = inc.size(); for (auto& l : inc) { h = hcomb(h, l.size()); for (auto i : l) h = hcomb(h, hcomb(es.at(i).s, es.at(i).t)); } return h; }
};
template <class G> struct UD {
  using M = UM; using T = Tr<G>; using Id = typename T::Id; using EV = typename T::EV; using VV = typename T::VV; using GV = typename T::GV; using VE = typename G::vertex_edge_iterator;
  Ctx& c; std::string log; int nextv = 100; u32 maxn; int dv = 0;
  UD(Ctx& cc, u32 mx) : c(cc), maxn(mx) { if constexpr (has_vv<G>) dv = dfltval<VV>(); }
  int wdef() const { if constexpr (has_ev<G>) return dfltval<EV>(); else return 0; }
  int wval(int w) const { if constexpr (has_ev<G>) return w; else return 0; }
  void note(std::string s) { log += s + " "; c.input(log); }
  static constexpr size_t cap = sizeof(Id) == 1 ? 100 : 10000;
  // ---- creation
  G make(M& m) {
    m = {}; [[maybe_unused]] int gval = 3000 + (int)c.rng.below(99); if constexpr (has_gv<G>) m.gv = dfltval<GV>(); int how = (int)c.rng.below(8);
    auto edges = [&](bool ordered) { GenOpt o; o.maxn = maxn; auto g = gen_graph(c.rng, o); std::vector<UM::E> r; for (auto& e : g.es) r.push_back({e.s, e.t, wval(nextv++)}); if (ordered) std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.s < b.s; }); u32 n = 0; for (auto& e : r) n = std::max({n, e.s + 1, e.t + 1}); return std::pair(r, n); };
    auto fill = [&](const std::vector<UM::E>& es, u32 n) { m.inc.resize(n); m.vv.resize(n, dv); for (auto& e : es) { m.add(e.s, e.t, e.w); log += std::format("{}-{}:{} ", e.s, e.t, e.w); } c.input(log); };
    if (how == 1) { note("ctor(alloc)"); return G(typename G::allocator_type{}); }
    if constexpr (has_gv<G>) if (how == 2) { note("ctor(gv)"); m.gv = gval; auto v = mkval<GV>(gval); if (c.rng.chance(50)) { G g(std::as_const(v)); c.check(num(v) == gval, "source-range-modified", "graph value"); return g; } return G(std::move(v)); }
    if (how == 3 || how == 4) { auto [es, n] = edges(false); if (es.size() > 3) { es.resize(c.rng.below(4)); n = 0; for (auto& e : es) n = std::max({n, e.s + 1, e.t + 1}); } note("ctor(init list)"); fill(es, n); bool gvl = has_gv<G> && c.rng.chance(50);
      auto go = [&](auto il) { (void)gvl; return G(il); };
      if constexpr (has_ev<G>) { using Tp = std::tuple<Id, Id, EV>; std::vector<Tp> r; for (auto& e : es) r.emplace_back((Id)e.s, (Id)e.t, mkval<EV>(e.w)); using IL = std::initializer_list<Tp>; auto g = [&] { switch (r.size()) { case 0: return go(IL{}); case 1: return go(IL{r[0]}); case 2: return go(IL{r[0], r[1]}); default: return go(IL{r[0], r[1], r[2]}); } }(); for (size_t i = 0; i < es.size(); ++i) c.check(num(std::get<2>(r[i])) == es[i].w, "source-range-modified", "initializer list"); return g; }
      else { using Tp = std::tuple<Id, Id>; std::vector<Tp> r; for (auto& e : es) r.emplace_back((Id)e.s, (Id)e.t); using IL = std::initializer_list<Tp>; switch (r.size()) { case 0: return go(IL{}); case 1: return go(IL{r[0]}); case 2: return go(IL{r[0], r[1]}); default: return go(IL{r[0], r[1], r[2]}); } } }
    if (how == 5 || how == 6) { auto [es, n] = edges(true); note("ctor(edges)"); using CEd = graph::copyable_edge_t<Id, EV>; std::vector<CEd> r; for (auto& e : es) { if constexpr (has_ev<G>) r.push_back(CEd{(Id)e.s, (Id)e.t, mkval<EV>(e.w)}); else r.push_back(CEd{(Id)e.s, (Id)e.t}); }
      auto done = [&](G g) { if constexpr (has_ev<G>) for (size_t i = 0; i < es.size(); ++i) c.check(num(r[i].value) == es[i].w, "source-range-modified", "edges"); return g; };
      if constexpr (has_vv<G>) if (how == 6) { using CV = graph::copyable_vertex_t<Id, VV>; u32 nv = c.rng.chance(70) ? n + (u32)c.rng.below(3) : (u32)c.rng.below(n + 1); std::vector<CV> vr; for (u32 i = 0; i < nv; ++i) vr.push_back(CV{(Id)i, mkval<VV>(nextv + (int)i)}); fill(es, es.empty() && nv == 0 ? 0 : std::max({n, nv, 1u})); for (u32 i = 0; i < nv; ++i) m.vv[i] = nextv + (int)i; nextv += (int)nv; log += std::format("vertices {} ", nv); c.input(log);
        auto ok = [&](G g) { for (u32 i = 0; i < nv; ++i) c.check(num(vr[i].value) == m.vv[i], "source-range-modified", "vertices"); return done(std::move(g)); };
        if constexpr (has_gv<G>) { m.gv = gval; auto v = mkval<GV>(gval); return ok(G(r, vr, std::identity{}, std::identity{}, v)); }
        else return ok(G(r, vr, std::identity{}, std::identity{})); }
      fill(es, es.empty() ? 0 : n); if constexpr (has_gv<G>) { m.gv = gval; auto v = mkval<GV>(gval); return done(G(r, std::identity{}, v)); } else return done(G(r, std::identity{})); }
    m.es.clear(); m.inc.clear(); m.vv.clear(); if constexpr (has_gv<G>) m.gv = dfltval<GV>(); note("ctor()"); return G();
  }
  void add_vertex(G& g, M& m) {
    if (m.inc.size() >= cap) return; int how = has_vv<G> ? (int)c.rng.below(3) : 0; int v = how ? nextv++ : dv; typename G::vertex_iterator it;
    if constexpr (has_vv<G>) { if (how == 1) it = g.create_vertex(mkval<VV>(v)); else if (how == 2) { const auto x = mkval<VV>(v); it = g.create_vertex(x); c.check(num(x) == v, "source-range-modified", "create_vertex"); } else it = g.create_vertex(); } else it = g.create_vertex();
    m.inc.emplace_back(); m.vv.push_back(v); c.check((size_t)(it - g.begin()) + 1 == m.inc.size(), "create-vertex", "the iterator does not refer to the new vertex"); if constexpr (has_vv<G>) c.check(num(it->value()) == v, "create-vertex", "value"); note(std::format("+v{}", v)); c.count("edits");
  }
  void grow(G& g, M& m) { // resize_vertices, with the default or a given value; never smaller
    size_t n = m.inc.size() + c.rng.below(3); if (n > maxn + 2) return; int v = dv; if (c.rng.chance(40)) { g.reserve_vertices(n + c.rng.below(20)); note("reserve"); } if constexpr (has_vv<G>) if (c.rng.chance(50)) { v = nextv++; const auto x = mkval<VV>(v); g.resize_vertices(n, x); c.check(num(x) == v, "source-range-modified", "resize_vertices"); m.inc.resize(n); m.vv.resize(n, v); note(std::format("resize({},{})", n, v)); c.count("edits"); return; }
    g.resize_vertices(n); m.inc.resize(n); m.vv.resize(n, v); note(std::format("resize({})", n)); c.count("edits");
  }
  void add_edge(G& g, M& m) {
    if (m.inc.empty()) return; u32 s = (u32)c.rng.below(m.inc.size()), t = c.rng.chance(15) ? s : (u32)c.rng.below(m.inc.size()); if (!m.es.empty() && c.rng.chance(20)) { auto it = m.es.begin(); std::advance(it, c.rng.below(m.es.size())); s = it->second.t; t = it->second.s; }
    int how = has_ev<G> ? (int)c.rng.below(3) : 0, w = how ? nextv++ : wdef(); bool byid = c.rng.chance(50); auto ui = g.begin() + s, vi = g.begin() + t; VE e;
    if constexpr (has_ev<G>) { if (how == 1) { e = byid ? g.create_edge((Id)s, (Id)t, mkval<EV>(w)) : g.create_edge(ui, vi, mkval<EV>(w)); } else if (how == 2) { const auto x = mkval<EV>(w); e = byid ? g.create_edge((Id)s, (Id)t, x) : g.create_edge(ui, vi, x); c.check(num(x) == w, "source-range-modified", "create_edge"); } else e = byid ? g.create_edge((Id)s, (Id)t) : g.create_edge(ui, vi); } else e = byid ? g.create_edge((Id)s, (Id)t) : g.create_edge(ui, vi);
    m.add(s, t, w); note(std::format("+{}-{}:{}", s, t, w)); c.check(e->list_owner_id() == (Id)s && e->list_target_id() == (Id)t, "create-edge", "the iterator's edge has other ends"); if constexpr (has_ev<G>) c.check(num(e->value()) == w, "create-edge", "value");
    { auto& l = m.inc[s]; auto nx = e; ++nx; auto end = g.vertices()[s].edges_end(g, (Id)s); c.check((nx == end) == (l.back() == m.next - 1), "create-edge", "position"); } c.count("edits");
  }
  VE nth(G& g, u32 u, size_t k) { auto it = g.vertices()[u].edges_begin(g, (Id)u); while (k--) ++it; return it; }
  void erase(G& g, M& m) {
    if (m.es.empty()) return; std::vector<u32> ne; for (u32 v = 0; v < m.inc.size(); ++v) if (!m.inc[v].empty()) ne.push_back(v); u32 u = c.rng.pick(ne); auto& l = m.inc[u]; int how = (int)c.rng.below(4); size_t k = c.rng.below(l.size()); auto& uv = g.vertices()[u]; c.count("edits"); c.count("erasures");
    if (how == 0) { note(std::format("-e({},{})", u, k)); auto nx = uv.erase_edge(g, nth(g, u, k)); m.drop(l[k]); auto want = nth(g, u, k); c.check(nx == want && (nx == uv.edges_end(g, (Id)u)) == (k == l.size()), "erase-edge", "the returned iterator is not the next edge of the vertex"); }
    else if (how == 1) { // by position in the graph-wide edge range
      size_t at = k; for (u32 v = 0; v < u; ++v) at += m.inc[v].size(); note(std::format("-E{}", at)); auto r = g.edges(); auto it = r.begin(); for (size_t i = 0; i < at; ++i) ++it; c.check(it != r.end(), "erase-edge", "graph-wide range ends early"); size_t id = l[k]; auto nx = g.erase_edge(it); m.drop(id);
      // whatever position is returned, what follows it are live edges and the walk ends
      size_t left = 0, total = 0; for (auto& x : m.inc) total += x.size(); auto e = g.edges(); std::set<const void*> live; for (auto i = e.begin(); i != e.end(); ++i) live.insert(&*i); for (auto i = nx; i != e.end(); ++i) { c.check(++left <= total && live.count(&*i), "erase-edge", "walk after erase"); }
      size_t before = 0; for (u32 v = 0; v < u; ++v) before += m.inc[v].size(); before += k; c.checkf(left == total - before, "erase-edge", [&] { return std::format("{} positions follow the erased one, expected {}", left, total - before); }); }
    else if (how == 2) { size_t b = k, e = b + c.rng.below(l.size() - b + 1); note(std::format("-e({},[{},{}))", u, b, e)); std::vector<size_t> ids(l.begin() + (long)b, l.begin() + (long)e); auto nx = uv.erase_edge(g, nth(g, u, b), nth(g, u, e)); for (auto i : ids) m.drop(i); c.check(nx == nth(g, u, b), "erase-edge", "range"); }
    else { note(std::format("clear_edges({})", u)); auto ids = l; uv.clear_edges(g); for (auto i : ids) m.drop(i); }
  }
  void clear(G& g, M& m) { note("clear"); g.clear(); m.es.clear(); m.inc.clear(); m.vv.clear(); regv(g, m); }
  void erase_all(G& g, M& m, bool some) { // erase while walking the graph-wide range
    note("erase-walk"); std::vector<size_t> kill; std::map<const void*, size_t> num_of = number(g, m); auto es = g.edges(); for (auto it = es.begin(); it != es.end();) { size_t id = num_of.at(&*it); if (!some || (id * 2654435761u >> 3) % 2) { kill.push_back(id); it = g.erase_edge(it); } else ++it; c.check(kill.size() <= num_of.size(), "erase-edge", "walk"); }
    std::set<size_t> ks(kill.begin(), kill.end()); c.check(ks.size() == kill.size(), "erase-edge", "an edge was erased twice"); size_t want = 0; for (auto& [i, e] : m.es) want += !some || (i * 2654435761u >> 3) % 2; c.check(ks.size() == want, "erase-edge", "the erasing walk missed edges"); for (auto i : ks) m.drop(i); c.count("edits");
  }
  void regv(G& g, M& m) { if constexpr (has_gv<G>) { m.gv = 4000 + (int)c.rng.below(99); graph::graph_value(g) = mkval<GV>(m.gv); } }
  void poke(G& g, M& m) {
    if constexpr (has_vv<G>) if (!m.vv.empty()) { u32 v = (u32)c.rng.below(m.vv.size()); m.vv[v] = nextv++; if (c.rng.chance(50)) graph::vertex_value(g, *graph::find_vertex(g, (Id)v)) = mkval<VV>(m.vv[v]); else g.vertices()[v].value() = mkval<VV>(m.vv[v]); note(std::format("v{}={}", v, m.vv[v])); }
    if constexpr (has_ev<G>) if (!m.es.empty()) { auto it = m.es.begin(); std::advance(it, c.rng.below(m.es.size())); u32 u = c.rng.chance(50) ? it->second.s : it->second.t; size_t k = std::find(m.inc[u].begin(), m.inc[u].end(), it->first) - m.inc[u].begin(); it->second.w = nextv++; size_t j = 0; for (auto&& e : graph::edges(g, *graph::find_vertex(g, (Id)u))) if (j++ == k) { graph::edge_value(g, e) = mkval<EV>(it->second.w); break; } note(std::format("w({},{})={}", u, k, it->second.w)); }
    if (c.rng.chance(30)) regv(g, m);
  }
  void step(G& g, M& m) { int k = (int)c.rng.below(100); if (m.inc.size() < 2 || k < 15) { for (u64 i = 1 + c.rng.below(m.inc.size() < 2 ? 5 : 2); i--;) if (m.inc.size() < maxn) { if (c.rng.chance(20)) grow(g, m); else add_vertex(g, m); } } else if (k < 60) { for (u64 i = 1 + c.rng.below(4); i--;) add_edge(g, m); } else if (k < 82) erase(g, m); else if (k < 88) erase_all(g, m, k < 86); else poke(g, m); }
  // number of each live edge object, from the endpoints' lists
  std::map<const void*, size_t> number(G& g, const M& m) { std::map<const void*, size_t> r; for (u32 v = 0; v < m.inc.size(); ++v) { size_t k = 0; for (auto& e : g.vertices()[v].edges(g, (Id)v)) { c.check(k < m.inc[v].size(), "edge-range", "too many"); auto [it, fresh] = r.insert({&e, m.inc[v][k]}); c.check(it->second == m.inc[v][k], "edge-identity", "the two ends of an edge refer to different edge objects"); ++k; } } return r; }
  // a copy may keep its edges in another order: check it is the same multiset, and take over its order
  void copied(G& g, M& m) {
    auto want = m.bag(); struct O { u32 s, t; int w; std::vector<u32> at; }; std::map<const void*, O> seen; std::vector<std::vector<const void*>> lists(m.inc.size()); c.check((size_t)graph::num_vertices(g) == m.inc.size(), "copy-vertices");
    for (u32 v = 0; v < m.inc.size(); ++v) for (auto& e : g.vertices()[v].edges(g, (Id)v)) { auto& o = seen[&e]; o.s = (u32)e.list_owner_id(); o.t = (u32)e.list_target_id(); o.w = 0; if constexpr (has_ev<G>) o.w = num(e.value()); o.at.push_back(v); c.check(o.at.size() < 3, "edge-identity", "in more than two lists"); lists[v].push_back(&e); }
    std::multiset<std::tuple<u32, u32, int>> got; for (auto& [p, o] : seen) { std::vector<u32> a{o.s}; if (o.s != o.t) a.push_back(o.t); std::sort(a.begin(), a.end()); c.check(o.at == a, "edge-identity", "an edge is not in exactly its ends' lists"); got.insert({std::min(o.s, o.t), std::max(o.s, o.t), o.w}); }
    c.checkf(got == want, "copy-edges", [&] { return std::format("copy has {} edges, original {}", got.size(), want.size()); }); std::map<const void*, size_t> id; m.es.clear(); m.inc.assign(m.inc.size(), {}); for (u32 v = 0; v < lists.size(); ++v) for (auto p : lists[v]) { auto [it, fresh] = id.insert({p, m.next}); if (fresh) { auto& o = seen[p]; m.es[m.next++] = {o.s, o.t, o.w}; } m.inc[v].push_back(it->second); }
  }
  // the members of vertices, edges, iterators and the graph itself, in both forms, agree with the model
  void members(G& g, const M& m) {
    const G& cg = g; auto ck = [&](bool ok, const char* what) { c.count("member_checks"); c.checkf(ok, "member", [&] { return std::string(what); }); };
    ck(cg.begin() == cg.cbegin() && cg.end() == cg.cend() && (size_t)(cg.end() - cg.begin()) == m.inc.size() && (size_t)(g.end() - g.begin()) == m.inc.size() && &cg.vertices() == &g.vertices(), "begin/end/cbegin/cend/vertices of the graph"); ck(g.edge_allocator() == cg.edge_allocator(), "edge_allocator");
    for (u32 v = 0; v < m.inc.size() + 2; ++v) { auto t = cg.try_find_vertex((Id)v); ck(v < m.inc.size() ? t == cg.begin() + v : t == cg.end(), "try_find_vertex(const)"); }
    { auto r = g.edges(); auto cr = cg.edges(); auto ci = cr.begin(); auto it = r.begin(); while (it != r.end()) { auto* p = &*it; auto old = it++; auto cold = ci++; ck(&*old == p && old.operator->() == p && &*cold == p && cold.operator->() == p, "post-increment of a graph-wide edge iterator"); auto nx = old; ++nx; ck(nx == it && !(nx != it) && (nx != old), "++ and post-increment of a graph-wide edge iterator"); } ck(ci == cr.end(), "const graph-wide edge range"); }
    for (u32 v = 0; v < m.inc.size(); ++v) { auto& uv = g.vertices()[v]; const auto& cuv = cg.vertices()[v]; auto& l = m.inc[v]; ck((size_t)uv.neighbors_size(cg) == l.size(), "neighbors_size"); ck(cuv.edges_begin(cg, (Id)v) == cuv.edges_cbegin(cg, (Id)v) && cuv.edges_end(cg, (Id)v) == cuv.edges_cend(cg, (Id)v), "edges_cbegin/edges_cend"); if (l.empty()) { ck(uv.edges_begin(g, (Id)v) == uv.edges_end(g, (Id)v) && cuv.edges_begin(cg, (Id)v) == cuv.edges_end(cg, (Id)v), "empty edge range"); auto n = uv.neighbors(g, (Id)v); ck(n.begin() == n.end() && n.size() == 0, "empty neighbor range"); auto cn = cuv.neighbors(cg, (Id)v); ck(cn.begin() == cn.end() && cn.size() == 0, "empty const neighbor range"); continue; }
      auto first = uv.edges_begin(g, (Id)v), it = first; std::vector<void*> at; for (size_t k = 0; k < l.size(); ++k, ++it) at.push_back(&*it);
      ck(&uv.edge_front(g) == at.front() && &cuv.edge_front(cg) == at.front() && &uv.edge_back(g) == at.back() && &cuv.edge_back(cg) == at.back(), "edge_front/edge_back");
      auto nr = uv.neighbors(g, (Id)v); auto cnr = cuv.neighbors(cg, (Id)v); auto ni = nr.begin(); auto cni = cnr.begin(); ck((size_t)nr.size() == l.size() && (size_t)cnr.size() == l.size(), "size of the neighbor range"); auto ce = cuv.edges_begin(cg, (Id)v); it = first;
      for (size_t k = 0; k < l.size(); ++k) { auto& e = *static_cast<typename G::edge_type*>(at[k]); const auto& cedge = e; auto& x = m.es.at(l[k]); const u32 o = m.other(l[k], v);
        ck((u32)(e.source(g) - g.begin()) == x.s && (u32)(cedge.source(cg) - cg.begin()) == x.s && (u32)(e.target(g) - g.begin()) == x.t && (u32)(cedge.target(cg) - cg.begin()) == x.t, "source/target of an edge"); { auto id = e.edge_id(cg); ck((u32)id.first == x.s && (u32)id.second == x.t, "edge_id of an edge"); }
        ck((u32)(e.other_vertex(g, (Id)v) - g.begin()) == o && (u32)(cedge.other_vertex(cg, (Id)v) - cg.begin()) == o && (u32)(e.other_vertex(g, cg.begin() + v) - g.begin()) == o && (u32)(cedge.other_vertex(cg, cg.begin() + v) - cg.begin()) == o && (u32)cedge.other_vertex_id(cg, (Id)v) == o && (u32)cedge.other_vertex_id(cg, cg.begin() + v) == o, "other_vertex/other_vertex_id of an edge");
        auto po = it++; auto pc = ce++; ck(&*po == at[k] && po.operator->() == at[k] && (u32)po.source_id() == v && &po.graph() == &g && &*pc == at[k] && pc.operator->() == at[k] && (u32)pc.source_id() == v, "post-increment of a vertex's edge iterator");
        auto pn = ni++; auto pcn = cni++; ck(&*pn == &g.vertices()[o] && pn.operator->() == &g.vertices()[o] && (u32)pn.other_vertex_id() == o && (u32)(pn.other_vertex() - g.begin()) == o && &pn.graph() == &g, "post-increment of a neighbor iterator"); ck(&*pcn == &g.vertices()[o] && pcn.operator->() == &g.vertices()[o] && (u32)pcn.other_vertex_id() == o && (u32)(pcn.other_vertex() - cg.begin()) == o && &std::as_const(pcn).graph() == &g, "post-increment of a const neighbor iterator"); auto pn2 = pn; ++pn2; ck(pn2 == ni && pn != ni && !(pn2 != ni), "comparison of neighbor iterators"); }
      ck(it == uv.edges_end(g, (Id)v) && ce == cuv.edges_end(cg, (Id)v) && ni == nr.end() && cni == cnr.end(), "ends");
      for (size_t k = l.size(); k-- > 0;) { const u32 o = m.other(l[k], v); auto pn = ni--; auto pcn = cni--; auto q = pn; --q; auto cq = pcn; --cq; ck(q == ni && cq == cni && pn != ni && (u32)ni.other_vertex_id() == o && (u32)cni.other_vertex_id() == o, "decrement of a neighbor iterator"); auto pe = it--; auto pce = ce--; ck(&*it == at[k] && &*ce == at[k] && pe != it && pce != ce, "post-decrement of a vertex's edge iterator"); }
      ck(it == first && ni == nr.begin() && cni == cnr.begin(), "begins"); }
  }
  void verify(G& g, const M& m) {
    auto ct = m.template content<Id>(); std::vector<Id> miss; if (c.rng.chance(50)) check_content<G>(c, g, ct, miss); else check_content<const G>(c, g, ct, miss);
    const G& cg = g; c.check((size_t)g.num_edges() == m.es.size() && g.has_edge() == !m.es.empty() && (size_t)g.num_vertices() == m.inc.size(), "ual-counts");
    number(g, m); std::vector<std::pair<u32, size_t>> want; for (u32 v = 0; v < m.inc.size(); ++v) for (auto i : m.inc[v]) want.push_back({v, i});
    // graph-wide edge range, both constnesses
    { size_t k = 0; for (auto& e : g.edges()) { c.checkf(k < want.size(), "graph-edges", [&] { return std::format("more than {} positions", want.size()); }); auto& x = m.es.at(want[k].second); c.check((u32)e.list_owner_id() == x.s && (u32)e.list_target_id() == x.t, "graph-edges", "other edge"); if constexpr (has_ev<G>) c.check(num(e.value()) == x.w, "graph-edges", "value"); ++k; } c.check(k == want.size(), "graph-edges", "ends early"); k = 0; for (auto& e : cg.edges()) { c.check(k < want.size() && (u32)e.list_owner_id() == m.es.at(want[k].second).s, "graph-edges", "const"); ++k; } c.check(k == want.size(), "graph-edges", "const ends early"); }
    for (u32 v = 0; v < m.inc.size(); ++v) { auto& uv = g.vertices()[v]; const auto& cuv = cg.vertices()[v]; auto& l = m.inc[v]; c.check((size_t)uv.num_edges() == l.size(), "ual-degree");
      // backwards
      size_t k = l.size(); auto b = uv.edges_begin(g, (Id)v), it = uv.edges_end(g, (Id)v); if (k) { while (it != b) { --it; c.check(k-- > 0, "backward", "too long"); auto& x = m.es.at(l[k]); c.checkf((u32)it->list_owner_id() == x.s && (u32)it->list_target_id() == x.t, "backward", [&] { return std::format("edge {} of {}", k, v); }); if constexpr (has_ev<G>) c.check(num(it->value()) == x.w, "backward", "value"); } c.check(k == 0, "backward", "too short"); auto f = it++; c.check(f == b, "backward"); auto bk = it--; (void)bk; c.check(it == b, "backward", "++ then --"); }
      { size_t j = 0; for (auto i = cuv.edges_begin(cg, (Id)v); i != cuv.edges_end(cg, (Id)v); ++i, ++j) { c.check(j < l.size(), "vertex-edges"); auto& x = m.es.at(l[j]); c.check((u32)i->list_owner_id() == x.s && (u32)i->list_target_id() == x.t && (u32)i.source_id() == v && (u32)i->other_vertex_id(cg, (Id)v) == m.other(l[j], v), "vertex-edges"); } c.check(j == l.size(), "vertex-edges"); j = 0; auto r = cuv.edges(cg, (Id)v); c.check((size_t)r.size() == l.size(), "vertex-edges", "size"); for (auto& e : r) { (void)e; ++j; } c.check(j == l.size(), "vertex-edges"); }
      { size_t j = 0; for (auto& nb : uv.neighbors(g, (Id)v)) { c.check(j < l.size(), "neighbors"); c.check(&nb == &g.vertices()[m.other(l[j], v)], "neighbors", "another vertex"); ++j; } c.check(j == l.size(), "neighbors"); } }
    for (u32 v = 0; v < m.inc.size() + 2; ++v) { auto t = g.try_find_vertex((Id)v); c.check((t == g.end()) == (v >= m.inc.size()), "try-find-vertex"); if (v < m.inc.size()) c.check((u32)(t - g.begin()) == v, "try-find-vertex"); }
    members(g, m); c.count("ual_checks");
  }
};
} // namespace vg
