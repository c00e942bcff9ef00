// Oracles and drivers for the search views (DFS, BFS) shared by V05, V06 and V08.
#pragma once
#include "vviews.hpp"
namespace vg {
namespace gv = graph::views;
using gv::cancel_search;
enum class Act { none, branch, all };
// one yielded element: the vertex reached (for edges: the far end), the edge's near end, what the view reported
struct Item { u32 v = 0, from = 0; int w = 0; size_t depth = 0, visited = 0; };
struct Run { std::vector<Item> items; std::vector<char> pruned; bool stopped = false; size_t end_visited = 0, end_depth = 0; };
// far/near adjacency a search follows: outgoing edges, or incoming ones for the reverse forms
using AdjMap = std::map<u32, std::vector<Adj>>;

// Walk a search view, deciding at each element what to cancel.
template <class View, class P, class D> Run drive(Ctx& c, View view, size_t n, P pr, D decide, int style) {
  Run r; r.pruned.assign(n, 0); size_t k = 0; bool stop = false;
  auto step = [&](auto&& x) { Item i = pr(x); i.depth = view.depth(); i.visited = view.num_visited(); r.items.push_back(i); c.checkf(r.items.size() <= n + 1, "search-view-does-not-end", [&] { return std::format("more than {} elements", n); });
    Act a = decide(k++, i.v); if (a == Act::branch) { r.pruned[i.v] = 1; view.cancel(cancel_search::cancel_branch); c.check(view.cancel() == cancel_search::cancel_branch, "cancel-state"); } else if (a == Act::all) { stop = true; view.cancel(cancel_search::cancel_all); c.check(view.cancel() == cancel_search::cancel_all, "cancel-state"); } };
  if (style == 0) { for (auto&& x : view) { c.check(!stop, "cancel-all-yields-more"); step(x); } }
  else if (style == 1) { auto it = view.begin(); auto e = view.end(); while (!(it == e)) { c.check(!stop, "cancel-all-yields-more"); auto x = *it; auto y = *it; auto a = pr(x), b = pr(y); c.check(a.v == b.v && a.from == b.from && a.w == b.w, "search-dereference-repeatable"); step(x); ++it; } c.check(it == e && e == it && it.at_end(), "search-view-end"); ++it; c.check(it == e, "search-view-end", "advancing at the end"); }
  else { auto it = view.begin(); for (; it != view.end(); it++) { c.check(!stop, "cancel-all-yields-more"); step(*it); } }
  r.stopped = stop; r.end_visited = view.num_visited(); r.end_depth = view.depth(); c.count("elements", r.items.size()); c.count("views"); return r; }

// `seq`: the vertices reached after the seed, in order. Every valid depth-first order and nothing else passes.
// With `complete` false the sequence may be a prefix.
inline std::vector<u32> check_dfs(Ctx& c, const AdjMap& adj, u32 n, u32 seed, const std::vector<Item>& items, const std::vector<char>& pruned, bool complete, const char* what) {
  std::vector<char> seen(n, 0); std::vector<u32> path{seed}, parents; seen[seed] = 1; auto at = [&](u32 v) -> const std::vector<Adj>& { static const std::vector<Adj> none; if (pruned[v]) return none; return adj.at(v); };
  auto open = [&](u32 v) { for (auto& a : at(v)) if (!seen[a.target]) return true; return false; };
  for (size_t i = 0; i < items.size(); ++i) { auto& it = items[i];
    while (!path.empty() && !open(path.back())) path.pop_back();
    c.checkf(it.v < n && !seen[it.v], "dfs-vertex-twice", [&] { return std::format("{}: vertex {} yielded again at {}", what, it.v, i); });
    c.checkf(!path.empty(), "dfs-unreachable-vertex", [&] { return std::format("{}: vertex {} at {} although everything reachable was yielded", what, it.v, i); });
    bool nb = false; for (auto& a : at(path.back())) nb |= a.target == it.v;
    c.checkf(nb, "dfs-order", [&] { return std::format("{}: element {} reaches {}, which is no neighbour of {}, the deepest open vertex of the search", what, i, it.v, path.back()); });
    parents.push_back(path.back()); seen[it.v] = 1; path.push_back(it.v);
    c.checkf(it.depth == path.size(), "dfs-depth", [&] { return std::format("{}: depth() is {} at vertex {} (element {}), the search path has {} vertices", what, it.depth, it.v, i, path.size()); });
    c.checkf(it.visited == i + 1, "dfs-num-visited", [&] { return std::format("{}: num_visited() is {} at element {}", what, it.visited, i); }); }
  if (complete) { while (!path.empty() && !open(path.back())) path.pop_back(); c.checkf(path.empty(), "dfs-incomplete", [&] { return std::format("{}: ended although vertex {} has an unvisited neighbour", what, path.back()); }); }
  return parents; }

// Every valid breadth-first order of the (pruned) graph passes, and nothing else.
inline void check_bfs(Ctx& c, const AdjMap& adj, u32 n, u32 seed, const std::vector<Item>& items, const std::vector<char>& pruned, bool complete, bool edges, const char* what) {
  std::vector<i64> d(n, INF), pos(n, INF); { std::deque<u32> q{seed}; d[seed] = 0; while (!q.empty()) { u32 u = q.front(); q.pop_front(); if (pruned[u]) continue; for (auto& a : adj.at(u)) if (d[a.target] == INF) { d[a.target] = d[u] + 1; q.push_back(a.target); } } }
  i64 last = 0; size_t total = 0; for (u32 v = 0; v < n; ++v) total += d[v] != INF; pos[seed] = -1; i64 ppos = -1; i64 maxd = 0;
  for (size_t i = 0; i < items.size(); ++i) { auto& it = items[i];
    c.checkf(it.v < n && pos[it.v] == INF, "bfs-vertex-twice", [&] { return std::format("{}: vertex {} yielded again at {}", what, it.v, i); });
    c.checkf(d[it.v] != INF, "bfs-unreachable-vertex", [&] { return std::format("{}: vertex {} at {} is not reachable", what, it.v, i); });
    c.checkf(d[it.v] >= last, "bfs-order", [&] { return std::format("{}: vertex {} of distance {} after distance {}", what, it.v, d[it.v], last); }); last = d[it.v]; pos[it.v] = (i64)i; maxd = std::max(maxd, d[it.v]);
    // first-in first-out: the earliest yielded neighbour that could have discovered it is not before the one of its predecessor
    i64 best = INF; for (u32 u = 0; u < n; ++u) if (!pruned[u] && pos[u] < (i64)i && d[u] + 1 == d[it.v]) for (auto& a : adj.at(u)) if (a.target == it.v) best = std::min(best, pos[u]);
    c.checkf(best != INF && best >= ppos, "bfs-order", [&] { return std::format("{}: vertex {} at {} breaks first-in first-out order", what, it.v, i); }); ppos = best;
    if (edges) { c.checkf(pos[it.from] == best, "bfs-edge-source", [&] { return std::format("{}: edge {}->{} does not leave the vertex that discovers {}", what, it.from, it.v, it.v); });
      c.checkf((i64)it.depth == d[it.v], "bfs-depth", [&] { return std::format("{}: depth() is {} at the edge to {} of distance {}", what, it.depth, it.v, d[it.v]); }); c.checkf(it.visited == i + 1, "bfs-num-visited", [&] { return std::format("{}: num_visited() is {} at element {}", what, it.visited, i); }); }
    else { c.checkf((i64)it.depth >= d[it.v] && (i64)it.depth <= d[it.v] + 1, "bfs-depth", [&] { return std::format("{}: depth() is {} at vertex {} of distance {}", what, it.depth, it.v, d[it.v]); }); c.checkf(it.visited >= i + 1 && it.visited <= total - 1, "bfs-num-visited", [&] { return std::format("{}: num_visited() is {} at element {} of {}", what, it.visited, i, total - 1); }); } }
  if (complete) c.checkf(items.size() + 1 == total, "bfs-incomplete", [&] { return std::format("{}: {} of {} reachable vertices yielded", what, items.size() + 1, total); }); }

inline bool has_edge(const AdjMap& adj, u32 from, u32 to, int w) { for (auto& a : adj.at(from)) if (a.target == to && a.w == w) return true; return false; }

// an allocator that counts, to see that everything is given back
struct Tally { size_t live = 0, calls = 0; };
template <class T> struct TallyAlloc { using value_type = T; Tally* t; explicit TallyAlloc(Tally* p) : t(p) {} template <class U> TallyAlloc(const TallyAlloc<U>& o) : t(o.t) {}
  T* allocate(size_t n) { t->live += n * sizeof(T); ++t->calls; return std::allocator<T>{}.allocate(n); } void deallocate(T* p, size_t n) { t->live -= n * sizeof(T); std::allocator<T>{}.deallocate(p, n); }
  template <class U> bool operator==(const TallyAlloc<U>& o) const { return t == o.t; } };

struct SFv { const void* g = nullptr; int k = 7; template <class G, class U> i64 operator()(const G& gg, const U& u) const { if ((const void*)std::addressof(gg) != g) return -99; return (i64)graph::vertex_id(gg, u) * k + 2; } };
struct SFe { const void* g = nullptr; int k = 5; template <class G, class UV> i64 operator()(const G& gg, const UV& uv) const { if ((const void*)std::addressof(gg) != g) return -99; return ((i64)graph::source_id(gg, uv) * 1000 + (i64)graph::target_id(gg, uv)) * k + val_of(gg, uv); } };

// One random graph, one seed, every form of the DFS or BFS views; with Cancel, searches are pruned and stopped.
template <bool Bfs, bool Cancel, class G> void search_case(Ctx& c) {
  GenOpt o; o.maxn = Cancel ? 12 : 14; o.big = 40; o.allow_empty = false; auto base = gen_graph(c.rng, o); auto full = full_of<G>(base); if (!full.n) return;
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full); const u32 n = full.n; const u32 seed = (u32)c.rng.below(n); constexpr bool und = std::is_same_v<G, ual>;
  const u64 salt = c.rng.next(); const int pb = Cancel ? (int)c.rng.range(0, 60) : 0; const size_t stop_at = Cancel && c.rng.chance(40) ? 1 + c.rng.below(n) : ~size_t(0); const bool prune_seed = Cancel && c.rng.chance(8);
  c.input(std::format("{} {} seed={} salt={} prune%={} stop={} prune_seed={}", Name<G>::v, base.str(), seed, salt, pb, stop_at == ~size_t(0) ? -1 : (int)stop_at, prune_seed));
  auto decide = [&](size_t k, u32 v) { if (k == stop_at) return Act::all; if (v == seed) return prune_seed ? Act::branch : Act::none; return (int)(mix(salt ^ v) % 100) < pb ? Act::branch : Act::none; };
  u64 pruned_total = 0; bool deep = false;
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>; using Id = graph::vertex_id_t<GG>; constexpr bool Al = !Cancel && std::is_const_v<GG>; auto sv = *graph::find_vertex(g, (Id)seed);
    auto family = [&](const AdjMap& adj, auto rev_tag, const char* dir) { constexpr bool rev = decltype(rev_tag)::value;
      auto near_of = [&](const auto& e) { if constexpr (rev && und) return (u32)e.source().vertex_id(); else if constexpr (rev) return (u32)graph::target_id(g, e); else return (u32)graph::source_id(g, e); };
      auto far_of = [&](const auto& e) { if constexpr (rev) return (u32)graph::source_id(g, e); else return (u32)graph::target_id(g, e); };
      auto pv = [&](auto&& x) { auto&& [v] = x; return Item{(u32)graph::vertex_id(g, v)}; };
      auto pvv = [&](auto&& x) { auto&& [v, val] = x; u32 id = (u32)graph::vertex_id(g, v); c.checkf((i64)val == (i64)id * 7 + 2, "search-vertex-value", [&] { return std::format("value {} at vertex {}", (i64)val, id); }); return Item{id}; };
      auto ed = [&](const auto& e) { return Item{far_of(e), near_of(e), val_of(g, e)}; };
      auto pe = [&](auto&& x) { auto&& [e] = x; return ed(e); };
      auto pev = [&](auto&& x) { auto&& [e, val] = x; auto i = ed(e); c.checkf((i64)val == ((i64)graph::source_id(g, e) * 1000 + (i64)graph::target_id(g, e)) * 5 + i.w, "search-edge-value", [&] { return std::format("value {} at edge {}->{}", (i64)val, i.from, i.v); }); return i; };
      std::vector<u32> vorder, eorder; bool have_v = false, have_e = false;
      auto vert = [&](auto view, auto pr, const char* form) { std::string what = std::string(dir) + " " + form; auto r = drive(c, std::move(view), n, pr, decide, (int)c.rng.below(3));
        c.checkf(!r.items.empty() && r.items[0].v == seed, "search-seed-first", [&] { return what + ": the first vertex is not the seed"; }); auto s = r.items[0]; c.checkf(s.visited == 0 && s.depth == (Bfs ? 0u : 1u), "search-seed-depth", [&] { return std::format("{}: depth() {} num_visited() {} at the seed", what, s.depth, s.visited); });
        r.items.erase(r.items.begin()); if constexpr (Bfs) check_bfs(c, adj, n, seed, r.items, r.pruned, !r.stopped, false, what.c_str()); else { check_dfs(c, adj, n, seed, r.items, r.pruned, !r.stopped, what.c_str()); }
        if (!r.stopped) { c.check(r.end_visited == r.items.size(), "search-num-visited-at-end"); if constexpr (Bfs) { size_t far = 0; std::map<u32, size_t> d{{seed, 0}}; std::deque<u32> q{seed}; while (!q.empty()) { u32 u = q.front(); q.pop_front(); far = std::max(far, d[u]); if (!r.pruned[u]) for (auto& a : adj.at(u)) if (d.emplace(a.target, d[u] + 1).second) q.push_back(a.target); } c.check(r.end_depth == far, "bfs-depth", "after the traversal"); } }
        std::vector<u32> od; for (auto& i : r.items) od.push_back(i.v); if (have_v) c.checkf(od == vorder, "search-forms-differ", [&] { return what + " visits another order than the other vertex forms"; }); have_v = true; vorder = od; for (char p : r.pruned) pruned_total += p; if (od.size() > 2) deep = true; };
      auto edge = [&](auto view, auto pr, const char* form) { std::string what = std::string(dir) + " " + form; auto dec = [&](size_t k, u32 v) { return decide(k + 1, v); }; auto r = drive(c, std::move(view), n, pr, dec, (int)c.rng.below(3));
        for (auto& i : r.items) c.checkf(i.from < n && has_edge(adj, i.from, i.v, i.w), "search-edge-not-stored", [&] { return std::format("{}: edge {}->{} value {}", what, i.from, i.v, i.w); });
        if constexpr (Bfs) check_bfs(c, adj, n, seed, r.items, r.pruned, !r.stopped, true, what.c_str()); else { auto par = check_dfs(c, adj, n, seed, r.items, r.pruned, !r.stopped, what.c_str()); for (size_t i = 0; i < par.size(); ++i) c.checkf(par[i] == r.items[i].from, "dfs-edge-source", [&] { return std::format("{}: edge {}->{} but the search is at {}", what, r.items[i].from, r.items[i].v, par[i]); }); }
        if (!r.stopped) c.check(r.end_visited == r.items.size(), "search-num-visited-at-end");
        std::vector<u32> od; for (auto& i : r.items) od.push_back(i.v); if (have_e) c.checkf(od == eorder, "search-forms-differ", [&] { return what + " visits another order than the other edge forms"; }); have_e = true; eorder = od; for (char p : r.pruned) pruned_total += p; };
      SFv fv{std::addressof(g)}; SFe fe{std::addressof(g)}; Tally tl; TallyAlloc<bool> al(&tl); const Id sid = (Id)seed;
      if constexpr (rev) { using A = std::enable_if_t<rev, gv::in_edge_accessor>;
        if constexpr (Bfs) { vert(gv::vertices_bfs<A>(g, sid), pv, "vertices_bfs<in>"); vert(gv::vertices_bfs<A>(g, sv), pv, "vertices_bfs<in>(v)"); vert(gv::vertices_bfs<A>(g, sid, fv), pvv, "vertices_bfs<in>+vvf"); vert(gv::vertices_bfs<A>(g, sv, fv), pvv, "vertices_bfs<in>(v)+vvf"); edge(gv::edges_bfs<A>(g, sid), pe, "edges_bfs<in>"); edge(gv::edges_bfs<A>(g, sv), pe, "edges_bfs<in>(v)"); edge(gv::edges_bfs<A>(g, sid, fe), pev, "edges_bfs<in>+evf"); edge(gv::edges_bfs<A>(g, sv, fe), pev, "edges_bfs<in>(v)+evf"); }
        else { vert(gv::vertices_dfs<A>(g, sid), pv, "vertices_dfs<in>"); vert(gv::vertices_dfs<A>(g, sv), pv, "vertices_dfs<in>(v)"); vert(gv::vertices_dfs<A>(g, sid, fv), pvv, "vertices_dfs<in>+vvf"); vert(gv::vertices_dfs<A>(g, sv, fv), pvv, "vertices_dfs<in>(v)+vvf"); edge(gv::edges_dfs<A>(g, sid), pe, "edges_dfs<in>"); edge(gv::edges_dfs<A>(g, sv), pe, "edges_dfs<in>(v)"); edge(gv::edges_dfs<A>(g, sid, fe), pev, "edges_dfs<in>+evf"); edge(gv::edges_dfs<A>(g, sv, fe), pev, "edges_dfs<in>(v)+evf"); } }
      else {
        if constexpr (Bfs) { vert(gv::vertices_bfs(g, sid), pv, "vertices_bfs"); vert(gv::vertices_bfs(g, sv), pv, "vertices_bfs(v)"); vert(gv::vertices_bfs(g, sid, fv), pvv, "vertices_bfs+vvf"); vert(gv::vertices_bfs(g, sv, fv), pvv, "vertices_bfs(v)+vvf"); if constexpr (Al) { vert(gv::vertices_bfs(g, sid, al), pv, "vertices_bfs+alloc"); vert(gv::vertices_bfs(g, sv, fv, al), pvv, "vertices_bfs(v)+vvf+alloc"); }
          edge(gv::edges_bfs(g, sid), pe, "edges_bfs"); edge(gv::edges_bfs(g, sv), pe, "edges_bfs(v)"); edge(gv::edges_bfs(g, sid, fe), pev, "edges_bfs+evf"); edge(gv::edges_bfs(g, sv, fe), pev, "edges_bfs(v)+evf"); if constexpr (Al) { edge(gv::edges_bfs(g, sv, al), pe, "edges_bfs(v)+alloc"); edge(gv::edges_bfs(g, sid, fe, al), pev, "edges_bfs+evf+alloc"); } }
        else { vert(gv::vertices_dfs(g, sid), pv, "vertices_dfs"); vert(gv::vertices_dfs(g, sv), pv, "vertices_dfs(v)"); vert(gv::vertices_dfs(g, sid, fv), pvv, "vertices_dfs+vvf"); vert(gv::vertices_dfs(g, sv, fv), pvv, "vertices_dfs(v)+vvf"); if constexpr (Al) { vert(gv::vertices_dfs(g, sid, al), pv, "vertices_dfs+alloc"); vert(gv::vertices_dfs(g, sv, fv, al), pvv, "vertices_dfs(v)+vvf+alloc"); }
          edge(gv::edges_dfs(g, sid), pe, "edges_dfs"); edge(gv::edges_dfs(g, sv), pe, "edges_dfs(v)"); edge(gv::edges_dfs(g, sid, fe), pev, "edges_dfs+evf"); edge(gv::edges_dfs(g, sv, fe), pev, "edges_dfs(v)+evf"); if constexpr (Al) { edge(gv::edges_dfs(g, sv, al), pe, "edges_dfs(v)+alloc"); edge(gv::edges_dfs(g, sid, fe, al), pev, "edges_dfs+evf+alloc"); } }
        if constexpr (!Cancel) { size_t k = c.rng.below(n + 1); std::vector<u32> pre; auto take = [&](auto v) { for (auto&& [x] : std::move(v) | std::views::take(k)) pre.push_back((u32)graph::vertex_id(g, x)); }; if constexpr (Bfs) take(gv::vertices_bfs(g, sid)); else take(gv::vertices_dfs(g, sid)); auto want = vorder; want.insert(want.begin(), seed); want.resize(std::min(k, want.size())); c.check(pre == want, "search-take"); } }
      c.checkf(tl.live == 0, "search-allocator-leak", [&] { return std::format("{} bytes not returned to the given allocator", tl.live); }); if constexpr (!rev && Al) c.check(tl.calls > 0, "search-allocator-unused");
      if (!prune_seed || (stop_at == 0)) c.checkf(vorder == eorder, "search-edges-vertices-differ", [&] { return std::format("{}: vertices {} edges to {}", dir, seq(vorder), seq(eorder)); }); };
    family(md.adj, std::false_type{}, "forward");
    if constexpr (is_bidir<G> || und) family(und ? md.adj : md.in, std::true_type{}, "reverse"); };
  if constexpr (Cancel && sizeof(G) % 16 == 0) all(gr); else if constexpr (Cancel) all(cg); else { if (c.rng.chance(50)) all(gr); else all(cg); }
  c.count("pruned", pruned_total);
  if (Cancel ? pruned_total > 0 || stop_at < n : deep) { c.nontrivial(hcomb(hcomb(full.hash(), hstr(Name<G>::v)), hcomb(seed, Cancel ? salt : 0))); c.sample(std::string(Name<G>::v) + " " + base.str() + " seed " + std::to_string(seed)); }
}
} // namespace vg
