// PARTS: 10
// RULE: random graphs (about half acyclic: forward-only edges under a random relabelling, with isolated vertices, parallel edges and, where cyclic, loops and planted cycles) in 20 representations (4 of them user-written) x every form of the topological views (vertices, edges, value functions, allocator, checked, incoming edges); order validity, exactly-once, iterator laws, sizes, cycle verdict and cycle witness against an independent cycle oracle. Non-trivial: at least two edges; distinct by (graph, container).
// MIN: views=20000
// MIN: acyclic=1500
// MIN: cyclic=1500
#include "vsearch.hpp"
using namespace vg;
// vertices that lie on some directed cycle
static std::vector<char> on_cycle(const AdjMap& adj, u32 n) { std::vector<char> r(n, 0); for (u32 s = 0; s < n; ++s) { std::vector<char> seen(n, 0); std::vector<u32> st; for (auto& a : adj.at(s)) if (!seen[a.target]) { seen[a.target] = 1; st.push_back(a.target); } while (!st.empty()) { u32 u = st.back(); st.pop_back(); for (auto& a : adj.at(u)) if (!seen[a.target]) { seen[a.target] = 1; st.push_back(a.target); } } r[s] = seen[s]; } return r; }
template <class G> void run(Ctx& c) {
  GenOpt o; o.maxn = 12; o.big = 30; auto base = gen_graph(c.rng, o);
  if (c.rng.chance(50)) { std::vector<u32> p(base.n); std::iota(p.begin(), p.end(), 0u); c.rng.shuffle(p); std::erase_if(base.es, [&](const E& e) { return e.s == e.t; }); for (auto& e : base.es) if (p[e.s] > p[e.t]) std::swap(e.s, e.t); }
  auto full = full_of<G>(base); c.input(std::string(Name<G>::v) + " " + base.str()); const u32 n = full.n; constexpr bool und = std::is_same_v<G, ual>;
  G gr = build_any<G>(base); const G& cg = gr; auto md = model<G>(full); auto cyc = on_cycle(md.adj, n); const bool cyclic = std::count(cyc.begin(), cyc.end(), 1) > 0; c.count(cyclic ? "cyclic" : "acyclic");
  auto all = [&](auto& g) { using GG = std::remove_reference_t<decltype(g)>; SFv fv{std::addressof(g)}; SFe fe{std::addressof(g)};
    auto family = [&](const AdjMap& adj, auto rev_tag, const std::string& dir) { constexpr bool rev = decltype(rev_tag)::value; constexpr bool Al = !rev && std::is_const_v<GG>;
      auto near_of = [&](const auto& e) { if constexpr (rev && und) return (u32)e.source().vertex_id(); else if constexpr (rev) return (u32)graph::target_id(g, e); else return (u32)graph::source_id(g, e); };
      auto far_of = [&](const auto& e) { if constexpr (rev) return (u32)graph::source_id(g, e); else return (u32)graph::target_id(g, e); };
      size_t m = 0; std::vector<E> stored; for (auto& [u, as] : adj) { m += as.size(); for (auto& a : as) stored.push_back({u, a.target, a.w}); } std::sort(stored.begin(), stored.end());
      auto pv = [&](auto&& x) { auto&& [v] = x; return (u32)graph::vertex_id(g, v); };
      auto pvv = [&](auto&& x) { auto&& [v, val] = x; u32 id = (u32)graph::vertex_id(g, v); c.check((i64)val == (i64)id * 7 + 2, "topo-vertex-value"); return id; };
      auto pe = [&](auto&& x) { auto&& [e] = x; return E{near_of(e), far_of(e), val_of(g, e)}; };
      auto pev = [&](auto&& x) { auto&& [e, val] = x; int w = val_of(g, e); c.check((i64)val == ((i64)graph::source_id(g, e) * 1000 + (i64)graph::target_id(g, e)) * 5 + w, "topo-edge-value"); return E{near_of(e), far_of(e), w}; };
      std::vector<u32> order; bool have = false;
      auto vert = [&](auto view, auto pr, const char* form) { std::string what = dir + form; 
        { auto it = view.begin(); size_t k = 0; for (; it != view.end(); ++it, ++k) c.check(view.num_visited() == k, "topo-num-visited"); c.check(view.num_visited() == n, "topo-num-visited", "at the end"); c.checkf(view.size() == n, "topo-size", [&] { return std::format("{}: size() {} for {} vertices", what, view.size(), n); }); }
        auto got = walk(c, view, pr, what.c_str(), n); auto s = got; std::sort(s.begin(), s.end()); bool perm = s.size() == n; for (u32 i = 0; perm && i < n; ++i) perm = s[i] == i; c.checkf(perm, "topo-vertices", [&] { return what + " yields " + seq(got); });
        if (!cyclic) { std::vector<u32> pos(n); for (u32 i = 0; i < n; ++i) pos[got[i]] = i; for (auto& e : stored) c.checkf(pos[e.s] < pos[e.t], "topo-order", [&] { return std::format("{}: edge {}->{} goes backwards in {}", what, e.s, e.t, seq(got)); }); }
        if (have) c.check(got == order, "topo-forms-differ", what); have = true; order = got;
        if (n) { size_t k = c.rng.below(n), seen = 0; bool br = c.rng.chance(50); for (auto&& x : view) { pr(x); if (seen++ == k) { view.cancel(br ? cancel_search::cancel_branch : cancel_search::cancel_all); c.check(view.cancel() != cancel_search::continue_search, "cancel-state"); } } c.checkf(seen == k + 1, "topo-cancel", [&] { return std::format("{}: {} elements although cancelled at element {}", what, seen, k + 1); }); } };
      auto edge = [&](auto view, auto pr, const char* form) { std::string what = dir + form; auto got = walk(c, view, pr, what.c_str(), m); auto s = got; std::sort(s.begin(), s.end()); c.checkf(s == stored, "topo-edges", [&] { return std::format("{}: {} edges yielded, {} stored, or others", what, got.size(), m); });
        std::vector<i64> pos(n, -1); for (u32 i = 0; i < order.size(); ++i) pos[order[i]] = i; i64 last = -1; std::map<u32, std::vector<Adj>> per; for (auto& e : got) { c.checkf(pos[e.s] >= last, "topo-edge-order", [&] { return std::format("{}: edge {}->{} out of the order of its sources", what, e.s, e.t); }); last = pos[e.s]; per[e.s].push_back({e.t, e.w}); }
        if constexpr (!hashed2<G>()) for (auto& [u, as] : per) c.checkf(as == adj.at(u), "topo-edge-order", [&] { return std::format("{}: edges of {} are not in adjacency order", what, u); });
        if (m) { size_t k = c.rng.below(m), seen = 0; for (auto&& x : view) { pr(x); if (seen++ == k) view.cancel(cancel_search::cancel_all); } c.check(seen == k + 1, "topo-cancel", what); } };
      auto err = [&](auto& r, const char* form) { c.checkf(r.has_value() == !cyclic, "topo-cycle-verdict", [&] { return std::format("{}{}: {} although the graph is {}", dir, form, r.has_value() ? "an order" : "a cycle", cyclic ? "cyclic" : "acyclic"); }); if (!r) { u32 id = (u32)graph::vertex_id(g, r.error()); c.checkf(id < n && cyc[id], "topo-cycle-vertex", [&] { return std::format("{}{}: vertex {} lies on no cycle", dir, form, id); }); c.count("views"); } return r.has_value(); };
      auto sv = [&](auto r, auto pr, const char* form) { if (err(r, form)) vert(std::move(*r), pr, form); }; auto se = [&](auto r, auto pr, const char* form) { if (err(r, form)) edge(std::move(*r), pr, form); };
      Tally tl; TallyAlloc<bool> al(&tl);
      if constexpr (rev) { using A = std::enable_if_t<rev, gv::in_edge_accessor>; vert(gv::vertices_topological_sort<A>(g), pv, "vertices_topological_sort<in>"); vert(gv::vertices_topological_sort<A>(g, fv), pvv, "vertices_topological_sort<in>+vvf"); edge(gv::edges_topological_sort<A>(g), pe, "edges_topological_sort<in>"); edge(gv::edges_topological_sort<A>(g, fe), pev, "edges_topological_sort<in>+evf");
        sv(gv::vertices_topological_sort_safe<A>(g), pv, "vertices_topological_sort_safe<in>"); sv(gv::vertices_topological_sort_safe<A>(g, fv), pvv, "vertices_topological_sort_safe<in>+vvf"); se(gv::edges_topological_sort_safe<A>(g), pe, "edges_topological_sort_safe<in>"); se(gv::edges_topological_sort_safe<A>(g, fe), pev, "edges_topological_sort_safe<in>+evf"); }
      else { vert(gv::vertices_topological_sort(g), pv, "vertices_topological_sort"); vert(gv::vertices_topological_sort(g, fv), pvv, "vertices_topological_sort+vvf"); edge(gv::edges_topological_sort(g), pe, "edges_topological_sort"); edge(gv::edges_topological_sort(g, fe), pev, "edges_topological_sort+evf");
        sv(gv::vertices_topological_sort_safe(g), pv, "vertices_topological_sort_safe"); sv(gv::vertices_topological_sort_safe(g, fv), pvv, "vertices_topological_sort_safe+vvf"); se(gv::edges_topological_sort_safe(g), pe, "edges_topological_sort_safe"); se(gv::edges_topological_sort_safe(g, fe), pev, "edges_topological_sort_safe+evf");
        if constexpr (Al) { vert(gv::vertices_topological_sort(g, al), pv, "vertices_topological_sort+alloc"); vert(gv::vertices_topological_sort(g, fv, al), pvv, "vertices_topological_sort+vvf+alloc"); edge(gv::edges_topological_sort(g, al), pe, "edges_topological_sort+alloc"); edge(gv::edges_topological_sort(g, fe, al), pev, "edges_topological_sort+evf+alloc"); sv(gv::vertices_topological_sort_safe(g, al), pv, "vertices_topological_sort_safe+alloc"); sv(gv::vertices_topological_sort_safe(g, fv, al), pvv, "vertices_topological_sort_safe+vvf+alloc"); se(gv::edges_topological_sort_safe(g, al), pe, "edges_topological_sort_safe+alloc"); se(gv::edges_topological_sort_safe(g, fe, al), pev, "edges_topological_sort_safe+evf+alloc"); c.check(tl.live == 0, "topo-allocator-leak"); if (n) c.check(tl.calls > 0, "topo-allocator-unused"); } } };
    family(md.adj, std::false_type{}, "forward "); if constexpr (is_bidir<G> || und) family(und ? md.adj : md.in, std::true_type{}, "reverse "); };
  if (c.rng.chance(50)) all(gr); else all(cg);
  if (md.m > 1) { c.nontrivial(hcomb(full.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); }
}
#define S(G) TS(run, G, 300, 8000)
#if IN(0)
S(vov) S(vvi)
#elif IN(1)
S(csr) S(vol)
#elif IN(2)
S(ual)
#elif IN(3)
S(vob)
#elif IN(4)
S(vlb) S(vvp)
#elif IN(5)
S(vos) S(vous) S(vofl)
#elif IN(6)
S(dov) S(vom) S(voum)
#elif IN(7)
S(dob) S(dod)
#elif IN(8)
S(mtx) S(atl)
#elif IN(9)
S(fru) S(mir)
#endif
