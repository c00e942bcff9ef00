// Histories over several graphs of one type: filling, copying, moving, assigning, swapping, clearing
// and destroying, with every graph compared with its own model after every operation.
#pragma once
#include "vcsr.hpp"
#include "vual.hpp"
namespace vg {
// drivers: what the history machine needs to know about a kind of graph
template <class G> struct DynD { using T = Tr<G>; using M = Content<typename T::Id>; Ctx& c; Loader<G> L; std::string& log; u32 maxn;
  DynD(Ctx& cc, u32 mx) : c(cc), L(cc), log(L.log), maxn(mx) {}
  template <class F> auto with(M& m, F f) { std::swap(L.m, m); struct Back { M &a, &b; ~Back() { std::swap(a, b); } } back{L.m, m}; return f(); }
  M empty() const { M m; if constexpr (has_gv<G>) m.gv = dfltval<typename T::GV>(); return m; }
  G make(M& m) { m = empty(); return with(m, [&] { return L.make(maxn); }); }
  void step(G& g, M& m) { with(m, [&] { int k = (int)c.rng.below(10); if (k < 6) L.load_edges(g, maxn); else if (k < 8) L.load_vertices(g, maxn); else { poke(c, g, L.m); log += "poke "; c.input(log); } }); }
  void clear(G& g, M& m) { g.clear(); int gv = m.gv; m = M{}; m.gv = gv; }
  void verify(G& g, M& m) { with(m, [&] { L.verify(g, maxn); }); }
  void copied(G&, M&) {} size_t stored(const M& m) const { return m.stored(); } u64 hash(const M& m) const { return m.hash(); } };
template <class G> struct CsrD { using T = Tr<G>; struct M { Content<typename T::Id> c; bool loaded = false; }; Ctx& c; CL<G> L; std::string& log; u32 maxn;
  CsrD(Ctx& cc, u32 mx) : c(cc), L(cc, mx), log(L.log), maxn(mx) {}
  template <class F> auto with(M& m, F f) { std::swap(L.m, m.c); struct Back { Content<typename T::Id>&a, &b; ~Back() { std::swap(a, b); } } back{L.m, m.c}; return f(); }
  M empty() const { M m; if constexpr (has_gv<G>) m.c.gv = dfltval<typename T::GV>(); return m; }
  G make(M& m) { m = empty(); return with(m, [&] { return L.make(m.loaded); }); }
  void step(G& g, M& m) { with(m, [&] { if (c.rng.chance(30)) { poke(c, g, L.m); log += "poke "; c.input(log); } else if (m.loaded || c.rng.chance(30)) L.load_v(g, m.loaded ? L.m.out.size() : 5); else { L.load_e(g); m.loaded = true; } }); }
  void clear(G& g, M& m) { g.clear(); int gv = m.c.gv; m = M{}; m.c.gv = gv; }
  void verify(G& g, M& m) { with(m, [&] { L.verify(g); }); }
  void copied(G&, M&) {} size_t stored(const M& m) const { return m.c.stored(); } u64 hash(const M& m) const { return m.c.hash(); } };
template <class G> struct UalD : UD<G> { using M = UM; using UD<G>::UD; M empty() const { M m; if constexpr (has_gv<G>) m.gv = dfltval<typename Tr<G>::GV>(); return m; }
  size_t stored(const M& m) const { return m.es.size(); } u64 hash(const M& m) const { return m.hash(); } };

// `moved_empty`: a moved-from graph is known to be empty, so it may be filled without clearing it first
template <class G, class D> void history(Ctx& c, const char* name, int steps) {
  using M = typename D::M; const i64 live0 = Tok::live;
  { D d(c, c.rng.chance(85) ? 8 : 30); d.log = std::string(name) + " "; struct Slot { std::optional<G> g; M m; bool moved = false; }; std::array<Slot, 4> s; u64 h = 1; bool nt = false;
    auto note = [&](std::string t) { d.log += t + " "; c.input(d.log); };
    auto regv = [&](G& g, M& m) { if constexpr (has_gv<G>) { int v = 8000 + (int)c.rng.below(999); graph::graph_value(g) = mkval<typename Tr<G>::GV>(v); if constexpr (requires { m.c.gv; }) m.c.gv = v; else m.gv = v; } };
    auto gone = [&](size_t i) { auto& x = s[i]; x.m = d.empty(); x.moved = true; }; // moved-from: its graph value is unspecified until set
    auto usable = [&](size_t i) { auto& x = s[i]; if (!x.moved) return; const G& cg = *x.g; c.check((size_t)graph::num_vertices(cg) == 0 && graph::vertices(cg).begin() == graph::vertices(cg).end() && (size_t)graph::num_edges(cg) == 0 && !graph::has_edges(cg), "moved-from-empty"); c.count("moved_from_checks"); if (c.rng.chance(50)) { note(std::format("clear[{}]", i)); x.g->clear(); } regv(*x.g, x.m); x.moved = false; };
    auto all = [&] { for (size_t i = 0; i < 4; ++i) if (s[i].g && !s[i].moved) { d.verify(*s[i].g, s[i].m); if (d.stored(s[i].m) > 1) { h = hcomb(h, d.hash(s[i].m)); nt = true; } } };
    for (int k = 0; k < steps; ++k) {
      size_t i = c.rng.below(4), j = c.rng.below(4); auto &a = s[i], &b = s[j];
      if (!a.g) { note(std::format("[{}]=", i)); a.g.emplace(d.make(a.m)); a.moved = false; all(); continue; }
      int op = (int)c.rng.below(22); c.count("history_ops");
      if (op < 7) { usable(i); note(std::format("[{}]:", i)); d.step(*a.g, a.m); }
      else if (op < 10) { usable(i); if (i == j || c.rng.chance(50)) { note(std::format("[{}]=copy[{}]", j, i)); if (i == j) { G t(std::as_const(*a.g)); M tm = a.m; d.copied(t, tm); d.verify(t, tm); } else { b.g.reset(); b.g.emplace(std::as_const(*a.g)); b.m = a.m; b.moved = false; d.copied(*b.g, b.m); } } else if (b.g) { note(std::format("[{}]=copyassign[{}]", j, i)); auto& r = (*b.g = std::as_const(*a.g)); c.check(&r == &*b.g, "assign-result"); b.m = a.m; b.moved = false; d.copied(*b.g, b.m); } c.count("copies"); }
      else if (op < 13) { usable(i); if (i != j) { if (!b.g || c.rng.chance(40)) { note(std::format("[{}]=move[{}]", j, i)); b.g.reset(); b.g.emplace(std::move(*a.g)); } else { note(std::format("[{}]=moveassign[{}]", j, i)); auto& r = (*b.g = std::move(*a.g)); c.check(&r == &*b.g, "assign-result"); } b.m = a.m; b.moved = false; gone(i); c.count("moves"); } }
      else if (op < 14) { usable(i); note(std::format("[{}]=selfassign", i)); auto& r = *a.g; r = std::as_const(*a.g); d.copied(*a.g, a.m); c.count("copies"); }
      else if (op < 15) { note(std::format("[{}]=selfmove", i)); auto& r = *a.g; r = std::move(*a.g); note("clear"); a.g->clear(); a.m = d.empty(); a.moved = false; regv(*a.g, a.m); }
      else if (op < 17) { bool ok = b.g.has_value(); if constexpr (requires { d.may_swap(); }) ok = ok && d.may_swap(); if (ok) { usable(i); usable(j); bool mem = c.rng.chance(50) && requires(G& x) { x.swap(x); }; note(std::format("swap[{},{}]{}", i, j, mem)); if constexpr (requires(G& x) { x.swap(x); }) { if (mem) a.g->swap(*b.g); else std::swap(*a.g, *b.g); } else std::swap(*a.g, *b.g); if (i == j && !mem) {} std::swap(a.m, b.m); c.count("swaps"); } }
      else if (op < 19) { usable(i); note(std::format("clear[{}]", i)); d.clear(*a.g, a.m); regv(*a.g, a.m); { const G& cg = *a.g; c.check((size_t)graph::num_vertices(cg) == 0 && (size_t)graph::num_edges(cg) == 0 && !graph::has_edges(cg), "clear-empty"); } c.count("clears"); }
      else if (op < 20) { note(std::format("drop[{}]", i)); a.g.reset(); a.moved = false; }
      else if (op < 21) { usable(i); note(std::format("[{}]=return", i)); auto f = [&]() -> G { return std::move(*a.g); }; G t = f(); d.verify(t, a.m); *a.g = std::move(t); M keep = a.m; gone(i); a.m = keep; a.moved = false; } // out and back
      else { usable(i); note(std::format("[{}]=vector", i)); std::vector<G> v; for (int q = 0; q < 3; ++q) v.push_back(*a.g); M tm = a.m; v.erase(v.begin()); d.copied(v[1], tm); d.verify(v[1], tm); c.count("copies", 3); }
      all(); }
    if (nt) { c.nontrivial(hcomb(h, hstr(name))); if (d.log.size() < 500) c.sample(d.log); } }
  c.checkf(Tok::live == live0, "value-leak", [&] { return std::format("{} value objects still alive after all graphs were destroyed", Tok::live - live0); });
}
} // namespace vg
