// Recording visitor for the algorithms: forwards every documented callback to a sink.
#pragma once
#include "vg.hpp"
namespace vg {
enum Ev { INIT, DISC, EXAM, FIN, EX_EDGE, RELAX, NORELAX, MINI, NOTMINI, START, TREE, BACK, FOC, FINE };
inline const char* ev_name(int k) { static const char* n[] = {"init", "discover", "examine", "finish", "examine-edge", "relaxed", "not-relaxed", "minimized", "not-minimized", "start", "tree", "back", "forward-or-cross", "finish-edge"}; return n[k]; }
// Sink: void vtx(Ev, u32 id); void edg(Ev, u32 source, u32 target, const GG&, const UV&)
// The visitor callbacks are templates because algorithms may call them with the graph type they deduced.
template <bool ById, class Sink> struct Vis {
  Sink* s;
  template <class V> static constexpr bool ok = ById == std::is_integral_v<V>;
  template <class GG, class V> void v_(Ev k, const GG& g, const V& v) { if constexpr (ById) s->vtx(k, (u32)v); else s->vtx(k, (u32)graph::vertex_id(g, v)); }
  template <class GG, class UV> void e_(Ev k, const GG& g, const UV& e) { s->edg(k, (u32)graph::source_id(g, e), (u32)graph::target_id(g, e), g, e); }
  template <class GG, class V> requires ok<V> void on_initialize_vertex(const GG& g, const V& v) { v_(INIT, g, v); }
  template <class GG, class V> requires ok<V> void on_discover_vertex(const GG& g, const V& v) { v_(DISC, g, v); }
  template <class GG, class V> requires ok<V> void on_examine_vertex(const GG& g, const V& v) { v_(EXAM, g, v); }
  template <class GG, class V> requires ok<V> void on_finish_vertex(const GG& g, const V& v) { v_(FIN, g, v); }
  template <class GG, class V> requires ok<V> void on_start_vertex(const GG& g, const V& v) { v_(START, g, v); }
  template <class GG, class UV> void on_examine_edge(const GG& g, const UV& e) { e_(EX_EDGE, g, e); }
  template <class GG, class UV> void on_edge_relaxed(const GG& g, const UV& e) { e_(RELAX, g, e); }
  template <class GG, class UV> void on_edge_not_relaxed(const GG& g, const UV& e) { e_(NORELAX, g, e); }
  template <class GG, class UV> void on_edge_minimized(const GG& g, const UV& e) { e_(MINI, g, e); }
  template <class GG, class UV> void on_edge_not_minimized(const GG& g, const UV& e) { e_(NOTMINI, g, e); }
  template <class GG, class UV> void on_tree_edge(const GG& g, const UV& e) { e_(TREE, g, e); }
  template <class GG, class UV> void on_back_edge(const GG& g, const UV& e) { e_(BACK, g, e); }
  template <class GG, class UV> void on_forward_or_cross_edge(const GG& g, const UV& e) { e_(FOC, g, e); }
  template <class GG, class UV> void on_finish_edge(const GG& g, const UV& e) { e_(FINE, g, e); }
};
} // namespace vg
