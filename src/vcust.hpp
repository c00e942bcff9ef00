// Graph types as a user would write them: own storage, adapted through the customisation points.
#pragma once
#include <graph/graph.hpp>
#include <deque>
#include <iterator>
#include <list>
#include <vector>
namespace cust {
namespace al = graph::adj_list;
using u32 = unsigned;
// an adjacency matrix: not a range, the edges of a row are found by a skipping iterator; adapted by free functions only
struct cell { bool on = false; int w = 0; };
struct row_iter { using value_type = int; using difference_type = std::ptrdiff_t; using reference = int; using pointer = const int*; using iterator_category = std::forward_iterator_tag; using iterator_concept = std::forward_iterator_tag;
  const cell* row = nullptr; u32 n = 0, c = 0;
  int operator*() const { return (int)c; } row_iter& operator++() { do ++c; while (c < n && !row[c].on); return *this; } row_iter operator++(int) { auto t = *this; ++*this; return t; }
  bool operator==(const row_iter& o) const { return row == o.row && c == o.c; } };
struct matrix {
  u32 n = 0; std::vector<cell> a;
  using vdv = al::vertex_descriptor_view<const int*>; using vd = al::vertex_descriptor<const int*>; using edv = al::edge_descriptor_view<row_iter, const int*>; using ed = al::edge_descriptor<row_iter, const int*>;
  row_iter first(u32 u) const { row_iter i{a.data() + (size_t)u * n, n, 0}; if (n && !i.row[0].on) ++i; return i; } row_iter last(u32 u) const { return {a.data() + (size_t)u * n, n, n}; }
  friend auto vertices(const matrix& g) { return vdv((size_t)0, (size_t)g.n); }
  friend auto num_vertices(const matrix& g) { return (size_t)g.n; }
  friend auto find_vertex(const matrix& g, size_t uid) { return vdv::iterator(uid); }
  friend auto vertex_id(const matrix&, const vd& u) { return (u32)u.value(); }
  friend auto edges(const matrix& g, const vd& u) { return edv(g.first((u32)u.value()), g.last((u32)u.value()), u); }
  friend u32 target_id(const matrix&, const ed& uv) { return (u32)*uv.value(); }
  friend const int& edge_value(const matrix& g, const ed& uv) { return g.a[(size_t)uv.source().value() * g.n + (u32)*uv.value()].w; }
  friend auto contains_edge(const matrix& g, size_t u, size_t v) { return g.a[u * g.n + v].on; }
};
// vertex objects with an edges() member, edge objects with a target_id() member, the graph's own member functions
struct road { u32 to; int w; u32 target_id() const { return to; } };
struct town { std::vector<road> out; const std::vector<road>& edges() const { return out; } std::vector<road>& edges() { return out; } };
class atlas {
  std::deque<town> t_; size_t m_ = 0;
public:
  using iterator = std::deque<town>::iterator; using const_iterator = std::deque<town>::const_iterator; using value_type = town;
  auto begin() { return t_.begin(); } auto end() { return t_.end(); } auto begin() const { return t_.begin(); } auto end() const { return t_.end(); } size_t size() const { return t_.size(); } auto& operator[](size_t i) { return t_[i]; } auto& operator[](size_t i) const { return t_[i]; }
  void grow(size_t n) { t_.resize(n); } void add(u32 s, u32 t, int w) { t_[s].out.push_back({t, w}); ++m_; }
  auto vertices() { return al::vertex_descriptor_view(t_); } auto vertices() const { return al::vertex_descriptor_view(t_); }
  size_t num_vertices() const { return t_.size(); } size_t num_edges() const { return m_; } bool has_edges() const { return m_ != 0; }
  template <al::vertex_descriptor_type U> size_t degree(const U& u) const { return t_[u.vertex_id()].out.size(); }
  template <al::edge_descriptor_type E> const int& edge_value(const E& uv) const { return t_[uv.source().vertex_id()].out[uv.value()].w; }
};
// only what cannot be derived: where the vertices and edges are, and how to read an edge; every other point is left to its default
struct frugal {
  std::vector<std::vector<std::pair<u32, int>>> rows;
  using ei = std::vector<std::pair<u32, int>>::const_iterator; using vdv = al::vertex_descriptor_view<const char*>; using vd = al::vertex_descriptor<const char*>; using edv = al::edge_descriptor_view<ei, const char*>; using ed = al::edge_descriptor<ei, const char*>;
  friend auto vertices(const frugal& g) { return vdv((size_t)0, g.rows.size()); }
  friend auto edges(const frugal& g, const vd& u) { return edv((size_t)0, g.rows[u.value()].size(), u); }
  friend u32 target_id(const frugal& g, const ed& uv) { return g.rows[uv.source().value()][uv.value()].first; }
  friend int edge_value(const frugal& g, const ed& uv) { return g.rows[uv.source().value()][uv.value()].second; }
};
// vertices stored in the opposite order of their ids, some edges closed (hidden) for traffic, targets stored encoded
struct street { u32 code; int w; bool closed; };
struct open_iter { using value_type = street; using difference_type = std::ptrdiff_t; using reference = const street&; using pointer = const street*; using iterator_category = std::forward_iterator_tag; using iterator_concept = std::forward_iterator_tag; using base = std::list<street>::const_iterator;
    base i{}, e{}; reference operator*() const { return *i; } pointer operator->() const { return &*i; } open_iter& skip() { while (i != e && i->closed) ++i; return *this; } open_iter& operator++() { ++i; return skip(); } open_iter operator++(int) { auto t = *this; ++*this; return t; } bool operator==(const open_iter& o) const { return i == o.i; } };
class mirrored {
  std::vector<std::list<street>> t_; 
public:
  using vdv = al::vertex_descriptor_view<const long*>; using vd = al::vertex_descriptor<const long*>; using edv = al::edge_descriptor_view<open_iter, const long*>; using ed = al::edge_descriptor<open_iter, const long*>;
  void grow(size_t n) { t_.resize(n); } void add(u32 s, u32 t, int w, bool closed) { t_[t_.size() - 1 - s].push_back({t ^ 0x5a5u, w, closed}); }
  size_t num_vertices() const { return t_.size(); } auto vertices() const { return vdv((size_t)0, t_.size()); } template <class I> requires(std::integral<I>) auto find_vertex(I uid) const { return vdv::iterator(t_.size() - 1 - (size_t)uid); }
  friend u32 vertex_id(const mirrored& g, const vd& u) { return u32(g.t_.size() - 1 - u.value()); }
  friend auto edges(const mirrored& g, const vd& u) { auto& l = g.t_[u.value()]; return edv(open_iter{l.begin(), l.end()}.skip(), open_iter{l.end(), l.end()}, u); }
  friend u32 target_id(const mirrored&, const ed& uv) { return uv.value()->code ^ 0x5a5u; } friend u32 source_id(const mirrored& g, const ed& uv) { return vertex_id(g, uv.source()); }
  friend const int& edge_value(const mirrored&, const ed& uv) { return uv.value()->w; }
};
} // namespace cust
