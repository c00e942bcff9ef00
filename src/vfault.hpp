// Fault injection: every operator new, every copy of an Fv and every user callback is a numbered
// fault point; one of them (or every allocation from one on) fails.
#pragma once
#include "vcpo.hpp"
namespace vg {
struct Boom { int what; }; // thrown by value copies (1) and user callbacks (2)
struct Inj {
  static inline bool armed = false, persist = false; static inline u64 n = 0, at = 0; static inline int fired = -1; static inline i64 blocks = 0, b0 = 0; // blocks: live operator new blocks
  static bool hit() { if (!armed) return false; ++n; return n == at; }
  static void throwing(int kind) { if (hit()) { fired = kind; if (!persist) armed = false; throw Boom{kind}; } }
  static void callback() { throwing(2); }
  // true: this allocation fails
  static bool alloc() { if (!armed) return false; if (persist && fired == 0) return true; if (hit()) { fired = 0; if (!persist) armed = false; return true; } return false; }
};
struct Fv {
  static inline i64 live = 0; int v; const Fv* self; int* heap; static constexpr int dflt = 0, moved = -999;
  void chk() const { if (self != this || (heap ? *heap != v : v != moved)) throw Violation{"value-corrupt", std::format("a value object is used that was never constructed, or is already destroyed (self {}, value {})", self == this, v)}; }
  Fv() : v(dflt), self(this), heap(new int(dflt)) { ++live; }
  explicit Fv(int x) : v(x), self(this), heap(new int(x)) { ++live; }
  Fv(const Fv& o) : v(o.v), self(this), heap(cp(o)) { ++live; }
  Fv(Fv&& o) noexcept : v(o.v), self(this), heap(std::exchange(o.heap, nullptr)) { o.v = moved; ++live; }
  Fv& operator=(const Fv& o) { chk(); if (this != &o) { int* h = cp(o); delete heap; heap = h; v = o.v; } return *this; }
  Fv& operator=(Fv&& o) noexcept { if (this != &o) { delete heap; heap = std::exchange(o.heap, nullptr); v = o.v; o.v = moved; } return *this; }
  ~Fv() { if (self != this) { fprintf(stderr, "VH-VALUE: destroyed a value that is not alive\n"); abort(); } self = nullptr; delete heap; heap = nullptr; --live; }
  bool operator==(const Fv& o) const { return v == o.v; } auto operator<=>(const Fv& o) const { return v <=> o.v; }
private:
  static int* cp(const Fv& o) { o.chk(); Inj::throwing(1); return o.heap ? new int(o.v) : nullptr; }
};
inline int num(const Fv& t) { t.chk(); return t.v; }
template <> inline int dfltval<Fv>() { return Fv::dflt; }
} // namespace vg
template <> struct std::hash<vg::Fv> { size_t operator()(const vg::Fv& f) const { return (size_t)vg::num(f) * 7; } };
namespace vg {
// fingerprint of everything readable
template <class G> u64 fp(const G& g) {
  u64 h = 1; auto add = [&](u64 x) { h = hcomb(h, x); }; add((u64)graph::num_vertices(g)); add((u64)graph::num_edges(g));
  for (auto&& u : graph::vertices(g)) { add((u64)graph::vertex_id(g, u)); if constexpr (has_vv<G>) add((u64)num(graph::vertex_value(g, u))); for (auto&& e : graph::edges(g, u)) { add((u64)graph::target_id(g, e)); add((u64)graph::source_id(g, e)); if constexpr (has_ev<G>) add((u64)num(graph::edge_value(g, e))); } if constexpr (Tr<G>::bidir) for (auto&& e : graph::in_edges(g, u)) add((u64)graph::source_id(g, e) + 3); }
  if constexpr (has_gv<G>) add((u64)num(graph::graph_value(g))); return h; }
// runs `op` once counting its fault points, then once per fault point with that point failing
template <class Setup, class Op, class Post> void sweep(Ctx& c, const char* name, const std::string& head, Setup setup, Op op, Post post) {
  auto run = [&](u64 at, bool persist) { Inj::b0 = Inj::blocks; setup(); Inj::n = 0; Inj::at = at; Inj::persist = persist; Inj::fired = -1; int got = -1; std::string odd; Inj::armed = true;
    try { op(); } catch (const Violation&) { Inj::armed = false; throw; } catch (const std::bad_alloc&) { Inj::armed = false; got = 0; } catch (const Boom& b) { Inj::armed = false; got = b.what; } catch (const std::exception& e) { Inj::armed = false; odd = e.what(); } catch (...) { Inj::armed = false; odd = "something else"; } Inj::armed = false; Inj::at = 0;
    c.checkf(odd.empty(), "other-exception", [&] { return std::format("{}: fault point {} of kind {} reached the caller as '{}'", name, at, Inj::fired, odd); });
    c.checkf(got == Inj::fired, "exception-lost", [&] { return std::format("{}: fault point {} of kind {}, the caller saw kind {}", name, at, Inj::fired, got); });
    if (Inj::fired >= 0) { c.count("faults"); c.count(Inj::fired == 0 ? "faults_memory" : Inj::fired == 1 ? "faults_value_copy" : "faults_callback"); if (persist && Inj::fired == 0) c.count("faults_memory_exhausted"); } post(Inj::fired >= 0, Inj::fired); };
  run(0, false); const u64 total = Inj::n; c.count("ops"); c.count("fault_points", total); std::vector<u64> at; for (u64 k = 1; k <= total; ++k) at.push_back(k); const size_t cap = c.thorough ? 400 : 60; if (at.size() > cap) { c.rng.shuffle(at); at.resize(cap); } else c.count("ops_with_every_point_failed");
  for (u64 k : at) { set_cur(c.suite + " " + std::to_string(c.idx) + "\n" + head + std::format(" [fault point {} of {}]", k, total)); run(k, c.rng.chance(40)); } }
} // namespace vg
#if PART == 0
#ifndef VF_NO_HOOK
void* operator new(std::size_t n) { if (vg::Inj::alloc()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++vg::Inj::blocks; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (vg::Inj::armed && vg::Inj::at) return nullptr; void* p = malloc(n ? n : 1); if (p) ++vg::Inj::blocks; return p; }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (p) --vg::Inj::blocks; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#endif
#endif
