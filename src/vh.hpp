// Shared runtime-monitoring harness: deterministic case driver, RNG, hostile graph
// generators, reference oracles and violation reporting.  Only public graph-v3 API is used.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <format>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <numeric>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <span>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace vh {
using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hcomb(u64 a, u64 b) { return mix(a * 0x100000001b3ull + b + 0x51ed27); }
inline u64 hstr(const char* s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class C> auto& pick(C& c) { return c[below(c.size())]; }
  template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};

struct Violation { std::string key, what; };

// ---------------------------------------------------------------- case context
struct Ctx {
  Rng rng{0};
  std::string suite; u64 idx = 0, seed = 0; bool thorough = false;
  std::map<std::string, u64> counters;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  std::string descr;                       // description of current input, for the witness
  u64 evals = 0;
  // `key` names the kind of failure; it is what known-findings entries are matched against.
  [[noreturn]] void fail(const std::string& key, const std::string& what) { throw Violation{key, what}; }
  void check(bool ok, const char* key, const std::string& what = "") { if (!ok) fail(key, what); }
  template <class F> requires std::is_invocable_r_v<std::string, F>
  void checkf(bool ok, const char* key, F&& f) { if (!ok) fail(key, f()); }
  void input(const std::string& d);        // call before running the code under test
  u64 tr = 0; void trace(const char* name, u64 v) { tr = hcomb(hcomb(tr, hstr(name)), v); tnames += std::format(" {}={:x}", name, v & 0xffffffff); } std::string tnames; // what K07 compares between builds
  void count(const char* c, u64 n = 1) { counters[c] += n; }
  bool nt = false; // at most one distinct non-trivial case is counted per case
  void nontrivial(u64 h) { if (!nt) { nt = true; distinct.insert(h); } }
  void sample(const std::string& s) { if (samples.size() < 3 && s.size() < 700) samples.push_back(s); }
};
using CaseFn = void (*)(Ctx&);
struct Suite { const char* name; u64 quick, thorough; CaseFn fn; };
inline std::vector<Suite>& suites() { static std::vector<Suite> v; return v; }
struct Reg { Reg(const char* n, u64 q, u64 t, CaseFn f) { suites().push_back({n, q, t, f}); } };
#define SUITE(name, quick, thorough)                                   \
  static void suite_##name(vh::Ctx&);                                  \
  static vh::Reg reg_##name(#name, quick, thorough, suite_##name);     \
  static void suite_##name([[maybe_unused]] vh::Ctx& c)

// Current case is kept in a shared file mapping so it survives a crash of the process.
inline char* g_cur = nullptr;
inline void set_cur(const std::string& s) { if (g_cur) { size_t n = std::min<size_t>(s.size(), 8000); memcpy(g_cur, s.data(), n); g_cur[n] = 0; } }
inline void Ctx::input(const std::string& d) { descr = d; set_cur(suite + " " + std::to_string(idx) + "\n" + d); }
inline void on_hang(int) { const char m[] = "\nVH-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }

inline std::string jesc(const std::string& s) {
  std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o; }

#ifndef VH_CASE_CPU_SECONDS
#define VH_CASE_CPU_SECONDS 40
#endif

// usage: h <seed> <shard> <nshards> <quick|thorough> <outprefix> [suite idx]
inline int vh_main(int argc, char** argv) {
  if (argc < 6) { fprintf(stderr, "usage\n"); return 3; }
  Ctx c; c.seed = strtoull(argv[1], 0, 10); u64 shard = strtoull(argv[2], 0, 10), ns = strtoull(argv[3], 0, 10);
  c.thorough = !strcmp(argv[4], "thorough"); std::string out = argv[5];
  const char* only = argc > 6 ? argv[6] : nullptr; u64 onlyidx = argc > 7 ? strtoull(argv[7], 0, 10) : 0;
  int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, 8192) == 0) { void* p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) g_cur = (char*)p; }
  signal(SIGPROF, on_hang);
  FILE* f = fopen((out + ".viol").c_str(), "w"); if (!f) return 3;
  u64 nviol = 0;
#ifdef VH_TRACE
  FILE* tf = fopen((out + ".trace").c_str(), "w"); if (!tf) return 3;
#endif
  for (auto& s : suites()) {
    if (only && strcmp(only, s.name)) continue;
    u64 n = c.thorough ? s.thorough : s.quick;
    c.suite = s.name;
    for (u64 i = 0; i < n; ++i) {
      if (only ? i != onlyidx : (i + hstr(s.name)) % ns != shard) continue;
      c.idx = i; c.descr.clear(); c.nt = false; c.tnames.clear();
      c.rng = Rng(mix(c.seed * 1000003 + hstr(s.name)) ^ mix(i + 17));
      set_cur(std::string(s.name) + " " + std::to_string(i) + "\n");
      itimerval tv{}; tv.it_value.tv_sec = VH_CASE_CPU_SECONDS; setitimer(ITIMER_PROF, &tv, 0);
      ++c.evals; std::string key, what;
      try { s.fn(c); }
      catch (const Violation& v) { key = v.key; what = v.what; }
      catch (const std::exception& e) { key = "unexpected-exception"; what = e.what(); }
      itimerval z{}; setitimer(ITIMER_PROF, &z, 0);
#ifdef VH_TRACE
      { u64 h = 0; for (auto& [k, v] : c.counters) h += mix(hcomb(hstr(k.c_str()), v)); std::string nm = c.tnames; for (char& ch : nm) if (ch == '\n') ch = ' ';
        fprintf(tf, "%s\t%llu\t%llx\t%s\t%s counters=%llx\n", s.name, (unsigned long long)i, (unsigned long long)hstr(c.descr.c_str()), key.empty() ? "ok" : key.c_str(), nm.c_str(), (unsigned long long)h); fflush(tf); c.counters.clear(); continue; }
#endif
      if (!key.empty()) {
        fprintf(f, "{\"suite\":\"%s\",\"idx\":%llu,\"key\":\"%s\",\"what\":\"%s\",\"input\":\"%s\"}\n", s.name, (unsigned long long)i,
                jesc(key).c_str(), jesc(what.substr(0, 3000)).c_str(), jesc(c.descr.substr(0, 6000)).c_str());
        fflush(f); if (++nviol > 20) break;
      }
    }
    if (nviol > 20) break;
  }
  fclose(f);
  f = fopen((out + ".json").c_str(), "w"); if (!f) return 3;
  fprintf(f, "{\"evals\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)c.evals, (unsigned long long)nviol);
  bool first = true;
  for (auto& [k, v] : c.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "},\"samples\":["); first = true;
  for (auto& s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(f, "],\"distinct\":["); first = true;
  for (u64 h : c.distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  set_cur("done\n");
  return 0;
}

// ---------------------------------------------------------------- abstract graphs
struct E { u32 s, t; int w; auto operator<=>(const E&) const = default; };
struct EL {
  u32 n = 0; std::vector<E> es; const char* fam = "";
  u64 hash() const { u64 h = mix(n); for (auto& e : es) h = hcomb(hcomb(hcomb(h, e.s), e.t), (u64)(u32)e.w); return h; }
  std::string str() const { std::string o = std::format("{} n={} m={}:", fam, n, es.size()); size_t k = 0;
    for (auto& e : es) { if (k++ > 400) { o += " ..."; break; } o += std::format(" {}>{}:{}", e.s, e.t, e.w); } return o; }
  std::vector<std::vector<std::pair<u32, int>>> adj() const { std::vector<std::vector<std::pair<u32, int>>> a(n); for (auto& e : es) a[e.s].push_back({e.t, e.w}); return a; }
};

struct GenOpt { u32 maxn = 14; int wlo = 0, whi = 9; bool loops = true, parallel = true; bool allow_empty = true; u32 big = 0; };

// `und`: edges are to be read as undirected (each listed once)
inline EL gen_graph(Rng& r, const GenOpt& o, bool und = false) {
  EL g; auto W = [&] { return (int)r.range(o.wlo, o.whi); };
  int mode = (int)r.below(18);
  u32 n = 1 + (u32)r.below(o.maxn);
  if (o.big && r.chance(6)) n = o.maxn + (u32)r.below(o.big);
  auto add = [&](u32 a, u32 b) { g.es.push_back({a, b, W()}); };
  auto add2 = [&](u32 k) { u32 a = (u32)r.below(k), b = (u32)r.below(k); add(a, b); }; // in this order under every compiler
  if (o.big && r.chance(2)) { mode = 18; n = o.maxn + 30 + (u32)r.below(110); }
  g.n = n;
  switch (mode) {
  case 18: { g.fam = "hubs"; u32 k = 1 + (u32)r.below(3); // a few vertices with far more neighbours than the others
    for (u32 q = 0; q < k; ++q) { u32 h = (u32)r.below(n); int p = (int)r.range(40, 100), dir = (int)r.below(3); for (u32 i = 0; i < n; ++i) if (i != h && r.chance(p)) { if (dir == 0 || (dir == 2 && r.chance(50))) add(i, h); else add(h, i); } }
    for (u32 i = (u32)r.below(2 * n); i-- > 0;) add2(n); break; }
  case 0: g.fam = "edgeless"; if (r.chance(40) && o.allow_empty) g.n = 0; else if (r.chance(30)) g.n = 1; break;
  case 1: case 2: case 3: { g.fam = "sparse"; u32 m = (u32)r.below(n + n / 2 + 2); for (u32 i = 0; i < m; ++i) add2(n); break; }
  case 4: { g.fam = "medium"; u32 m = (u32)r.below(3 * n + 2); for (u32 i = 0; i < m; ++i) add2(n); break; }
  case 5: { g.fam = "dense"; if (n > 24) g.n = n = 24; int p = (int)r.range(30, 95); for (u32 i = 0; i < n; ++i) for (u32 j = und ? i : 0; j < n; ++j) if (r.chance(p)) add(i, j); break; }
  case 6: { g.fam = "path"; for (u32 i = 0; i + 1 < n; ++i) add(i, i + 1); break; }
  case 7: { g.fam = "cycle"; for (u32 i = 0; i < n; ++i) add(i, (i + 1) % n); break; }
  case 8: { g.fam = "star"; u32 c = (u32)r.below(n); bool in = r.chance(50); for (u32 i = 0; i < n; ++i) if (i != c) { if (in) add(i, c); else add(c, i); } break; }
  case 9: { g.fam = "tree"; for (u32 i = 1; i < n; ++i) { u32 p = (u32)r.below(i); if (!und && r.chance(20)) add(i, p); else add(p, i); } break; }
  case 10: { g.fam = "dag"; u32 m = (u32)r.below(2 * n + 2); if (n > 1) for (u32 i = 0; i < m; ++i) { u32 a = (u32)r.below(n), b = (u32)r.below(n); if (a == b) continue; add(std::min(a, b), std::max(a, b)); } break; }
  case 11: { g.fam = "cliques"; u32 k = 1 + (u32)r.below(std::min<u32>(n, 5)); u32 kk = std::min<u32>(n, 30); g.n = n = kk; for (u32 i = 0; i < n; ++i) for (u32 j = i + 1; j < n; ++j) if (i % k == j % k) { if (!und && r.chance(50)) add(j, i); else add(i, j); }
    if (r.chance(60)) for (u32 i = 0; i + 1 < k && i + 1 < n; ++i) add(i, i + 1); break; }
  case 12: { g.fam = "grid"; u32 w = 1 + (u32)r.below(5); for (u32 i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) { add(i, i + 1); if (!und && r.chance(40)) add(i + 1, i); } if (i + w < n) { add(i, i + w); if (!und && r.chance(40)) add(i + w, i); } } break; }
  case 13: { g.fam = "layered"; u32 w = 1 + (u32)r.below(4); for (u32 i = 0; i < n; ++i) for (u32 j = (i / w + 1) * w; j < std::min(n, (i / w + 2) * w); ++j) if (r.chance(75)) add(i, j); break; }
  case 14: { g.fam = "functional"; for (u32 i = 0; i < n; ++i) add(i, (u32)r.below(n)); break; }
  case 15: { g.fam = "cactus"; u32 i = 0; while (i + 1 < n) { u32 len = 1 + (u32)r.below(4); u32 at = (u32)r.below(i + 1); u32 prev = at; u32 k = 0; for (; k < len && i + 1 < n; ++k) { ++i; add(prev, i); prev = i; } if (r.chance(70)) add(prev, at); } break; }
  case 16: { g.fam = "shortcuts"; // long cheap chain with expensive shortcuts: forces decrease-key
    for (u32 i = 0; i + 1 < n; ++i) g.es.push_back({i, i + 1, (int)r.range(std::max(o.wlo, 0), std::max(o.wlo, 1))});
    for (u32 i = 0; i < n; ++i) for (u32 j = i + 2; j < n && j < i + 8; ++j) if (r.chance(40)) g.es.push_back({i, j, (int)std::max<i64>(o.wlo, std::min<i64>(o.whi, (i64)(j - i) + r.range(-1, 2)))}); break; }
  case 17: { g.fam = "multi"; u32 base = 1 + (u32)r.below(std::min<u32>(n, 4)); u32 m = (u32)r.below(4 * base + 3); for (u32 i = 0; i < m; ++i) add2(base); break; }
  }
  n = g.n;
  if (n && o.loops && r.chance(25)) { u32 k = 1 + (u32)r.below(3); for (u32 i = 0; i < k; ++i) { u32 v = (u32)r.below(n); add(v, v); } }
  if (!g.es.empty() && o.parallel && r.chance(25)) { u32 k = 1 + (u32)r.below(4); for (u32 i = 0; i < k; ++i) { E e = g.es[r.below(g.es.size())]; if (und && r.chance(50)) std::swap(e.s, e.t); if (r.chance(50)) e.w = W(); g.es.push_back(e); } }
  if (!o.loops) std::erase_if(g.es, [](const E& e) { return e.s == e.t; });
  if (!o.parallel) { std::set<std::pair<u32, u32>> seen; std::erase_if(g.es, [&](const E& e) { auto k = std::pair(e.s, e.t); if (und && k.first > k.second) std::swap(k.first, k.second); return !seen.insert(k).second; }); }
  if (n && r.chance(30)) g.n += (u32)r.below(4);          // isolated trailing vertices
  if (g.n && r.chance(60)) {                                // relabel
    std::vector<u32> p(g.n); std::iota(p.begin(), p.end(), 0u); r.shuffle(p);
    for (auto& e : g.es) { e.s = p[e.s]; e.t = p[e.t]; }
  }
  if (r.chance(60)) r.shuffle(g.es);
  if (und) for (auto& e : g.es) if (r.chance(50)) std::swap(e.s, e.t);
  return g;
}
// both directions of every (non-loop) edge; a loop is stored once
inline EL symmetrize(const EL& g) { EL o; o.n = g.n; o.fam = g.fam; for (auto& e : g.es) { o.es.push_back(e); if (e.s != e.t) o.es.push_back({e.t, e.s, e.w}); } return o; }
inline EL transposed(const EL& g) { EL o = g; for (auto& e : o.es) std::swap(e.s, e.t); return o; }
inline EL sorted_edges(EL g) { std::stable_sort(g.es.begin(), g.es.end(), [](auto& a, auto& b) { return a.s < b.s; }); return g; }
inline EL fully_sorted(EL g) { std::stable_sort(g.es.begin(), g.es.end(), [](auto& a, auto& b) { return std::pair(a.s, a.t) < std::pair(b.s, b.t); }); return g; }
inline std::vector<u32> pick_sources(Rng& r, u32 n, u32 maxk = 4) { // distinct sources
  std::vector<u32> v; if (!n) return v; u32 k = 1 + (u32)r.below(std::min(n, maxk)); std::set<u32> s;
  while (s.size() < k) { u32 x = (u32)r.below(n); if (s.insert(x).second) v.push_back(x); } return v; }

template <class R> std::string seq(const R& r) { std::string o = "["; for (auto&& x : r) o += std::format("{} ", x); return o + "]"; }

// ---------------------------------------------------------------- reference models
constexpr i64 INF = std::numeric_limits<i64>::max();
inline std::vector<char> reach(const EL& g, const std::vector<u32>& src) {
  auto a = g.adj(); std::vector<char> v(g.n, 0); std::vector<u32> st; for (u32 s : src) if (!v[s]) { v[s] = 1; st.push_back(s); }
  while (!st.empty()) { u32 u = st.back(); st.pop_back(); for (auto& [t, w] : a[u]) if (!v[t]) { v[t] = 1; st.push_back(t); } } return v; }
inline std::vector<i64> hop(const EL& g, const std::vector<u32>& src) {
  auto a = g.adj(); std::vector<i64> d(g.n, INF); std::deque<u32> q; for (u32 s : src) if (d[s] == INF) { d[s] = 0; q.push_back(s); }
  while (!q.empty()) { u32 u = q.front(); q.pop_front(); for (auto& [t, w] : a[u]) if (d[t] == INF) { d[t] = d[u] + 1; q.push_back(t); } } return d; }
// generic label-correcting shortest path; returns nullopt when a negative cycle is reachable
inline std::optional<std::vector<i64>> ref_sp(const EL& g, const std::vector<u32>& src) {
  std::vector<i64> d(g.n, INF); for (u32 s : src) d[s] = 0;
  for (u32 k = 0; k <= g.n; ++k) { bool ch = false; for (auto& e : g.es) if (d[e.s] != INF && d[e.s] + e.w < d[e.t]) { d[e.t] = d[e.s] + e.w; ch = true; } if (!ch) return d; }
  return std::nullopt; }
struct DSU { std::vector<u32> p; explicit DSU(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0u); }
  u32 find(u32 x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
  bool join(u32 a, u32 b) { a = find(a); b = find(b); if (a == b) return false; p[std::max(a, b)] = std::min(a, b); return true; } };
inline std::vector<u32> wcc(const EL& g) { DSU d(g.n); for (auto& e : g.es) d.join(e.s, e.t); std::vector<u32> c(g.n); for (u32 i = 0; i < g.n; ++i) c[i] = d.find(i); return c; }
// two labelings induce the same partition
template <class A, class B> bool same_partition(const A& a, const B& b, size_t n) {
  std::map<i64, i64> f, g; for (size_t i = 0; i < n; ++i) { auto [x, p] = f.emplace((i64)a[i], (i64)b[i]); auto [y, q] = g.emplace((i64)b[i], (i64)a[i]); if (x->second != (i64)b[i] || y->second != (i64)a[i]) return false; } return true; }
template <class A> bool labels_exact(const A& a, size_t n, size_t k) { std::set<i64> s; for (size_t i = 0; i < n; ++i) { if ((i64)a[i] < 0 || (i64)a[i] >= (i64)k) return false; s.insert((i64)a[i]); } return s.size() == k; }
} // namespace vh

#ifndef PART
#define PART 0
#endif
// IN(k): this object file holds part k of the harness (see check.py, PARTS)
#define IN(k) (PART == (k))
#if PART == 0
int main(int argc, char** argv) { return vh::vh_main(argc, argv); }
#endif
// a suite that runs fn<vg::G>(c)
#define TS(fn, G, quick, thorough) SUITE(fn##_##G, quick, thorough) { fn<vg::G>(c); }
