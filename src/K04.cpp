// SAN: tsan
// PARTS: 8
// FLAGS: -pthread -DVH_CASE_CPU_SECONDS=200
// RULE: families of random graphs x containers; every read-only operation (customisation points, views, adaptors, algorithms with outputs of their own) is one job; 4-7 threads released by a barrier run all of them in independent random orders with random pauses, on the same graphs, half of them through const access and half through non-const access; ThreadSanitizer watches every access and each result must equal the one obtained alone afterwards. Non-trivial: a graph with an edge and overlapping jobs of different threads; distinct by graph and container.
// ASSUME: ThreadSanitizer's happens-before race detection (no synchronisation is added between the jobs: time stamps are thread-local); loads and stores of the C++ library itself are instrumented because it is header code here
// ASSUME: graphs are not modified while threads run; user functions passed to views/algorithms are pure
// MIN: jobs=3000
// MIN: overlapping_pairs=3000
// MIN: threads=300
#include "vjobs.hpp"
#include <atomic>
#include <random>
#include <thread>
#include <time.h>
inline u64 now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000000000ull + (u64)t.tv_nsec; }
struct Stamp { u32 job; u64 a, b; };
inline void storm(Ctx& c, std::vector<Job>& J, const std::function<void()>& unchanged) {
  const u32 T = 4 + (u32)c.rng.below(4), R = c.thorough ? 3 : 1; 
  std::vector<std::vector<u32>> plan(T); std::vector<u64> seeds; for (u32 i = 0; i < T; ++i) { for (u32 r = 0; r < R; ++r) for (u32 k = 0; k < J.size(); ++k) plan[i].push_back(k); if (c.rng.chance(40) && i) plan[i] = plan[0]; else c.rng.shuffle(plan[i]); seeds.push_back(c.rng.next()); }
  std::vector<std::vector<Stamp>> log(T); std::vector<std::vector<u64>> res(T); std::vector<std::string> bad(T); std::atomic<u32> at{0};
  auto body = [&](u32 i) { Rng r(seeds[i]); std::vector<u64> my_x; std::vector<Stamp> my; my.reserve(plan[i].size()); at.fetch_add(1); while (at.load(std::memory_order_acquire) < T) ;
    for (u32 k : plan[i]) { if (r.chance(15)) std::this_thread::yield(); else if (r.chance(8)) { volatile int z = 0; for (u32 q = (u32)r.below(4000); q; --q) z = z + 1; }
      u64 t0 = now_ns(), x = 0; try { x = J[k].f(); } catch (const std::exception& e) { bad[i] = std::string(J[k].name) + " threw " + e.what(); } my.push_back({k, t0, now_ns()}); my_x.push_back(x); }
    log[i] = std::move(my); res[i] = std::move(my_x); };
  { std::vector<std::thread> ts; for (u32 i = 0; i < T; ++i) ts.emplace_back(body, i); for (auto& t : ts) t.join(); }
  for (auto& b : bad) c.check(b.empty(), "result-differs-from-alone", b);
  // the reference is computed afterwards, alone: a reader that fills something lazily is not warmed up before the threads
  std::vector<u64> ref; for (auto& j : J) ref.push_back(j.f());
  for (u32 i = 0; i < T; ++i) for (size_t q = 0; q < plan[i].size(); ++q) c.checkf(res[i][q] == ref[plan[i][q]], "result-differs-from-alone", [&] { return std::string(J[plan[i][q]].name); });
  unchanged(); u64 ov = 0; for (u32 i = 0; i < T; ++i) for (u32 k = i + 1; k < T; ++k) for (auto& x : log[i]) for (auto& y : log[k]) if (x.a < y.b && y.a < x.b) { ++ov; c.counters[std::string("overlap.") + std::min(std::string(J[x.job].name), std::string(J[y.job].name)).substr(0, 10)]++; }
  c.count("overlapping_pairs", ov); c.count("threads", T); c.count("jobs", T * R * J.size()); c.count("storms"); if (!ov) c.nt = true; }

template <class G> void run(Ctx& c) {
  GenOpt o; o.maxn = c.rng.chance(30) ? 40 : 14; o.allow_empty = false; constexpr bool U = std::is_same_v<G, ual>; auto base = gen_graph(c.rng, o, U || c.rng.chance(30)); if (!base.n) return;
  for (auto& e : base.es) e.w = (e.w < 0 ? -e.w : e.w) & 255; EL sy = U ? base : fully_sorted(symmetrize(base)), tr = U ? base : transposed(base); bool dag = !U; c.input(std::string(Name<G>::v) + " " + base.str());
  G g = build_any<G>(base), h = build_any<G>(sy), t = build_any<G>(tr); std::vector<u32> ids; G probe = build_any<G>(base); if (graph::num_vertices(probe) == 0) return; for (auto u : graph::vertices(probe)) ids.push_back((u32)graph::vertex_id(probe, u)); u32 src = ids[c.rng.below(ids.size())];
  if constexpr (!is_sparse<G>) if (!U) { std::vector<graph::vertex_id_t<G>> v; dag = graph::topological_sort(probe, std::back_inserter(v)); } std::vector<Job> J;
  const G &cg = g, &ch = h, &ct = t; add_jobs<G, const G>(J, cg, ch, ct, base.n, ids, src, dag, false); add_jobs<G, G>(J, g, h, t, base.n, ids, src, dag, false);
  if (c.rng.chance(30)) J.push_back({"copy", [&]() -> u64 { G q(cg); H o; for (auto u : graph::vertices(q)) { o((u64)graph::vertex_id(q, u)); } o((u64)graph::num_edges(q)); return o.h; }});
  if (c.idx % 3 == 0) { auto el = std::make_shared<std::vector<KE>>(); for (auto& e : base.es) el->push_back({e.s, e.t, e.w}); J.push_back({"kruskal", [el]() -> u64 { std::vector<KE> out; auto r = graph::kruskal(*el, out); H o; o((u64)r.first); o((u64)r.second); for (auto& e : out) { o(e.source_id); o(e.target_id); } return o.h; }}); }
  storm(c, J, [&] {}); if (!base.es.empty()) c.nontrivial(hcomb(base.hash(), hstr(Name<G>::v))); c.sample(std::string(Name<G>::v) + " " + base.str()); }
#define S(G) TS(run, G, 60, 1500)
using full = gc::dynamic_graph<int, int, int, u32, false, gc::vol_graph_traits<int, int, int, u32, false>>;
#if IN(0)
S(vov) S(vos)
#elif IN(1)
S(csr) S(vofl)
#elif IN(2)
S(ual) S(mov)
#elif IN(3)
S(vob) S(uol)
#elif IN(4)
S(vlb) S(vvi)
#elif IN(5)
S(vom) S(vous)
#elif IN(6)
S(dov) S(vvp)
#elif IN(7)
S(dob) S(mob)
#endif
