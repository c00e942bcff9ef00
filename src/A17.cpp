// PARTS: 4
// RULE: random symmetric and directed graphs (18 families, loops, parallel edges) x containers x seeds x iteration limits x initial labels (unique, few, constant, partly empty); the label array's element type records every assignment into the array, and each is judged against the neighbours' labels at that moment. Non-trivial: some label changed; distinct by (graph, seed, limit). Separately, ties and two-vertex orders are decided 240 times with different seeds, and each outcome must occur in at least a third of its fair share.
// ASSUME: labels are copyable, equality comparable and hashable; the array has one label per vertex
// MIN: changes=20000
// MIN: converged_runs=1500
// MIN: empty_label_runs=1500
// MIN: ties=1000
// MIN: tie_experiments=200
#include "vg.hpp"
#include <random>
#include <graph/algorithm/label_propagation.hpp>
using namespace vh; using namespace vg;
struct L; inline const L* g_base = nullptr; inline size_t g_n = 0; inline std::vector<std::pair<u32, int>>* g_log = nullptr;
struct L { int v = 0; L() = default; L(int x) : v(x) {} L(const L&) = default;
  L& operator=(const L& o) { if (g_log && this >= g_base && this < g_base + g_n) g_log->push_back({(u32)(this - g_base), o.v}); v = o.v; return *this; }
  bool operator==(const L& o) const { return v == o.v; } };
template <> struct std::hash<L> { size_t operator()(const L& l) const { return std::hash<int>{}(l.v); } };

struct Judge { Ctx& c; const EL& g; std::vector<std::vector<std::pair<u32, int>>> a; std::optional<int> empty;
  // plurality labels among the voting neighbours of u
  std::set<int> plural(const std::vector<int>& lab, u32 u) const { std::map<int, u32> f; u32 mx = 0; for (auto& [t, w] : a[u]) if (!empty || lab[t] != *empty) mx = std::max(mx, ++f[lab[t]]); std::set<int> s; for (auto& [l, k] : f) if (k == mx) s.insert(l); return s; }
  void run(const std::vector<int>& init, const std::vector<std::pair<u32, int>>& log, u64 limit, bool early) {
    auto lab = init; std::vector<u64> changes(g.n, 0); std::vector<char> could(g.n, 0); // could: at some moment keeping the label was right
    auto look = [&](u32 u) { auto p = plural(lab, u); if (p.empty() || p.contains(lab[u])) could[u] = 1; }; auto lookall = [&] { if (limit == 1) for (u32 u = 0; u < g.n; ++u) look(u); };
    lookall();
    for (size_t i = 0; i < log.size(); ++i) { auto [u, nl] = log[i]; if (nl == lab[u]) continue; auto p = plural(lab, u); if (p.size() > 1) c.count("ties");
      c.checkf(p.contains(nl), "lp-not-plurality", [&] { return std::format("change {} gives vertex {} label {}, its neighbours' most frequent labels are {}; labels then {}", i, u, nl, seq(p), seq(lab)); });
      lab[u] = nl; c.count("changes"); c.checkf(++changes[u] <= limit, "lp-limit", [&] { return std::format("vertex {} changed {} times, limit {}", u, changes[u], limit); }); lookall(); }
    if (limit == 1) for (u32 u = 0; u < g.n; ++u) c.checkf(changes[u] || could[u], "lp-skipped", [&] { return std::format("vertex {} kept label {} through the pass although it was never a most frequent neighbour label", u, init[u]); });
    if (early) { c.count("converged_runs"); for (u32 u = 0; u < g.n; ++u) { auto p = plural(lab, u); c.checkf(p.empty() || p.contains(lab[u]), "lp-fixpoint", [&] { return std::format("returned before the limit {} but vertex {} holds {}, not a most frequent neighbour label {}; labels {}", limit, u, lab[u], seq(p), seq(lab)); }); } }
  } };
template <class G> void lp(Ctx& c) {
  GenOpt o; o.big = 80; bool und = std::is_same_v<G, ual> || c.rng.chance(65); auto base = gen_graph(c.rng, o, und); EL full = und ? symmetrize(base) : base; EL g = std::is_same_v<G, ual> ? full : effective<G>(full);
  const G gr = [&] { if constexpr (std::is_same_v<G, ual>) return build<G>(base); else return build<G>(full); }();
  int mode = (int)c.rng.below(4), k = 1 + (int)c.rng.below(4); std::vector<int> init(g.n); for (u32 i = 0; i < g.n; ++i) init[i] = mode == 0 ? (int)i : mode == 1 ? (int)c.rng.below(k) : mode == 2 ? 7 : (int)c.rng.below(3) * 1000003 - 5;
  std::optional<int> empty; if (c.rng.chance(50)) { empty = c.rng.chance(50) ? -1 : 0; for (auto& x : init) if (c.rng.chance(60)) x = *empty; if (g.n && c.rng.chance(20)) { std::fill(init.begin(), init.end(), *empty); init[c.rng.below(g.n)] = 3; } }
  u64 seed = c.rng.next(), limit = c.rng.chance(45) ? c.rng.below(3) : 20 + c.rng.below(30);
  c.input(std::format("{} seed {} limit {} empty {} labels {} {}", Name<G>::v, seed, limit, empty ? std::to_string(*empty) : "-", seq(init), full.str()));
  auto go = [&](u64 lim, std::vector<std::pair<u32, int>>& log, std::mt19937& rng) { std::vector<L> lab(init.begin(), init.end()); g_base = lab.data(); g_n = lab.size(); g_log = &log;
    struct Off { ~Off() { g_log = nullptr; } } off; size_t before = lab.size();
    if (empty) { if (c.rng.chance(50)) graph::label_propagation(gr, lab, L(*empty), rng, lim); else graph::label_propagation(gr, lab, L(*empty), rng, (int)lim); } else { if (c.rng.chance(50)) graph::label_propagation(gr, lab, rng, lim); else graph::label_propagation(gr, lab, rng, (unsigned)lim); }
    g_log = nullptr; c.check(lab.size() == before, "lp-array"); std::vector<int> r; for (auto& l : lab) r.push_back(l.v); return r; };
  std::mt19937 r1(seed), r2(seed), r3(seed); std::vector<std::pair<u32, int>> l1, l2, l3; auto a = go(limit, l1, r1), b = go(limit, l2, r2);
  c.checkf(a == b && l1 == l2 && r1 == r2, "lp-determinism", [&] { return std::format("same seed: {} then {}", seq(a), seq(b)); });
  bool early = false; if (g.n >= 2) { go(limit + 1, l3, r3); early = r1 == r3 && limit > 0; if (r1 == r3) c.check(l1 == l3, "lp-determinism", "same generator state but other changes"); }
  Judge j{c, g, g.adj(), empty}; j.run(init, l1, limit, early);
  { auto lab = init; for (auto& [u, v] : l1) lab[u] = v; c.check(lab == a, "lp-untracked", "labels were changed other than by assignment"); }
  if (limit == 0) c.check(a == init, "lp-limit", "limit 0 changed labels");
  if (empty) { c.count("empty_label_runs"); for (u32 u = 0; u < g.n; ++u) c.check(a[u] != *empty || init[u] == *empty, "lp-empty", "a labelled vertex became unlabelled"); }
  c.count("runs"); if (!l1.empty()) { c.nontrivial(hcomb(hcomb(g.hash(), seed), limit)); c.sample(std::format("limit {} labels {} -> {} in {} changes: {}", limit, seq(init), seq(a), l1.size(), g.str())); }
}
// plain label types, with no recorder in the way
template <class T, class G> void plain(Ctx& c) {
  GenOpt o; auto base = gen_graph(c.rng, o, true); EL g = symmetrize(base); const G gr = build<G>(g); std::vector<int> init(g.n); for (auto& x : init) x = (int)c.rng.below(4);
  auto mk = [](int x) { if constexpr (std::is_same_v<T, std::string>) return std::string("label ") + std::to_string(x); else return (T)x; }; u64 seed = c.rng.next(); c.input(std::format("plain labels {} seed {} {}", seq(init), seed, g.str()));
  auto run = [&](int lim, std::minstd_rand& r) { std::vector<T> lab; for (int x : init) lab.push_back(mk(x)); graph::label_propagation(gr, lab, r, lim); std::vector<int> o; for (auto& l : lab) { int k = 0; while (k < 4 && mk(k) != l) ++k; c.check(k < 4, "lp-invented", "a label that was never in the array"); o.push_back(k); } return o; };
  std::minstd_rand a(seed), b(seed); auto x = run(40, a), y = run(41, b); if (a == b && g.n >= 2) { c.check(x == y, "lp-determinism"); Judge j{c, g, g.adj(), {}}; j.run(x, {}, 40, true); c.nontrivial(hcomb(g.hash(), seed)); }
  if (c.rng.chance(20)) { std::vector<T> lab; for (int v : init) lab.push_back(mk(v)); std::deque<T> d(lab.begin(), lab.end()); graph::label_propagation(gr, d, mk(9), std::minstd_rand(seed), 5); graph::label_propagation(gr, d, std::minstd_rand(seed), 5); for (auto& l : d) { int k = 0; while (k < 4 && mk(k) != l) ++k; c.check(k < 4, "lp-invented"); } }
}
// over many seeds every tied label and every order of two vertices occurs, and none dominates
template <class G> void fair(Ctx& c) {
  const bool empties = c.rng.chance(50), order = c.rng.chance(40); const int rounds = 240; u32 k = order ? 2 : 2 + (u32)c.rng.below(4), rep = 1 + (u32)c.rng.below(2); std::vector<int> labs; for (u32 i = 0; i < k; ++i) labs.push_back((int)i * (1 + (int)c.rng.below(1000)) + (int)i * 7 + 1); c.rng.shuffle(labs); EL g; g.fam = "tie"; std::vector<int> init;
  if (order) { u32 pad = (u32)c.rng.below(4); g.n = 2 + pad; g.es = {{pad, pad + 1, 1}, {pad + 1, pad, 1}}; init.assign(g.n, -5); init[pad] = labs[0]; init[pad + 1] = labs[1]; } // whoever is first takes the other's label
  else { g.n = 1 + k * rep; init.assign(g.n, 0); for (u32 i = 0; i < k * rep; ++i) { g.es.push_back({0, i + 1, 1}); init[i + 1] = labs[i % k]; } init[0] = c.rng.chance(50) ? labs[0] : -3; c.rng.shuffle(g.es); }
  const G gr = build<G>(g); std::map<int, int> won; c.input(std::format("{} labels {} {}", Name<G>::v, seq(init), g.str())); const u64 s0 = c.rng.next();
  for (int r = 0; r < rounds; ++r) { std::mt19937 e((u32)mix(s0 + (u64)r)); auto lab = init; if (empties) graph::label_propagation(gr, lab, -9, e, 1); else graph::label_propagation(gr, lab, e, 1); won[order ? lab[g.n - 1] : lab[0]]++; }
  for (int l : labs) c.checkf(won[l] * (int)k * 3 >= rounds, "lp-not-random", [&] { return std::format("label {} was taken in {} of {} runs with different seeds, {} labels are tied", l, won[l], rounds, k); });
  c.count("tie_experiments"); c.nontrivial(hcomb(g.hash(), (u64)init[g.n - 1])); }
#if IN(0)
TS(lp, vvi, 3500, 80000)
TS(lp, vov, 2000, 40000)
#elif IN(1)
TS(lp, csr, 2500, 60000)
TS(lp, dofl, 1500, 40000)
#elif IN(2)
TS(lp, ual, 2000, 40000)
TS(lp, vos, 2000, 40000)
#elif IN(3)
TS(lp, vvp, 1500, 40000)
TS(fair, vvi, 150, 2000)
TS(fair, vov, 100, 2000)
SUITE(plain_int, 1000, 20000) { plain<int, vvi>(c); }
SUITE(plain_string, 600, 20000) { plain<std::string, vov>(c); }
#endif
