// PARTS: 8
// RULE: random histories over four graphs of one type (construct, fill, copy- and move-construct, copy- and move-assign over empty and non-empty targets, self-assign, swap, clear, return by value, keep in vectors, destroy) for dynamic graphs over the shipped container combinations, compressed graphs and undirected graphs, with values none, int, string and an instance-counting type; after every operation each graph is compared with its own model, moved-from graphs are emptiness-checked and reused, and no value object outlives the graphs. Non-trivial: a graph with at least two edges took part; distinct by content history.
// ASSUME: the graph value of a moved-from graph is unspecified
// ASSUME: after self-move only clearing, assigning and destroying are relied on
// MIN: content_checks=60000
// MIN: copies=3000
// MIN: moves=2000
// MIN: moved_from_checks=1500
#include "vslots.hpp"
using namespace vg;
template <template <class, class, class, class, bool> class T> using Gt = dyn<T, Tok, Tok, Tok, u32>;
template <template <class, class, class, class, bool> class T> using Gv = dyn<T, void, void, void, u32>;
template <template <class, class, class, class, bool> class T> using Gi = dyn<T, int, void, int, u64>;
template <template <class, class, class, class, bool> class T> using Gp = dyn<T, void, Tok, std::string, u32>;
template <template <class, class, class, class, bool> class T> using Gn = dyn<T, Tok, std::string, void, std::string>;
using c1 = gc::compressed_graph<Tok, Tok, Tok>; using c2 = gc::compressed_graph<void, void, void>; using c3 = gc::compressed_graph<int, void, std::string, u64, u64>; using c4 = gc::compressed_graph<void, Tok, void, int, uint16_t>;
using u1 = gc::undirected_adjacency_list<Tok, Tok, Tok, u32>; using u2 = gc::undirected_adjacency_list<int, int, void, u32>; using u3 = gc::undirected_adjacency_list<Tok, std::string, void, uint8_t>;
#define D(K, TR, q) SUITE(K##_##TR, q * 3, q * 150) { history<K<gc::TR##_graph_traits>, DynD<K<gc::TR##_graph_traits>>>(c, #K " " #TR, 16); }
#define C(K, q) SUITE(csr_##K, q * 3, q * 150) { history<K, CsrD<K>>(c, #K, 16); }
#define U(K, q) SUITE(ual_##K, q * 3, q * 150) { history<K, UalD<K>>(c, #K, 20); }
#if IN(0)
D(Gt, vov, 160) D(Gi, vov, 80) D(Gt, vol, 120)
#elif IN(1)
D(Gt, vofl, 120) D(Gv, vofl, 80) D(Gt, vod, 120) D(Gp, vol, 100)
#elif IN(2)
D(Gt, vos, 120) D(Gt, vom, 120) D(Gt, vous, 100)
#elif IN(3)
D(Gt, voum, 100) D(Gt, dov, 100) D(Gt, dofl, 100)
#elif IN(4)
D(Gt, mov, 100) D(Gn, mol, 100) D(Gt, mos, 100)
#elif IN(5)
D(Gt, uov, 100) D(Gn, uol, 100) D(Gt, uod, 100)
#elif IN(6)
C(c1, 300) C(c2, 200) C(c3, 200) C(c4, 200)
#elif IN(7)
U(u1, 300) U(u2, 200) U(u3, 200)
#endif
