// PARTS: 10
// RULE: random multigraphs in 20 representations (4 of them user-written) x every form of the DFS and BFS views, cancelling the branches of a random subset of vertices, or everything at a random element; the sequence must be exactly a search of the graph without the out-edges of the cancelled vertices. Non-trivial: at least one cancellation took effect; distinct by (graph, container, seed, choice).
// MIN: views=40000
// MIN: pruned=10000
#include "vsearch.hpp"
using namespace vg;
#define S(G) SUITE(dfs_##G, 250, 6000) { search_case<false, true, vg::G>(c); } SUITE(bfs_##G, 250, 6000) { search_case<true, true, vg::G>(c); }
#if IN(0)
S(vov) S(vvi)
#elif IN(1)
S(csr) S(vol)
#elif IN(2)
S(ual)
#elif IN(3)
S(vob)
#elif IN(4)
S(vlb) S(vvp)
#elif IN(5)
S(vos) S(vous) S(vofl)
#elif IN(6)
S(dov) S(vom) S(voum)
#elif IN(7)
S(dob) S(dod)
#elif IN(8)
S(mtx) S(atl)
#elif IN(9)
S(fru) S(mir)
#endif
