// PARTS: 10
// RULE: random multigraphs in 20 representations (4 of them user-written) x every form of vertices_dfs and edges_dfs (seed by id and descriptor, value function, allocator, incoming edges); each sequence replayed against a monitor that accepts exactly the depth-first orders, with depth() and num_visited() read at each element; all forms must walk the same search. Non-trivial: more than two vertices reached; distinct by (graph, container, seed).
// MIN: views=20000
// MIN: elements=60000
#include "vsearch.hpp"
using namespace vg;
#define S(G) SUITE(run_##G, 350, 9000) { search_case<false, false, vg::G>(c); }
#if IN(0)
S(vov) S(vvi)
#elif IN(1)
S(csr) S(vol)
#elif IN(2)
S(ual)
#elif IN(3)
S(vob)
#elif IN(4)
S(vlb) S(vvp)
#elif IN(5)
S(vos) S(vous) S(vofl)
#elif IN(6)
S(dov) S(vom) S(voum)
#elif IN(7)
S(dob) S(dod)
#elif IN(8)
S(mtx) S(atl)
#elif IN(9)
S(fru) S(mir)
#endif
