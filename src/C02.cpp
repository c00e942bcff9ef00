// PARTS: 6
// RULE: random histories over four bidirectional dynamic graphs (construct, several loads from all kinds of source range, copy, move, assign, swap, clear, reuse, destroy) over ten pairings of vertex, outgoing and incoming containers, values none, int, string, instance-counting; after every operation outgoing and incoming edges of every graph are compared with a model of it, value by value, and with each other; graph objects are overwritten or destroyed while others live, under AddressSanitizer. Non-trivial: a graph with at least two edges took part; distinct by content history.
// ASSUME: outgoing and incoming edge containers agree about keeping parallel edges
// MIN: content_checks=50000
// MIN: mirror_checks=50000
// MIN: copies=2500
#include "vslots.hpp"
using namespace vg;
namespace vg { VG_BIDIR(vss, std::vector<vertex_type>, std::set<edge_type>, std::set<in_edge_type>) }
namespace vg { VG_BIDIR(vuu, std::vector<vertex_type>, std::unordered_set<edge_type>, std::unordered_set<in_edge_type>) }
namespace vg { VG_BIDIR(vfl, std::vector<vertex_type>, std::forward_list<edge_type>, std::list<in_edge_type>) }
template <class G> struct BiD : DynD<G> { using B = DynD<G>; using typename B::M; using B::B;
  void verify(G& g, M& m) { B::verify(g, m); const G& cg = g; using Id = typename Tr<G>::Id; // the two directions mirror each other, independently of the model
    std::map<std::tuple<Id, Id, int>, int> bal; size_t o = 0, i = 0;
    for (auto&& u : graph::vertices(cg)) { for (auto&& e : graph::edges(cg, u)) { int w = 0; if constexpr (has_ev<G>) w = num(graph::edge_value(cg, e)); ++bal[{(Id)graph::source_id(cg, e), (Id)graph::target_id(cg, e), w}]; ++o; } for (auto&& e : graph::in_edges(cg, u)) { int w = 0; if constexpr (has_ev<G>) w = num(graph::edge_value(cg, e)); --bal[{(Id)graph::source_id(cg, e), (Id)graph::target_id(cg, e), w}]; ++i; } }
    for (auto& [k, n] : bal) this->c.checkf(n == 0, "in-out-mirror", [&] { return std::format("edge {}->{}:{} is seen {} more times outgoing than incoming", ids(std::get<0>(k)), ids(std::get<1>(k)), std::get<2>(k), n); }); this->c.check(o == i, "in-out-mirror"); this->c.count("mirror_checks");
    for (auto&& u : graph::vertices(cg)) { const Id id = (Id)graph::vertex_id(cg, u); for (auto& a : m.in.at(id)) { auto s = *graph::find_vertex(cg, (graph::vertex_id_t<const G>)a.t); if constexpr (requires { graph::contains_in_edge(cg, u, s); }) this->c.check(graph::contains_in_edge(cg, u, s), "contains-in-edge"); } } } };
#define B(NAME, SUF, EV, VV, GV, ID, q) using NAME##_##SUF = gc::dynamic_graph<EV, VV, GV, ID, true, NAME##_traits<EV, VV, GV, ID>>; SUITE(NAME##_##SUF##_, q * 3, q * 150) { history<NAME##_##SUF, BiD<NAME##_##SUF>>(c, #NAME " " #SUF, 14); }
#if IN(0)
B(dob, t, Tok, Tok, Tok, u32, 160) B(vmb, t, Tok, void, int, u32, 120)
#elif IN(1)
B(vlv, t, Tok, Tok, void, u32, 160) B(mob, t, Tok, Tok, Tok, u32, 120)
#elif IN(2)
B(uob, t, Tok, void, void, u32, 120) B(mob, s, std::string, int, void, std::string, 120)
#elif IN(3)
B(vss, t, Tok, Tok, Tok, u32, 160) B(vss, v, void, void, void, u32, 100)
#elif IN(4)
B(vuu, t, Tok, int, void, u32, 120) B(dob, v, void, std::string, void, u64, 100) B(uob, s, std::string, Tok, void, std::string, 100)
#elif IN(5)
B(vlv, b, Tok, void, void, uint8_t, 100) B(vfl, t, Tok, Tok, Tok, u32, 120) B(vmb, v, void, void, void, i64, 100)
#endif
