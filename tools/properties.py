#!/usr/bin/env python3
"""Source of /verif/properties.jsonl.  Run: python3 tools/properties.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=["include/graph/" + f for f in files],
                          mechanism=[dict(name=n, where="include/graph/" + w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where="include/graph/" + w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

FIX = "The unit tests check a few hand-drawn graphs of at most a dozen vertices"

# ------------------------------------------------------------------ algorithms
prop("A01", "Dijkstra returns exact shortest distances and a consistent predecessor tree",
 "For every graph with non-negative edge weights and every set of distinct sources, Dijkstra writes, for each vertex, the exact "
 "minimum path weight from the nearest source, and leaves unreachable vertices at the infinite distance. "
 "Each reached non-source vertex's predecessor is joined to it by an edge that accounts exactly for the difference of "
 "their distances, so that following predecessors ends in a source; other predecessors keep their initial value. "
 "This holds for integer, unsigned and floating weights, zero weights, parallel edges, self-loops, user-supplied "
 "comparison and combination, and for both the single-source, multi-source and distances-only forms.",
 ["inputs", "configurations"], "all weighted digraphs, source sets, weight types, graph containers, compare/combine pairs",
 FIX + "; relaxation order, ties and zero-weight plateaus only show on many graphs.",
 ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/traversal_common.hpp"],
 [("relaxation and priority queue", "algorithm/dijkstra_shortest_paths.hpp"),
  ("initialisation of distances/predecessors", "algorithm/traversal_common.hpp")],
 ["the caller's distance and predecessor arrays after return"])

prop("A02", "Shortest-path visitors see a protocol consistent with the result",
 "During Dijkstra, every vertex is initialised once, every reached vertex is discovered exactly once before it is examined, "
 "examined exactly once in non-decreasing distance order and finished exactly once after its last out-edge, and every "
 "out-edge of an examined vertex is examined exactly once and then reported either relaxed or not relaxed. "
 "An edge is reported relaxed exactly when it lowers the recorded distance of its target at that moment. "
 "During Bellman-Ford, the relaxed/not-relaxed and minimized/not-minimized events agree with the recorded distances in the same way, and observing events never changes the results.",
 ["inputs", "histories"], "all weighted digraphs and source sets; all event histories they induce",
 "Existing tests count events on three fixed graphs; they never check order, pairing or agreement with the distances.",
 ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/bellman_ford_shortest_paths.hpp"],
 [("visitor callbacks around relax", "algorithm/dijkstra_shortest_paths.hpp"),
  ("visitor callbacks around relax", "algorithm/bellman_ford_shortest_paths.hpp")],
 ["visitor callbacks", "the caller's distance array at each callback"])

prop("A03", "Bellman-Ford computes exact distances and detects reachable negative cycles",
 "For every graph with arbitrary (also negative) weights, Bellman-Ford reports a negative cycle exactly when one is reachable "
 "from a source. When none is, distances equal the exact minimum path weights, unreachable vertices stay at the infinite "
 "distance, and predecessors form a tree consistent with the distances. "
 "Edges that leave vertices no source reaches have no influence on any result.",
 ["inputs", "configurations"], "all weighted digraphs with negative weights, source sets, containers",
 FIX + "; no test has a negative edge or cycle in a part that the source does not reach.",
 ["algorithm/bellman_ford_shortest_paths.hpp"],
 [("V-1 relaxation rounds plus detection round", "algorithm/bellman_ford_shortest_paths.hpp")],
 ["return value", "distance and predecessor arrays"])

prop("A04", "The vertices output for a negative cycle form a real negative cycle",
 "Whenever Bellman-Ford reports a negative cycle, the cycle extraction terminates and outputs each vertex of one simple cycle of "
 "the graph exactly once, joined by existing edges along the recorded predecessors, whose total weight is negative. "
 "When no negative cycle was reported it outputs nothing.",
 ["inputs"], "all weighted digraphs with a reachable negative cycle, including ones where the detecting vertex is off the cycle",
 "The tests use graphs in which the detecting vertex lies on the cycle.",
 ["algorithm/bellman_ford_shortest_paths.hpp"],
 [("predecessor walk", "algorithm/bellman_ford_shortest_paths.hpp")],
 ["output iterator contents", "bounded number of steps"])

prop("A05", "BFS visits each reachable vertex once, in hop-distance order, with paired events",
 "Breadth-first search from any set of distinct sources discovers exactly the vertices reachable from them, each exactly once, and examines them in non-decreasing order of hop distance from the nearest source. "
 "Each source is initialised before the search, and each discovered vertex is discovered before it is examined and finished after its last out-edge, and every out-edge of a "
 "reached vertex is examined exactly once, between the examination and the finish of its source.",
 ["inputs", "histories"], "all digraphs, sequences of distinct sources, containers",
 "Tests count events on small fixed graphs; order across levels and event nesting are not asserted.",
 ["algorithm/breadth_first_search.hpp"],
 [("FIFO queue and visited flags", "algorithm/breadth_first_search.hpp")],
 ["visitor callbacks"])

prop("A06", "DFS emits a properly nested trace and classifies every edge correctly",
 "Depth-first search from a source discovers exactly the vertices reachable from it, with properly nested discover and finish events, "
 "and examines each of their out-edges exactly once while the edge's source is the innermost open vertex. "
 "Each edge is classified exactly once: tree when its target is undiscovered at that moment (and the target is then discovered next), back when the target is open "
 "(self-loops included), forward-or-cross when the target is finished. "
 "An edge is finished exactly once, after all descendants reached through it are finished.",
 ["inputs", "histories"], "all digraphs and sources",
 "Tests assert counts of each class on a few graphs and never the nesting.",
 ["algorithm/depth_first_search.hpp"],
 [("explicit stack of edge iterators and vertex colours", "algorithm/depth_first_search.hpp")],
 ["visitor callbacks"])

prop("A07", "Topological sort outputs a valid order exactly when no cycle is reachable",
 "Topological sort succeeds exactly when the subgraph it covers (the whole graph, or what the given sources reach) has no cycle, "
 "self-loops being cycles. On success it outputs every covered vertex exactly once, each before all targets of its out-edges; "
 "on failure it outputs nothing.",
 ["inputs"], "all digraphs; all source sets (none, one, many, repeated, reaching one another)",
 FIX + " and a single cycle shape.",
 ["algorithm/topological_sort.hpp"],
 [("three-colour DFS with reversed post-order", "algorithm/topological_sort.hpp")],
 ["return value", "output iterator contents"])

prop("A08", "Connected components label exactly the undirected connectivity classes",
 "For every graph in which each edge is stored in both directions, connected components gives two vertices the same label exactly when "
 "they are connected. It returns the number of components, and the labels used are exactly 0 up to that number minus one.",
 ["inputs", "configurations"], "all undirected graphs, including isolated vertices, self-loops, parallel edges, every container",
 FIX + ".", ["algorithm/connected_components.hpp"],
 [("stack-based flood fill", "algorithm/connected_components.hpp")],
 ["component array", "return value"])

prop("A09", "Kosaraju labels exactly the strongly connected components",
 "For every directed graph, Kosaraju's algorithm gives two vertices the same label exactly when each reaches the other, and uses exactly "
 "the labels from 0 up to the number of strongly connected components minus one. "
 "The form taking an explicit transpose and the form using incoming edges of a bidirectional graph produce the same partition.",
 ["inputs", "configurations"], "all digraphs; both overloads",
 FIX + "; a wrong finishing order goes unnoticed on them.",
 ["algorithm/connected_components.hpp"],
 [("two-pass DFS over the graph and its transpose", "algorithm/connected_components.hpp")],
 ["component array", "return value"])

prop("A10", "Afforest labels exactly the weakly connected components",
 "For every graph and every choice of neighbour-sampling rounds, Afforest gives two vertices the same label exactly when they lie in the same "
 "component; for a directed graph given with its transpose this means weakly connected components. "
 "Every label is itself the id of a vertex of that component, whatever the order or multiplicity of edges.",
 ["inputs", "configurations"], "all graphs (also empty and edgeless), rounds 0..many, with and without transpose",
 FIX + "; the sampling shortcut that skips the largest component only matters on larger graphs.",
 ["algorithm/connected_components.hpp"],
 [("link / compress / sample frequent element", "algorithm/connected_components.hpp")],
 ["component array"])

prop("A11", "Kruskal outputs a minimum spanning forest with its exact weight and count",
 "For every edge list, Kruskal (both forms) outputs a subset of the input edges that is acyclic, connects exactly what the input connects, and has the minimum total "
 "weight under the given comparison. It returns that total weight together with the number of trees in the forest, counting every id from 0 to the "
 "largest mentioned one as a vertex. The copying form leaves its input unmodified, and neither form reads or writes outside its ranges.",
 ["inputs", "configurations"], "all edge lists (empty, one edge, self-loops, parallel, ties, negative), orders, comparators, both forms",
 FIX + "; the vertex with the largest id is always found by them in a lucky position.",
 ["algorithm/mst.hpp"], [("sort plus disjoint set union", "algorithm/mst.hpp")],
 ["output edge container", "returned pair", "AddressSanitizer"])

prop("A12", "Prim builds a minimum spanning tree of the seed's component",
 "For every undirected weighted graph and seed, Prim's predecessor array describes a spanning tree of the seed's component, whose edges exist in the graph "
 "with exactly the weights recorded per vertex, and whose total weight is minimal under the given comparison (maximal for a reversed one). "
 "The returned total equals the sum of those weights, and vertices outside the seed's component keep their initial predecessor and get the initial distance as weight.",
 ["inputs", "configurations"], "all undirected weighted graphs (also disconnected, negative, ties), seeds, comparators",
 FIX + " and accept any spanning tree whose total happens to match.",
 ["algorithm/mst.hpp"], [("priority-driven growth of the tree", "algorithm/mst.hpp")],
 ["predecessor and weight arrays", "return value"])

prop("A13", "Articulation points are exactly the cut vertices, each output once",
 "For every undirected graph (each edge stored in both directions), also with parallel edges, self-loops and several components, the articulation-point "
 "algorithm outputs a vertex exactly when deleting it increases the number of connected components, and outputs it exactly once.",
 ["inputs", "configurations"], "all undirected multigraphs, containers",
 FIX + "; parallel edges and deep trees are barely covered.",
 ["algorithm/articulation_points.hpp"], [("iterative low-link DFS", "algorithm/articulation_points.hpp")],
 ["output iterator contents"])

prop("A14", "Biconnected components partition the edges into maximal 2-connected blocks",
 "For every undirected graph the output components are exactly the vertex sets of its biconnected components: each non-loop edge has both ends in exactly one component, "
 "each isolated vertex (also one with only self-loops) forms a component of its own, and no component repeats a vertex. "
 "Two components share at most one vertex, and the vertices in more than one component are exactly the articulation points.",
 ["inputs", "configurations"], "all undirected multigraphs, containers",
 FIX + ".", ["algorithm/biconnected_components.hpp"],
 [("iterative low-link DFS with edge stack", "algorithm/biconnected_components.hpp")],
 ["output container contents"])

prop("A15", "Triangle counting is exact",
 "For every undirected graph (each edge stored in both directions) whose adjacency is sorted by target id and has no parallel edges, the triangle count equals the number of vertex "
 "triples that are pairwise adjacent. Parallel edges only add to that count, and never create one from nothing; self-loops never contribute, and without parallel edges the result does not depend on vertex numbering.",
 ["inputs", "configurations"], "all undirected graphs with ordered adjacency; all vertex relabellings",
 FIX + ".", ["algorithm/tc.hpp"], [("merge-style sorted intersection", "algorithm/tc.hpp")],
 ["return value"])

prop("A16", "Jaccard coefficients are exact and emitted once per directed edge",
 "For every graph the Jaccard algorithm calls its output once for each stored non-loop edge, in no other case, with the edge's own source, target and descriptor. "
 "The coefficient is the size of the intersection of the two vertices' neighbour sets divided by the size of their union, so it lies in [0,1] and is equal for both directions of an undirected edge.",
 ["inputs", "configurations"], "all graphs, containers, value types",
 FIX + ".", ["algorithm/jaccard.hpp"], [("neighbour sets and intersection", "algorithm/jaccard.hpp")],
 ["output callback arguments"])

prop("A17", "Label propagation only adopts plurality neighbour labels and stops at a fixpoint",
 "In every run, each label change gives a vertex a label that is at that moment among the most frequent labels of its neighbours (parallel edges and self-loops counted), never the "
 "empty label, and vertices without voting neighbours keep theirs. A run that returns before its iteration limit leaves every vertex holding a most frequent neighbour label; "
 "each pass up to the limit considers every vertex once in an order drawn from the generator, ties are broken at random by it, a limit of zero changes nothing, and equal seeds give equal results.",
 ["inputs", "histories"], "all graphs, initial labellings, iteration limits, random seeds",
 "Tests check final labels of a few graphs; they cannot see intermediate writes.",
 ["algorithm/label_propagation.hpp"], [("shuffled sweeps and random tie-breaking", "algorithm/label_propagation.hpp")],
 ["every write to the caller's label storage (recorded by a proxy value type)", "final labels"])

prop("A18", "Maximal independent set is independent, maximal and correctly counted",
 "For every undirected graph and seed, no two output vertices are adjacent, every vertex not output and without a self-loop has an output neighbour, and vertices with self-loops are never output. "
 "Each vertex is output at most once, the seed (when valid and loop-free) is always output, and the returned count equals the number of vertices output.",
 ["inputs", "configurations"], "all undirected graphs, seeds",
 FIX + ".", ["algorithm/mis.hpp"], [("greedy removal of neighbours", "algorithm/mis.hpp")],
 ["output iterator contents", "return value"])

prop("A19", "Invalid arguments raise the documented exception before any harm is done",
 "Every algorithm that documents an exception for a source out of range, an undersized output array or a negative Dijkstra weight throws exactly that exception, "
 "for every out-of-range value and every undersized length, and does not read or write outside the caller's arrays. "
 "With valid arguments, also the smallest ones that are allowed, it does not throw.",
 ["inputs"], "all invalid and boundary arguments of all algorithms with documented exceptions",
 "Tests try one invalid value per algorithm without bounds instrumentation.",
 ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/bellman_ford_shortest_paths.hpp", "algorithm/mst.hpp"],
 [("argument checks at entry", "algorithm/dijkstra_shortest_paths.hpp"),
  ("argument checks at entry", "algorithm/bellman_ford_shortest_paths.hpp"),
  ("argument checks at entry", "algorithm/mst.hpp")],
 ["exceptions", "AddressSanitizer", "canaries round the arrays"])

prop("A20", "Algorithms give the same answers on every container and never modify the graph",
 "The same abstract graph, held in any of the supported containers, in plain standard-library ranges, or in a user-written graph type adapted through the customisation points, yields the same result from every algorithm that accepts it whenever the result is "
 "uniquely determined, and an equally valid one otherwise. No algorithm modifies the graph it is given.",
 ["inputs", "configurations"], "all graphs x all container kinds x all algorithms",
 "Tests run most algorithms on one or two containers and never compare.",
 ["algorithms.hpp", "adj_list/detail/graph_cpo.hpp", "container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp"],
 [("customisation points resolved per container", "adj_list/detail/graph_cpo.hpp")],
 ["algorithm results", "full graph snapshot before and after"])

prop("A21", "Path length never exhausts the call stack",
 "On graphs with very long paths, cycles or stars, every algorithm and every search view completes with the correct result in a small fixed amount of call-stack space, independent of the depth of the graph.",
 ["inputs"], "all deep graphs (paths, cycles, combs, stars of 10^5 and more vertices)",
 "Tests use graphs of at most a few thousand vertices under the default 8 MB stack.",
 ["algorithm/depth_first_search.hpp", "algorithm/topological_sort.hpp", "algorithm/articulation_points.hpp", "algorithm/biconnected_components.hpp",
  "algorithm/connected_components.hpp", "views/dfs.hpp", "views/topological_sort.hpp"],
 [("explicit stacks instead of recursion", "algorithm/depth_first_search.hpp"), ("topological order computation", "views/topological_sort.hpp")],
 ["completion in a thread with a small fixed stack", "results"])

prop("A22", "Work stays within the documented complexity",
 "The number of adjacency steps an algorithm makes stays within its documented complexity: linear in vertices plus edges for the traversals and linear component algorithms (each edge looked at a constant "
 "number of times), V times E for Bellman-Ford, and for Dijkstra each out-edge is looked at a constant number of times, with at most E + V queue entries. "
 "Views, vertex lookups in index-based graphs, loading and copying cost time and memory proportional to what they deliver. "
 "This holds on adversarial inputs such as stars, complete graphs and graphs built to force repeated improvement.",
 ["inputs"], "all graphs, in particular families built to trigger the worst case",
 "Unit tests pass whatever the running time; a quadratic rescan is invisible to them.",
 ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/breadth_first_search.hpp", "algorithm/depth_first_search.hpp", "algorithm/articulation_points.hpp",
  "algorithm/biconnected_components.hpp", "algorithm/connected_components.hpp", "algorithm/topological_sort.hpp", "algorithm/bellman_ford_shortest_paths.hpp"],
 [("each adjacency range is walked once", "algorithm/depth_first_search.hpp")],
 ["basic blocks executed, bytes allocated, weight-function calls"])

# ------------------------------------------------------------------ views
prop("V01", "The vertex-list view enumerates every vertex exactly once, in order",
 "For every graph, the vertex-list view yields each vertex exactly once in the graph's own vertex order, with its id, its descriptor and the value the caller's function returns for it, in the full and the basic form and for sub-ranges. "
 "Its size and emptiness agree with what iteration yields, and its iterators can be copied, compared and traversed again with the same outcome.",
 ["inputs", "configurations"], "all graphs, containers, view variants, value functions, sub-ranges",
 "Tests cover a handful of graphs of up to five vertices.",
 ["views/vertexlist.hpp"], [("vertex-list iterators", "views/vertexlist.hpp")], ["view elements"])

prop("V02", "Incidence and neighbour views mirror a vertex's adjacency exactly",
 "For every graph and vertex, the incidence view yields exactly that vertex's out-edges and the neighbour view exactly their targets, in adjacency order with multiplicity, with the right target ids, descriptors and "
 "value-function results, in full and basic forms, for vertex descriptors and ids. Sizes and emptiness agree with iteration, and the views can be traversed repeatedly with the same outcome.",
 ["inputs", "configurations"], "all graphs, containers, vertices, view variants, value functions",
 "Tests cover a handful of small graphs.",
 ["views/incidence.hpp", "views/neighbors.hpp"], [("view iterators", "views/incidence.hpp"), ("view iterators", "views/neighbors.hpp")], ["view elements"])

prop("V03", "The edge-list view flattens all adjacency into exactly the stored edges",
 "For every graph, the edge-list view yields every stored edge exactly once with the right source id, target id, descriptor and value-function result, grouped by source in vertex order and in adjacency order within a source, "
 "skipping vertices without edges wherever they occur; where it reports a size, that is the number of edges it yields. For an undirected graph, each edge is yielded from each of its two endpoints. The same holds for the basic form and for edge lists given as plain ranges of edges.",
 ["inputs", "configurations"], "all graphs incl. runs of empty vertices at the start, middle and end; all containers and variants",
 "Tests cover a handful of small graphs.",
 ["views/edgelist.hpp"], [("flattening iterator", "views/edgelist.hpp")], ["view elements"])

prop("V04", "Incoming-edge views and the transpose view are exact duals of outgoing ones",
 "For every directed bidirectional graph, and for undirected graphs where incoming and outgoing edges are the same, the incoming edge ranges, incidence and neighbour views yield exactly the stored edges seen from their targets, with right source ids and values. "
 "The transpose view of a directed bidirectional graph behaves as the graph with every edge reversed, also for sizes and for algorithms run on it, and transposing twice gives back the original edges.",
 ["inputs", "configurations"], "all bidirectional graphs, containers and view variants",
 "Tests cover a handful of small graphs.",
 ["views/transpose.hpp", "views/edge_accessor.hpp", "views/incidence.hpp", "views/neighbors.hpp", "views/edgelist.hpp"],
 [("edge accessor abstraction", "views/edge_accessor.hpp"), ("transpose adaptor", "views/transpose.hpp")], ["view elements", "algorithm results on the transpose"])

prop("V05", "DFS views enumerate the reachable part of the graph in depth-first order",
 "For every graph and seed, the DFS vertex view yields the seed first and every other reachable vertex exactly once, each a neighbour of the deepest vertex of the current search path that still has an unvisited neighbour; the DFS edge view yields exactly the tree edges of the same search in the same order. "
 "The reported depth is the number of vertices on the current search path (one at the seed), the reported number visited counts the vertices or edges reached after the seed, and value functions are applied to the yielded vertex or edge. The same holds for the reverse forms, which follow incoming edges.",
 ["inputs", "configurations", "histories"], "all graphs, seeds, containers, view variants",
 "Tests cover a handful of small graphs.",
 ["views/dfs.hpp", "views/search_base.hpp"], [("shared DFS state and explicit stack", "views/dfs.hpp")], ["view elements", "depth and visit counters at each step"])

prop("V06", "BFS views enumerate the reachable part of the graph in breadth-first order",
 "For every graph and seed, the BFS vertex view yields every reachable vertex exactly once in non-decreasing hop distance from the seed, and the BFS edge view yields exactly one discovering edge per reached non-seed vertex, in an order consistent with the same search. "
 "The reported depth is the greatest hop distance reached so far: that of the far end for the edge view, and for the vertex view that of the current vertex or one more, ending at the largest hop distance. Value functions are applied to the yielded vertex or edge, and the same holds for the reverse forms, which follow incoming edges.",
 ["inputs", "configurations", "histories"], "all graphs, seeds, containers, view variants",
 "Tests cover a handful of small graphs.",
 ["views/bfs.hpp", "views/search_base.hpp"], [("shared BFS state and queue", "views/bfs.hpp")], ["view elements", "depth and visit counters at each step"])

prop("V07", "Topological views yield valid orders and report cycles safely",
 "For every acyclic graph, the topological vertex view yields every vertex exactly once, before all targets of its out-edges, and the topological edge view yields every edge exactly once with sources in that order. "
 "For every graph, the checked forms return an error naming a vertex that lies on a cycle exactly when the graph has one, and otherwise the same elements as the unchecked forms. The reported size and count visited agree with iteration, iterators can be copied and walked again, and cancelling ends the traversal at once.",
 ["inputs", "configurations"], "all digraphs, containers, view variants",
 "Tests cover a handful of small graphs.",
 ["views/topological_sort.hpp"], [("DFS post-order and cycle detection", "views/topological_sort.hpp")], ["view elements", "expected/unexpected result"])

prop("V08", "Cancelling a search view prunes exactly what was asked",
 "For every graph, seed and point of the traversal, cancelling everything makes the DFS or BFS view end at the next step without yielding anything more. "
 "Cancelling a branch makes the view yield exactly what a search yields that does not explore the out-edges of the current vertex; vertices reachable another way are still yielded exactly once.",
 ["inputs", "histories"], "all graphs, seeds, sequences of cancellation points for all four DFS/BFS views",
 "Tests cancel at one point on one small tree.",
 ["views/dfs.hpp", "views/bfs.hpp", "views/search_base.hpp"], [("cancellation flags", "views/search_base.hpp")], ["view elements after cancel"])

prop("V09", "Pipe adaptors are equivalent to the direct view calls and compose with std views",
 "For every graph and arguments, piping a graph into a view adaptor yields the same sequence as calling the view function with the same arguments, also with value functions, seeds and further standard range adaptors behind it. "
 "Views over named graphs reference the graph without copying it, and adaptor objects can be stored and reused.",
 ["inputs", "configurations"], "all adaptors x argument forms x graphs",
 "Tests pipe one or two graphs through each adaptor.",
 ["views/adaptors.hpp", "views.hpp"], [("adaptor closures", "views/adaptors.hpp")], ["view elements"])

# ------------------------------------------------------------------ containers
prop("C01", "A dynamic graph holds exactly the vertices and edges that were loaded",
 "For every vertex/edge container combination and every sequence of edges (in initialiser lists, ranges with projections, with or without vertex data), a dynamic graph afterwards contains exactly the vertices implied or loaded and, per source, exactly the loaded edges with their targets and values: "
 "duplicates kept by sequence edge containers and kept once per target by set and map ones, in insertion order for appending containers. "
 "Lookups by id, degrees, vertex, edge and graph values all agree with that content, the edge total is the number of edges loaded, and the caller's input ranges are not modified unless given up as rvalues.",
 ["inputs", "configurations", "histories"], "all edge sequences, load orders and repeated loads x all 27 supplied container trait combinations x value types",
 "Tests check each trait on hand-written lists of a few edges.",
 ["container/dynamic_graph.hpp", "container/container_utility.hpp", "container/traits/vov_graph_traits.hpp"],
 [("load_vertices / load_edges", "container/dynamic_graph.hpp"), ("container insertion helpers", "container/container_utility.hpp")],
 ["public CPOs over the graph"])

prop("C02", "Bidirectional graphs keep incoming and outgoing edges mutually consistent",
 "In a bidirectional dynamic graph, after every history of loads, copies, moves and clears, the multiset of (source, target, value) seen through outgoing edges equals the one seen through incoming edges, and degrees agree with it. "
 "Copies are independent: each side refers only to its own edges.",
 ["inputs", "configurations", "histories"], "all operation histories on bidirectional graphs",
 "Tests check fixed small graphs after one load.",
 ["container/dynamic_graph.hpp"], [("incoming-edge insertion during load", "container/dynamic_graph.hpp")], ["out_edges/in_edges CPOs"])

prop("C03", "Containers copy, move, swap, clear and assign as regular values",
 "For every graph container and content, a copy equals the original and is unaffected by later changes to it, moving transfers the content without leak or double free and leaves the source assignable, clearable and refillable, and clearing leaves a graph that has no vertices and no edges and can be filled again. "
 "Self-assignment and assignment over non-empty targets are safe.",
 ["inputs", "histories", "configurations"], "all contents x histories of copy/move/swap/clear/assign/reload x containers",
 "Tests do one copy or move per container without leak or lifetime instrumentation.",
 ["container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp"],
 [("special members and clear", "container/dynamic_graph.hpp"), ("special members and clear", "container/compressed_graph.hpp"), ("special members and clear", "container/detail/undirected_adjacency_list_impl.hpp")],
 ["public CPOs", "AddressSanitizer/LeakSanitizer", "instance-counting value types"])

prop("C04", "A compressed graph represents exactly the edges it was loaded with",
 "For every source-ordered edge sequence and every combination of value types, a compressed graph afterwards has exactly the vertices implied by its edges or loaded explicitly, and per vertex exactly the loaded edges, in order, with their targets and values. "
 "Every vertex, including ones without edges at the start, in the middle and at the end, has the right degree and edge range; totals agree with the sums; vertex, edge and graph values are those given (default ones where none was given), whichever of vertices and edges is loaded first.",
 ["inputs", "configurations", "histories"], "all sorted edge sequences, gaps, vertex loads of any length, value and index types",
 "Tests use a few dense graphs and rarely have trailing or leading isolated vertices.",
 ["container/compressed_graph.hpp"], [("row and column index construction", "container/compressed_graph.hpp")], ["public CPOs"])

prop("C05", "Multi-partite compressed graphs assign every vertex to its declared partition",
 "For every strictly increasing list of partition start ids, beginning at zero, given to a compressed graph, every vertex belongs to exactly one partition, the partition whose declared half-open id range contains it; the number of partitions is the number declared, and the vertices listed for the partitions concatenate to all vertices in order.",
 ["inputs"], "all strictly increasing partition start lists (also none) x graphs",
 "Tests use two or three fixed partitionings.",
 ["container/compressed_graph.hpp"], [("partition table", "container/compressed_graph.hpp")], ["partition CPOs"])

prop("C06", "An undirected graph stays consistent through every history of edits",
 "After every history of vertex creation, edge creation, edge erasure and clearing, an undirected adjacency list shows each live edge from both endpoints (a self-loop once from its only endpoint), with the same value from either side, and shows nothing else. "
 "Degrees, edge counts, lookups and iteration in both directions agree with that content, and no operation touches freed memory or leaks.",
 ["histories", "inputs"], "all sequences of create/erase/clear/iterate on undirected graphs with parallel edges and self-loops",
 "Tests run short fixed sequences without memory instrumentation.",
 ["container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp", "container/detail/undirected_adjacency_list_api.hpp"],
 [("edge linked into two lists", "container/detail/undirected_adjacency_list_impl.hpp")], ["public API and CPOs", "AddressSanitizer"])

prop("C07", "Copies and moves of an undirected graph preserve every edge",
 "Copying or moving an undirected adjacency list, by construction or assignment, over empty and non-empty targets, yields the same vertices, edges and values as the original, whatever the order in which an edge's endpoints were given. "
 "Copies are independent of the original, moved-from graphs are empty and reusable, and nothing leaks or is freed twice.",
 ["histories", "inputs"], "all contents (edges created in either endpoint order, self-loops, parallel edges) x copy/move histories",
 "Tests copy graphs whose edges all go from the lower to the higher id.",
 ["container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp"],
 [("copy and move members", "container/detail/undirected_adjacency_list_impl.hpp")], ["public CPOs", "AddressSanitizer/LeakSanitizer"])

prop("C08", "Containers keep their memory in the caller's allocator and return all of it",
 "A container that is constructed with an allocator takes all the memory it keeps, for vertices, edges, values and bookkeeping, from that allocator, whichever constructor and whichever loading or editing operation filled it: nothing stays on the global heap or in a default-constructed allocator. "
 "Every block goes back, with its size, to the allocator it came from, and none is left once the container is gone. "
 "Copies take their allocator from select_on_container_copy_construction, copy assignment of compressed and undirected graphs keeps the target's own allocator exactly when the allocator does not propagate, and contents survive copying, moving, assigning and exchanging whichever allocators are involved.",
 ["histories", "inputs", "configurations"], "all contents x constructors x load/edit/copy/move/assign/swap histories x stateful allocators with each propagation policy",
 "Tests use std::allocator only, with which every wrong allocator is as good as the right one.",
 ["container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp"],
 [("allocator parameters of constructors and copy/move members", "container/dynamic_graph.hpp")], ["public constructors and members", "allocator interface", "operator new/delete"])

# ------------------------------------------------------------------ cross-cutting
prop("K01", "Graph customisation points agree with one another on every graph type",
 "For every supported graph representation, the vertex count equals the length of the vertex range, looking a vertex up by its id returns that vertex and its id, degree equals the length of the edge range, and the target and source of an edge agree with its ids. "
 "Edge lookup and the contains-edge test say yes exactly when such an edge is stored, edge totals equal the sum of the degrees where the container keeps every edge, and edge and vertex values read through the customisation points are those stored.",
 ["inputs", "configurations"], "all graphs x all containers and plain standard ranges",
 "Tests check each customisation point in isolation on small fixtures.",
 ["adj_list/detail/graph_cpo.hpp", "detail/edge_cpo.hpp", "graph.hpp"],
 [("customisation point resolution", "adj_list/detail/graph_cpo.hpp"), ("edge customisation points", "detail/edge_cpo.hpp")], ["CPO results"])

prop("K02", "Descriptors obey equality, ordering, hashing and iteration laws",
 "Vertex and edge descriptors of every graph compare equal exactly when they denote the same vertex or edge, equal descriptors hash equally, their ordering is a strict total order consistent with iteration order for index-based ones, and they stay usable as keys. "
 "Descriptor views iterate every element exactly once, in the same order on every pass, and incrementing commutes with copying.",
 ["inputs", "configurations"], "all graphs and pairs/triples of descriptors x containers",
 "Tests compare a few fixed descriptors.",
 ["adj_list/vertex_descriptor.hpp", "adj_list/edge_descriptor.hpp", "adj_list/vertex_descriptor_view.hpp", "adj_list/edge_descriptor_view.hpp"],
 [("comparison and hash", "adj_list/vertex_descriptor.hpp"), ("comparison and hash", "adj_list/edge_descriptor.hpp")], ["descriptor operations"])

prop("K03", "Edge-list elements of every shape expose the right source, target and value",
 "For every accepted element shape of an edge list (pairs, tuples, edge records with and without values, descriptors) and every edge range, reading source id, target id and value returns exactly what was stored. "
 "An edge list can be iterated repeatedly, over const and non-const ranges, without copying or modifying elements. Descriptors of edge-list edges compare equal exactly when source, target and value are equal, and are ordered lexicographically by source, target and value.",
 ["inputs", "configurations"], "all edge sequences x element shapes x value types",
 "Tests check a few fixed elements per shape.",
 ["edge_list/edge_list.hpp", "edge_list/edge_list_descriptor.hpp", "detail/edge_cpo.hpp", "graph_data.hpp"],
 [("edge customisation points", "detail/edge_cpo.hpp")], ["CPO results"])

prop("K04", "Concurrent readers of one graph never race",
 "Any number of threads may at the same time run read-only operations, views and algorithms with separate outputs on the same unmodified graph, of any container, without data races, and each thread obtains the result it would obtain alone.",
 ["schedules", "configurations"], "all interleavings of concurrent read-only use",
 "All tests are single-threaded.",
 ["adj_list/detail/graph_cpo.hpp", "algorithms.hpp", "views.hpp", "container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp"],
 [("no hidden shared mutable state", "algorithms.hpp")], ["ThreadSanitizer", "per-thread results"])

prop("K05", "Exceptions from memory exhaustion or user code leave everything destructible",
 "When an allocation, a value's copy or a user callback throws at any point inside a container operation, view or algorithm, the exception reaches the caller, the graph being read is unchanged, the container being filled can still be inspected, cleared, refilled and destroyed, and nothing leaks or is freed twice.",
 ["fault_sequences", "inputs"], "every allocation/callback failure point of a set of operations x contents",
 "No test injects faults.",
 ["container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/detail/undirected_adjacency_list_impl.hpp", "algorithms.hpp"],
 [("RAII ownership", "container/dynamic_graph.hpp"), ("edge allocation and linking", "container/detail/undirected_adjacency_list_impl.hpp")], ["exception type", "AddressSanitizer/LeakSanitizer", "instance counts"])

prop("K06", "A graph type's own customisations are used, with the documented precedence",
 "For every graph customisation point, a graph type's member function is used when it provides one, otherwise a free function found by argument-dependent lookup, otherwise the documented default; exactly one provision runs, once, with the caller's arguments, and no other. "
 "What it returns reaches the caller unchanged, including whether it is a reference, and nothing returned refers to an object that no longer exists. Defaults follow from the functions the type does provide.",
 ["configurations", "inputs"], "all customisation points x forms x provisions (member, free function, both, neither, mixtures) x graphs",
 "Tests check a few points on one type each, never mixtures, and never that other provisions stay unused.",
 ["adj_list/detail/graph_cpo.hpp", "detail/edge_cpo.hpp"],
 [("choice of strategy per customisation point", "adj_list/detail/graph_cpo.hpp"), ("choice of strategy for edge ids and values", "detail/edge_cpo.hpp")], ["log of which user function ran", "returned values", "AddressSanitizer"])

prop("K07", "Results do not depend on how the library was compiled",
 "The same program with the same inputs gets the same results from every operation - return values, outputs, order of visits, exceptions and what they leave behind - whether assertions are compiled in or out (NDEBUG), at every optimisation level, with g++ or clang, with the standard library's debug checks on or off, with signed or unsigned char, and whatever uninitialised memory happens to contain. "
 "Assertions and debug-only code have no effect on valid calls, and refusals documented as exceptions happen in every build.",
 ["configurations", "inputs"], "build configurations x representations x read-only operations, container histories and refused calls",
 "The tests are built and run in one configuration (-O0, assertions on, one compiler); release builds of users execute different code.",
 ["container/compressed_graph.hpp", "container/dynamic_graph.hpp", "container/undirected_adjacency_list.hpp", "algorithm/", "views/"],
 [("debug-only statements in loading", "container/compressed_graph.hpp"), ("assertions around edge links", "container/detail/undirected_adjacency_list_impl.hpp"), ("assertion on the seed", "algorithm/mis.hpp")], ["records of every case compared between builds", "crashes in one build only"])

prop("C09", "Iterators, pointers and descriptors survive the edits documented to keep them",
 "In undirected_adjacency_list, graph-wide and per-vertex edge iterators, neighbour iterators, edge pointers and edge descriptors stay valid across create_vertex, create_edge and the erasure of other edges, and vertex iterators across create_edge and erase_edge and across create_vertex that does not reallocate: each still denotes the same edge, neighbour or vertex, and stepping on or back from it gives exactly the edges that are there now. "
 "What erase_edge and create_edge return is such an iterator, at the documented position. Iterators can be copied, assigned and swapped without changing what they denote. In the other containers a vertex descriptor keeps denoting its vertex across loads that add edges and vertices.",
 ["histories", "inputs", "configurations"], "all edit histories x kinds of kept handle x id types and vertex containers",
 "Tests never keep an iterator across an edit that reallocates, and never swap iterators.",
 ["container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp", "container/dynamic_graph.hpp", "adj_list/vertex_descriptor.hpp"],
 [("position kept by a graph-wide edge iterator", "container/undirected_adjacency_list.hpp"), ("links and iterator steps", "container/detail/undirected_adjacency_list_impl.hpp")], ["what each kept handle denotes after every edit", "walks on and back from it", "AddressSanitizer"])

prop("K08", "Single operations cost what their documentation states",
 "Every customisation point, view factory, container edit and whole-container operation takes the time its documentation states in terms of the vertices, edges and degrees of the graph: constant for vertex lookup by index, values, ids, counts, view creation, swap and move, and undirected edge insertion and erasure; logarithmic or constant for lookups in map, set and hashed containers, of vertices and of edges; at most the degree for other edge searches, wherever in the graph they happen. "
 "Loading a batch costs the size of the batch, not of the graph it is added to. Views and searches hold no more memory at any moment than documented: nothing for basic views, O(V) for traversals, shortest paths, spanning trees and components, O(V + E) for Jaccard, however many edges there are.",
 ["inputs", "configurations"], "operations x 26 representations x hub or ordinary vertex x graph sizes",
 "Tests use graphs of a handful of vertices, in which a linear scan and a constant-time lookup cannot be told apart.",
 ["adj_list/detail/graph_cpo.hpp", "adj_list/edge_descriptor_view.hpp", "container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp", "views/", "algorithm/"],
 [("size of an edge range", "adj_list/edge_descriptor_view.hpp"), ("edge lookup and batch loading", "container/dynamic_graph.hpp"), ("linking and unlinking of edges", "container/detail/undirected_adjacency_list_impl.hpp"), ("queue entries kept", "algorithm/dijkstra_shortest_paths.hpp")], ["basic blocks entered (trace-pc)", "bytes moved", "allocations and peak bytes held"])

prop("K09", "A descriptor's accessors give the stored element itself",
 "underlying_value, inner_value, edge_value, target_id and source_id of a vertex or edge descriptor, and the values views pass on, refer to the very element stored in the container: the same address on every path, through const and non-const graphs, and a write through one is what the container and every other accessor then holds. "
 "What each returns depends only on the kind of element, as documented: an integral edge is its own target, a pair's inner value is its second part, a tuple's everything after the first, a structure itself; for a vertex kept in a map the mapped value, in a sequence the element. The same holds for every nesting of standard containers and for vertices that are objects with edges() or in_edges().",
 ["inputs", "configurations"], "nestings of vertex and edge containers x element kinds x const-ness x positions",
 "Tests compare values on two or three nestings; a copy returned in place of the element compares equal until somebody writes.",
 ["adj_list/edge_descriptor.hpp", "adj_list/vertex_descriptor.hpp", "adj_list/detail/graph_cpo.hpp", "adj_list/edge_descriptor_view.hpp", "container/"],
 [("inner_value and underlying_value of edges", "adj_list/edge_descriptor.hpp"), ("inner_value of vertices", "adj_list/vertex_descriptor.hpp"), ("edge_value defaults", "adj_list/detail/graph_cpo.hpp")], ["addresses returned by each accessor", "the container after each write", "AddressSanitizer"])

prop("K10", "Graphs as large as their id type allows work like small ones",
 "A graph may have as many vertices as its vertex id type can count (255 with 8-bit ids, 127 signed, 65535, 32767) and a compressed_graph as many edges as its index type can: building it in one batch or several, by constructors, by growing, copying, moving, swapping and editing, reading it, every view and every algorithm give what they give on the same graph with 32-bit ids. "
 "Neither a count nor an id wraps, and arrays of the id type passed to an algorithm are filled with the same ids.",
 ["inputs", "configurations"], "id and index types at capacity x 11 representations x ways of building x views and algorithms",
 "Tests use a handful of vertices with 32- or 64-bit ids; no graph of theirs comes near the end of its id type.",
 ["container/dynamic_graph.hpp", "container/compressed_graph.hpp", "container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp", "views/", "algorithm/"],
 [("rows and row index", "container/compressed_graph.hpp"), ("growing to the largest id of a batch", "container/dynamic_graph.hpp"), ("copying vertex by vertex", "container/detail/undirected_adjacency_list_impl.hpp")], ["digest of everything readable", "results of views and algorithms on the narrow and the wide graph", "AddressSanitizer/UBSan"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
