"""Writes /verif/properties.jsonl (kept as code so that statements and anchors stay reviewable)."""
import json, os
P = []
D = "engine/src/datastr/"
A = "engine/src/algo/"


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None},
        }
    )


p("C01", "The indexed priority queue always hands out a minimum and never loses entries",
  "After any sequence of inserts, key decreases, key increases, key updates, pops and clears, popping returns an entry whose key is minimal among all entries currently held and removes exactly that entry. Looking an entry up by its id returns exactly the entry most recently stored for that id, and an id is reported as contained exactly while its entry is held. No operation changes any entry it was not asked to change.",
  ["histories", "inputs"], "every history of operations on queues of every capacity, with every pattern of equal and distinct keys",
  "The tests push a few elements in one order; the heap order and the id-to-position map must survive every history, including ties and 4-ary subtrees that are only partly filled.",
  [D + "index_heap.rs"],
  [("heap order + position map invariant", D + "index_heap.rs: push, pop, decrease_key, increase_key, update_key, clear, move_up_in_tree, move_down_in_tree"), ("hole optimisation", D + "index_heap.rs: Hole")],
  ["pop/peek/get/contains_index results"])
p("C02", "Resettable containers read as freshly created after every reset",
  "A resettable vector or bit set returns, for every position, the value most recently written to that position since the last reset, and its default if there was none. This holds for every number of resets, also when the internal reset counter wraps around, and writing one position never changes another.",
  ["histories"], "every history of writes, in-place updates and resets, including more than 2^32 resets",
  "Stale entries only reappear after a counter wrap-around or a particular interleaving of writes and resets which no test performs.",
  [D + "timestamped_vector.rs", D + "clearlist_vector.rs", D + "rank_select_map.rs"],
  [("timestamps with manual clearing on overflow", D + "timestamped_vector.rs: TimestampedVector, AtomicDists"), ("clear list", D + "clearlist_vector.rs; " + D + "rank_select_map.rs: FastClearBitVec")],
  ["values read by index/get"])
p("C03", "Bit vector and rank/select maps form an exact order-preserving dense numbering",
  "Setting or clearing a bit changes that bit only and counting reports exactly the number of set bits. The rank map built from a bit set assigns to the set positions the consecutive local ids 0, 1, 2, ... in increasing order, reports nothing for other positions, and its inverse maps every local id back to its position.",
  ["inputs", "histories"], "every size and every pattern of set bits, including sizes that are not a multiple of the machine word or cache line",
  "Tests use two fixed patterns; word, cache-line and 256-entry group boundaries each have their own index arithmetic.",
  [D + "rank_select_map.rs"],
  [("bit addressing", D + "rank_select_map.rs: BitVec"), ("prefix sums", D + "rank_select_map.rs: RankSelectMap::compile/at/get/at_or_next_lower"), ("select", D + "rank_select_map.rs: InvertableRankSelectMap::new/inverse/block_local_index/int_local_index")],
  ["at/get/at_or_next_lower/len/inverse"])
p("C04", "Node orders are bijections: rank and node lookups are mutually inverse",
  "A node order built from an order vector or from a rank vector that is a permutation gives, for every node, the rank under which that node is listed, and for every rank the node having it; the two lookups are inverse to each other. Building from ranks and from the corresponding order gives the same mapping.",
  ["inputs"], "every permutation of every length",
  "A swapped direction is invisible on involutions and small symmetric examples.",
  [D + "node_order.rs"],
  [("inverse permutation computed on construction", D + "node_order.rs: from_node_order, from_ranks, identity"), ("lookups", D + "node_order.rs: rank, node")],
  ["rank/node/order/ranks"])
p("C05", "Space-free optional values never confuse a stored value with absence",
  "An optional value created from a present in-range value reads back as exactly that value, and one created as absent reads back as absent. Attempting to store the reserved marker value is rejected instead of silently turning into absence.",
  ["inputs"], "every value of every supported element type",
  "The marker is a single value of a 32 or 64 bit domain.",
  ["engine/src/util/in_range_option.rs"],
  [("sentinel comparison", "engine/src/util/in_range_option.rs: some, new, value")],
  ["value()"])
p("C06", "Reversing and rebuilding graphs keeps exactly the same arcs",
  "Building a graph from adjacency lists or from an unsorted link list, and reversing a graph, yields exactly the arcs of the input: every arc from u to v with a weight becomes exactly one arc (from v to u when reversed) with the same weight, and nothing is added. Where original arc ids are carried along, each reversed arc names the arc it came from.",
  ["inputs"], "every multigraph, including empty nodes, self loops and parallel arcs",
  "Index arithmetic on offset arrays goes wrong at empty or trailing nodes and with parallel arcs, which the sampled graphs do not contain.",
  [D + "graph/first_out_graph.rs", D + "graph.rs"],
  [("counting sort into offset arrays", D + "graph/first_out_graph.rs: reversed variants, from_adjancecy_lists, degrees_to_first_out"), ("offset validation", D + "graph/first_out_graph.rs: new")],
  ["num_nodes/num_arcs/link_iter/degree"])
p("C07", "Relabelling, splitting and deduplicating graphs preserve arcs and shortest arcs",
  "Permuting a graph by a node order, with a filter, yields exactly the accepted arcs with both ends renamed to their ranks and the links of every node ordered by their new head; splitting by rank puts every arc into exactly one part: the upward graph at its tail if its head ranks higher, otherwise the downward graph at its head. Unifying parallel arcs gives every arc the smallest weight among all arcs with the same tail and head (at most infinity) and changes nothing else. The line graph has one node per arc and exactly one link for every allowed turn, weighted with the weight of the arc left plus the turn cost.",
  ["inputs"], "every multigraph, node order and filter",
  "Each transformation is only exercised implicitly on one test graph.",
  [D + "graph.rs", D + "graph/first_out_graph.rs"],
  [("permutated_filtered", D + "graph/first_out_graph.rs"), ("ch_split", D + "graph.rs"), ("unify_parallel_edges", D + "graph.rs"), ("line_graph", D + "graph.rs")],
  ["resulting arc multisets"])
p("C08", "Every arc id maps to its tail node",
  "For every arc id of a graph, the arc-to-tail lookup returns the node whose outgoing arcs contain that id, for both the compact mapper and the binary search on the offset array.",
  ["inputs"], "every offset array, including nodes without arcs at the beginning, in the middle and at the end",
  "Runs of empty nodes around word boundaries decide the result and are not sampled.",
  [D + "graph/link_id_to_tail_mapper.rs"],
  [("bit per first arc id + rank", D + "graph/link_id_to_tail_mapper.rs")],
  ["link_id_to_tail"])
p("C09", "Travel time functions evaluate to the periodic interpolation of their points",
  "Evaluating a time-dependent travel time function at any time gives the stored value at a breakpoint, the rounded-down linear interpolation between the two neighbouring breakpoints otherwise, and the same value one period later. The result always lies between the values of those two breakpoints, so between the function's lower and upper bound.",
  ["inputs"], "every sorted breakpoint list over the period and every time, including times beyond one period and segments of steep slope",
  "Rounding, the wrap-around at the end of the period and exact breakpoint hits are single points of a large domain.",
  [D + "graph/time_dependent/piecewise_linear_function.rs", D + "graph/time_dependent/geometry/line.rs", D + "graph/time_dependent/sorted_search_slice_ext.rs", D + "graph/time_dependent/graph.rs"],
  [("segment search", D + "graph/time_dependent/sorted_search_slice_ext.rs: locate"), ("interpolation", D + "graph/time_dependent/geometry/line.rs: interpolate_tt, into_monotone..."), ("eval/evaluate", D + "graph/time_dependent/piecewise_linear_function.rs")],
  ["PiecewiseLinearFunction::eval", "TDGraph::travel_time_function"])
p("C10", "Leaving later never means arriving earlier (FIFO), also with live traffic",
  "If every segment of a travel time function has slope at least minus one, then for any two departure times the later departure arrives no earlier. This stays true when live travel times override the prediction for a limited time, for both the plain and the pessimistic live model: before its switch time an edge takes the live time, afterwards it returns to the prediction as fast as FIFO allows, and the pessimistic model is never below the prediction.",
  ["inputs"], "every FIFO travel time function, every live override and every pair of departure times",
  "A violation needs two particular departure times around a rounding step or around the end of a live override.",
  [D + "graph/time_dependent/graph.rs", D + "graph/time_dependent/piecewise_linear_function.rs", D + "graph/time_dependent/geometry/line.rs"],
  [("floor interpolation", D + "graph/time_dependent/geometry/line.rs"), ("live override with bounded decay", D + "graph/time_dependent/graph.rs: LiveTDGraph::eval, PessimisticLiveTDGraph::eval")],
  ["eval"])
p("C11", "Travel time bounds are never violated by an evaluation",
  "The lower bound of a travel time function is at most, and the upper bound at least, its value at every time; the bounds over a time range hold for every time in that range. The bounds of a function over a range are attained in the closed range, and the average over a range lies between them. Bounds offered for live-traffic graphs hold for every evaluation they are stated for.",
  ["inputs"], "every function, every time range (also wrapping around the period) and every time inside",
  "An off-by-one at the ends of a range only shows if the extreme value sits exactly there.",
  [D + "graph/time_dependent/piecewise_linear_function.rs", D + "graph/time_dependent/graph.rs"],
  [("lower_bound, upper_bound, lower_bound_in_range", D + "graph/time_dependent/piecewise_linear_function.rs"), ("live bounds", D + "graph/time_dependent/graph.rs")],
  ["bounds against eval"])
p("C12", "Time range intersection and splitting are exact set operations",
  "Intersecting two time ranges yields exactly the times contained in both, and splitting a range at a time yields two ranges that partition it. A wrapping range contains exactly the times of its first part and of its part after the wrap-around.",
  ["inputs"], "every pair of ranges, including empty, touching and nested ones",
  "Boundary combinations multiply; the tests cover a handful.",
  [D + "graph/time_dependent/math.rs", D + "graph/time_dependent/wrapping_range.rs", D + "graph/time_dependent/sorted_search_slice_ext.rs"],
  [("RangeExtensions", D + "graph/time_dependent/math.rs"), ("WrappingRange", D + "graph/time_dependent/wrapping_range.rs"), ("index_range", D + "graph/time_dependent/sorted_search_slice_ext.rs")],
  ["contains/intersection/split"])
p("C13", "Dijkstra queries return the exact shortest distance or report unreachability",
  "For every graph with non-negative weights and every source and target, a query on the plain search server returns exactly the length of a shortest path, or no result if none exists; a one-to-all run returns this for every node. Results do not depend on queries that were run before on the same server.",
  ["inputs", "histories"], "every weighted multigraph, every source and target, every sequence of queries on one server",
  "Tests compare a few queries on one bundled graph; stale state across queries, zero-weight arcs, self loops and disconnected nodes are not sampled.",
  [A + "dijkstra/generic_dijkstra.rs", A + "dijkstra.rs", A + "dijkstra/query/dijkstra.rs", D + "index_heap.rs", D + "timestamped_vector.rs"],
  [("label setting with an indexed queue and resettable labels", A + "dijkstra/generic_dijkstra.rs: initialize, add_start_node, settle_next_node"), ("link and merge of labels", A + "dijkstra.rs: DefaultOps")],
  ["Server::query(..).distance()", "one_to_all(..).distance(node)"])
p("C14", "Returned paths are real paths of exactly the reported length",
  "Every path returned by a search starts at the source, ends at the target, and uses only arcs of the graph; the weights of its arcs add up to the reported distance. Arc paths and node paths of the same result describe the same path.",
  ["inputs", "histories"], "every graph, every source and target, including source equal to target and equal-length alternatives",
  "Predecessor bookkeeping only shows errors on ties, zero-weight cycles and repeated queries.",
  [A + "dijkstra.rs", A + "dijkstra/query/dijkstra.rs", A + "customizable_contraction_hierarchy/query.rs", A + "contraction_hierarchy/query.rs", A + "mod.rs"],
  [("predecessor walk", A + "dijkstra.rs: node_path, edge_path"), ("shortcut unpacking", A + "customizable_contraction_hierarchy/query.rs: unpack_path; " + A + "contraction_hierarchy/query.rs")],
  ["node_path/edge_path"])
p("C15", "Bidirectional and goal-directed searches are exact",
  "Bidirectional search with any supported alternation and with any feasible potential, and unidirectional search with any feasible potential, return exactly the distance that plain Dijkstra returns. They report unreachability exactly when no path exists.",
  ["inputs"], "every graph, every query, every consistent potential",
  "Wrong stopping or pruning conditions only cost exactness on particular weight constellations around the meeting node.",
  [A + "dijkstra/query/bidirectional_dijkstra.rs", A + "a_star.rs", A + "dijkstra/query/dijkstra.rs"],
  [("stopping criterion", A + "dijkstra/query/bidirectional_dijkstra.rs; " + A + "a_star.rs: stop, prune"), ("potential-shifted keys", A + "dijkstra/generic_dijkstra.rs")],
  ["distance()"])
p("C16", "Contraction produces a chordal supergraph and its elimination tree",
  "Contracting a graph along a node order yields an upward graph that contains every edge of the input in the new numbering, in which any two upper neighbours of a node are themselves connected, and whose neighbour lists are sorted and free of duplicates. The elimination tree parent of a node is its lowest upper neighbour, and nodes without upper neighbours are exactly the roots.",
  ["inputs"], "every graph and every node order",
  "Missing fill edges only show on graphs where the missing triangle carries a shortest path.",
  [A + "customizable_contraction_hierarchy/contraction.rs", A + "customizable_contraction_hierarchy/mod.rs"],
  [("merge neighbours into lowest upper neighbour", A + "customizable_contraction_hierarchy/contraction.rs"), ("elimination tree", A + "customizable_contraction_hierarchy/mod.rs: build_elimination_tree")],
  ["CCH::first_out/head/elimination_tree"])
p("C17", "Customization yields weights that represent shortest paths through lower nodes",
  "After customization every arc of the upward and downward graph has at most the weight of each two-arc detour over a lower node, at most the weight of its original arcs, and its weight is realised by an actual path (or is infinite). Perfect customization makes each remaining arc weight of the full hierarchy the exact distance between its ends; it removes only arcs that are not shortest (also in a reduced or directed hierarchy), so that all distances are kept.",
  ["inputs", "configurations"], "every contracted graph and every assignment of weights, with and without parallel execution, repeated customization included",
  "Only distance comparisons on one graph exist; a missed triangle is invisible unless that triangle is on the queried path.",
  [A + "customizable_contraction_hierarchy/customization.rs", A + "customizable_contraction_hierarchy/mod.rs"],
  [("respecting + triangle relaxation", A + "customizable_contraction_hierarchy/customization.rs: prepare_weights, customize_basic, customize_perfect"), ("pruning of dominated arcs", A + "customizable_contraction_hierarchy/customization.rs: rebuild_customized_perfect")],
  ["Customized::forward_graph/backward_graph weights"])
p("C18", "Customizable contraction hierarchy queries are exact",
  "For every graph, node order, metric, source and target, the customized hierarchy query returns exactly the shortest distance in the original graph under that metric, or no result if there is no path, and repeated queries do not influence each other. This holds for the basic and for the perfectly customized hierarchy.",
  ["inputs", "histories"], "every graph, order, metric and every sequence of queries",
  "Tests query one graph with one order.",
  [A + "customizable_contraction_hierarchy/query.rs", A + "customizable_contraction_hierarchy/query/stepped_elimination_tree.rs", A + "customizable_contraction_hierarchy/customization.rs"],
  [("elimination tree walk", A + "customizable_contraction_hierarchy/query/stepped_elimination_tree.rs"), ("meeting node minimisation", A + "customizable_contraction_hierarchy/query.rs")],
  ["Server::query(..).distance()"])
p("C19", "Contraction hierarchy preprocessing and queries preserve exact distances",
  "Contracting a graph in any node order and querying the result returns exactly the shortest distances of the original graph and a result exactly when a path exists.",
  ["inputs"], "every graph without restrictions on parallel arcs or self loops, every order",
  "Witness search limits and shortcut bookkeeping only matter on particular weight constellations.",
  [A + "contraction_hierarchy/mod.rs", A + "contraction_hierarchy/query.rs"],
  [("witness search and shortcut insertion", A + "contraction_hierarchy/mod.rs"), ("bidirectional upward search", A + "contraction_hierarchy/query.rs")],
  ["Server::query(..).distance()"])
p("C20", "Potentials are exact or admissible distance estimates to the target",
  "Hierarchy-based potentials return, for every node, exactly the distance to the target, and nothing exactly when the target is unreachable; landmark potentials never exceed the true distance. Results do not depend on the order in which nodes are asked for or on earlier targets.",
  ["inputs", "histories"], "every graph, target, evaluation order and sequence of targets",
  "Lazily evaluated state depends on the evaluation history; tests use it only through complete A* queries.",
  [A + "ch_potentials.rs", A + "alt.rs", A + "a_star.rs"],
  [("lazy upward evaluation", A + "ch_potentials.rs: CCHPotential, CHPotential"), ("triangle inequality with landmarks", A + "alt.rs")],
  ["Potential::potential"])
p("C21", "One-to-many and nearest-neighbour queries return exact distances",
  "For every source and every set of selected targets, the one-to-many algorithms return for each target exactly its shortest distance from the source. Nearest-neighbour queries return the requested number of closest reachable targets with their exact distances, in the sense that no omitted target is closer than a returned one.",
  ["inputs", "histories"], "every graph, target set, source, k and sequence of selections",
  "State is reused across selections and the results depend on separator cells and buckets not covered by the sampled graph.",
  [A + "rphast.rs", A + "ch_potentials.rs", A + "customizable_contraction_hierarchy/query/nearest_neighbor.rs", A + "dijkstra/query/dijkstra.rs"],
  [("restricted downward sweep", A + "rphast.rs"), ("lazy one-to-many", A + "ch_potentials.rs"), ("separator-based pruning", A + "customizable_contraction_hierarchy/query/nearest_neighbor.rs")],
  ["distances per target"])
p("C22", "Hub label lookups return the minimum over common hubs",
  "Combining the forward label of a source and the backward label of a target returns the minimum, over all hubs present in both, of the sum of the two stored distances, and infinity if they share none; labels built from a hierarchy therefore answer exact distances.",
  ["inputs"], "every pair of sorted labels and every hierarchy they are built from",
  "The merge of two sorted lists fails on interleavings not sampled; there is no test for it at all.",
  [A + "hl.rs"], [("sorted merge", A + "hl.rs")], ["HubLabels distances"])
p("C23", "Derived node orders are permutations that keep the separator structure",
  "Every order derived from a separator decomposition lists every node exactly once, separators after the parts they separate. Reordering a hierarchy for other layouts permutes nodes without loss.",
  ["inputs"], "every decomposition tree and every order",
  "A lost or duplicated node needs a particular tree shape.",
  [A + "customizable_contraction_hierarchy/separator_decomposition.rs", A + "customizable_contraction_hierarchy/reorder.rs"],
  [("post-order collection", A + "customizable_contraction_hierarchy/reorder.rs"), ("cells from elimination tree", A + "customizable_contraction_hierarchy/separator_decomposition.rs")],
  ["resulting NodeOrder"])
p("C24", "Stored data loads back bit for bit",
  "Writing a vector, bit vector or decomposable object and loading it again yields exactly the same content, for every element type and length, including empty ones.",
  ["inputs"], "every element type, every length",
  "The round trip goes through raw byte views whose length arithmetic is only sampled by a few files.",
  ["engine/src/io.rs"], [("byte views", "engine/src/io.rs: DataBytes, Load, Store")], ["load_from(write_to(x)) == x"])
p("C25", "Metric merging partitions the metrics",
  "Merging metrics down to a requested number of groups returns non-empty groups that together contain every input metric exactly once, and no more groups than requested (unless fewer metrics exist).",
  ["inputs", "schedules"], "every set of metrics, every target size, every schedule of the parallel distance computation",
  "Group bookkeeping is only correct if invalid pairs are purged on every merge, in every schedule; there is no test.",
  [A + "metric_merging.rs"], [("lazy pair queue", A + "metric_merging.rs: merge")], ["returned groups"])
p("C26", "The label heap yields labels in order and keeps settled labels accessible",
  "After any sequence of pushes, pops and filters, the label heap returns the greatest remaining element first, keeps every popped element available as settled until it is filtered out, and holds exactly the elements pushed and not removed by a filter.",
  ["histories", "inputs"], "every history of push, pop and retain, with equal elements",
  "Settled and open elements share one array whose split moves with each operation; the tests use one history.",
  [D + "heap.rs"], [("binary heap with popped tail", D + "heap.rs")], ["push/pop/peek/retain results"])
p("C27", "Floating-point travel time profiles link and merge exactly within tolerance",
  "Linking two travel time profiles gives the composition and merging gives the pointwise minimum at every departure time within the documented numerical tolerance, and time-dependent hierarchy queries return the earliest arrival.",
  ["inputs"], "every pair of FIFO profiles and every departure time",
  "Intersections and degenerate segments are a measure-zero set of inputs.",
  [D + "graph/floating_time_dependent/piecewise_linear_function.rs", A + "catchup.rs"],
  [("sweep over breakpoints", D + "graph/floating_time_dependent/piecewise_linear_function.rs")], ["profile values"])
p("C28", "Parallel and sequential customization agree under every schedule",
  "Customizing a hierarchy in parallel gives exactly the weights of the sequential computation, for every number of worker threads and every interleaving.",
  ["schedules"], "every interleaving of worker threads",
  "A test run observes one schedule.",
  [A + "customizable_contraction_hierarchy/customization/parallelization.rs"],
  [("separator-based task split", A + "customizable_contraction_hierarchy/customization/parallelization.rs")], ["customized weights"])
p("C29", "Core-based search acceleration preserves distances",
  "Preprocessing a graph by cutting dead ends and skipping degree-two chains yields a search that returns exactly the distances of the original graph, for every potential used with it.",
  ["inputs"], "every graph, every query",
  "Which nodes are skipped depends on the shape around each node of degree one or two.",
  [A + "topocore.rs", A + "dijkstra/gen_topo_dijkstra.rs"],
  [("virtual topocore", A + "topocore.rs: virtual_topocore"), ("skip rules in relaxations", A + "dijkstra/gen_topo_dijkstra.rs")], ["distance()"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
