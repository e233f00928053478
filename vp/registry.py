"""Which contracts, harnesses and assumptions decide which property."""
KANI = {
    "hole": {"file": "engine/src/datastr/index_heap.rs", "bound": "arrays of 5 entries, 3 hole moves"},
    "heap_hole": {"file": "engine/src/datastr/heap.rs", "bound": "arrays of 5 entries, 3 hole moves"},
}

COMMON = [
    "Verus, its Z3 back end and rustc are trusted",
    "the extraction (vp/extract.py) is trusted: it copies the bodies token by token and applies the rewrites listed in the evidence",
]
EXEC = "the executable contracts are bounded: they stand in only for the functions listed under bounded_standins and supply failing inputs"

PROPS = {}


def prop(pid, **kw):
    kw.setdefault("level", "proof")
    kw.setdefault("assumptions", [])
    kw["assumptions"] = COMMON + [EXEC] + kw["assumptions"]
    PROPS[pid] = kw


prop("C01", units=["index_heap"], kani=["hole"], bins=["c01"],
     technique="Verus contracts on the extracted IndexdMinHeap (Z3); Kani for the hole's contract",
     note="All operations of IndexdMinHeap except drain/elements are proved against an abstract map view for every history and capacity; the pointer-based Hole is replaced by a contract that a bounded Kani harness checks on its real code; drain and elements are covered by bounded executable contracts only.",
     bounded=["IndexdMinHeap::drain", "IndexdMinHeap::elements", "Hole (Kani, 5 entries)"],
     assumptions=["element order is a total preorder (T::obeys_cmp_spec)", "as_index is a pure function of the element", "capacity below 2^60",
                  "std: Range::min_by_key, slice::swap behave as documented", "Clone/Debug derives of the heap not covered"])

prop("C02", units=["containers", "fastclear"], bins=["c02"],
     technique="Verus contracts on the extracted TimestampedVector, ClearlistVector, FastClearBitVec and SetBitsIter (Z3)",
     note="TimestampedVector, ClearlistVector, FastClearBitVec and its iterator are proved against an abstract content view for every history including counter wrap-around; the thin Reset implementations and AtomicDists are covered by bounded executable contracts.",
     bounded=["AtomicDists", "Reset impls for Vec and slices"],
     assumptions=["vec![x; n] yields n copies (vf_fill) and Clone of an element yields an equal value (vf_clone)", "std's slice iterator is represented by its contract (VfIter)"])
prop("C03", units=["rank_select"], bins=["c03"],
     technique="Verus contracts on the extracted BitVec, RankSelectMap and InvertableRankSelectMap (Z3, bit-vector mode)",
     note="Every operation of BitVec, RankSelectMap and InvertableRankSelectMap is proved for every size below 2^60 bits and every bit pattern, including the padding of the last word; dense order-preserving numbering and the two-sided inverse are lemmas over those contracts.",
     bounded=["DataBytes views of the bit vector (raw byte access)"],
     assumptions=["std popcount/trailing_zeros/overflowing_add have their documented meaning (assume_specification)", "the raw allocation in BitVec::new is replaced by a contract: zeroed memory of the requested size (vf_alloc_zeroed, vf_from_raw_parts)"])
prop("C04", units=["node_order"], bins=["c04"],
     technique="Verus contracts on the extracted NodeOrder (Z3)",
     note="Construction from an order, from ranks and identity, and both lookups, proved for every permutation of every length below 2^32; reading an order from disk is a bounded executable contract.",
     bounded=["Deconstruct/ReconstructPrepared impls of NodeOrder"])
prop("C05", units=["in_range"], bins=["c05", "c05:plain"],
     technique="Verus contracts on the extracted InRangeOption (Z3), generic in the element type",
     note="some/new/value/pop are proved for every element type whose equality is the mathematical one; the sentinel constants of the concrete types are checked by bounded executable contracts.",
     bounded=["Sentinel constants of u32, f32, EdgeIdT ..."],
     assumptions=["== of the element type is mathematical equality (obeys_eq_spec), true for the integer types, false for f32 NaN"])

prop("C06", units=["reverse"], bins=["c06"],
     technique="Verus contracts on the extracted reversal and adjacency-list constructors (Z3)",
     note="OwnedGraph/UnweightedOwnedGraph/ReversedGraphWithEdgeIds::reversed, from_adjancecy_lists and degrees_to_first_out are proved for every graph whose arc count fits u32: each input arc has exactly one place in the result, with ends swapped, weight and id kept. The link iterators over the finished arrays are covered by bounded executable contracts.",
     bounded=["link_iter/edge_indices views of the array graphs (iterator adaptors)", "UnweightedOwnedGraph::from_adjancecy_lists", "InfinityFilteringGraph"],
     assumptions=["link_iter of the input graph yields a fixed finite list per node (VfLinks)", "iterator adaptors scan/chain/flat_map/unzip desugared to loops by the rewrites listed in the evidence"])
prop("C07", units=["transform"], bins=["c07"],
     technique="Verus contracts on the extracted unify_parallel_edges, ch_split, line_graph and permutated_filtered (Z3)",
     note="unify_parallel_edges, ch_split, line_graph and permutated_filtered are proved against recursive specifications of the exact arc lists for every graph, order, filter and turn cost; only the sort of a node's links is assumed from std.",
     bounded=["permutated_filtered of the time-dependent graph types"],
     assumptions=["std sort_unstable_by_key sorts and permutes (vf_sort_by_rank)", "filter and turn-cost callbacks answer consistently (VfPred, VfTurn)", "link_iter_mut of OwnedGraph zips head and weight slices of the node's range", "arc weight plus turn cost fits u32"])
prop("C08", units=["link_tail"], bins=["c08"],
     technique="Verus contracts on the extracted LinkIdToTailMapper on top of the proved BitVec/RankSelectMap contracts (Z3)",
     note="LinkIdToTailMapper is proved for every offset array with every pattern of empty nodes, on top of the contracts of BitVec and RankSelectMap (discharged in unit rank_select, which this check also runs).",
     bounded=["link_id_to_tail on the raw offset array (std binary search)"],
     assumptions=["std binary search"])
PROPS["C08"]["units"] = ["rank_select", "link_tail"]
prop("C26", units=["heap"], kani=["heap_hole"], bins=["c26"],
     technique="Verus contracts on the extracted Heap (Z3); Kani for the hole's contract",
     note="All operations of the label heap (push, pop, retain, peek, clear, popped and the sift and rebuild helpers) are proved for every history: pop returns a greatest live element, the live elements form a multiset changed exactly as asked, and the settled list keeps exactly the popped elements a filter did not remove. The pointer-based Hole is replaced by a contract a bounded Kani harness checks.",
     bounded=["Hole (Kani, 5 entries)", "the thresholds deciding between rebuild and sift_up only affect running time"],
     assumptions=["the element order is a total preorder", "filter callbacks answer consistently (VfPred)", "fewer than 2^59 elements", "std: Vec::retain keeps the accepted elements in order, slice::swap, usize::leading_zeros"])

DIJ = ["std: Vec::reverse/swap, vec![x; n]", "arc and predecessor-link types are Copy (vf_copy)", "link_iter of the graph yields a fixed finite list per node (VfLinks), ops answer with a fixed weight per arc (static weights)",
       "search statistics counters do not exceed 2^64", "the server's GraphBorrow parameter is the graph itself; report! calls dropped", "closures passed to DijkstraRun represented by traits with a specification (VfPot, VfPred1, VfImprove); Neutral represented by potential 0",
       "arc weights at most INFINITY, fewer than 2^32-1 nodes; path lengths of INFINITY or more count as unreachable"]
prop("C13", units=["index_heap", "containers", "dijkstra"], kani=["hole"], bins=["c13"],
     technique="Verus contracts on the extracted DijkstraRun, DijkstraOps implementations and Dijkstra Server over the proved heap and timestamp-vector contracts (Z3)",
     note="Server::distance and one_to_all, DijkstraRun::{query, initialize, add_start_node, next, next_step_with_potential, settle_next_node} and the three default ops are proved, with termination, for every graph, weight, source and target and every feasible potential: the result is the exact walk minimum or None exactly if every walk reaches INFINITY. The heap and the timestamped vector enter through contracts discharged in their own units, which this check also runs.",
     bounded=["Server::ranks", "DijkstraRun::{continue_query, exchange_potential, next_filtered_edges, next_with_improve_callback}", "time-dependent ops (C09-C12)", "gen_topo_dijkstra", "MultiCritDijkstraRun"],
     assumptions=DIJ)
prop("C14", units=["index_heap", "containers", "dijkstra", "bidir"], kani=["hole"], bins=["c14"],
     technique="Verus contracts on the extracted DijkstraData::{node_path, edge_path} and the search invariant of DijkstraRun (Z3)",
     note="For the Dijkstra and A* server the node path and the edge path are proved to be those of a walk of the graph from source to target whose length is the reported distance, with termination of the backtracking (zero-weight cycles included). The bidirectional server's node_path is proved to be a walk from source to target, through the meeting node, no longer than the reported distance (hence exactly as long), with termination. Paths of the CH, CCH and time-dependent servers are covered by bounded executable contracts.",
     bounded=["path unpacking of CH, CCH (perfect and basic), CH potentials, time-dependent Dijkstra"],
     assumptions=DIJ)

TD = ["the period (a global of the library) is one constant of at least 1 below INFINITY", "travel times plus the period stay below INFINITY, live values and switch times at most INFINITY", "breakpoints start at 0 and end at the period with equal travel times (or a single constant point), strictly increasing departure times: what TDGraph::new establishes"]
prop("C09", units=["ranges", "plf", "td_graph"], bins=["c09"],
     technique="Verus contracts on the extracted piecewise linear functions, lines and breakpoint search (Z3)",
     note="PiecewiseLinearFunction::{new, eval, evaluate}, the line interpolation, locate and TDGraph::{new, travel_time_function} are proved for every function and every time: the value at a breakpoint, the floor interpolation between, periodicity, and the result between the neighbouring values.",
     bounded=["non_wrapping_seg_iter", "io of time-dependent graphs"], assumptions=TD)
prop("C10", units=["ranges", "plf", "td_graph", "in_range"], bins=["c10"],
     technique="Verus contracts and FIFO lemmas on the extracted evaluation of (live) travel time functions (Z3)",
     note="For functions of slope at least -1, the contracts of eval, LiveTDGraph::eval and PessimisticLiveTDGraph::eval state the exact value and lemmas over these contracts show that a later departure never arrives earlier, rounding included.",
     bounded=["travel_time_evaluations in the traffic aware servers"], assumptions=TD)
prop("C11", units=["ranges", "plf", "td_graph", "in_range"], bins=["c11"],
     technique="Verus contracts on the extracted bound computations (Z3)",
     note="lower/upper_bound, (lower|upper)_bound_in_(included|range) and the live bounds of PessimisticLiveTDGraph are proved to bound every evaluation they are stated for, for every range (empty, wrapping, longer than a period).",
     bounded=["PiecewiseLinearFunction::average and its segment iterator"], assumptions=TD)
prop("C12", units=["ranges"], bins=["c12"],
     technique="Verus contracts on the extracted range operations (Z3)",
     note="intersection, split, is_intersection_empty of RangeExtensions, WrappingRange::{new, monotonize, full_range, contains...}, locate and index_range are proved for every pair of ranges.",
     bounded=["the generic instances of RangeExtensions other than Range<u32>"], assumptions=["Range<T> is verified at T = u32, the only instance the crate uses"])
prop("C22", units=["hl"], bins=["c22"],
     technique="Verus contracts on the extracted merge of two sorted labels (Z3)",
     note="best_hub, dist and hub_and_dist are proved to return the minimum over common hubs for every pair of sorted labels; that labels built from a hierarchy contain a best hub is a bounded executable contract.",
     bounded=["compute_labels_from_ch"], assumptions=["labels are strictly sorted by hub and the sums fit u32"])

prop("C16", units=["node_order", "in_range", "reverse", "contraction"], bins=["c16"],
     technique="Verus contracts on the extracted contraction (adjacency, chordal completion, elimination tree) (Z3)",
     note="ContractionGraph::{new, contract}, Node::{insert, merge_neighbors}, PartialContractionGraph and the array and elimination-tree construction are proved for every graph and every node order: the result holds every input edge, is chordal, and its lists are strictly increasing; each parent is the lowest upper neighbour.",
     bounded=["DirectedCCH and the remaining CCH fields (edge maps, inverted graph)"],
     assumptions=["std: split_first_mut, split_at_mut, sort_unstable, dedup, retain behave as documented", "link_iter yields a fixed list per node (VfLinks)", "the counter of inserted arcs and report! output are dropped", "fewer than 2^32-2 nodes and 2^32-1 arcs"])

prop("C25", units=["metric_merging"], bins=["c25"],
     technique="Verus contract on the extracted merge of metrics (Z3)",
     note="merge is proved to return non-empty groups holding every metric exactly once, at most as many as requested, for every list of metrics and every requested number: the distances between groups, the shared bound read by the parallel tasks and the order in which the queue yields pairs are left arbitrary, so the result holds under every schedule. The parallel tasks only push into the locked queue and are taken one after the other.",
     assumptions=["std BinaryHeap and Vec::retain behave as documented (VfQueue, vf_retain)", "the sums of squared differences are arbitrary numbers (their overflow is not considered)", "at least one metric, a target of at least 1, fewer than 2^31-1 arcs", "termination is not claimed"])
prop("C23", units=["separators", "separator_tree", "node_order"], bins=["c23"],
     technique="Verus contracts on the extracted separator tree construction and reorderings (Z3)",
     note="SeparatorTree::{new, new_subtree}, SeparatorNodes, reorder, reorder_bfs and reorder_for_seperator_based_customization (with reorder_tree, reorder_sep, reorder_children_by_size, to_ordering) are proved for every elimination tree: the tree lists every node exactly once, a node is above another in it only if it is its ancestor in the elimination tree (and every ancestor is above it or in the same separator), sizes are right, and every derived order is a permutation in which separators come after the parts they separate.",
     bounded=["validate_for_parallelization", "separator_nodes_range", "that the hierarchy built for the derived order has the same arcs"],
     assumptions=["std: slice sorting rearranges, reverse, VecDeque behave as documented (vf_sort_nodes, vf_sort_trees, vf_reverse, VfDeque)", "coordinates are not NaN; the geographic sort keys are irrelevant and dropped", "the derived Clone of the tree yields an equal tree", "reorder and reorder_bfs take the separators and the order of the CCH as parameters", "termination of reorder_bfs is not claimed"])

CCHA = ["link_iter yields a fixed list per node (VfLinks)", "fewer than 2^32-1 nodes and 2^32-2 arcs, weights at most INFINITY"]
prop("C17", units=["customization", "elimination_walk", "node_order", "in_range"], bins=["c17"],
     technique="Verus contracts on the extracted customization (the closure of customize_basic, prepare_weights, prepare_zero_weights) and a theorem over them (Z3)",
     note="The customization routine of customize_basic is proved for every hierarchy, node range, slice offset and all weights: every arc ends with exactly the minimum of its own weight and all its lower triangles (final weights of the lower arcs), with the unpacking information of a triangle that attains it, and nothing outside the node range changes. prepare_weights gives every arc the minimum of its original arcs. A lemma over these contracts shows that on a chordal hierarchy all triangles and arcs are respected and every finite weight is the length of a walk of the graph. Perfect customization, its pruning, the directed hierarchy and the distribution of cells to threads are bounded executable contracts.",
     bounded=["customize_perfect and rebuild_customized_perfect", "customize_directed_basic/customize_directed_perfect", "SeperatorBasedParallelCustomization (the order in which cells are handed to threads)", "DirectedCCH and remove_always_infinity"],
     assumptions=CCHA + ["the cells are processed so that lower nodes come first (what C28's executable contract checks)", "neighbor_iter and the inverted graph's link_iter yield the slices of their arrays (vf_neighbors, vf_down)", "Vecs is a vector of vectors, rayon's zipped parallel iterator visits every position once", "thread-local workspaces are passed as parameters"])
prop("C18", units=["cch_query", "elimination_walk", "customization", "node_order", "in_range"], bins=["c18"],
     technique="Verus contracts on the extracted elimination tree walk and query server, exactness theorem over them (Z3)",
     note="EliminationTreeWalk (query_with_resetted, settle_next_node, skip_next, peek, tentative_distance, reset_distance) and Server::{new, update, distance} are proved for every hierarchy, metric and query: the answer is the smallest sum of an upward and a downward walk, or none if no sum is finite, and all labels are infinite again afterwards, so that queries do not influence each other. The theorem prop_exact shows that on a customized hierarchy (the conclusion of C17's theorem) this is the shortest distance of the original graph. For perfectly customized and directed hierarchies the last step is a bounded executable contract.",
     bounded=["Server::path and unpack_path", "exactness on perfectly customized, reduced and directed hierarchies", "EliminationTreeWalk::query"],
     assumptions=CCHA + ["forward_graph/backward_graph link CCH arcs with the customized weights (Customized impls)", "search statistics may wrap (vf_add)"])
prop("C21", units=["index_heap", "containers", "node_order", "in_range", "dijkstra", "rphast", "updown_thm"], kani=["hole"], bins=["c21"],
     technique="Verus contracts on the extracted RPHAST selection and query, exactness theorem over them (Z3)",
     note="RPHAST::{new, select}, RPHASTQuery::{new, query} and RPHASTResult::distance are proved, with termination, for every pair of upward graphs, every sequence of selections and every source: the value of every selected node is exactly the length of a shortest up-down walk, or INFINITY if there is none below. A theorem over these contracts shows that on a customized hierarchy (C17's conclusion) this is the shortest distance of the graph. SSERPHAST, the bucket and lazy one-to-many algorithms and the nearest neighbour queries are bounded executable contracts.",
     bounded=["SSERPHASTQuery", "BucketCHPotential, BucketCHSelectionRun", "CCHPotential one-to-many", "SeparatorBasedNearestNeighbor and the other nearest neighbour queries", "Server::one_to_many of the Dijkstra server"],
     assumptions=DIJ + ["upward links of the backward graph go to higher ranks, fewer than 2^32-1 of them", "get_unchecked is replaced by checked access, the raw pointer to the current value by its index", "Box<[T]> is taken as Vec<T>", "the borrow returned with the result is dropped from query's signature"])
prop("C19", units=["index_heap", "containers", "node_order", "in_range", "dijkstra", "ch_query", "ch_contract", "ch_thm"], kani=["hole"], bins=["c19"],
     technique="Verus contracts on the extracted contraction and bidirectional query, exactness theorem over them (Z3)",
     note="ContractionGraph::{partial_graph, contract, contract_partially}, the shortcut insertion (insert_or_decrease, remove_edges_to_removed, remove_lowest, shortcut_required) and the query Server::distance are proved for every graph, order and query: contraction bypasses each node by shortcuts whose weight and middle node are those of a walk through it unless a witness walk exists, and the query returns the smallest up-down walk or none. The theorem prop_contraction_exact over these contracts shows that the answer is the shortest distance of the contracted graph's input. The initial graph construction, path unpacking and the witness search are bounded executable contracts (the witness search is assumed to return the length of some walk of the remaining graph, property C15).",
     bounded=["ContractionGraph::new and shortest_per_neighbor", "into_first_out_graphs", "Server::path and unpack_arc", "from_contracted_graph"],
     assumptions=DIJ + ["the witness search returns the length of a walk of the remaining graph (VfWitness, property C15)", "shortcut weights stay below INFINITY", "std: split_first_mut, mutable range slicing behave as documented"])
prop("C15", units=["index_heap", "containers", "dijkstra", "bidir"], kani=["hole"], bins=["c15"],
     technique="Verus contracts on the extracted DijkstraRun, A* server, bidirectional server, its callbacks and potentials (Z3)",
     note="The A* server (Server::distance with any feasible potential) is proved to return the exact distance, and none exactly when every walk is at least INFINITY long. The bidirectional server is proved for every pair of mirrored graphs, every direction chooser, every inspection callback that leaves the potential's answers alone and every potential meeting the BiDirPotential contract: distance returns the exact distance; distance_with_cap returns the length of a real path, and one that is no longer than any path shorter than the cap. Its two pruning callbacks per direction, the step (settle_next_node with pruning), the stopping rule and the early return are verified separately; BiDirZeroPot, AveragePotential and SymmetricBiDirPotential are proved to meet the contract (consistent shifted potentials, bounded sums, sound pruning with and without IMPROVED). Termination of the bidirectional loop is not claimed.",
     bounded=["bidirectional Server::new (the reversed graph enters as the precondition that the graphs mirror each other, C02)", "termination of the bidirectional search", "PotentialForPermutated and CCH potentials as bidirectional potentials"],
     assumptions=DIJ + ["RefCell<&mut P> in the bidirectional server is a plain mutable borrow; the callbacks' captured variables become the fields of a struct", "signed division by 2 truncates towards zero (vf_half)", "the inspection callback does not change the potential's answers"])
prop("C20", units=["index_heap", "containers", "dijkstra", "elimination_walk", "cch_potential", "potentials"], bins=["c20"],
     technique="Verus contracts on the extracted potentials (Z3)",
     note="The contract of the Potential trait - after init(target), potential(node) answers towards that target whatever was asked before, and init changes nothing but the target - is proved for CCHPotential, CCHPotentialWithPathUnpacking, CHPotential, BaselinePotential, ALTPotential, ZeroPotential and the wrappers TurnExpandedPotential, RecyclingPotential and PotentialForPermutated, for every graph, target and query sequence. CCH and CH potentials return exactly the length of the shortest up-down walk and nothing exactly if there is none below INFINITY; prop_potential turns that into the shortest distance on a customized hierarchy, prop_reversed does so for the Dijkstra on the reversed graph, and prop_admissible shows that a landmark potential never exceeds the distance whenever its tables hold distances. Lazy evaluation by CHPotential is proved partially correct (termination not claimed).",
     bounded=["landmark selection and table computation (ALTPotData::new, new_with_avoid, farthest_landmarks)", "BucketCHPotential", "path unpacking by CCHPotentialWithPathUnpacking::unpack_path", "TurnExpandedPotential::new", "customize_perfect as input of CCHPotData"],
     assumptions=DIJ + CCHA + ["counters of potential computations do not overflow", "the default of InRangeOption as an element of a TimestampedVector is NONE (Reset::DEFAULT)"])
prop("C24", units=["rank_select", "io"], bins=["c24"],
     technique="Verus contracts on the extracted byte views, Store::write_to and Load::load_from (Z3)",
     note="data_bytes and data_bytes_mut of slices, slice references, vectors, boxes and bit vectors, Store::write_to, Load::{load_from, new_with_bytes} are proved over a model of files as byte sequences: the byte count passed to the raw slice constructors is the size of the slice, the file holds exactly the object's bytes, the loaded object has the same length and the same bytes, and therefore (round trip lemmas) the same elements, for every element type of non-zero size, every length and every content.",
     bounded=["Deconstruct/Reconstruct of CCH, customized hierarchies, potentials and graphs", "Loader path handling", "RankSelectMap::data_bytes"],
     assumptions=["files keep their bytes; metadata, create, write_all, open and read_exact behave as documented (VfFs)", "a value of a Copy type is determined by its bytes and any bytes read back are a valid value", "slice::from_raw_parts on a slice's own pointer and byte size is its memory (vf_bytes)", "(0..n).map(default).collect() yields n elements"])

NA = {
    "C27": "floating_time_dependent computes with f64 and decides by tolerance comparisons; the verifier available (Verus) has no theory of floating point, Kani only bounded instances of it, so no contract within reach can state or decide the tolerance the property is about",
    "C28": "thread counts and schedules are outside sequential function contracts; the data the parallel algorithms share are disjoint &mut slices checked by the Rust compiler and the sequential contracts of C17, C18 and C25 already fix the result of every part, but no contract within reach quantifies over rayon schedules",
    "C29": "the topology-aware preprocessing (topocore) was not brought under contract",
}
