PROPS = []
def P(id, title, statement, q, why, files, mech, design, over=("inputs", "histories"), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, design=design, over=list(over), **kw))
NOTEST = "No test that runs here exercises these headers (the online-judge tests need network test data); even those sample a few inputs, while the guarantee ranges over all operation histories and sizes."
DS = "library/datastructure/"

P("C01", "Union-find structures report exactly the connectivity of the merges made",
  "After any sequence of merges, undos and versions, every union-find variant answers same/size/groups/potential/history queries exactly as the equivalence relation generated by the merges in force, including component aggregates, enumeration, weighted potentials (and inconsistency detection), time-indexed queries and range-parallel merges. Undoing or branching a version never changes what another version answers, and no operation leaves defined behaviour.",
  "all sequences of merge/undo/query operations on any number of elements, any branching of persistent versions", NOTEST,
  [DS + "union_find/", DS + "util/persistent_array.hpp", DS + "util/object_pool.hpp"],
  [("union by size with path compression / persistent node copies", DS + "union_find/union_find.hpp, persistent_union_find.hpp")],
  "random and adversarial merge sequences (chains, repeated merges, self merges, undo stacks, version trees) are replayed on a naive labelling model; every same/size/groups/weight/history answer is compared after each step; persistent versions are all re-audited after later updates; a depth-counting workload checks logarithmic root paths.")
P("C02", "Fenwick trees and Fenwick sets agree with a plain array under any history",
  "For any history of point or range updates, every Fenwick tree variant (1-D, 2-D, sparse, prefix, range-add, persistent, set) returns exactly the aggregate of the current array contents for every legal range, and its searches return the defined boundary. Initial values, empty universes and out-of-range set queries are honoured, and no operation leaves defined behaviour.",
  "all initial arrays, update/query interleavings, sizes and value types", NOTEST,
  [DS + "fenwick_tree/", "library/util/tuple_ops.hpp"],
  [("lowbit-indexed partial sums", DS + "fenwick_tree/fenwick_tree.hpp"), ("64-ary bitset under a Fenwick tree", DS + "fenwick_tree/fenwick_tree_set.hpp")],
  "operation sequences on every variant are mirrored on plain arrays / std::set; sums, lower_bounds, proxies, iterators, kth elements and neighbours compared at each step, wide wrap-around values included.")
P("C03", "Segment trees agree with a plain array under any history",
  "For any history of assignments, range applications and sorts, every segment tree variant (plain, lazy, dual, beats, 2-D, compressed, sparse, Li Chao, sortable, range-set composite) returns for each legal range exactly the ordered product of the current elements, also for non-commutative operations and actions. Boundary searches (max_right/min_left/max_up/min_down) return the exact extremal index, and no operation leaves defined behaviour.",
  "all initial arrays, monoids, actions, operation interleavings, sizes and index ranges", NOTEST,
  [DS + "segment_tree/", "library/range_query/range_chmin_chmax_add_range_sum.hpp", "library/range_query/range_set_range_composite.hpp"],
  [("bottom-up power-of-two tree, lazy propagation", DS + "segment_tree/lazy_segment_tree.hpp"), ("treap of sorted runs", DS + "segment_tree/sortable_segment_tree.hpp")],
  "the free monoid (string concatenation) is used as product so any lost, duplicated or reordered element is visible; non-commutative affine actions detect wrong composition order; beats/Li Chao/2-D/sparse variants are compared with brute force arrays over huge and tiny index ranges.")

P("C04", "Persistent structures never change an older version",
  "Every version of a persistent segment tree, array or red-black sequence answers all queries exactly as the sequence it denoted when it was created, no matter which later operations (set, apply, insert, erase, split, merge, cut, swap, replace, reverse, rebuild) were performed on it or on versions derived from it; each new version equals the operation applied to its parents.",
  "all version trees/DAGs and operation histories, sizes and monoids", NOTEST,
  [DS + "segment_tree/persistent_*.hpp", DS + "persistent_array.hpp", DS + "bbst/persistent_*.hpp", DS + "bbst/red_black_*.hpp"],
  [("path copying with pooled nodes", DS + "segment_tree/persistent_segment_tree.hpp"), ("clone-on-push red-black nodes", DS + "bbst/persistent_red_black_tree_base.hpp")],
  "random version DAGs over strings (free monoid) with non-commutative affine actions; every live version is re-audited (full dump, products, ordered boundary searches, colour invariants) after all later operations.")
P("C05", "Balanced-tree sequences behave exactly like an array",
  "Implicit treaps (plain, product, reversible, dual and lazy) and linear-use red-black trees behave as a plain array under insert, erase, split, merge, rotate, reverse, assignment, range action, range product, ordered searches on sorted content, boundary searches and forward/backward random-access iteration, for every history; red-black colour/height invariants hold after every operation and freed nodes are never reused while reachable.",
  "all operation histories, sizes, monoids/actions and random priorities", NOTEST,
  [DS + "bbst/", "library/util/pointer_32bit.hpp", DS + "util/object_pool.hpp"],
  [("treap split/merge with threaded prev/next links", DS + "bbst/implicit_treap_base.hpp"), ("lazy reversal flag", DS + "bbst/reversible_implicit_treap_base.hpp"), ("red-black join", DS + "bbst/red_black_tree_base.hpp")],
  "operation sequences mirrored on std::vector<std::string>; products are string concatenations, the toggle is string reversal, so order errors show; iterators are walked with random jumps; several disjoint red-black trees share one node pool so a node freed too early corrupts a neighbour.")
P("C06", "Splay-tree maps, sets and sequences agree with std::map / std::set / std::vector",
  "For every history of insertion, overwriting, erasure by key or index, lookup, k-th access, split, merge, swap, reversal, range action and fold, the splay-tree maps, sets and dynamic sequences (plain, foldable, lazily evaluated) return exactly what an ordered map, set or array would, including on empty containers; ownership of nodes is exact (no leak, double free or use after free) through moves, splits and merges.",
  "all operation histories, keys, monoids and actions", NOTEST,
  [DS + "splay_tree_map.hpp", DS + "splay_tree_set.hpp", DS + "range_foldable_map.hpp", DS + "lazy_eval_map.hpp", DS + "dynamic_sequence.hpp", DS + "range_foldable_dynamic_sequence.hpp", DS + "lazy_eval_dynamic_sequence.hpp", "library/util/update_proxy_object.hpp"],
  [("top-down splay", DS + "splay_tree_map.hpp"), ("lazy reversal and action", DS + "lazy_eval_dynamic_sequence.hpp")],
  "histories mirrored on std containers; string-concatenation products (sorted words where reversal requires commutativity); all entries re-read in both directions; LeakSanitizer audits ownership at exit.")
P("C07", "Heaps, priority sums and window aggregates are exact at every moment",
  "For every interleaving of pushes, pops, copies, rebuilds and parameter changes: binary heaps, interval heaps and double-ended priority queues always expose and remove a true minimum / maximum of the multiset they hold (with any comparator, each element exactly once); PrioritySum always equals the sum of the first k elements in order; queue and deque aggregations give the ordered product of exactly the elements they hold, with index and iterator access agreeing; sliding-window minimum gives the extreme (and the promised leftmost / rightmost position) of the current window.",
  "all operation histories, comparators, (non-commutative) monoids", NOTEST,
  [DS + "heap/binary_heap.hpp", DS + "heap/interval_heap.hpp", DS + "priority_queue.hpp", DS + "double_ended_priority_queue.hpp", DS + "queue_aggregation.hpp", DS + "deque_aggregation.hpp", DS + "sliding_window_minimum.hpp", DS + "util/priority_sum.hpp"],
  [("interval heap sift", DS + "heap/interval_heap.hpp"), ("two-stack deque rebalancing", DS + "deque_aggregation.hpp"), ("lazy deletion", DS + "util/priority_sum.hpp")],
  "histories mirrored on std::multimap / std::deque; elements carry an identity token so duplicated, lost and moved-from elements show; comparators are stateful; products are string concatenations.")
P("C08", "Bit sets, bit vectors, wavelet matrices and tries agree with plain arrays",
  "For every size (including 0, multiples of 64 and neighbours) and every operation history: dynamic and static bit sets behave like arrays of booleans under every bitwise, shift, range, comparison, search and counting operation; BitVector's access / rank / select are exact; the (compressed) wavelet matrix answers every rank, k-th, frequency, predecessor / successor query and its xor variant as the sorted slice would, for every legal bit length; binary tries (plain and Patricia) behave like a multiset of integers under insert / erase / count / xor queries for every bit length; RangeSet keeps exactly the set of inserted integers as maximal (or merged) ranges.",
  "all values, sizes and operation histories", NOTEST,
  [DS + "util/dynamic_bitset.hpp", DS + "util/static_bitset.hpp", DS + "util/range_set.hpp", DS + "bit_vector.hpp", DS + "wavelet_matrix.hpp", DS + "compressed_wavelet_matrix.hpp", DS + "binary_trie.hpp", DS + "binary_trie_patricia.hpp", "library/util/coordinate_compressor.hpp"],
  [("block masks and shifts", DS + "util/dynamic_bitset.hpp"), ("path compression on split and merge of nodes", DS + "binary_trie_patricia.hpp"), ("small/large block counters", DS + "bit_vector.hpp")],
  "histories and queries mirrored on std::vector<char>, std::multiset and sorted slices; sizes concentrate on block boundaries; template instances cover bit lengths 1..64 and full-width key types; UBSan watches every shift.")
P("C09", "Convex-hull tricks and slope trick give the exact optimum of the added functions",
  "For every sequence of added lines (any order for ConvexHullTrick; slopes beyond the current extremes for MonotonicCHT) interleaved with queries (arbitrary, or monotone as the tag promises), query(x) is exactly the min / max over all lines added so far, with no intermediate overflow within the documented ranges; SlopeTrick's minimum, argmin interval and piecewise-linear representation equal those of the function built so far by additions, shifts, cumulative and sliding-window minima.",
  "all line sequences, query orders, integral and floating types", NOTEST,
  [DS + "convex_hull_trick.hpp", DS + "monotonic_convex_hull_trick.hpp", DS + "slope_trick.hpp"],
  [("hull maintenance on insertion", DS + "convex_hull_trick.hpp"), ("deque pops and ternary search", DS + "monotonic_convex_hull_trick.hpp")],
  "every query compared with the extreme over all lines in 128-bit arithmetic, coefficients up to 1e9 / 1e18, many equal slopes and triple intersections; the slope-trick function is tabulated on an integer grid and transformed by definition.")
P("C10", "Static range queries, sparse table, Cartesian and permutation trees are exact",
  "For every array and every query range (empty and full included): offline distinct-count, inversion-number, mode and xored-mex queries, and sparse-table products of idempotent operations, equal the value computed from the slice; the Cartesian tree is the unique heap-ordered in-order tree with the documented tie rule, and the permutation tree's nodes are exactly the strong intervals of the permutation with correct index / value ranges and join / cut labels.",
  "all arrays, permutations, ranges and value types", NOTEST,
  ["library/range_query/", DS + "sparse_table.hpp", DS + "cartesian_tree.hpp", DS + "permutation_tree.hpp"],
  [("sqrt decomposition with prefix/suffix tables", "library/range_query/static_range_inversion_number_query.hpp"), ("linear-time strong interval lists", DS + "permutation_tree.hpp")],
  "slices recomputed naively for every query (distinct set, quadratic inversions, frequency map, brute mex); strong intervals enumerated from the definition on permutations built by random substitution so deep join/cut nesting occurs.")
P("C11", "ZDD operations denote the exact family of sets",
  "Every expression over zero-suppressed decision diagrams (union, intersection, difference, join / product, quotient, remainder, restriction operations, change, max_len_item, counting and sizes) denotes exactly the family of sets obtained by applying the operation to explicit families, the diagram stays canonical (equal families are the same node), and cached results stay valid across any later operations.",
  "all families and operation histories", NOTEST,
  [DS + "ZDD.hpp", "library/util/hashes.hpp"],
  [("hash-consing and operation caches", DS + "ZDD.hpp")],
  "families mirrored as std::set<std::set<int>>; long random expression histories over shared operands so cache hits dominate; canonicity observed by comparing node identity with family equality.")
P("C12", "Offline algorithms (Mo, 2-SAT, Horn-SAT, rectangles, dynamic hull) are exact",
  "For every input: union-of-rectangles area, dynamic convex hull (extreme values, upper / lower / full hull with all boundary points in order) after any insert / erase history, Horn-SAT (satisfiability and least model) and 2-SAT (satisfiability and a satisfying assignment), inversion number, maximal / maximum rectangles and squares, monotone minima, +-1 RMQ with and without index, and offline dynamic connectivity with component sums equal the definition; Mo's algorithm presents every query with exactly its range, moving one adjacent index per callback and keeping get_range truthful.",
  "all inputs, histories and callback behaviours", NOTEST,
  ["library/algorithm/"],
  [("bridge search on a segment tree", "library/algorithm/dynamic_convex_hull_offline.hpp"), ("divide and conquer with undo", "library/algorithm/offline_dynamic_connectivity.hpp"), ("bit-packed block tables", "library/algorithm/rmq_pm1.hpp")],
  "brute force on grids, explicit point sets (128-bit orientation), truth tables, graph search; Mo callbacks are monitored online with a deque model of the current range; component sums use a multiset accumulator so a wrong undo order shows.")
P("C20", "Shortest paths, orders, spanning trees and graph containers are exact",
  "For every graph (multi-edges, self-loops, isolated vertices, any weights the header admits): Dijkstra, BFS, 0-1 BFS, BFS on the complement graph, DAG shortest paths and minimax Floyd-Warshall return the exact distance or 'unreachable' and any returned path is a shortest path; topological order, functional-graph jumps and cycle queries, cycle detection, Kruskal and Manhattan spanning trees (weight and tree-ness), Manhattan nearest distances, range-edge segment-tree graphs, multi-edge removal and the CSR graph container agree with the definition.",
  "all graphs, weights and sources", NOTEST,
  ["library/graph/dijkstra.hpp", "library/graph/bfs.hpp", "library/graph/bfs01.hpp", "library/graph/bfs_complement.hpp", "library/graph/csr_graph.hpp", "library/graph/cycle_detection.hpp", "library/graph/functional_graph.hpp", "library/graph/kruscal.hpp", "library/graph/manhattan_mst.hpp", "library/graph/manhattan_minimum_distances.hpp", "library/graph/minmax_floyd_warshall.hpp", "library/graph/segment_tree_graph.hpp", "library/graph/single_source_shortest_path_dag.hpp", "library/graph/topological_sort.hpp", "library/graph/remove_multiedges.hpp"],
  [("sweep in four directions", "library/graph/manhattan_mst.hpp"), ("doubling tables", "library/graph/functional_graph.hpp"), ("compressed adjacency", "library/graph/csr_graph.hpp")],
  "graphs of several shapes compared with Bellman-Ford / Floyd-Warshall / brute force; every path is walked edge by edge; the CSR container is compared with adjacency lists through all its constructors and views.")
P("C21", "Connectivity decompositions and Eulerian trails are exactly as defined",
  "For every graph: low-link values give exactly the bridges, articulation points and component counts (also after any vertex or edge removal, and after edges are added and the structure rebuilt); 2-edge-connected components, biconnected components and block-cut forests are the maximal subgraphs they are defined as; bipartite colouring and tournament SCC order are right; an Eulerian circuit / trail is returned iff one exists, uses every edge once, and the query leaves the graph unchanged; a width-2 (nice) tree decomposition is returned iff treewidth <= 2, satisfies the decomposition axioms, and DP over it visits every node with the right node type.",
  "all (multi)graphs and build/query histories", NOTEST,
  ["library/graph/low_link.hpp", "library/graph/two_edge_connected_components.hpp", "library/graph/biconnected_components.hpp", "library/graph/block_cut_forest.hpp", "library/graph/bipartite_graph_recognition.hpp", "library/graph/scc_tournament.hpp", "library/graph/directed_eulerian_graph.hpp", "library/graph/undirected_eulerian_graph.hpp", "library/graph/tree_decomposition_tw2.hpp", "library/graph/tree_decomposition_tw2_dp.hpp"],
  [("DFS low-link", "library/graph/low_link.hpp"), ("degree-2 elimination with lazy multi-edge removal", "library/graph/tree_decomposition_tw2.hpp")],
  "component counts recomputed by deleting each vertex / edge and searching; blocks recomputed from cycle equivalence; trails replayed edge by edge; decomposition axioms checked bag by bag and an independent-set counting DP is compared with enumeration.")
P("C22", "Matchings, flows, colourings, cliques and covers are optimal and feasible",
  "For every input: maximum bipartite matching (also incrementally after more edges), minimum vertex / edge cover, maximum independent set, Dulmage-Mendelsohn decomposition, bipartite edge colouring with exactly max-degree colours, assignment, minimum-cost flow (max flow, bounded flow, arbitrary amount, full cost curve, with each potential initialiser, repeated on the same network) and the clique / triangle / independent set / chromatic number routines return feasible objects of exactly optimal value, each enumerated object once.",
  "all graphs, capacities, costs and call histories", NOTEST,
  ["library/graph/bipartite_matching.hpp", "library/graph/dulmage_mendelsohn_decomposition.hpp", "library/graph/edge_coloring_of_bipartite_graph.hpp", "library/graph/assignment_problem.hpp", "library/graph/min_cost_flow.hpp", "library/graph/enumerate_cliques.hpp", "library/graph/enumerate_triangles.hpp", "library/graph/maximum_independent_set.hpp", "library/graph/maximum_clique.hpp", "library/graph/minimum_vertex_cover.hpp", "library/graph/chromatic_number.hpp"],
  [("Hopcroft-Karp levels", "library/graph/bipartite_matching.hpp"), ("potentials", "library/graph/min_cost_flow.hpp"), ("Euler split", "library/graph/edge_coloring_of_bipartite_graph.hpp")],
  "optimal values from Kuhn's algorithm, bitmask DP, subset enumeration and a potential-free Bellman-Ford flow; the Dulmage-Mendelsohn parts are compared with their matching-theoretic characterisation; feasibility of each returned object is checked item by item.")
P("C30", "Rooted-tree queries, decompositions and isomorphism agree with tree walks",
  "For every tree (paths, stars, caterpillars, random; a single vertex included) and every root: heavy-light decomposition (lca, distance, ancestors, k-th ancestor and k-th vertex of a path, jumps, path / subtree ranges covering exactly the vertices or edges in path order), auxiliary trees, centroid decomposition and centroids, Euler tours, the table of pair distances, path extraction, level ancestors and lowest common ancestors return exactly what walking the tree gives; isomorphism classes of rooted subtrees are equal iff the subtrees are isomorphic.",
  "all trees, roots and vertex sets", NOTEST,
  ["library/tree/heavy_light_decomposition.hpp", "library/tree/auxiliary_tree.hpp", "library/tree/centroid_decomposition.hpp", "library/tree/euler_tour.hpp", "library/tree/find_centroid.hpp", "library/tree/frequency_table_of_tree_distance.hpp", "library/tree/get_path.hpp", "library/tree/level_ancestor.hpp", "library/tree/lowest_common_ancestor.hpp", "library/tree/tree_isomorphism_classification.hpp"],
  [("heavy path jumps", "library/tree/heavy_light_decomposition.hpp"), ("centroid convolution", "library/tree/frequency_table_of_tree_distance.hpp"), ("ladder / jump decomposition", "library/tree/level_ancestor.hpp")],
  "every answer compared with an explicit walk of the tree; path folds are observed as sequences of vertex labels (non-commutative), so order and orientation errors show; canonical AHU strings decide isomorphism.")
P("C31", "Link-cut trees agree with an explicit rooted forest under every history",
  "For every history of link, cut, evert (change of root), vertex updates, path updates and queries, the three link-cut trees report exactly the connectivity, root, parent, lca, depth / k-th vertex and ordered path product (and its value after lazily applied actions and reversals) of the explicit forest.",
  "all operation histories, (non-commutative) monoids and actions", NOTEST,
  ["library/tree/link_cut_tree_base.hpp", "library/tree/link_cut_tree.hpp", "library/tree/link_cut_tree_path_foldable.hpp", "library/tree/link_cut_tree_path_foldable_lazy.hpp"],
  [("splay / expose with lazy reversal", "library/tree/link_cut_tree_base.hpp"), ("action push-down", "library/tree/link_cut_tree_path_foldable_lazy.hpp")],
  "histories mirrored on a parent array with explicit roots; path products are string concatenations, so direction after evert matters.")
P("C32", "Rerooting DP, contour queries and static top tree equal naive recomputation",
  "For every tree and vertex / edge weights: rerooting (plain and invertible, all four weight variants) returns for each vertex exactly the DP of the tree rooted there; the contour structures (point add / set with distance-range sums, contour-range add / operate with point get, invertible variants) return exactly the fold over all vertices at distance in [l, r) from the query vertex after any update history; static top tree DP equals the bottom-up DP after any sequence of updates.",
  "all trees, weights, monoids / groups and histories", NOTEST,
  ["library/tree/rerooting.hpp", "library/tree/rerooting_invertible.hpp", "library/tree/contour_sum.hpp", "library/tree/point_add_range_contour_sum.hpp", "library/tree/point_add_range_contour_sum_invertible.hpp", "library/tree/point_get_range_contour_add_invertible.hpp", "library/tree/point_get_range_contour_operate.hpp", "library/tree/point_set_range_contour_sum.hpp", "library/tree/range_contour_sum_invertible.hpp", "library/tree/static_top_tree.hpp"],
  [("centroid decomposition with per-level BFS offsets", "library/tree/point_add_range_contour_sum.hpp"), ("prefix / suffix products of children", "library/tree/rerooting.hpp"), ("rake / compress", "library/tree/static_top_tree.hpp")],
  "rerooting uses the free commutative monoid (and free abelian group) on serialised subtrees as DP value, so any lost, repeated or misplaced subtree, vertex or edge weight is visible; contour sums are recomputed from all-pairs distances.")
P("C40", "Rolling hashes and string matchers agree with direct comparison",
  "For every string: static, 2-D, dynamic and Merkle-style rolling hashes give equal values for equal contents (substrings, concatenations, after any update / insert / erase history) and different values for different contents up to collision probability, so lcp / comparison / matching built on them equal direct comparison; Morris-Pratt prefix function, periods and matcher, Manacher radii, both Aho-Corasick automata (occurrence counts and states) and constant-time substring comparison return exactly what scanning the text gives.",
  "all strings, alphabets, patterns and update histories", NOTEST,
  ["library/string/rolling_hash.hpp", "library/string/dynamic_rolling_hash.hpp", "library/string/rolling_hash_field.hpp", "library/string/morris_pratt.hpp", "library/string/manacher.hpp", "library/string/aho_corasick.hpp", "library/string/aho_corasick_array.hpp", "library/string/compare_substring.hpp"],
  [("failure links", "library/string/aho_corasick.hpp"), ("modular polynomial hash", "library/string/rolling_hash.hpp"), ("suffix array + sparse table", "library/string/compare_substring.hpp")],
  "texts are periodic, Fibonacci-like and small-alphabet random strings; every hash-derived answer, border, radius and match count is compared with std::string operations.")
P("C41", "Tries, suffix automaton, palindromic tree and runs describe exactly the text",
  "For every string set: tries (array / map variants) report exactly the stored multiset and prefix counts after any insert / erase history; the suffix automaton accepts exactly the substrings, with right counts, occurrence numbers and distinct / k-th substring queries; SubstringSet counts and enumerates exactly the distinct substrings; the palindromic tree's nodes are exactly the distinct palindromic substrings with right occurrence counts and suffix links, also after clear and reuse; runs enumerates exactly the maximal repetitions, each once.",
  "all strings, alphabets and build / clear histories", NOTEST,
  ["library/string/trie_array.hpp", "library/string/trie_map.hpp", "library/string/suffix_automaton.hpp", "library/string/substring_set.hpp", "library/string/palindromic_tree.hpp", "library/string/run_enumerate.hpp"],
  [("clone on split", "library/string/suffix_automaton.hpp"), ("suffix links of palindromes", "library/string/palindromic_tree.hpp"), ("Lyndon-style divide and conquer", "library/string/run_enumerate.hpp")],
  "the explicit set of substrings / palindromes / repetitions is enumerated by definition from the text and compared with every query.")
P("C50", "Prime tests, factorisations, sieves and arithmetic sums are exact",
  "For every integer in the documented range (up to 2^64 for Miller-Rabin and fast_factorize): primality is decided exactly, factorisations consist of primes whose product is n in the promised form, divisor / totient / Moebius / prime-counting helpers and linear / Eratosthenes sieves (run-time, constexpr, SIMD) give exactly the number-theoretic values, k-th root rounding, floor-quotient ranges and denominators enumerate exactly the right integers, prefix sums of the Moebius and totient functions and square-free counts equal direct summation, and Barrett / Montgomery reductions agree with the % operator on their whole domain.",
  "every integer of the supported widths, every modulus", NOTEST,
  ["library/number/fast_factorize.hpp", "library/number/deterministic_miller_rabin.hpp", "library/number/deterministic_miller_rabin_simd.hpp", "library/number/factorized_form.hpp", "library/number/linear_sieve.hpp", "library/number/mobius_function.hpp", "library/number/montogomery.hpp", "library/number/barrett_reduction.hpp", "library/number/sieve_of_eratosthenes.hpp", "library/number/util.hpp", "library/number/count_square_free.hpp", "library/number/enumerate_quotient.hpp", "library/number/find_denominators.hpp", "library/number/kth_root_round.hpp", "library/number/sum_of_mobius_function.hpp", "library/number/sum_of_totient_function.hpp"],
  [("Pollard rho + Montgomery", "library/number/fast_factorize.hpp"), ("wheel sieve", "library/number/internal_eratosthenes.hpp"), ("two-level sums over quotients", "library/number/sum_of_totient_function.hpp")],
  "numbers are drawn from all magnitudes, prime neighbourhoods, Carmichael numbers, strong pseudoprimes, prime squares and width boundaries; oracles are trial division, 128-bit modular arithmetic and direct summation.")
P("C51", "Modular arithmetic solvers return exactly the residues that solve the equation",
  "For every modulus and operand in the documented range: modint (static, dynamic, 2^61-1) operations, powers and inverses equal exact integer arithmetic; ext_gcd / inverse / Garner satisfy their defining identities with the promised normalisation, in particular incompatible congruences are detected; tetration_mod equals the tower's residue; mod_sqrt and both discrete logarithms return a (the least, where promised) solution exactly when one exists; multiplicative orders, primitive roots and group tests are those of Z/mZ.",
  "all moduli (prime, composite, up to the type's limit) and operands", NOTEST,
  ["library/number/modint.hpp", "library/number/modint_2^61m1.hpp", "library/number/ext_gcd.hpp", "library/number/garner.hpp", "library/number/tetration_mod.hpp", "library/number/mod_sqrt.hpp", "library/number/discrete_logarithm.hpp", "library/number/fast_discrete_logarithm.hpp", "library/number/order_Z_mZ.hpp", "library/number/primitive_root.hpp"],
  [("baby-step giant-step with tail", "library/number/discrete_logarithm.hpp"), ("CRT merge", "library/number/garner.hpp"), ("Carmichael-chain exponents", "library/number/tetration_mod.hpp")],
  "exhaustive residues for small moduli and 128-bit verification for large ones; existence answers are confirmed by enumeration of the whole cycle.")
P("C52", "Rationals, Stern-Brocot nodes, factorial numbers and linear equations are exact",
  "For every operand within range: Rational arithmetic, ordering, floor / ceil and approximations are those of exact fractions in lowest terms; Stern-Brocot nodes' paths, depths, LCAs, distances, walks and traversal orders and auxiliary trees are those of the infinite tree; factorial_number is exact arithmetic modulo n! and its permutation conversions are the lexicographic rank and its inverse; BezoutEquation solutions after any sequence of range restrictions are exactly the integer solutions within those ranges (count, extrema); min_of_mod_of_linear equals the minimum over the range.",
  "all operands, paths and restriction histories", NOTEST,
  ["library/number/rational.hpp", "library/number/stern_brocot_tree.hpp", "library/number/factorial_number.hpp", "library/number/bezout_equation.hpp", "library/number/min_of_mod_of_linear.hpp"],
  [("continued-fraction comparison", "library/number/rational.hpp"), ("run-length paths", "library/number/stern_brocot_tree.hpp"), ("k-range intersection", "library/number/bezout_equation.hpp")],
  "fractions are compared through 128-bit cross products, tree walks are made step by step, equations are enumerated over a box.")
P("C60", "Set, divisor and min-plus convolutions and their transforms equal the definition",
  "For every pair of arrays (over modular, integer and user-defined coefficient operations, every length the function admits): AND / OR / XOR / subset / array-subset, GCD / LCM / Dirichlet and min-plus (convex with convex, convex with arbitrary) convolutions and polynomial evaluation over them return exactly the sum (minimum) in the definition, and the zeta / Moebius / divisor / multiple / Walsh-Hadamard / Kronecker-power transforms compute the defining sums and are undone by their inverses.",
  "all arrays, lengths and coefficient types", NOTEST,
  ["library/convolution/and_convolution.hpp", "library/convolution/or_convolution.hpp", "library/convolution/xor_convolution.hpp", "library/convolution/gcd_convolution.hpp", "library/convolution/lcm_convolution.hpp", "library/convolution/dirichlet_convolution.hpp", "library/convolution/min_plus_convolution.hpp", "library/convolution/subset_convolution.hpp", "library/convolution/array_subset_convolution.hpp", "library/convolution/polynomial_eval.hpp", "library/convolution/convolution.hpp", "library/convolution/convolution_naive.hpp", "library/transform/kronecker_power.hpp", "library/transform/kronecker.hpp", "library/transform/divisor.hpp", "library/transform/multiple.hpp", "library/transform/subset.hpp", "library/transform/supset.hpp", "library/transform/walsh_hadamard.hpp"],
  [("zeta / Moebius transforms", "library/transform/"), ("SMAWK on convex rows", "library/convolution/min_plus_convolution.hpp")],
  "arrays of every small length (and powers of two up to 2^8) with sparse, extreme and random entries are convolved by the double loop of the definition.")
P("C61", "NTT-based convolutions are exact for any modulus, width, shape and arrival order",
  "For every input: arbitrary-mod, 2^64 and beyond-NTT-limit convolutions equal the schoolbook product; multivariate products (truncated or circular) equal the definition on multi-indices; multiplicative convolution mod 2^n sums exactly over factor pairs; relaxed and semi-relaxed convolutions return, after each append, the coefficient determined by the terms appended so far; chirp-z evaluates at the geometric progression.",
  "all lengths, coefficients, moduli and append sequences", NOTEST,
  ["library/convolution/arbitrary_mod_convolution.hpp", "library/convolution/convolution_2_64.hpp", "library/convolution/convolution_large.hpp", "library/convolution/multi_variate_convolution.hpp", "library/convolution/multi_variate_convolution_circular.hpp", "library/convolution/multiplicative_convolution_mod_2^n.hpp", "library/convolution/relaxed_convolution.hpp", "library/convolution/relaxed_convolution_ntt.hpp", "library/convolution/semi_relaxed_convolution.hpp", "library/convolution/semi_relaxed_convolution_ntt.hpp", "library/transform/chirp_z_transform.hpp"],
  [("Garner reconstruction", "library/convolution/arbitrary_mod_convolution.hpp"), ("online block decomposition", "library/convolution/relaxed_convolution.hpp")],
  "lengths straddle the naive/NTT cut-offs and block boundaries, coefficients include the extreme residues; oracles are 128-bit schoolbook products.")
P("C62", "Power series types satisfy the ring laws and their defining equations",
  "For every series (dense or sparse, any length, leading zeros, any truncation n >= 1) of FormalPowerSeries, FPS, FPSNaive, ArrayFPSNaive and VecSparseFPS: sums, products, quotients / remainders, shifts, cuts, comparison, derivative, integral and evaluation are those of polynomials; inv, log, exp, pow (any exponent up to 10^18) are the unique truncated series of the definition, sqrt returns a root exactly when one exists; the relaxed operators return the same coefficients online; the in-place and free-function forms agree.",
  "all series, truncations and exponents", NOTEST,
  ["library/polynomial/formal_power_series.hpp", "library/polynomial/fps.hpp", "library/polynomial/fps_naive.hpp", "library/polynomial/array_fps_naive.hpp", "library/polynomial/formal_power_series_relaxed.hpp", "library/polynomial/vec_sparse_fps.hpp"],
  [("Newton doubling", "library/polynomial/formal_power_series.hpp"), ("sparse recurrences (<= 15 terms)", "library/polynomial/fps.hpp")],
  "a schoolbook model on plain integers recomputes every result; lengths straddle the naive (60) and sparse (15 terms) cut-offs; long series are checked through sampled coefficients of the defining identities.")
P("C63", "Polynomial algorithms return exactly the polynomial, value or count specified",
  "For every input: Berlekamp-Massey returns a shortest recurrence and Bostan-Mori its n-th term; composition, compositional inverse, f(e^x), Taylor shift, product of f(r^k x), Newton-basis conversion and rational series equal the definition; multipoint evaluation, interpolation (general, arithmetic progression, shift of sampling points) and product of differences agree with Horner evaluation; polynomial (extended) gcd is the monic gcd with a Bezout identity; subset_sum counts subsets; rook polynomials count placements.",
  "all polynomials, point sets, exponents and boards", NOTEST,
  ["library/polynomial/berlekamp_massey.hpp", "library/polynomial/bostan_mori.hpp", "library/polynomial/compose.hpp", "library/polynomial/compose_exp.hpp", "library/polynomial/compose_inv.hpp", "library/polynomial/convert_to_newton_basis.hpp", "library/polynomial/lagrange_interpolation.hpp", "library/polynomial/multi_point_eval.hpp", "library/polynomial/polynomial_gcd.hpp", "library/polynomial/polynomial_interpolation.hpp", "library/polynomial/polynomial_taylor_shift.hpp", "library/polynomial/prod_f(r^k_x).hpp", "library/polynomial/rational_fps.hpp", "library/polynomial/rook_polynomial.hpp", "library/polynomial/shift_of_sampling_points.hpp", "library/polynomial/subset_sum.hpp", "library/math/product_of_differences.hpp", "library/convolution/polynomial_eval_multipoint_eval.hpp"],
  [("half-gcd", "library/polynomial/polynomial_gcd.hpp"), ("baby-step giant-step composition", "library/polynomial/compose.hpp"), ("product trees", "library/polynomial/multi_point_eval.hpp")],
  "results are substituted back into their definitions with schoolbook arithmetic; minimality of recurrences is decided by elimination; remainder sequences with degree gaps reach the half-gcd recursion.")
P("C65", "Linear algebra over fields and F2 returns the exact product, rank, solution",
  "For every matrix (any shape the function admits, singular or regular): Matrix / ArrayMatrix / CirculantMatrix / MatrixF2 products (naive and Strassen), powers, determinants (field and composite modulus), ranks and inverses are those of the definition, inverses exist exactly when the determinant is a unit; the characteristic polynomial and Hessenberg form belong to the matrix; gaussian elimination (field and F2) reports solvability, the dimension, a particular solution and a basis of the kernel; XOR bases span exactly the inserted vectors and their sums / intersections / orthogonal spaces are exact; hafnian counts weighted perfect matchings and count_spanning_trees counts spanning trees.",
  "all matrices, shapes, ranks and fields", NOTEST,
  ["library/linear_algebra/matrix.hpp", "library/linear_algebra/array_matrix.hpp", "library/linear_algebra/characteristic_polynomial.hpp", "library/linear_algebra/circulant_matrix.hpp", "library/linear_algebra/count_spanning_trees.hpp", "library/linear_algebra/gaussian_elimination.hpp", "library/linear_algebra/gaussian_elimination_f2.hpp", "library/linear_algebra/hafnian.hpp", "library/linear_algebra/hessenberg_reduction.hpp", "library/linear_algebra/matrix_f2.hpp", "library/linear_algebra/xor_base.hpp"],
  [("Strassen recursion above 70", "library/linear_algebra/matrix.hpp"), ("bitset elimination", "library/linear_algebra/gaussian_elimination_f2.hpp"), ("subset-convolution hafnian", "library/linear_algebra/hafnian.hpp")],
  "random, low-rank, sparse and singular matrices; the oracles are schoolbook products, subset-DP determinants, enumeration of vectors / matchings / edge subsets and substitution of the returned solutions.")
P("C66", "Combinatorial number sequences equal their defining recurrences",
  "For every index n (k) in the documented range and every modulus admitted: bell, bernoulli, eulerian, montmort, partition, Stirling (first / second kind: rows, reversed prefixes for n up to 10^18, tables, modulo small primes), powers, sums of powers, and binomial coefficients (tables, modulo any m with small prime powers for n up to 2^63, modulo small primes, one row modulo any m, offline with small r) are the numbers given by the combinatorial definition, including the last index and the degenerate rows n = 0 and k outside 0..n.",
  "all n, k, query lists and moduli", NOTEST,
  ["library/sequence/bell_number.hpp", "library/sequence/bernoulli_number.hpp", "library/sequence/binomial_coefficient.hpp", "library/sequence/binomial_coefficient_small_prime_mod.hpp", "library/sequence/binomial_coefficient_small_r_offline.hpp", "library/sequence/binomial_coefficitnt_enumeration.hpp", "library/sequence/eulerian_number.hpp", "library/sequence/montmort_number.hpp", "library/sequence/partition_number.hpp", "library/sequence/powers.hpp", "library/sequence/stirling_number1.hpp", "library/sequence/stirling_number1_small_prime_mod.hpp", "library/sequence/stirling_number2.hpp", "library/sequence/stirling_number2_small_prime_mod.hpp", "library/sequence/sum_of_powers.hpp"],
  [("generalised Lucas with Kummer carries", "library/sequence/binomial_coefficient.hpp"), ("doubling x(x+1)...", "library/sequence/stirling_number1.hpp"), ("multipoint evaluation per bit of r", "library/sequence/binomial_coefficient_small_r_offline.hpp")],
  "triangles are rebuilt row by row with their recurrences; at huge arguments the recurrence itself, symmetries and boundary values are monitored; exact factorised binomials decide composite moduli.")
P("C67", "Set power series, factorial tables and finite sums equal their definitions",
  "For every set function (any size of the ground set, any coefficients admitted): sum, product, inverse, logarithm, exponential, composition with a polynomial / EGF of SetPowerSeries and ArraySetPowerSeries are those of the subset convolution; factorial / binomial tables (growing lazily, past any previous size, also for small prime moduli), n! mod p for large n, the embedded-table generator, inverse and power tables, modint extensions, range sums of binomials times powers and sum of i^d r^i (finite and infinite) equal direct evaluation for every argument in the documented range.",
  "all set functions, arguments and growth histories", NOTEST,
  ["library/math/set_power_series.hpp", "library/math/array_set_power_series.hpp", "library/math/factorial.hpp", "library/math/factorial_large.hpp", "library/math/factorial_embeded.hpp", "library/math/inv_mods.hpp", "library/math/pow_mods.hpp", "library/math/modint_extension.hpp", "library/math/binomial_coefficient_sum.hpp", "library/math/sum_i^d_r^i.hpp", "library/math/util.hpp"],
  [("ranked zeta transforms", "library/math/set_power_series.hpp"), ("lazy table growth", "library/math/factorial.hpp"), ("block decomposition of n!", "library/math/factorial_large.hpp")],
  "operands are expanded over all pairs of disjoint subsets / all terms of the sum in exact modular arithmetic; the generated table of factorial_embeded is compiled and run in a scratch directory.")
P("C68", "Big integers are exact integers under every operation and text conversion",
  "For every pair of arbitrarily long integers: construction from every built-in type and from text (signs, leading zeros), output, comparison, negation, +, -, *, / (truncating), %, compound forms, increments and conversions of unsigned_bigint and bigint give exactly the integers of ordinary arithmetic in normalised form, across the schoolbook, Karatsuba/FFT and Newton-division cut-offs and when an operand aliases the result.",
  "all operands, lengths and operator sequences", NOTEST,
  ["library/math/bigint.hpp", "library/math/unsigned_bigint.hpp"],
  [("convolution of limbs with carries", "library/math/unsigned_bigint.hpp"), ("Newton reciprocal division", "library/math/unsigned_bigint.hpp"), ("sign handling", "library/math/bigint.hpp")],
  "a schoolbook decimal model computes each result; operands include powers of the radix +-1, all-nines limbs, exact multiples +-1, divisors of powers of the radix and lengths around each cut-off.")
P("C69", "Nimbers, affine monoids, sequence DPs and selection problems are optimal / exact",
  "For every input: nimber operations form the field of nimbers (mex-defined products, inverses, square roots); affine and clamped-affine maps compose as functions and round-trip through text; longest increasing subsequences are longest and strictly / weakly increasing as asked; numbers of distinct (sub)sequences equal enumeration; grid-connectivity states represent exactly the partitions; the expression parser evaluates with the declared precedence and associativity; alien DP returns the k-constrained optimum of a concave problem; (k-)project selection returns the minimum total cost and an assignment attaining it.",
  "all values, sequences, expressions and cost structures", NOTEST,
  ["library/algebra/field/nimber.hpp", "library/algebra/monoid/affine.hpp", "library/algebra/monoid/affine_clamp.hpp", "library/dp/grid_connectivity.hpp", "library/dp/longest_increasing_subsequence.hpp", "library/dp/number_of_subsequences.hpp", "library/icpc/parsing.hpp", "library/optimization/alien_dp.hpp", "library/optimization/project_selection_problem.hpp", "library/optimization/k_project_selection_problem.hpp"],
  [("Karatsuba on nim tables", "library/algebra/field/nimber.hpp"), ("min cut with Monge gadgets", "library/optimization/k_project_selection_problem.hpp"), ("Lagrangian search", "library/optimization/alien_dp.hpp")],
  "nim tables are rebuilt by mex, sequences and assignments are enumerated exhaustively, function composition is evaluated pointwise, parsing is compared with an independent shunting-yard evaluator.")
P("C70", "Integer geometry predicates and algorithms are exact",
  "For every configuration of integer points (duplicates, collinear and degenerate sets included) whose products fit the declared product type: orientation, parallelism, incidence, intersection, equality, area, convexity and point-in-polygon tests are decided exactly; convex_hull returns every distinct boundary point once in counter-clockwise order from the least point; ConvexHullInclusion classifies every query point; closest and farthest pairs and convex diameters attain the extreme distance; count_lattice_points counts the lattice points of a polygon in either orientation; sorting by argument is a strict weak ordering by atan2.",
  "all point sets, coordinate and product types", NOTEST,
  ["library/integral_geom/point.hpp", "library/integral_geom/geometry.hpp", "library/integral_geom/convex_hull.hpp", "library/integral_geom/convex_hull_inclusion.hpp", "library/integral_geom/count_lattice_point.hpp", "library/integral_geom/closest_pair.hpp", "library/integral_geom/farthest_pair.hpp", "library/integral_geom/sort_points_by_argument.hpp"],
  [("products in MULTIPLIED_TYPE", "library/integral_geom/geometry.hpp"), ("monotone chain with index marks", "library/integral_geom/convex_hull.hpp"), ("rotating calipers", "library/integral_geom/geometry.hpp")],
  "one workload compiled for (long long, long long), (int, long long) and (long long, __int128) with coordinates up to the bound at which products fit; the oracles are 128-bit cross products, enumeration of pairs and of lattice points, and exhaustive triples for the ordering axioms; UBSan watches for overflow.")
P("C71", "Floating-point plane and space geometry satisfies its defining equations",
  "For every configuration in general or degenerate position (within the stated epsilon): distances between points, lines, rays, segments and planes are the minimum over the two sets; projections, reflections, intersection points, tangent points, common tangents, in-, ex- and circumcircles, centroids and orthocentres satisfy their defining equations and are returned in the right number; polygon area, convexity, containment, diameter, half-plane cut, and intersection areas with circles equal the integral; convex_hull, closest_pair and the count of axis-parallel segment intersections are those of enumeration.",
  "all configurations of points, lines, circles, polygons and planes", NOTEST,
  ["library/geom/geometry.hpp", "library/geom/convex_hull.hpp", "library/geom/closest_pair.hpp", "library/geom/segment_intersections.hpp", "library/geom/geometry3d.hpp"],
  [("isp classification", "library/geom/geometry.hpp"), ("sector / triangle decomposition", "library/geom/geometry.hpp"), ("closest pair of two lines", "library/geom/geometry3d.hpp")],
  "inputs are integers times a power of two, so that the qualitative answer is decided exactly in integers; quantities are checked against parametric minima, defining equations, or numerical quadrature between breakpoints.")
U = "library/util/"
P("C80", "Utility containers and searches agree with their plain models",
  "For every history: RunLengthEncoder holds exactly the runs and length of the sequence pushed and popped; cumulative sums (1-D growing, 2-D, any commutative group) and StepSum equal direct summation of any range; default_vector reads its default outside its size; ObjectPool and ptr32 never hand out a live object twice nor disturb live ones; StepView / StepIterator visit every step-th element; Zobrist keys are stable, distinct and hash a set by the XOR of its elements; vector operators concatenate and repeat (also with an operand aliased). sum_count* count pairs exactly in the requested result type; binary and ternary searches return the boundary / optimum probing only inside the interval; CoordinateCompressor is the order isomorphism with exact neighbours; UpdateProxyObject calls its update once after each modification; Match runs exactly the matching handler.",
  "all operation histories, ranges, key sets and functions", NOTEST,
  [U + f for f in ["run_length_encoder.hpp", "cumulative_sum.hpp", "cumulative_sum_2d.hpp", "default_vector.hpp", "object_pool.hpp", "pointer_32bit.hpp", "step_sum.hpp", "step_view.hpp", "zobrist_hash.hpp", "vector_ops.hpp", "sum_count.hpp", "search.hpp", "coordinate_compressor.hpp", "update_proxy_object.hpp", "variant_utils.hpp", "timer.hpp", "default_operator.hpp"]],
  [("free list over a deque", U + "object_pool.hpp"), ("key table growth", U + "zobrist_hash.hpp"), ("closed-form triangle counts", U + "sum_count.hpp")],
  "operation sequences are mirrored on plain vectors/sets; objects are default-initialised in dirty storage so that forgotten members are visible; live pool objects carry stamps audited after every operation; searches assert on every probe.")
P("C81", "Bit tricks, enumerators, permutations and grid helpers equal their definitions",
  "For every value of every built-in integer type up to 64 bits: popcount, leading / trailing zero counts, floor and ceiling log2, parity and bit tests equal the bit-by-bit definition; all_subset, all_subset_k(_64), all_setbit(_64) and product_range enumerate exactly the stated elements once, in the stated order, and stop (full and empty sets included). Permutation products, inverses, powers (any exponent), permute / inv_permute and index_sort obey their equations; PermutationHash is a bijection onto [0, n!). rot90 and transpose move every cell to its place; adjacent cell ranges yield exactly the in-bounds neighbours; std::hash of pairs, tuples and arrays makes unordered containers behave as ordered ones; pair and tuple operators act element-wise.",
  "all integer values, sets, permutations and grids", NOTEST,
  [U + f for f in ["bit_utils.hpp", "subset_iterator.hpp", "iter_util.hpp", "permutation.hpp", "rot90.hpp", "transpose.hpp", "grid_utils.hpp", "hashes.hpp", "pair_ops.hpp", "tuple_ops.hpp"]],
  [("bmi intrinsics", U + "subset_iterator.hpp"), ("noshi91 permutation hash", U + "permutation.hpp")],
  "values at and around powers of two in all widths are compared with loops over the bits; enumerators are listed and compared with the ordered list of submasks; permutations are enumerated exhaustively for small n; UBSan watches shifts and overflow.", over=("inputs",))
P("C82", "Streams, container helpers and the contest template do what they say",
  "Everything printed by io::OutputStream / print / print_all is the text of its arguments with single separators and can be read back by io::InputStream / read with the same value, for all scalars (the whole range of signed and unsigned 128-bit integers), strings, pairs, tuples and nested containers; stoi128/stou128, split/join, concat, mapped/copied vectors, digits and the count_/min_/max_ queries on sorted vectors, sets and maps equal their definitions; fld/cld round correctly for every sign combination and integer type; REP/RREP/REPINF/LOOP visit exactly the stated values in order and terminate for signed and unsigned types and any step; sorted_indices, comparator, priority queues, sort_unique_erase, ndvec and chmin/chmax behave as stated; type traits answer correctly.",
  "all values, container shapes, ranges and steps", NOTEST,
  ["library/io/input_stream.hpp", "library/io/output_stream.hpp", U + "container_utils.hpp", "library/template.hpp", "library/type_traits/type_traits.hpp", "library/type_traits/operator.hpp"],
  [("128-bit conversions", "library/io/output_stream.hpp"), ("iterator structs behind REP/RREP", "library/template.hpp")],
  "texts are compared with independently formatted ones through redirected stream buffers and read back with random white space; loop macros are compared with hand-written loops over signed 64-bit counters with a cap on the number of iterations.", over=("inputs",))
