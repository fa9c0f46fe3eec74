#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing: python3 tools/meta.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "engine/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note))


IN = ["inputs", "histories"]
NOTE = ("Exploration: holds on every execution observed (counts in the evidence). Trusts the reference model in harness/src, the compiler and the "
        "stated preconditions; silent about graphs larger than the generated ones.")

prop("C01", "Dijkstra-family searches are exact for every graph and query history",
     "For every directed graph with non-negative (possibly zero or closed) edge weights and every sequence of queries on one long-lived query object, unidirectional and "
     "bidirectional Dijkstra, one-to-all search and rank enumeration return exactly the shortest distance, or nothing iff the target is unreachable. "
     "Every returned node or edge path runs from source to target over existing edges and its length equals the reported distance. "
     "Earlier queries never influence later ones, and a search limited by a distance cap still finds everything below the cap.",
     IN, "all graphs (parallel edges, loops, zero/closed weights, disconnected), all query sequences on the same server, all direction strategies",
     "Existing tests run a handful of fixed queries on one 6-node graph; exactness is a statement over all graphs, and stale per-query state only shows in histories.",
     [E + "algo/dijkstra.rs", E + "algo/dijkstra/generic_dijkstra.rs", E + "algo/dijkstra/query/dijkstra.rs", E + "algo/dijkstra/query/bidirectional_dijkstra.rs",
      E + "algo/dijkstra/query/mod.rs"],
     [("label setting with timestamped labels", E + "algo/dijkstra/generic_dijkstra.rs: DijkstraRun::settle_next_node"),
      ("bidirectional stopping rule", E + "algo/dijkstra/query/bidirectional_dijkstra.rs: Server::distance")],
     "runtime monitor: online oracle over generated query histories", NOTE)
prop("C02", "A* search stays exact under every admissible potential",
     "A* queries (unidirectional and bidirectional, with symmetric or averaged potentials) guided by landmark, hierarchy based, lower-bound-metric or exact potentials return the same "
     "distances as plain Dijkstra together with valid paths, for every graph, landmark choice and query history. "
     "Every potential is a lower bound on the true remaining distance and never declares a node that can reach the target as unable to do so.",
     IN, "all graphs, landmark sets, lower bound metrics, node orders, direction strategies and query sequences",
     "Only a few fixed potentials on the toy graph are exercised; admissibility and stopping-rule interplay must hold for all metrics and histories.",
     [E + "algo/a_star.rs", E + "algo/alt.rs", E + "algo/ch_potentials.rs", E + "algo/dijkstra/query/bidirectional_dijkstra.rs"],
     [("potential combination and stop conditions", E + "algo/a_star.rs: SymmetricBiDirPotential, AveragePotential"),
      ("landmark lower bounds", E + "algo/alt.rs: ALTPotData"), ("potential recycling", E + "algo/a_star.rs: RecyclingPotential")],
     "runtime monitor: online oracle plus admissibility assertions on every potential value", NOTE)
prop("C03", "Contraction hierarchies preserve distances and unpack to real paths",
     "For every graph and every contraction order, hierarchy queries return exact shortest distances and unpack to paths of the input graph of that length. "
     "Contracting only a prefix of the order yields an overlay in which all distances among the remaining nodes are preserved, and an externally contracted graph is queried exactly.",
     IN, "all graphs, all contraction orders and prefixes, all query sequences",
     "The tests contract one 6-node graph with one order.",
     [E + "algo/contraction_hierarchy/mod.rs", E + "algo/contraction_hierarchy/query.rs"],
     [("witness search and shortcut insertion", E + "algo/contraction_hierarchy/mod.rs: PartialContractionGraph / contract"),
      ("shortcut unpacking", E + "algo/contraction_hierarchy/query.rs")],
     "runtime monitor: online oracle over generated graphs, orders and query histories", NOTE)
prop("C04", "Customizable hierarchies answer exactly for every metric and metric update",
     "For every graph, node order and sequence of metrics (including closed and zero weight roads), customizing and querying a customizable contraction hierarchy, in undirected, directed "
     "or memory-slim form and with basic or perfect customization, returns exact shortest distances with respect to the metric in force and valid shortest paths. "
     "Reusing one hierarchy or one query object across metric updates gives the same answers as building from scratch.",
     IN, "all graphs, node orders, metrics, update histories and query histories",
     "Tests use one tiny graph with one metric and never swap metrics.",
     [E + "algo/customizable_contraction_hierarchy/mod.rs", E + "algo/customizable_contraction_hierarchy/query.rs", E + "algo/customizable_contraction_hierarchy/customization.rs",
      E + "algo/customizable_contraction_hierarchy/customization/directed.rs"],
     [("basic and perfect customization", E + "algo/customizable_contraction_hierarchy/customization.rs"),
      ("elimination tree query", E + "algo/customizable_contraction_hierarchy/query.rs")],
     "runtime monitor: online oracle over metric-update and query histories", NOTE)
prop("C05", "Parallel customization equals sequential for every thread count",
     "Basic and perfect customization computed by any number of worker threads under any schedule yields exactly the shortcut weights that a sequential lower-triangle relaxation yields, "
     "and perfect customization keeps exactly the arcs and weights that are the shortest distances between their end points. The result is complete for every separator structure, however unbalanced.",
     ["inputs", "schedules", "configurations"], "all graphs and orders, thread counts, work-stealing schedules",
     "Tests never run parallel customization on graphs large enough to split into cells, and cannot fix a schedule.",
     [E + "algo/customizable_contraction_hierarchy/customization/parallelization.rs", E + "algo/customizable_contraction_hierarchy/separator_decomposition.rs"],
     [("recursive cell/separator scheduling over disjoint slices", E + "algo/customizable_contraction_hierarchy/customization/parallelization.rs")],
     "runtime monitor: differential check against an independent sequential relaxation, varied thread counts, stress", NOTE)
prop("C06", "Hierarchy construction yields the elimination structure and survives storage",
     "Contracting a graph with any order yields exactly the arcs of the elimination game, with correct elimination tree, arc-to-original-edge mapping and separator cells that partition the nodes. "
     "Order-fixing reorders stay valid permutations that keep the hierarchy correct, and storing a hierarchy together with its order and loading it back gives an equal hierarchy.",
     ["inputs"], "all graphs and orders, including disconnected graphs, loops and parallel edges",
     "The tests check a single fixed contraction.",
     [E + "algo/customizable_contraction_hierarchy/mod.rs", E + "algo/customizable_contraction_hierarchy/contraction.rs", E + "algo/customizable_contraction_hierarchy/reorder.rs",
      E + "algo/customizable_contraction_hierarchy/separator_decomposition.rs"],
     [("elimination game contraction", E + "algo/customizable_contraction_hierarchy/contraction.rs"), ("reordering", E + "algo/customizable_contraction_hierarchy/reorder.rs")],
     "runtime monitor: structural assertions against an independent elimination game; save/load round trips", NOTE)
prop("C07", "Hierarchy potentials and many-to-many searches equal true distances",
     "Distances computed through the hierarchy for one-to-many, many-to-many and potential computations (eager, lazy, bucket based, hub labels, batch and vectorised multi-source variants) equal the true shortest distances "
     "for every selection of sources and targets, every evaluation order and any reuse of the same object. Path trees unpacked from them are shortest path trees of the input graph.",
     IN, "all graphs, orders, target selections, evaluation orders, reuse histories",
     "Existing tests cover a single potential on a toy graph.",
     [E + "algo/ch_potentials.rs", E + "algo/rphast.rs", E + "algo/hl.rs", E + "algo/customizable_contraction_hierarchy/query.rs"],
     [("lazy upward distance memoisation", E + "algo/ch_potentials.rs"), ("selection and sweep", E + "algo/rphast.rs")],
     "runtime monitor: online oracle on every distance read, over reuse histories", NOTE)
prop("C08", "Nearest-neighbour searches return the true k closest targets",
     "For every graph, metric, set of targets, source and k, each nearest neighbour search returns k (or all reachable, if fewer) targets whose distances are exactly the k smallest true distances, each with its correct distance and never an unreachable one. "
     "Changing the source or target set on the same object leaves no trace of earlier selections.",
     IN, "all graphs, orders, target sets, k, sources and selection histories",
     "No existing test runs any nearest neighbour search.",
     [E + "algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs", E + "algo/customizable_contraction_hierarchy/separator_decomposition.rs"],
     [("separator based pruning", E + "algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs")],
     "runtime monitor: online oracle over selection and query histories", NOTE)

prop("C09", "Skipping low-degree nodes and side components never changes a query result",
     "Searches that work on the biconnected core and jump over low degree nodes (uni- and bidirectional, core-only and two-threaded, with any admissible potential) return the same distances as plain "
     "Dijkstra and valid node and edge paths, for every graph topology, query history and thread interleaving. "
     "A search with a distance cap returns the exact distance whenever it lies below the cap.",
     ["inputs", "histories", "schedules"], "all graphs (including trees, stars, chains, disconnected graphs), all potentials, query sequences, caps and interleavings of the two search threads",
     "No existing test touches these searches; the errors need particular component/bridge/degree constellations or a race of the two threads.",
     [E + "algo/topocore.rs", E + "algo/dijkstra/gen_topo_dijkstra.rs", E + "algo/ch_potentials/query.rs"],
     [("chain skipping relaxations", E + "algo/dijkstra/gen_topo_dijkstra.rs: settle_next_node"), ("core and bridge detection", E + "algo/topocore.rs: virtual_topocore"),
      ("bidirectional and two-threaded search", E + "algo/ch_potentials/query.rs: BiDirSkipLowDegRunner, MultiThreadedBiDirSkipLowDegServer")],
     "runtime monitor: online oracle over query histories, including racing search threads", NOTE)

prop("C10", "Alternative routes of the penalty method are real, short enough and diverse",
     "The first route is a shortest path and every further route runs from source to target over existing open roads, is at most the permitted factor longer than the shortest path and shares "
     "no more than the permitted fraction with the routes before it. "
     "The answer does not depend on earlier queries on the same object, and nothing is returned iff the target is unreachable.",
     IN, "all graphs, query sequences and numbers of alternatives",
     "No existing test runs the penalty method; wrong node ids, too long routes and stale penalties appear only for particular graphs and histories.",
     [E + "algo/ch_potentials/penalty.rs"], [("penalisation and admission of alternatives", E + "algo/ch_potentials/penalty.rs: Penalty::alternatives, AlternativeGraphDijkstra")],
     "runtime monitor: online oracle over query histories", NOTE)
prop("C11", "Minimal suboptimal parts of a route are found exactly",
     "For every graph and path, the search for minimal suboptimal parts (exact or relative to a tolerance) reports exactly the minimal subpaths which are longer than permitted, in all its variants "
     "(quadratic, tree based and lazy), and reports none iff every subpath is within the tolerance. "
     "Repairing a path yields a path with the same end points that contains no such part, and the reported local optimality and stretch of a path equal their definitions.",
     IN, "all graphs with positive weights, all paths including those with cycles, all tolerances, reuse histories",
     "Existing tests check three hand made paths on one graph.",
     [E + "algo/minimal_nonshortest_subpaths.rs"],
     [("tree based detection", E + "algo/minimal_nonshortest_subpaths.rs: MinimalNonShortestSubPaths"), ("subpath statistics and repair", E + "algo/minimal_nonshortest_subpaths.rs")],
     "runtime monitor: online oracle comparing with the definition", NOTE)
prop("C12", "Traffic aware routing returns the best route without unreasonable detours",
     "The exact algorithm returns the length of the shortest live route all of whose parts are within the tolerance on the smooth metric, and fails iff no such route exists. "
     "The heuristics only return routes over open roads that satisfy the tolerance, are never shorter than the optimum and start from the live shortest path. "
     "Earlier queries never influence later ones.",
     IN, "all graphs with positive smooth weights, all live metrics (including closed roads), tolerances and query sequences within the query time limit",
     "Existing tests cover two calls of an inner function; optimality is over all sets of forbidden parts.",
     [E + "algo/traffic_aware.rs", E + "algo/minimal_nonshortest_subpaths.rs", E + "report.rs"],
     [("forbidden path labels and dominance", E + "algo/traffic_aware.rs: BlockedPathsDijkstra, ActiveForbittenPaths"), ("detour blocking", E + "algo/traffic_aware.rs: BlockedDetoursDijkstra")],
     "runtime monitor: online oracle enumerating all simple paths, observing reported results", NOTE,
     observe="values reported through report!")

T = E + "datastr/graph/time_dependent/"
prop("C13", "Travel time functions are FIFO, periodic and inside of their bounds",
     "For every stored travel time function and every instant, evaluation equals linear interpolation of the stored points with period one day, and departing later never means arriving earlier. "
     "Global and range bounds, averages and fixed functions of all derived graphs agree with the function itself over every range (including ranges which wrap midnight or span days). "
     "Permuted, line and constant-bound graphs, also those with live reports, carry exactly the functions of their original edges.",
     IN, "all piecewise linear functions (constant, implied first/last point, steep), all instants and ranges, all derived graphs",
     "A few functions at a few instants are tested; agreement of bounds with the function is a statement over all ranges, and wrapping ranges are a classic corner.",
     [T + "piecewise_linear_function.rs", T + "graph.rs", T + "wrapping_range.rs"],
     [("evaluation and bounds in ranges", T + "piecewise_linear_function.rs: PiecewiseLinearFunction"), ("derived graphs", T + "graph.rs: Graph")],
     "runtime monitor: exact rational reference interpolation over random functions, instants and ranges", NOTE)
prop("C14", "Time-dependent queries return earliest arrivals, also with live traffic",
     "For every time-dependent network, departure and history of queries on one server, time-dependent Dijkstra (plain, goal directed, with disconnected targets) returns the minimal travel time with a path that really takes that long. "
     "Sampling heuristics return valid paths which never beat the optimum and find a path iff there is one. "
     "Live graphs combine report and prediction as specified, stay FIFO and inside of their reported bounds.",
     IN, "all FIFO networks, departures, live reports valid at the departure, query sequences",
     "There are no tests of time-dependent queries on more than toy inputs; optimality is over all paths and departure times.",
     [E + "algo/dijkstra/query/td_dijkstra.rs", E + "algo/time_dependent_sampling.rs", E + "algo/dijkstra/query/mod.rs", T + "graph.rs"],
     [("label setting with functions", E + "algo/dijkstra/query/td_dijkstra.rs: TDDijkstraOps"), ("live evaluation and bounds", T + "graph.rs: LiveGraph, PessimisticLiveTDGraph"), ("interval sampling", E + "algo/time_dependent_sampling.rs: Server")],
     "runtime monitor: online oracle (reference earliest arrival search, path re-evaluation)", NOTE)
prop("C15", "Goal-directed time-dependent searches stay exact with every potential",
     "For every network, order, set of time windows and live situation, the time-dependent goal-directed server (with and without core and low degree handling) returns the earliest arrival with zero, lower bound, recycled and multi-metric potentials. "
     "Every potential value on a shortest path is at most the remaining travel time. "
     "Reducing the number of metrics or adding live metrics never changes answers.",
     IN, "all FIFO networks, window sets, metric reductions, live reports, query histories",
     "Untested; admissibility is over all windows, metrics and departure times.",
     [E + "algo/td_astar.rs", E + "algo/ch_potentials/td_query.rs", E + "algo/metric_merging.rs", E + "algo/topocore.rs"],
     [("choice of metric by time window", E + "algo/td_astar.rs: MultiMetric"), ("core, chain and component handling", E + "algo/ch_potentials/td_query.rs: Server"), ("merging of metrics", E + "algo/metric_merging.rs: merge")],
     "runtime monitor: online oracle (reference earliest arrival search), admissibility observed per node", NOTE)
prop("C16", "Interval potentials are lower bounds and keep searches exact",
     "For every predicted network, order and number of time intervals, interval-min potentials obtained from travel time profiles are at most the remaining travel time for every node on an earliest arrival path, also after storing and loading them, so searches over the whole graph return the earliest arrival up to rounding. "
     "With live traffic the same holds for queries within one interval. "
     "All other answers (core restricted searches, live queries over several intervals; see recorded findings) are at least valid paths.",
     IN, "all FIFO networks with slopes in (-0.9, 3], interval counts, live reports, query histories, evaluation orders of the potential",
     "Untested; the lower bound property is over all profiles, intervals and evaluation orders.",
     [E + "algo/td_astar.rs", E + "algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs", E + "algo/customizable_contraction_hierarchy/customization/validity.rs", E + "algo/ch_potentials/td_query.rs"],
     [("lazy evaluation per interval", E + "algo/td_astar.rs: IntervalMinPotential"), ("interval bounds from profiles", E + "algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs: customize"), ("live validity", E + "algo/customizable_contraction_hierarchy/customization/validity.rs")],
     "runtime monitor: online oracle (reference earliest arrival search), admissibility observed per node", NOTE)

prop("C17", "CATCHUp answers earliest arrival queries optimally",
     "For every predicted network, elimination order and history of queries, CATCHUp reports the earliest arrival (up to rounding) exactly if the target is reachable, and a connected path whose nodes carry the times at which they are reached and whose travel time is the reported one. "
     "The same holds for a customization which was stored and loaded, for every number of customization threads, and for the travel time even if shortcut functions are approximated.",
     IN, "all FIFO networks with slopes in (-0.9, 3], orders, departures, query histories, thread counts",
     "One ignored-by-default sample test aside, correctness over all networks, shortcut interactions and rounding cases is beyond unit tests.",
     [E + "algo/catchup.rs", E + "algo/customizable_contraction_hierarchy/customization/ftd.rs", E + "datastr/graph/floating_time_dependent/shortcut.rs", E + "datastr/graph/floating_time_dependent/shortcut_graph.rs"],
     [("query and lazy relaxation", E + "algo/catchup.rs: distance"), ("shortcut linking and merging", E + "datastr/graph/floating_time_dependent/shortcut.rs: merge"), ("storing", E + "datastr/graph/floating_time_dependent/shortcut_graph.rs: CustomizedGraphReconstrctor")],
     "runtime monitor: online oracle (independent earliest arrival search on the input functions), path checker", NOTE)
prop("C18", "CATCHUp profile queries report travel times and paths for all departures",
     "For every predicted network, source, target and period, the profile queries report a function which gives, for every departure in the period, the optimal travel time (up to rounding) and report no function exactly if the target is unreachable. "
     "The list of paths with their validity names a connected path for each departure in the period, and its travel time is optimal.",
     IN, "all FIFO networks with slopes in (-0.9, 3], orders, periods, departures within them",
     "Untested; a profile is a statement over all departures, and its functions are assembled from arbitrary nested shortcuts.",
     [E + "algo/catchup/profiles.rs", E + "algo/catchup/profiles_naive.rs", E + "algo/catchup/partial_profiles.rs", E + "datastr/graph/floating_time_dependent/piecewise_linear_function.rs"],
     [("profile query", E + "algo/catchup/profiles.rs: distance"), ("path switches", E + "datastr/graph/floating_time_dependent/shortcut.rs: get_switchpoints"), ("partial profiles", E + "algo/catchup/partial_profiles.rs")],
     "runtime monitor: online oracle (independent earliest arrival search evaluated at breakpoints and random instants), path checker", NOTE)

prop("C19", "Priority queues behave like sorted multisets",
     "For every sequence of operations, the indexed heap pops its elements in key order, holds each index at most once, reports containment and current keys correctly and honours decrease, increase and update of keys, clearing and draining (also when the drained elements are not consumed). "
     "The heap which keeps elements for later iteration behaves the same for multisets. "
     "No operation sequence causes undefined behaviour in their unsafe code.",
     IN, "all operation sequences, keys (with ties) and index ranges",
     "Every search algorithm relies on these queues, but the tests only cover a few push/pop sequences and never observe memory errors of the unsafe sift operations.",
     [E + "datastr/index_heap.rs", E + "datastr/heap.rs"],
     [("indexed heap", E + "datastr/index_heap.rs: IndexdMinHeap"), ("hole based sifting", E + "datastr/index_heap.rs: Hole"), ("heap with retained elements", E + "datastr/heap.rs")],
     "runtime monitor: model based online checker over operation histories, repeated under AddressSanitizer and Miri", NOTE)
prop("C20", "Resettable arrays, bit sets and rank/select maps behave like plain arrays",
     "For every history of writes and resets, also beyond the wrap around of internal timestamps, timestamped vectors, clear-list vectors and fast-clearing bit sets read like plain arrays which were refilled with their default. "
     "Bit sets count exactly the set bits and rank/select maps number the contained keys consecutively in order, with exact inverses, for all sizes and densities. "
     "None of their unsafe code causes undefined behaviour.",
     IN, "all sizes, histories of get/set/reset, densities including completely empty blocks, numbers of resets",
     "Stale entries only show after many resets or at particular sizes and densities; tests use tiny fixed examples.",
     [E + "datastr/timestamped_vector.rs", E + "datastr/clearlist_vector.rs", E + "datastr/rank_select_map.rs", E + "util/in_range_option.rs"],
     [("timestamp wrap around", E + "datastr/timestamped_vector.rs: reset"), ("clear list", E + "datastr/clearlist_vector.rs"), ("rank/select", E + "datastr/rank_select_map.rs: RankSelectMap, InvertableRankSelectMap")],
     "runtime monitor: model based online checker over operation histories, repeated under AddressSanitizer and Miri", NOTE)
prop("C21", "Stored data is loaded back unchanged",
     "For every graph, array, bit set, hierarchy, customization and potential, storing it to a directory and loading it again yields an object which is equal element by element and gives the same answers, and exported files hold exactly the exported values. "
     "Loading reports an error instead of data when files are missing or their size does not fit the element type.",
     ["inputs", "faults"], "all element types and lengths (also empty), graphs, preprocessings, missing and truncated files",
     "The tests never store and reload; size and ordering errors depend on the element type and content.",
     [E + "io.rs", E + "export.rs", E + "datastr/graph/first_out_graph.rs", E + "algo/td_astar.rs", E + "algo/customizable_contraction_hierarchy/mod.rs"],
     [("raw vector files", E + "io.rs: Store, Load"), ("object directories", E + "io.rs: Deconstruct, Reconstruct, ReconstructPrepared")],
     "runtime monitor: round-trip checker with element-wise and answer-wise comparison, fault injection on the stored files", NOTE)
prop("C22", "Graph views and transformations preserve the graph",
     "For every graph, reversing, permuting (also filtered), building line graphs, mapping links to tails and viewing it through unit, filtering, reordering or borrowed representations yields exactly the links (as multisets with weights and edge ids) which the operation defines. "
     "Reversing twice, and permuting by an order and its inverse, gives the original graph, and node orders are consistent bijections. "
     "This includes graphs whose view hides closed roads.",
     IN, "all graphs (parallel edges, loops, closed roads), orders, filters, turn cost functions",
     "Every preprocessing starts with such a transformation; the tests check a single reversal on a toy graph.",
     [E + "datastr/graph.rs", E + "datastr/graph/first_out_graph.rs", E + "datastr/node_order.rs", E + "datastr/graph/link_id_to_tail_mapper.rs", E + "datastr/graph/time_dependent/graph.rs"],
     [("reversal", E + "datastr/graph/first_out_graph.rs: BuildReversed"), ("permutation", E + "datastr/graph/first_out_graph.rs: BuildPermutated"), ("line graph", E + "datastr/graph.rs: line_graph"), ("closed roads", E + "datastr/graph.rs: InfinityFilteringGraph")],
     "runtime monitor: online oracle comparing link multisets with independently computed ones", NOTE)
prop("C23", "Merging metrics partitions them greedily, independent of threads",
     "For every set of metrics and requested number of groups, merging partitions the metrics into exactly that many non-empty groups (or as many as there are metrics), always merging next a pair of groups whose element-wise minimum deviates least from its members. "
     "The result does not depend on the number of threads or the schedule.",
     ["inputs", "schedules"], "all metric sets, target counts, thread counts",
     "Not tested; the parallel reduction may break ties differently from run to run.",
     [E + "algo/metric_merging.rs"],
     [("greedy merge", E + "algo/metric_merging.rs: merge")],
     "runtime monitor: online oracle replaying the greedy choice, repeated with several thread counts", NOTE)
prop("C24", "Link speed estimates follow the vehicle which produced the trace",
     "For every sequence of links and matching GPS trace, the estimator reports exactly one estimate per link in driving order. "
     "The instant a link is entered, and the speed on it, are those of a vehicle which drives a constant fraction of the speed limit between neighbouring trace points (extrapolated before the first one), up to rounding to milliseconds and millimetres. "
     "The estimated quality of a link is the part of it covered by trace gaps, weighted by its share in each gap.",
     IN, "all link sequences with distinct ids, lengths and speed limits, traces with increasing time and position",
     "The tests contain a handful of hand-made traces.",
     [E + "link_speed_estimates/link_speed_estimator.rs", E + "link_speed_estimates/event_iterator.rs"],
     [("estimator", E + "link_speed_estimates/link_speed_estimator.rs")],
     "runtime monitor: conservation and proportionality checker over recorded estimates", NOTE)

prop("C25", "Time-dependent traffic aware routes arrive first without unreasonable detours",
     "With predicted or live travel times, for every departure, the exact algorithm arrives as early as possible among all routes all of whose parts are within the tolerance on the smooth (free flow) metric, and fails iff no such route exists, for every lower bound potential offered: free flow bounds, time window metrics and interval minima (up to rounding; interval minima on live data may be suboptimal, but never unacceptable). "
     "The heuristics only return acceptable routes, report their real travel times and start from the fastest route. "
     "Potentials behave identically after storing and loading them, and earlier queries never influence later ones.",
     IN, "all networks with positive FIFO travel time functions, live reports, departures, tolerances and query sequences within the query time limit",
     "No test covers this module; optimality is over all sets of forbidden parts and all departure times.",
     [E + "algo/traffic_aware/time_dependent.rs", E + "algo/traffic_aware/td_live.rs", E + "algo/traffic_aware/td_traffic_pots.rs"],
     [("interval potential along the smooth path", E + "algo/traffic_aware/td_traffic_pots.rs: IntervalMinPotential, MinMaxPotential"), ("time window metrics", E + "algo/traffic_aware/td_traffic_pots.rs: MultiMetric"), ("label reconstruction", E + "algo/traffic_aware/time_dependent.rs: TDTrafficAwareServer::query")],
     "runtime monitor: online oracle enumerating all simple paths in time, observing reported results", NOTE,
     observe="values reported through report!")


prop("C26", "The HTTP server answers with shortest paths for the travel times in effect",
     "Every answer of /query and /here_query is a shortest path, with its exact travel time and a connected path realizing it, between the nodes nearest to the given positions, respectively from the end of the first link to the start of the last one plus the given fractions of both, for the imported travel times with all customizations up to one of those received so far applied in order (null closes a link; the link directions of the answer exist and lead from one to the other). "
     "Answers never go back to an older customization, every customization takes effect eventually and is carried over into later ones, whatever queries and customizations run at the same time, and no path is answered iff none exists. "
     "Malformed requests and queries with unknown links are rejected with an HTTP error and do not influence any other request.",
     ["inputs", "histories", "schedules"], "all imported maps, elimination orders, sequences and interleavings of queries, customizations and malformed requests",
     "No test covers the server; customizations run concurrently with queries and with each other.",
     ["server/src/main.rs", "conversion/src/here/link_id_mapper.rs", E + "algo/customizable_contraction_hierarchy/query.rs"],
     [("asynchronous customization", "server/src/main.rs: Request::Customize"), ("link id mapping", "conversion/src/here/link_id_mapper.rs: LinkIdMapper"), ("requests", "server/src/main.rs: query, here_query, customize")],
     "runtime monitor: real server under concurrent clients, offline checker over the recorded history of requests and answers",
     "Exploration: holds on every history observed. Trusts the reference model in checks/conv and the stated preconditions.", observe="HTTP requests and answers")

prop("C27", "HERE maps are imported completely and correctly",
     "The imported graph has exactly one arc for each allowed travel direction of each navigable link with both ends inside of the bounding box (if any), between the right nodes, with the travel time following from its length (of its geometry, otherwise the distance of its ends) and the lower of speed category and limit, its length and functional class; its nodes are exactly the ends of these links, with their coordinates. "
     "The link id mapping is a bijection between arcs and these link directions, in both directions of lookup. The order of rows and the division into files do not matter.",
     ["inputs"], "all maps with at least one navigable link in the bounding box",
     "No test covers the import; mistakes depend on ids, one-ways, parallel links and gaps in the data.",
     ["conversion/src/here/mod.rs", "conversion/src/here/csv_source.rs", "conversion/src/here/link_id_mapper.rs", "conversion/src/bin/import_here.rs"],
     [("graph construction", "conversion/src/here/mod.rs: read_graph"), ("lookup of links", "conversion/src/here/link_id_mapper.rs"), ("reading", "conversion/src/here/csv_source.rs")],
     "runtime monitor: the real tools run on generated maps, independent model of the import",
     "Exploration: holds on every map generated. Trusts the reference model in checks/conv and the stated preconditions.", observe="files written by import_here, table printed by merge_here_link_data")

prop("C28", "Imported speeds, live and time-dependent data yield the right travel times",
     "The travel time function derived from a speed profile says for every time of entering how long driving along the link takes (up to rounding), is periodic and never allows overtaking. "
     "The importers for Mapbox speeds and GPS traces apply this to exactly the links measured and leave the others constant, live speeds reach exactly the links named, and the tpgr, tbgr and query converters preserve all values.",
     ["inputs"], "all speed profiles with positive speeds and links which take less than half a day, all well-formed input files",
     "No test covers the conversion crate; the errors depend on where the changes of speed fall while driving.",
     ["conversion/src/lib.rs", "conversion/src/bin/import_td_mapbox.rs", "conversion/src/bin/gps_to_td_for_here.rs", "conversion/src/bin/import_mapbox_live.rs", "conversion/src/bin/mapbox_to_live_array.rs", "conversion/src/bin/import_tpgr.rs", "conversion/src/bin/tpgr_upscaling.rs", "conversion/src/bin/td_ben_bin_to_veit_tpgr.rs", "conversion/src/bin/td_ben_to_tbgr.rs", "conversion/src/bin/td_ben_queries_to_stdout.rs", "conversion/src/bin/td_ben_queries_to_veit_demands.rs"],
     [("driving over changes of speed", "conversion/src/lib.rs: speed_profile_to_tt_profile"), ("smoothing over midnight", "conversion/src/bin/import_td_mapbox.rs"), ("buckets", "conversion/src/bin/gps_to_td_for_here.rs")],
     "runtime monitor: simulated driving as oracle, models of the converters on files written by the real tools",
     "Exploration: holds on every input generated. Trusts the reference models and the stated preconditions.", observe="returned profiles, written files")


prop("C29", "No computation accesses invalid, freed or uninitialised memory",
     "Whatever valid graphs, metrics, orders, functions and queries are given to the algorithms, data structures and loaders, in any sequence and with any number of threads, no access leaves its allocation, touches freed or uninitialised memory or uses it after it was handed out to somebody else.",
     ["inputs", "histories", "schedules"], "all workloads of the other properties",
     "The unchecked accesses depend on invariants of graphs and orders which tests only sample, and invalid accesses mostly stay without visible effect.",
     [E + "algo/customizable_contraction_hierarchy/customization.rs", E + "algo/customizable_contraction_hierarchy/customization/directed.rs", E + "algo/customizable_contraction_hierarchy/customization/parallelization.rs", E + "algo/rphast.rs",
      E + "algo/td_astar.rs", E + "algo/traffic_aware/td_traffic_pots.rs", E + "datastr/heap.rs", E + "datastr/rank_select_map.rs", E + "io.rs"],
     [("unchecked accesses in customizations", E + "algo/customizable_contraction_hierarchy/customization.rs"), ("shared pointers between threads", E + "algo/customizable_contraction_hierarchy/customization/parallelization.rs: PtrWrapper"), ("reinterpreted bytes", E + "io.rs")],
     "AddressSanitizer and valgrind memcheck over the workloads of all other monitors", "Exploration: holds on every execution observed. Red zones and shadow state miss accesses which stay inside of another valid allocation; those are judged by the answers.", observe="every memory access")

prop("C30", "Preparation tools write exactly the data they are documented to write",
     "The tools which encode, compare, permute, invert, split, restrict, lower-bound and turn-expand networks, which generate query sets and which turn closures and live reports into network data write exactly the data defined by their inputs: the same values in the requested format, the induced subgraph with its arcs and attributes, one arc per allowed turn, and the minimum of each travel time function. "
     "Every generated rank query has exactly its rank, every distance limited query lies in its limits, and queries contain only nodes of the network.",
     IN[:1], "all vectors of the supported types, all networks, orders, functions, closures and live reports in the documented form",
     "No test runs any of the tools; their mistakes silently falsify everything computed from the written data.",
     ["utils/src/bin/encode_vector.rs", "utils/src/bin/decode_vector.rs", "utils/src/bin/permute_node_data.rs", "utils/src/bin/permutate_and_split.rs", "utils/src/bin/subgraph.rs", "utils/src/bin/td_lower_bound.rs",
      "conversion/src/bin/scrub_td_mapbox.rs", "tdpot/src/bin/ptv_ti_to_live.rs", E + "experiments.rs"],
     [("turn expansion", "engine/src/datastr/graph.rs: line_graph"), ("rank and distance queries", E + "experiments.rs"), ("closures", "tdpot/src/bin/ptv_ti_to_live.rs")],
     "runtime monitor: the real tools run on generated data, independent models of every output", "Exploration: holds on every input generated. Trusts the reference models in checks/prep.py and the stated preconditions.", observe="files and text written by the tools")
prop("C31", "Preprocessing and query programs chained through files stay exact",
     "When the preprocessing and customization programs for live and predicted traffic, catchup and contraction potentials are run on a network directory and the query programs afterwards on the files they left, every reported result is the exact shortest travel time of its query, in the metric of the program (predicted, live, turn-expanded, with blocked roads), or unreachable exactly if it is. "
     "This holds for every node order, every hierarchy and any number of threads, and every lower bound reported is at most the result.",
     ["inputs", "schedules"], "all networks, valid live reports, predictions and node orders; query sets of any size",
     "No test runs a program; file formats, node ids, ranks and times of day must agree over three or four programs.",
     ["tdpot/src/bin/predicted_queries.rs", "tdpot/src/bin/live_and_predicted_queries.rs", "tdpot/src/bin/multi_metric_pre.rs", "tdpot/src/bin/interval_min_live_customization.rs", "tdpot/src/bin/live_predicted_and_turn_queries.rs",
      "catchup/src/bin/tdcch_customization.rs", "catchup/src/bin/tdcch_pregen_uniform_queries.rs", "chpot/src/bin/chpot_dijkstra_ranks.rs", E + "experiments/chpot.rs", E + "io.rs"],
     [("files of the potentials", E + "algo/traffic_aware/td_traffic_pots.rs: Deconstruct / Reconstruct"), ("files of the catchup hierarchy", E + "algo/customizable_contraction_hierarchy/customization/ftd.rs"), ("experiment drivers", E + "experiments/chpot.rs")],
     "runtime monitor: the real programs run in sequence, independent time-dependent oracle over all results they report", "Exploration: holds on every network generated. Trusts the reference models in checks/expt.py and the stated preconditions.", observe="JSON reports of the programs")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": d["id"], "quick_cmd": "bash check.sh %s quick" % d["id"], "thorough_cmd": "bash check.sh %s thorough" % d["id"], "technique": t,
                     "level": "exploration", "level_note": n} for d, t, n in P],
         "not_applicable": []}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for d, _, _ in P:
        for f in d["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
        assert d["statement"].count(". ") <= 2, (d["id"], "more than three sentences")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
