"""Workload sizes and evidence rules per property."""


def std(bin, cases, rule, must=(), tq=25000, tt=240000, tcases=None, **kw):
    q = dict(cases=cases, time_ms=tq, **kw.get("ph", {}))
    t = dict(cases=tcases or cases * 30, time_ms=tt, **kw.get("ph", {}))
    spec = {"bin": bin, "rule": rule, "must_observe": list(must), "quick": {"main": q}, "thorough": {"main": t}}
    for name, ph in kw.get("extra", {}).items():
        if "custom" in ph:
            spec["quick"][name] = ph
            spec["thorough"][name] = dict(ph, cases=ph["cases"] * 10, time_ms=ph["time_ms"] * 6)
            continue
        spec["quick"][name] = dict(ph, time_ms=ph.get("time_ms", 15000))
        spec["thorough"][name] = dict(ph, cases=ph["cases"] * 20, time_ms=ph.get("time_ms", 15000) * 8)
    spec["assumptions"] = kw.get("assumptions", [])
    return spec


GRAPHS = ("Random graphs (grid/road-like, trees, chains with low degree nodes, stars, dense cores, several components, one-ways, parallel edges, "
          "self loops, zero, closed and very large weights, shuffled ids) times random query histories. ")

CHECKS = {
    "C01": std("stat", 60000, GRAPHS + "Non-trivial: a found path with at least one inner node; distinct by server, node sequence and distance.",
               ["dijkstra", "bidir-minkey", "bidir-alternating", "edge-path", "one_to_all", "ranks", "unreachable"]),
    "C02": std("stat", 30000, GRAPHS + "Non-trivial: a found path with at least one inner node; distinct by server, node sequence and distance.",
               ["astar-alt", "astar-cchpot", "bidir-avg-lb", "bidir-sym-lb", "turns-astar", "turns-bidir-astar", "unreachable"]),
    "C03": std("stat", 40000, GRAPHS + "Random, degree and greedy elimination orders. Non-trivial: a found path with at least one inner node, or an overlay row.",
               ["ch", "overlay", "ch-external", "unreachable"]),
    "C04": std("cch", 12000, GRAPHS + "Random/degree/greedy orders, histories of metric updates. Non-trivial: a found path with at least one inner node.",
               ["cch-basic", "cch-perfect", "cch-directed", "cch-directed-perfect", "cch-slim", "cch-slim-perfect", "metric-update", "unreachable"]),
    "C05": std("cch", 4000, GRAPHS + "Plus graphs large enough to be split into parallel cells; thread counts vary per case. Non-trivial: a compared customization with triangles.",
               ["basic-compared", "perfect-compared", "par-perfect", "par-dir-perfect", "cells-exist"]),
    "C06": std("cch", 30000, GRAPHS + "Non-trivial: distinct hierarchy (graph and order).", ["contract", "fixed", "reordered", "slim", "loaded-cch"]),
    "C07": std("cch", 60000, GRAPHS + "Random selections of sources and targets and evaluation orders. Non-trivial: distinct (graph, selection) with finite distances.",
               ["potentials", "unpacked-tree-path", "unpacked-tree-path-bw", "rphast", "rphast-multi", "bucket", "hub-labels"]),
    "C08": std("cch", 60000, GRAPHS + "Random target sets, sources and k. Non-trivial: distinct (graph, targets, source, k) with at least one reachable target.",
               ["separator-knn", "lazy-knn", "bcch-knn", "dijkstra-knn"]),
    "C09": std("ext", 30000, GRAPHS + "Plus tree-like and chain-like graphs with tiny biconnected cores; two threads race in the parallel search. Non-trivial: a found path with at least one inner node.",
               ["topo-full-lb", "topo-bcc-only-lb", "skip-low-deg", "topo-one-to-all", "topo-bidir-sym-lb", "topo-core-bidir", "topo-multithreaded", "topo-edge-path", "topo-cap", "topo-labels", "turns-topo", "turns-topo-bidir", "unreachable"]),
    "C10": std("ext", 20000, GRAPHS + "Random query histories of the penalty method. Non-trivial: a returned set of alternatives.",
               ["penalty-iterative", "penalty-none", "penalty-graph", "penalty-alternatives", "penalty-sharing"]),
    "C11": std("ext", 40000, GRAPHS + "Random walks, perturbed shortest paths and paths with cycles. Non-trivial: a path with at least one violating part.",
               ["subpath-naive", "subpath-exact", "subpath-tree", "subpath-cycle", "subpath-stats", "subpath-fixed"]),
    "C12": std("ext", 9000, GRAPHS + "Random traffic jams and closed roads on the live metric; tiny graphs are solved by enumerating all simple paths. Non-trivial: an answered query.",
               ["traffic-exact", "traffic-detour", "traffic-heuristic", "traffic-fixing", "traffic-baseline", "traffic-baseline-unique"]),
    "C13": std("td", 60000, "Random travel time functions (constant, steep, implied points), instants around breakpoints and midnight, ranges over several days; live reports. Non-trivial: distinct derived graphs.",
               ["eval", "range-bounds", "average", "derived-graphs", "live-eval", "live-lower-bound", "live-reordered"]),
    "C14": std("td", 30000, GRAPHS + "With random travel time functions and live reports. Non-trivial: a found path with at least one inner node; distinct by server, node sequence and travel time.",
               ["td-dijkstra", "td-dijkstra-catch", "td-astar", "sampling", "live-eval", "live-lower-bound", "live-dijkstra", "optimistic-live-dijkstra", "live-reordered", "unreachable"]),
    "C15": std("td", 20000, GRAPHS + "With random travel time functions, time windows and live reports. Non-trivial: a found path with at least one inner node.",
               ["admissible", "td-topo-labels", "td-skip-low-deg", "td-topo-cap", "td-turns-live", "td-topo-zero", "td-topo-lb", "td-no-topo-lb", "td-deg2-lb", "td-bcc-lb", "td-multi-metric", "live-multi-metric", "live-multi-metric-simple", "live-topo-lb", "unreachable"]),
    "C16": std("td", 30000, GRAPHS + "With random travel time functions and live reports. Non-trivial: a found path with at least one inner node.",
               ["admissible", "interval-min", "interval-min-loaded", "interval-min-live", "interval-min-simple-live", "interval-min-topo", "interval-min-weak", "unreachable"],
               ph={"flavour": "rel", "threads": [1, 2, 2, 1, 2, 3, 2, 1]}),
    "C17": std("catchup", 50000, GRAPHS + "With random travel time functions. Non-trivial: an answered query with positive travel time; distinct by network, source, target and departure.",
               ["answers", "paths_with_intermediate_nodes", "stored_and_loaded", "time_dependent_shortcuts", "networks_with_over_1000_points", "unreachable"],
               ph={"flavour": "rel", "threads": [1, 2, 2, 1, 2, 3, 2, 1]},
               extra={"approximating": {"flavour": "apx", "cases": 12000, "threads": [1, 2, 2, 1, 2, 3, 2, 1]}}),
    "C18": std("catchup", 30000, GRAPHS + "With random travel time functions. Non-trivial: distinct (network, source, target, period) with a profile.",
               ["profiles_full", "profiles_naive", "profiles_partial", "paths_checked", "profiles_with_path_switches", "unreachable"],
               ph={"flavour": "rel", "threads": [1, 2, 2, 1, 2, 3, 2, 1]}),
    "C19": std("ds", 30000, "Random operation histories on the indexed heap and on the heap with retained elements, compared with a sorted multiset after every operation. Non-trivial: distinct histories.",
               ["index-heap", "bag-heap", "pop", "push-unless-contained", "update-key", "decrease-key", "increase-key", "clear", "drain", "bag-pop", "bag-retain", "bag-clear"],
               extra={"asan": {"flavour": "asan", "cases": 4000}, "miri": {"custom": "miri", "group": "queues", "cases": 60, "time_ms": 90000}}),
    "C20": std("ds", 4000, "Random operation histories on resettable vectors, bit sets and rank/select maps (also with empty blocks and the timestamp wrap around), compared with plain arrays. Non-trivial: distinct histories.",
               ["resettable", "timestamped", "many-resets", "wrap-around", "rank-select", "histories-bits", "histories-resettable"], tq=60000,
               extra={"asan": {"flavour": "asan", "cases": 600, "start": 8}, "miri": {"custom": "miri", "group": "other", "cases": 12, "time_ms": 90000}}),
    "C21": std("misc", 16000, GRAPHS + "Arrays of all element types, graphs, preprocessings and potentials are stored, loaded and compared; damaged directories are loaded. Non-trivial: distinct stored objects.",
               ["array", "bits", "graphs", "io-errors", "export", "loaded-potential", "td-graph", "td-potential"], ph={"flavour": "rel", "threads": [1, 2, 2, 1, 2, 3, 2, 1]}),
    "C22": std("misc", 40000, GRAPHS + "Non-trivial: distinct (graph, permutation).",
               ["containers", "views", "reversal", "permutation", "line-graph", "tails", "td-transforms", "parallel-edges", "blocked-edges"]),
    "C23": std("misc", 80000, "Random sets of metrics with ties, several thread counts and numbers of merged metrics. Non-trivial: distinct sets of metrics.",
               ["partition", "greedy", "ties"], ph={"threads": [1, 2, 4, 3, 8, 2, 5, 1]}),
    "C24": std("misc", 600000, "Random link sequences and GPS traces. Non-trivial: distinct traces.", ["estimate", "links", "traces"], ph={"flavour": "rel"}),
    "C25": std("tdtraffic", 60000, GRAPHS + "With random travel time functions, rush hours and live reports; tiny networks are solved by enumerating all simple paths, queries whose fastest path is unacceptable are preferred. Non-trivial: an answered query.",
               ["detour", "lb-exact", "im-exact", "mm-exact", "lb-heuristic", "im-heuristic", "mm-heuristic", "lb-fixing", "mm-fixing", "lb-baseline", "baseline-unique", "live-lb-exact", "live-lb-heuristic",
                "live-im-heuristic", "live-lb-fixing", "live-lb-baseline", "im-loaded", "mm-loaded"],
               ph={"flavour": "rel", "threads": [1, 2, 2, 1, 2, 3, 2, 1]}),
    "C26": std("conv", 100000, "Generated HERE maps are imported and served by the real server; clients query, customize and misuse it, one after the other and at the same time. Non-trivial: a found path with inner links.",
               ["geo-found", "here-found", "geo-unreachable", "here-unreachable", "customized-answers", "here-customized", "took-effect", "concurrent-rounds", "histories-with-several-versions",
                "misuse-unknown-link", "misuse-wrong-direction", "misuse-bad-json", "misuse-bad-weight", "misuse-missing-parameter"],
               ph={"flavour": "ws"}, tq=40000),
    "C27": std("conv", 30000, "Generated HERE maps (one-ways, parallel links, loops, missing navigation data, geometries, bounding boxes, several files) are imported by the real tools. Non-trivial: distinct imported networks.",
               ["import", "import-box", "arcs", "one-way", "with-geometry", "skipped-links", "link-table"], ph={"flavour": "ws"}),
    "C28": std("convh", 600000, "Random speed profiles and link lengths; generated tpgr, Mapbox, live and GPS data run through the real tools. Non-trivial: distinct travel time functions or converted files.",
               ["speed-profile", "longer-than-a-bucket", "over-midnight", "import-tpgr", "export-tpgr", "queries", "live", "unknown-links", "mapbox", "td-arcs", "gps", "gps-td-arcs"], ph={"flavour": "convh"},
               extra={"tools": {"flavour": "ws", "bin": "conv", "cases": 16000, "time_ms": 25000}}),
    "C30": std("conv", 100000, "Generated networks, vectors, orders and tables are processed by the real preparation tools. Non-trivial: distinct results.",
               ["compare", "permute", "bad-vectors", "subgraph", "geo-distance", "split", "turns-100s", "turns-forbidden", "lower-bound", "period-points", "queries-static", "queries-td", "far-1h", "far-4h",
                "scrub", "live"], ph={"flavour": "tools"}, tq=40000),
    "C31": std("conv", 100000, "Preprocessing and query programs run on generated networks, live reports, orders, hierarchies and query sets. Non-trivial: distinct answered queries with positive travel time.",
               ["predicted-interval_min_pot", "predicted-imr_pot", "predicted-multi_metric_pot", "predicted-zero", "predicted-ch_potentials", "predicted-lower_bound", "live-interval_min_pot",
                "live-multi_metric_pot", "live-zero", "live-ch_potentials", "live-lower_bound", "unreachable"], ph={"flavour": "tools", "threads": [1, 2, 2, 1, 2, 3, 2, 1]}, tq=50000),
    "C29": {"bin": "all", "rule": "The workloads of all other properties under AddressSanitizer and memcheck. Non-trivial: distinct observations of these workloads.",
            "must_observe": ["asan-cases", "memcheck-cases"] + ["asan-C%02d" % i for i in (1, 4, 5, 7, 9, 12, 14, 16, 17, 21, 25)] + ["memcheck-C%02d" % i for i in (1, 4, 5, 7, 9, 16, 17, 21)],
            "quick": {"asan": {"custom": "memsafe", "tool": "asan", "cases": 1000000, "time_ms": 14000}, "memcheck": {"custom": "memsafe", "tool": "memcheck", "cases": 1000000, "time_ms": 12000}},
            "thorough": {"asan": {"custom": "memsafe", "tool": "asan", "cases": 1000000, "time_ms": 60000, "rounds": 2}, "memcheck": {"custom": "memsafe", "tool": "memcheck", "cases": 1000000, "time_ms": 60000, "rounds": 2}}},
}
