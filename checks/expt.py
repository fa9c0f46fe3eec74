"""C31: the experiment programs on generated networks. Preprocessing programs write directories, query programs read them and report
every query and its result as JSON; each reported result is judged by a search of our own on the input files."""
import heapq, json, os, subprocess, sys
import prep
from prep import P, _m, csr, graph, coords, write_td

PIN = None


def may_pin():
    """the programs measure on the first processor only; where that is not allowed they can't run"""
    global PIN
    if PIN is None:
        try:
            old = os.sched_getaffinity(0)
            os.sched_setaffinity(0, {0})
            os.sched_setaffinity(0, old)
            PIN = True
        except OSError:
            PIN = False
    return PIN


def network(c, d, nmax, simple=False):
    """at least one proper arc; simple: time dependent preprocessing takes neither loops nor parallel arcs"""
    M, rng = _m(), c.rng
    while True:
        first, head, tail = graph(c, d, rng.choice([2, 3, rng.randint(2, 12), rng.randint(5, nmax)]))
        n, arcs = len(first) - 1, list(zip(tail, head))
        if rng.random() < 0.7:
            # strongly connected, sometimes with a dead end
            k = n if rng.random() < 0.7 else max(2, n - 2)
            arcs += [(v, (v + 1) % k) for v in range(k)]
        if simple:
            arcs = sorted({a for a in arcs if a[0] != a[1]})
        rng.shuffle(arcs)
        arcs.sort(key=lambda a: a[0])
        first, head, tail = csr(n, arcs), [a[1] for a in arcs], [a[0] for a in arcs]
        M.write_vec(os.path.join(d, "first_out"), "I", first)
        M.write_vec(os.path.join(d, "head"), "I", head)
        if any(t != h for t, h in zip(tail, head)):
            return first, head, tail


def nested_order(rng, n):
    o = list(range(n))
    rng.shuffle(o)
    return o


def write_ch(c, d, n, arcs, order):
    """contraction hierarchy of all arcs (tail, head, weight): nodes are ranks, both graphs lead upwards"""
    M = _m()
    os.makedirs(d, exist_ok=True)
    rank = [0] * n
    for r, v in enumerate(order):
        rank[v] = r
    F, B = [{} for _ in range(n)], [{} for _ in range(n)]

    def put(a, b, w):
        t, x, y = (F, a, b) if a < b else (B, b, a)
        t[x][y] = min(t[x].get(y, w), w)

    for u, v, w in arcs:
        if u != v:
            put(rank[u], rank[v], w)
    for x in range(n):
        for a, wa in B[x].items():
            for b, wb in F[x].items():
                if a != b:
                    put(a, b, wa + wb)
    M.write_vec(os.path.join(d, "order"), "I", order)
    for name, t in (("forward_", F), ("backward_", B)):
        ls = [(x, y, w) for x in range(n) for y, w in sorted(t[x].items())]
        M.write_vec(os.path.join(d, name + "first_out"), "I", csr(n, ls))
        M.write_vec(os.path.join(d, name + "head"), "I", [l[1] for l in ls])
        M.write_vec(os.path.join(d, name + "weight"), "I", [l[2] for l in ls])


def reports(c, p, name):
    """all objects of the report which tell a query"""
    try:
        root = json.loads(p.stdout)
    except ValueError:
        raise _m().Violation("%s did not write a JSON report: %r" % (name, p.stdout[-300:]))
    res = []

    def walk(x):
        if isinstance(x, dict):
            if "from" in x and "to" in x:
                res.append(x)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(root)
    return res


def run_tool(c, name, *args, **envs):
    M = _m()
    os.environ.update({k: str(v) for k, v in envs.items()})
    return M.tool(c, name, *args)


# ------------------------------------------------------------------------------------------------------- time dependent

def td_function(rng):
    """nobody overtakes; travel times stay below five minutes"""
    k = rng.choice([1, 1, 3, 5, 12])
    if k == 1:
        return [(0, rng.randint(1, 3 * 10 ** 5))]
    # points are ten seconds apart, travel times rise by at most three and fall by at most 0.9 seconds per second
    lo, hi = 1, P // 10 ** 4 - 100
    if rng.random() < 0.4:
        # a rush hour
        lo = rng.randint(1, P // 10 ** 4 - 1200)
        hi = lo + 1000
    ts = [0] + [x * 10 ** 4 for x in sorted(rng.sample(range(lo, hi), k - 1))]
    tt = [rng.randint(1, 10 ** 5)]
    for i in range(1, k):
        gap = ts[i] - ts[i - 1]
        tt.append(rng.randint(max(1, tt[-1] - gap * 9 // 10), min(3 * 10 ** 5, tt[-1] + 3 * gap)))
    return list(zip(ts, tt)) + [(P, tt[0])]


def td_eval(f, t, up):
    """value rounded down or up"""
    t %= P
    if len(f) == 1:
        return f[0][1]
    lo, hi = 0, len(f) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if f[mid][0] <= t:
            lo = mid
        else:
            hi = mid
    (a, x), (b, y) = f[lo], f[hi]
    z = x * (b - a) + (y - x) * (t - a)
    return -(-z // (b - a)) if up else z // (b - a)


def live_eval(f, live, t, up):
    """the current report holds until it ends, then traffic gets back to the prediction as fast as it can without overtaking"""
    p = td_eval(f, t, up)
    if live is None or t >= live[1]:
        return p
    w, soon = live
    return max(p, min(w, td_eval(f, soon, up) + soon - t))


def optimistic_eval(f, w, soon, t, up):
    """one report for the next hour, then back to the prediction; rounded values of the prediction may choose either way"""
    p = td_eval(f, t, up)
    if w is None:
        return p
    if t < soon:
        return w
    xs = [max(w + soon - t, p) if td_eval(f, soon, u) < w else min(w + t - soon, p) for u in (False, True)]
    return max(xs) if up else min(xs)


def arrivals(first, head, cost, s, t0):
    done, q = {}, [(t0, s)]
    while q:
        t, v = heapq.heappop(q)
        if v in done:
            continue
        done[v] = t
        for e in range(first[v], first[v + 1]):
            if head[e] not in done:
                w = cost(e, t)
                if w is not None:
                    heapq.heappush(q, (t + w, head[e]))
    return done


def judge_td(c, name, rows, got, first, head, cost, slack=0):
    """rows: the queries in order"""
    c.ensure(len(got) == len(rows), lambda: "%s reports %d queries, asked were %d" % (name, len(got), len(rows)))
    for (s, t, at), r in zip(rows, got):
        c.ensure((r["from"], r["to"], r["at"]) == (s, t, at), lambda: "%s reports query %r instead of %r" % (name, r, (s, t, at)))
        lo = arrivals(first, head, lambda e, x: cost(e, x, False), s, at).get(t)
        hi = arrivals(first, head, lambda e, x: cost(e, x, True), s, at).get(t)
        x = r["result"]
        c.ensure((x is None) == (lo is None) and (x is None or lo - at <= x <= hi - at),
                 lambda: "%s: from %d to %d at %d takes %r, not %r" % (name, s, t, at, None if lo is None else (lo - at, hi - at), x))
        c.verdict(name, (name, s, t, at, x) if x else None)
        if x is None:
            c.ev("unreachable")


def td_network(c, d):
    M, rng = _m(), c.rng
    first, head, tail = network(c, d, 30, True)
    n, m = len(first) - 1, len(head)
    fs = [td_function(rng) for _ in range(m)]
    # with or without the point at the end of the day
    write_td(c, d, [f[:-1] if len(f) > 1 and rng.random() < 0.5 else f for f in fs])
    order = nested_order(rng, n)
    M.write_vec(os.path.join(d, "cch_perm"), "I", order)
    write_ch(c, os.path.join(d, "lower_bound_ch"), n, [(tail[e], head[e], min(p[1] for p in fs[e])) for e in range(m)], order)
    for x in ("customized_corridor_mins", "interval_min_pot", "multi_metric_pre", "multi_metric_pot", "imr", "imr_pot", "q"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    return first, head, tail, fs


def td_queries(c, d, n, at=None):
    M, rng = _m(), c.rng
    k = rng.randint(1, 25)
    rows = [(rng.randrange(n), rng.randrange(n), rng.choice([0, P - 1, rng.randrange(P), rng.randrange(P)]) if at is None else at) for _ in range(k)]
    for x, i in (("source", 0), ("target", 1), ("departure", 2)):
        M.write_vec(os.path.join(d, "q", x), "I", [r[i] for r in rows])
    ranks = [rng.randint(0, 9) for _ in rows]
    if rng.random() < 0.5:
        M.write_vec(os.path.join(d, "q", "rank"), "I", ranks)
    else:
        ranks = None
    return rows, ranks


def ask(c, name, label, d, rows, ranks, args, first, head, cost):
    got = reports(c, run_tool(c, name, *args, CHPOT_NUM_QUERIES=len(rows) + 5), name)
    judge_td(c, label, rows, got, first, head, cost)
    if ranks is not None:
        c.ensure([r.get("rank") for r in got] == ranks, lambda: "%s reports other ranks" % label)


def predicted(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail, fs = td_network(c, d)
    n = len(first) - 1
    rows, ranks = td_queries(c, d, n)
    cost = lambda e, t, up: td_eval(fs[e], t, up)
    run_tool(c, "interval_min_pre", d)
    run_tool(c, "multi_metric_pre", *([d] if rng.random() < 0.5 else [d, "multi_metric_pre", "multi_metric_pot", rng.choice([1, 2, 5, 20])]))
    run_tool(c, "interval_min_reduction", d, rng.choice([1, 2, 7, 24, 96]), "customized_corridor_mins", "imr", "imr_pot")
    runs = [("zero",), ("interval_min_pot",), ("interval_min_pot", "imr_pot"), ("multi_metric_pot",), ("ch_potentials",), ("lower_bound",)]
    for pot in runs:
        if rng.random() < 0.4:
            continue
        for name in ("predicted_queries", "predicted_queries_no_topo"):
            if rng.random() < 0.7 and not (pot[0] == "ch_potentials" and name.endswith("topo")):
                ask(c, name, "%s-%s" % (name.replace("_queries", "").replace("_", "-"), pot[-1]), d, rows, ranks, (d, "q") + pot, first, head, cost)
    c.sample("%d nodes, %d arcs, %d queries" % (n, len(head), len(rows)))


def live(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail, fs = td_network(c, d)
    n, m = len(first) - 1, len(head)
    now = rng.choice([0, rng.randrange(P), rng.randrange(P), P - 1])
    rows, ranks = td_queries(c, d, n, now)
    data, rep = [], [None] * m
    for e in rng.sample(range(m), rng.randint(0, m)):
        w = rng.choice([M.INF, rng.randint(1, 10 ** 6), rng.randint(1, 3 * 10 ** 5)])
        dur = rng.choice([0, rng.randint(0, 10 ** 6), rng.randint(0, 2 * 10 ** 7), P - 1, P, 2 ** 32 - 1])
        data += [e, w, dur]
        if dur < P:
            rep[e] = (w, dur + now)
    M.write_vec(os.path.join(d, "ld"), "I", data)
    cost = lambda e, t, up: live_eval(fs[e], rep[e], t, up)
    run_tool(c, "interval_min_pre", d)
    run_tool(c, "interval_min_live_customization", d, now, "ld")
    run_tool(c, "multi_metric_pre", d)
    run_tool(c, "multi_metric_live_customization", d, now, "ld")
    for pot in ("zero", "interval_min_pot", "multi_metric_pot", "ch_potentials", "lower_bound"):
        if rng.random() < 0.4:
            continue
        for name in ("live_and_predicted_queries", "live_and_predicted_queries_no_topo"):
            if rng.random() < 0.7 and not (pot == "ch_potentials" and name.endswith("topo")):
                ask(c, name, "%s-%s" % ("live" + ("-no-topo" if name.endswith("topo") else ""), pot), d, rows, ranks, (d, now, "ld", "q", pot), first, head, cost)
    if rng.random() < 0.5:
        # reports which end before everything gets back to free flow
        low = [[(0, min(p[1] for p in f))] for f in fs]
        for pot in rng.sample(("zero", "ch_potentials", "lower_bound"), 2):
            ask(c, "temporary_live", "temporary-" + pot, d, rows, ranks, (d, now, "ld", "q", pot), first, head, lambda e, t, up: live_eval(low[e], rep[e], t, up))
    pairs = [(e, f) for e in range(m) for f in range(first[head[e]], first[head[e] + 1])]
    ban = set(rng.sample(pairs, rng.randint(0, len(pairs) // 3)))
    arcs = [(e, f) for e, f in pairs if (e, f) not in ban and head[f] != tail[e]]
    if any(e != f for e, f in arcs) and rng.random() < 0.5:
        ban = sorted(ban)
        M.write_vec(os.path.join(d, "forbidden_turn_from_arc"), "I", [e for e, _ in ban])
        M.write_vec(os.path.join(d, "forbidden_turn_to_arc"), "I", [f for _, f in ban])
        tf, th = csr(m, arcs), [f for _, f in arcs]
        for pot in rng.sample(("zero", "ch_potentials", "lower_bound"), 2):
            name = "live_predicted_and_turn_queries"
            got = reports(c, run_tool(c, name, d, now, "ld", pot, CHPOT_NUM_QUERIES=15), name)
            c.ensure(len(got) == 15, "number of queries with turns")
            judge_td(c, "live-turns-" + pot, [(r["from"], r["to"], now) for r in got], got, tf, th, lambda x, t, up: cost(arcs[x][0], t, up))
    c.sample("%d nodes, %d arcs, %d reports, %d queries" % (n, m, sum(r is not None for r in rep), len(rows)))


def catchup(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail, fs = td_network(c, d)
    n, m = len(first) - 1, len(head)
    coords(c, d, n)
    for x in ("cch", "customized", "uniform_queries"):
        os.makedirs(os.path.join(d, x))
    k = rng.randint(1, 25)
    rows = [(rng.randrange(n), rng.randrange(n), rng.choice([0, P - 1, rng.randrange(P)])) for _ in range(k)]
    for x, i in (("source_node", 0), ("target_node", 1), ("source_time", 2)):
        M.write_vec(os.path.join(d, "uniform_queries", x), "I", [r[i] for r in rows])
    run_tool(c, "tdcch_static_preprocessing", d)
    run_tool(c, "tdcch_customization", d)
    got = reports(c, run_tool(c, "tdcch_pregen_uniform_queries", d), "tdcch_pregen_uniform_queries")
    c.ensure(len(got) == k, lambda: "tdcch_pregen_uniform_queries reports %d queries, asked were %d" % (len(got), k))
    cost = lambda e, t, up: td_eval(fs[e], t, up)
    for (s, t, at), r in zip(rows, got):
        c.ensure((r["from"], r["to"]) == (s, t) and abs(r["departure_time"] - at / 1000) < 1e-6, lambda: "query %r reported instead of %r" % (r, (s, t, at)))
        lo, hi = (arrivals(first, head, lambda e, x: cost(e, x, up), s, at).get(t) for up in (False, True))
        x = r.get("earliest_arrival")
        c.ensure((x is None) == (lo is None) and (x is None or lo / 1000 - 0.05 <= x <= hi / 1000 + 0.05),
                 lambda: "TDCCH: from %d to %d at %d arrives at %r, not in %r" % (s, t, at, x, (lo, hi)))
        c.verdict("tdcch", (s, t, at, x) if x and s != t else None)
        if x is not None:
            c.ensure(1 <= r["num_nodes_on_shortest_path"] <= n, "number of nodes on the path")
        else:
            c.ev("unreachable")
    c.sample("%d nodes, %d arcs, %d queries" % (n, m, k))


def chpot_td(c):
    """time dependent experiments with a hierarchy of lower bounds"""
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail, fs = td_network(c, d)
    n, m = len(first) - 1, len(head)
    a, b = rng.randint(1, 15), rng.randint(1, 5)
    env = {"CHPOT_NUM_QUERIES": a, "NUM_DIJKSTRA_QUERIES": b}
    queries_of = lambda got: [(r["from"], r["to"], r["at"]) for r in got]

    def some(name, got):
        c.ensure(len(got) == a + b, lambda: "%s reports %d queries instead of %d" % (name, len(got), a + b))
        return got

    got = some("chpot_td", reports(c, run_tool(c, "chpot_td", d, **env), "chpot_td"))
    judge_td(c, "chpot-td", queries_of(got), got, first, head, lambda e, t, up: td_eval(fs[e], t, up))
    low = [min(p[1] for p in f) for f in fs]
    now = [rng.choice([x - 1, x, rng.randint(0, 3 * 10 ** 5), rng.randint(0, 10 ** 6)]) if rng.random() < 0.5 else 0 for x in low]
    now = [max(0, x) for x in now]
    M.write_vec(os.path.join(d, "live_travel_time"), "I", now)
    rep = [x if x >= l else None for x, l in zip(now, low)]
    t0, soon = 12 * 3600000, 13 * 3600000
    cost = lambda e, t, up: optimistic_eval(fs[e], rep[e], soon, t, up)
    got = some("chpot_td_live", reports(c, run_tool(c, "chpot_td_live", d, **env), "chpot_td_live"))
    c.ensure(all(r["at"] == t0 for r in got), "departure of the live queries")
    judge_td(c, "chpot-td-live", queries_of(got), got, first, head, cost)
    pairs = [(e, f) for e in range(m) for f in range(first[head[e]], first[head[e] + 1])]
    ban = sorted(set(rng.sample(pairs, rng.randint(0, len(pairs) // 3))))
    arcs = [(e, f) for e, f in pairs if (e, f) not in set(ban) and head[f] != tail[e]]
    if any(e != f for e, f in arcs):
        M.write_vec(os.path.join(d, "forbidden_turn_from_arc"), "I", [e for e, _ in ban])
        M.write_vec(os.path.join(d, "forbidden_turn_to_arc"), "I", [f for _, f in ban])
        got = some("chpot_turns_td_live", reports(c, run_tool(c, "chpot_turns_td_live", d, **env), "chpot_turns_td_live"))
        judge_td(c, "chpot-turns-td-live", queries_of(got), got, csr(m, arcs), [f for _, f in arcs], lambda x, t, up: cost(arcs[x][0], t, up))
    c.sample("%d nodes, %d arcs, %d reports" % (n, m, sum(r is not None for r in rep)))


# ------------------------------------------------------------------------------------------------------- static networks

def judge_static(c, label, got, want_len, first, head, w):
    memo = {}
    c.ensure(want_len is None or len(got) == want_len, lambda: "%s reports %d queries instead of %d" % (label, len(got), want_len))
    for r in got:
        s, t, x = r["from"], r["to"], r["result"]
        if s not in memo:
            memo[s] = arrivals(first, head, lambda e, _: w[e], s, 0)
        # searches on networks with closed roads may tell an infinite distance
        x = None if x is not None and x >= _m().INF else x
        c.ensure(x == memo[s].get(t), lambda: "%s: from %d to %d takes %r, not %r" % (label, s, t, memo[s].get(t), x))
        c.verdict(label, (label, s, t, x) if x else None)
        if x is None:
            c.ev("unreachable")


def chpot(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    while True:
        first, head, tail = network(c, d, 60)
        n, m = len(first) - 1, len(head)
        pairs = [(e, f) for e in range(m) for f in range(first[head[e]], first[head[e] + 1])]
        if any(head[f] != tail[e] and e != f for e, f in pairs):
            break
    w = [rng.randint(1, rng.choice([5, 1000, 10 ** 6])) for _ in range(m)]
    M.write_vec(os.path.join(d, "travel_time"), "I", w)
    write_ch(c, os.path.join(d, "lower_bound_ch"), n, [(tail[e], head[e], w[e]) for e in range(m)], nested_order(rng, n))
    a, b = rng.randint(1, 20), rng.randint(1, 10)
    env = {"CHPOT_NUM_QUERIES": a, "NUM_DIJKSTRA_QUERIES": b}
    kind = rng.choice(["unmodified", "ranks", "live", "turns", "blocked"] * 6 + ["rphast"])
    if kind == "unmodified":
        got = reports(c, run_tool(c, "chpot_unmodified", d, **env), "chpot_unmodified")
        judge_static(c, "chpot-unmodified", got, a + b, first, head, w)
    elif kind == "rphast":
        # only measurements (many MB) and no distances are reported
        M.write_vec(os.path.join(d, "cch_perm"), "I", nested_order(rng, n))
        p = subprocess.run([os.path.join(M.BIN, "lazy_rphast_incremental"), d], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        c.ensure(p.returncode == 0, "lazy_rphast_incremental fails: " + p.stderr.decode(errors="replace")[-500:])
        c.ev("rphast-incremental")
    elif kind == "ranks":
        more = [x * 15 // 10 for x in w]
        got = reports(c, run_tool(c, "chpot_dijkstra_ranks", d, **env), "chpot_dijkstra_ranks")
        judge_static(c, "chpot-ranks", got, None, first, head, more)
        dist = {s: arrivals(first, head, lambda e, _: w[e], s, 0) for s in {r["from"] for r in got}}
        prep.ranks_ok(c, "chpot_dijkstra_ranks", [(r["from"], r["to"], r["rank"]) for r in got], lambda s: dist[s], b)
        # queries which are answered without a search report no bound
        bounded = [r for r in got if r.get("lower_bound") is not None]
        c.ensure(all(r["lower_bound"] <= r["result"] for r in bounded), "a lower bound exceeds the result")
        c.ev("lower-bounds", len(bounded))
    elif kind == "live":
        cur = [rng.choice([w[e], rng.randint(0, w[e]), w[e] + rng.randint(0, 10 ** 6)]) for e in range(m)]
        M.write_vec(os.path.join(d, "live_travel_time"), "I", cur)
        M.write_vec(os.path.join(d, "cch_perm"), "I", nested_order(rng, n))
        for name in ("chpot_live", "bidir_chpot_live", "cchpot_live"):
            got = reports(c, run_tool(c, name, d, **env), name)
            judge_static(c, name.replace("_", "-"), got, None, first, head, [max(x, y) for x, y in zip(w, cur)])
            c.ensure(len(got) >= a, name + " reports too few queries")
    elif kind == "turns":
        ban = sorted(set(rng.sample(pairs, rng.randint(0, len(pairs) // 3))))
        arcs = [(e, f) for e, f in pairs if (e, f) not in set(ban) and head[f] != tail[e]]
        if not any(e != f for e, f in arcs):
            ban = []
            arcs = [(e, f) for e, f in pairs if head[f] != tail[e]]
        M.write_vec(os.path.join(d, "forbidden_turn_from_arc"), "I", [e for e, _ in ban])
        M.write_vec(os.path.join(d, "forbidden_turn_to_arc"), "I", [f for _, f in ban])
        tf, th, tw = csr(m, arcs), [f for _, f in arcs], [w[e] for e, _ in arcs]
        M.write_vec(os.path.join(d, "cch_perm"), "I", nested_order(rng, n))
        cur = [rng.choice([w[e], 0, w[e] + rng.randint(0, 10 ** 6)]) for e in range(m)]
        M.write_vec(os.path.join(d, "live_travel_time"), "I", cur)
        for name in ("chpot_turns", "bidir_chpot_turns", "cchpot_live_turns"):
            got = reports(c, run_tool(c, name, d, **env), name)
            judge_static(c, name.replace("_", "-"), got, None, tf, th, [max(w[e], cur[e]) for e, _ in arcs] if name == "cchpot_live_turns" else tw)
            c.ensure(len(got) >= a, name + " reports too few queries")
    else:
        cat = [rng.choice([0, 0, 0, 1, 2, 3, 4]) for _ in range(m)]
        e = next(e for e in range(m) if tail[e] != head[e])
        cat[e] = 0
        M.write_vec(os.path.join(d, "arc_category"), "B", cat)
        for name in ("chpot_blocked", "bidir_chpot_blocked"):
            p = run_tool(c, name, d, **env)
            exps = json.loads(p.stdout)["experiments"]
            c.ensure(len(exps) == 2, "two experiments")
            for x, bit in zip(exps, (1, 2)):
                keep = [e for e in range(m) if not cat[e] & bit]
                arcs = [(tail[e], head[e], w[e]) for e in keep]
                rs = [r for r in x["algo_runs"] if "from" in r]
                c.ensure(len(rs) >= a, name + " reports too few queries")
                judge_static(c, name.replace("_", "-"), rs, None, csr(n, arcs), [y[1] for y in arcs], [y[2] for y in arcs])
    c.sample("%s: %d nodes, %d arcs" % (kind, n, m))


def run(c):
    kinds = [predicted, live, predicted, live] + ([catchup, catchup, chpot, chpot, chpot, chpot_td, chpot_td] if may_pin() else [])
    c.rng.choice(kinds)(c)


PROPS = {"C31": run}
