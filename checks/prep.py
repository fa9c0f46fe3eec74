"""C30: the graph preparation tools, run as real processes on generated directories; every file they write is compared with what it stands for."""
import heapq, math, os, struct, subprocess, sys

P = 86400000


def _m():
    return sys.modules["__main__"]


FMT = {"i8": "b", "u8": "B", "i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q", "f32": "f", "f64": "d"}
NAMES = {"i8": "int8", "u8": "uint8", "i16": "int16", "u16": "uint16", "i32": "int32", "u32": "uint32", "i64": "int64", "u64": "uint64", "f32": "float32", "f64": "float64"}


def values(rng, t, k):
    b = struct.calcsize(FMT[t]) * 8
    if t[0] == "f":
        xs = [rng.choice([0.0, -0.0, 1.5, 1e-30, -1e30, rng.uniform(-180, 180), rng.uniform(-1e9, 1e9), 16777217.0, 0.1]) for _ in range(k)]
        return list(struct.unpack("<%d%s" % (k, FMT[t]), struct.pack("<%d%s" % (k, FMT[t]), *xs)))
    lo, hi = (0, 2 ** b - 1) if t[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
    return [rng.choice([lo, hi, hi // 2, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-100, 100)))]) for _ in range(k)]


def bits(t, xs):
    return struct.pack("<%d%s" % (len(xs), FMT[t]), *xs)


def pipe(c, text, name, *args):
    M = _m()
    return subprocess.run([os.path.join(M.BIN, name)] + [str(a) for a in args], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, cwd=c.dir)


def vectors(c):
    M, rng = _m(), c.rng
    t = rng.choice(sorted(FMT))
    name = rng.choice([t, NAMES[t]])
    k = rng.choice([0, 1, rng.randint(0, 60), rng.randint(0, 3000)])
    xs = values(rng, t, k)
    f, g, h = (os.path.join(c.dir, x) for x in "fgh")
    p = pipe(c, "".join("%s\n" % (repr(x) if t[0] == "f" else x) for x in xs), "encode_vector", name, f)
    c.ensure(p.returncode == 0 and open(f, "rb").read() == bits(t, xs), lambda: "encode_vector %s of %r wrote something else: %s" % (name, xs[:5], p.stderr[-200:]))
    p = M.tool(c, "decode_vector", rng.choice([t, NAMES[t]]), f)
    got = p.stdout.split("\n")
    c.ensure(got.pop() == "" and len(got) == k, "decode_vector prints %d lines for %d elements" % (len(got), k))
    back = [float(x) if t[0] == "f" else int(x) for x in got]
    c.ensure(bits(t, back) == bits(t, xs), lambda: "decode_vector %s prints other values: %r" % (t, next((x, y) for x, y in zip(xs, back) if bits(t, [x]) != bits(t, [y]))))
    # encoding what was decoded gives the same file
    p = pipe(c, p.stdout, "encode_vector", t, g)
    c.ensure(p.returncode == 0 and open(g, "rb").read() == bits(t, xs), "encoding the decoded vector gives another file")
    c.verdict("vector-" + t, (t, tuple(xs[:50])) if k else None)
    # text which is not a vector of this type leaves nothing behind
    bad = rng.choice(["x", "1 2", "", "99999999999999999999999" if t[0] != "f" else "1,5", "-1" if t[0] == "u" else "--1"])
    p = pipe(c, "".join("%s\n" % x for x in rng.sample(["1", "2", bad], 3)), "encode_vector", t, h)
    c.ensure(p.returncode != 0 and not os.path.exists(h), lambda: "encode_vector %s accepts %r" % (t, bad))
    p = M.tool(c, rng.choice(["decode_vector", "encode_vector", "compare_vector"]), rng.choice(["u7", "", "U8"]), f, f, ok=False)
    c.ensure(p.returncode != 0, "an unknown data type is accepted")
    c.ev("bad-vectors")
    # comparison
    ys = list(xs)
    for _ in range(rng.choice([0, 1, 5])):
        if ys:
            ys[rng.randrange(k)] = values(rng, t, 1)[0]
    if rng.random() < 0.2:
        ys = ys[:-1] if rng.random() < 0.5 else ys + values(rng, t, 1)
    M.write_vec(g, FMT[t], ys)
    p = M.tool(c, "compare_vector", name, f, g)
    same = sum(x == y for x, y in zip(xs, ys)) if len(xs) == len(ys) else 0
    c.ensure(p.stdout == "%d\n" % same, lambda: "compare_vector prints %r, %d elements are the same" % (p.stdout, same))
    if len(xs) == len(ys) and same < k:
        num = lambda s: int(next(l for l in p.stderr.split("\n") if s in l).split()[0])
        c.ensure(num("smaller in the first") == sum(x < y for x, y in zip(xs, ys)) and num("smaller in the second") == sum(x > y for x, y in zip(xs, ys)), "compare_vector counts wrong")
        first = next(i for i in range(k) if xs[i] != ys[i])
        c.ensure("first element that differs is at index %d." % first in p.stderr, lambda: "first difference is at %d: %s" % (first, p.stderr))
    c.verdict("compare", None)
    # permutation of node data: data of node v comes to the place rank[v]
    rank = list(range(k))
    rng.shuffle(rank)
    M.write_vec(h, "I", rank)
    M.tool(c, "permute_node_data", f, name, h, g)
    want = [None] * k
    for v in range(k):
        want[rank[v]] = xs[v]
    c.ensure(open(g, "rb").read() == bits(t, want), "permute_node_data gives another vector")
    M.tool(c, "invert_order", h, g)
    inv = M.read_vec(g, "I")
    c.ensure(len(inv) == k and all(inv[rank[v]] == v for v in range(k)), "invert_order does not give the inverse")
    c.verdict("permute", (t, tuple(rank[:50])) if k > 2 else None)


def graph(c, d, n=None, loops=True):
    M, rng = _m(), c.rng
    n = n or rng.choice([1, 2, 3, rng.randint(2, 12), rng.randint(5, 60), rng.randint(60, 300)])
    m = rng.randint(0, rng.choice([n, 4 * n]))
    tails = sorted(rng.randrange(n) for _ in range(m))
    near = rng.random() < 0.6
    head = [max(0, min(n - 1, t + rng.randint(-4, 4))) if near else rng.randrange(n) for t in tails]
    if not loops:
        keep = [e for e in range(m) if tails[e] != head[e]]
        tails, head = [tails[e] for e in keep], [head[e] for e in keep]
    first = [0] * (n + 1)
    for t in tails:
        first[t + 1] += 1
    for v in range(n):
        first[v + 1] += first[v]
    os.makedirs(d, exist_ok=True)
    M.write_vec(os.path.join(d, "first_out"), "I", first)
    M.write_vec(os.path.join(d, "head"), "I", head)
    return first, head, tails


def coords(c, d, n):
    M, rng = _m(), c.rng
    la, lo, s = rng.uniform(-80, 80), rng.uniform(-170, 170), rng.choice([0.001, 0.1, 5])
    lat = [M.f32(la + rng.uniform(-s, s)) for _ in range(n)]
    lng = [M.f32(lo + rng.uniform(-s, s)) for _ in range(n)]
    M.write_vec(os.path.join(d, "latitude"), "f", lat)
    M.write_vec(os.path.join(d, "longitude"), "f", lng)
    return lat, lng


def expect(c, d, want, what):
    """files of the directory d are exactly these"""
    M = _m()
    for name, (fmt, xs) in want.items():
        got = M.read_vec(os.path.join(d, name), fmt)
        c.ensure(got == list(xs), lambda: "%s: %s is %r instead of %r" % (what, name, got[:40], list(xs)[:40]))


def csr(n, arcs):
    """arcs (tail, ...) sorted by tail -> first_out"""
    first = [0] * (n + 1)
    for a in arcs:
        first[a[0] + 1] += 1
    for v in range(n):
        first[v + 1] += first[v]
    return first


def graphs(c):
    M, rng = _m(), c.rng
    d, out = os.path.join(c.dir, "g"), os.path.join(c.dir, "out")
    first, head, tail = graph(c, d)
    os.makedirs(out)
    n, m = len(first) - 1, len(head)
    w = [rng.randint(0, rng.choice([3, 1000, 10 ** 6])) for _ in range(m)]
    lat, lng = coords(c, d, n)
    M.tool(c, "generate_tail", d)
    expect(c, d, {"tail": ("I", tail)}, "generate_tail")
    a, b = rng.randint(0, 10 ** 4), rng.randint(0, 2 ** 32 - 1)
    M.tool(c, "write_unit_files", d, a, b)
    expect(c, d, {"tt_units_per_s": ("I", [a]), "dist_units_per_m": ("I", [b])}, "write_unit_files")
    c.ev("tails")
    # bounding box
    M.write_vec(os.path.join(d, "travel_time"), "I", w)
    x = sorted([rng.choice(lat) if rng.random() < 0.5 else min(lat) + rng.random() * (max(lat) - min(lat)), rng.choice(lat)])
    y = sorted([rng.choice(lng) if rng.random() < 0.5 else min(lng) + rng.random() * (max(lng) - min(lng)), rng.choice(lng)])
    if rng.random() < 0.15:
        x, y = [min(lat), max(lat)], [min(lng), max(lng)]
    box = [M.f32(z) for z in (x[0], y[0], x[1], y[1])]
    M.tool(c, "subgraph", d, *[repr(z) for z in box], out)
    ins = [v for v in range(n) if box[0] <= lat[v] <= box[2] and box[1] <= lng[v] <= box[3]]
    idx = {v: i for i, v in enumerate(ins)}
    arcs = [(idx[tail[e]], idx[head[e]], w[e]) for e in range(m) if tail[e] in idx and head[e] in idx]
    expect(c, out, {"first_out": ("I", csr(len(ins), arcs)), "head": ("I", [a[1] for a in arcs]), "travel_time": ("I", [a[2] for a in arcs]),
                    "latitude": ("f", [lat[v] for v in ins]), "longitude": ("f", [lng[v] for v in ins])}, "subgraph")
    c.verdict("subgraph", (tuple(ins), tuple(arcs)) if arcs and len(ins) < n else None)
    # distances of the ends of all arcs
    M.write_vec(os.path.join(d, "dist_units_per_m"), "I", [u := rng.choice([1, 10, 100, 1000])])
    M.tool(c, "generate_geo_distances", d)
    got = M.read_vec(os.path.join(d, "geo_distance"), "I")
    c.ensure(len(got) == m, "generate_geo_distances: number of arcs")
    for e in range(m):
        z = M.geo_dist((lat[tail[e]], lng[tail[e]], 0), (lat[head[e]], lng[head[e]], 0)) * u
        c.ensure(abs(got[e] + 0.5 - z) <= 0.5 + 0.01 * u + z * 1e-5, lambda: "generate_geo_distances: arc %d is %f units long, not %d" % (e, z, got[e]))
    c.verdict("geo-distance", tuple(got[:50]) if m else None)
    # split into the arcs up and down an order
    order = list(range(n))
    rng.shuffle(order)
    rank = [0] * n
    for r, v in enumerate(order):
        rank[v] = r
    M.write_vec(os.path.join(d, "order"), "I", order)
    M.write_vec(os.path.join(d, "weight"), "I", w)
    M.tool(c, "permutate_and_split", d)
    for name, sel in (("forward_", lambda e: (rank[tail[e]], rank[head[e]], w[e])), ("backward_", lambda e: (rank[head[e]], rank[tail[e]], w[e]))):
        want = sorted(sel(e) for e in range(m) if sel(e)[0] < sel(e)[1])
        fo, hd, wt = (M.read_vec(os.path.join(d, name + z), "I") for z in ("first_out", "head", "weight"))
        c.ensure(len(fo) == n + 1 and fo[0] == 0 and all(x <= y for x, y in zip(fo, fo[1:])) and fo[-1] == len(hd) == len(wt), lambda: "permutate_and_split: %sfirst_out is %r" % (name, fo))
        # loops are of no use for any search and may be kept
        got = sorted((t, hd[e], wt[e]) for t in range(n) for e in range(fo[t], fo[t + 1]) if t != hd[e])
        c.ensure(got == want, lambda: "permutate_and_split: %s arcs %r instead of %r" % (name, got[:20], want[:20]))
    c.verdict("split", (tuple(order[:20]), tuple(w[:20])) if m else None)


def turns(c):
    M, rng = _m(), c.rng
    d, out = os.path.join(c.dir, "g"), os.path.join(c.dir, "out")
    first, head, tail = graph(c, d, rng.choice([1, 2, 5, rng.randint(2, 60)]))
    os.makedirs(out)
    n, m = len(first) - 1, len(head)
    w = [rng.randint(0, 10 ** 5) for _ in range(m)]
    lat, lng = coords(c, d, n)
    u = rng.choice([1, 10, 1000])
    M.write_vec(os.path.join(d, "travel_time"), "I", w)
    M.write_vec(os.path.join(d, "tt_units_per_s"), "I", [u])
    pairs = [(e, f) for e in range(m) for f in range(first[head[e]], first[head[e] + 1])]
    M.tool(c, "turn_expand_100s_uturn", d, out)
    check = lambda arcs, what: expect(c, out, {"first_out": ("I", csr(m, arcs)), "head": ("I", [a[1] for a in arcs]), "travel_time": ("I", [a[2] for a in arcs]),
                                              "latitude": ("f", [lat[v] for v in tail]), "longitude": ("f", [lng[v] for v in tail])}, what)
    arcs = [(e, f, w[e] + (100 * u if head[f] == tail[e] else 0)) for e, f in pairs]
    check(arcs, "turn_expand_100s_uturn")
    expect(c, out, {"tt_units_per_s": ("I", [u])}, "turn_expand_100s_uturn")
    c.verdict("turns-100s", tuple(arcs[:50]) if arcs else None)
    ban = sorted(set(rng.sample(pairs, rng.randint(0, len(pairs) // 2)) + [(rng.randrange(m), rng.randrange(m)) for _ in range(rng.choice([0, 0, 5])) if m]))
    M.write_vec(os.path.join(d, "forbidden_turn_from_arc"), "I", [e for e, _ in ban])
    M.write_vec(os.path.join(d, "forbidden_turn_to_arc"), "I", [f for _, f in ban])
    M.tool(c, "turn_expand_osm", d, out)
    bad = set(ban)
    arcs = [(e, f, w[e]) for e, f in pairs if (e, f) not in bad and head[f] != tail[e]]
    check(arcs, "turn_expand_osm")
    c.verdict("turns-forbidden", tuple(arcs[:50]) if arcs and ban else None)


def rand_function(rng, style):
    k = rng.choice([1, 1, 3, 4, 10]) if style != "plain" else rng.choice([1, 2, 3, 9])
    if k == 1:
        return [(0, rng.randint(0, 10 ** 6))]
    # the last value can always come back to the first one without overtaking
    ts = [0] + sorted(rng.sample(range(1, P - 4 * 10 ** 6), k - 1))
    tt = [rng.randint(10 ** 5, 10 ** 6)]
    for i in range(1, k):
        tt.append(rng.randint(max(1, tt[-1] - (ts[i] - ts[i - 1])), 3 * 10 ** 6))
    return list(zip(ts, tt))


def write_td(c, d, fs):
    M = _m()
    fi = [0]
    for f in fs:
        fi.append(fi[-1] + len(f))
    M.write_vec(os.path.join(d, "first_ipp_of_arc"), "I", fi)
    M.write_vec(os.path.join(d, "ipp_departure_time"), "I", [p[0] for f in fs for p in f])
    M.write_vec(os.path.join(d, "ipp_travel_time"), "I", [p[1] for f in fs for p in f])


def tdfiles(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail = graph(c, d)
    n, m = len(first) - 1, len(head)
    fs = [rand_function(rng, "closed") for _ in range(m)]
    # some functions carry the point at the end of the day, which is the one at midnight again
    full = [f + [(P, f[0][1])] if len(f) > 1 and rng.random() < 0.8 else f for f in fs]
    if rng.random() < 0.3:
        full = [f if len(f) == 1 or f[-1][0] == P else f + [(P, f[0][1])] for f in full]
    write_td(c, d, full)
    M.tool(c, "td_lower_bound", d)
    expect(c, d, {"lower_bound": ("I", [min(p[1] for p in f) for f in full])}, "td_lower_bound")
    c.verdict("lower-bound", tuple(len(f) for f in full[:50]) if m else None)
    M.tool(c, "remove_period_points", d)
    want = [[p for p in f if p[0] != P] for f in full]
    fi = [0]
    for f in want:
        fi.append(fi[-1] + len(f))
    expect(c, d, {"first_ipp_of_arc": ("I", fi), "ipp_departure_time": ("I", [p[0] for f in want for p in f]), "ipp_travel_time": ("I", [p[1] for f in want for p in f])}, "remove_period_points")
    c.verdict("period-points", tuple(fi[:50]) if m and fi[-1] < sum(map(len, full)) else None)


def dijkstra(first, head, w, s):
    dist = {}
    q = [(0, s)]
    while q:
        t, v = heapq.heappop(q)
        if v in dist:
            continue
        dist[v] = t
        for e in range(first[v], first[v + 1]):
            if head[e] not in dist:
                heapq.heappush(q, (t + (w(e, t) if callable(w) else w[e]), head[e]))
    return dist


def ranks_ok(c, what, rows, dists, k):
    """rows (key, target, rank): every source has each power of two up to the number of nodes it reaches, at the distance of that rank"""
    cnt = {}
    for key, t, r in rows:
        ds = dists(key)
        c.ensure(t in ds, lambda: "%s: %r does not reach %d" % (what, key, t))
        s = sorted(ds.values())
        c.ensure(2 ** r <= len(s) and ds[t] == s[2 ** r - 1], lambda: "%s: %d has distance %d from %r, the one of rank 2^%d has %r" % (what, t, ds[t], key, r, s[2 ** r - 1:2 ** r]))
        cnt[(key, r)] = cnt.get((key, r), 0) + 1
    for key in {r[0] for r in rows}:
        for r in range(32):
            c.ensure(cnt.get((key, r), 0) == (cnt.get((key, 0), 0) if 2 ** r <= len(dists(key)) else 0), lambda: "%s: %r has %d queries of rank 2^%d" % (what, key, cnt.get((key, r), 0), r))
    c.ensure(sum(x for (key, r), x in cnt.items() if r == 0) == k, lambda: "%s: %r sources instead of %d" % (what, sum(x for (key, r), x in cnt.items() if r == 0), k))


def queries(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail = graph(c, d)
    n, m = len(first) - 1, len(head)
    for x in ("uniform", "rank", "1h", "4h"):
        os.makedirs(os.path.join(d, "queries", x))
    rd = lambda x: M.read_vec(os.path.join(d, "queries", x), "I")
    k = rng.choice([0, 1, 10, 40])
    static = rng.random() < 0.5
    if static:
        u = rng.choice([1, 10, 1000])
        w = [rng.randint(1, rng.choice([100, 3000, 10000, 40000])) * u for _ in range(m)]
        M.write_vec(os.path.join(d, "travel_time"), "I", w)
        M.write_vec(os.path.join(d, "tt_units_per_s"), "I", [u])
        M.tool(c, "generate_queries", d, k)
        cost, key = w, lambda s, at: s
    else:
        u = 1000
        big = rng.random() < 0.5
        fs = [[(0, rng.randint(1, 2 * 10 ** 7 if big else 10 ** 6))] if rng.random() < 0.8 else const_steps(rng, big) for _ in range(m)]
        write_td(c, d, fs)
        M.write_vec(os.path.join(d, "travel_time"), "I", [1] * m)
        for x in ("rand", "rank", "1h", "4h"):
            M.tool(c, "generate_%s_queries" % x, d, k)
        cost, key = (lambda e, t: eval_steps(fs[e], t)), lambda s, at: (s, at)
    cols = ("source", "target") + (() if static else ("departure",))
    rows = {}
    for x in ("uniform", "rank", "1h", "4h"):
        cs = [rd(x + "/" + y) for y in cols + (("rank",) if x == "rank" else ())]
        c.ensure(len({len(z) for z in cs}) == 1, lambda: "%s: columns of different lengths" % x)
        rows[x] = list(zip(*cs))
        c.ensure(all(r[0] < n and r[1] < n and (static or r[2] < P) for r in rows[x]), lambda: "%s: %r is not a query of this network" % (x, rows[x][:5]))
    c.ensure(len(rows["uniform"]) == k, "number of uniform queries")
    memo = {}

    def dists(key):
        if key not in memo:
            if static:
                memo[key] = dijkstra(first, head, cost, key)
            else:
                s, at = key
                memo[key] = dijkstra(first, head, lambda e, t: cost(e, at + t), s)
        return memo[key]

    at = lambda r: 0 if static else r[2]
    ranks_ok(c, "rank queries", [(key(r[0], at(r)), r[1], r[-1]) for r in rows["rank"]], dists, k)
    for x, lim in (("1h", 3600 * u), ("4h", 4 * 3600 * u)):
        for r in rows[x]:
            ds = dists(key(r[0], at(r)))
            far = [z for z in ds.values() if z > lim]
            c.ensure(far and ds.get(r[1]) == min(far), lambda: "%s: %r has distance %r, the first beyond the limit is %r" % (x, r, ds.get(r[1]), min(far or [-1])))
        if static:
            srcs = [r[0] for r in rows["rank"] if r[-1] == 0]
            want = sorted(s for s in srcs if max(dists(s).values()) > lim)
            c.ensure(sorted(r[0] for r in rows[x]) == want, lambda: "%s: sources %r instead of %r" % (x, sorted(r[0] for r in rows[x]), want))
        else:
            c.ensure(len(rows[x]) <= k, "%s: too many queries" % x)
            lo = [0] * m
            if m and not static:
                # nodes from which something is far away at any time give a query each time
                lo = [min(p[1] for p in f) for f in fs]
                if n <= 60 and all(max(dijkstra(first, head, lo, s).values()) > lim for s in range(n)):
                    c.ensure(len(rows[x]) == k, lambda: "%s: only %d of %d queries" % (x, len(rows[x]), k))
                    c.ev("all-far")
        c.ev("far-" + x, len(rows[x]))
    c.verdict("queries-static" if static else "queries-td", (tuple(head[:50]), tuple(rows["rank"][:10])) if m and k else None)


def const_steps(rng, big):
    """slopes of -1, 0 and 1 only, so that every value is an integer"""
    x = rng.randint(1, 10 ** 6 * (20 if big else 1))
    a = rng.randint(1, P // 4)
    l = rng.randint(1, min(x, 10 ** 6))
    if rng.random() < 0.5:
        return [(0, x), (a, x), (a + l, x + l), (a + 2 * l, x + l), (a + 3 * l, x), (P, x)]
    return [(0, x), (a, x), (a + l, x - l), (a + 2 * l, x - l), (a + 3 * l, x), (P, x)]


def eval_steps(f, t):
    t %= P
    if len(f) == 1:
        return f[0][1]
    for (a, x), (b, y) in zip(f, f[1:]):
        if a <= t <= b:
            return x + ((y - x) // (b - a) * (t - a) if y != x else 0)
    return f[0][1]


def scrub(c):
    """columns of a table of speeds, without the constant rows"""
    rng = c.rng
    k = rng.randint(1, 30)
    a = rng.randint(0, k - 1)
    b = rng.randint(a + 1, k)
    rows = {}
    for _ in range(rng.randint(0, 40)):
        v = rng.randint(1, 255)
        r = [v] * k
        for _ in range(rng.choice([0, 0, 1, k])):
            r[rng.randrange(k)] = rng.randint(1, 255)
        rows[(rng.randint(0, 50), rng.choice([rng.randint(0, 50), 2 ** 40 + rng.randint(0, 3)]))] = r
    items = list(rows.items())
    rng.shuffle(items)
    # lines are terminated or separated: nothing follows the last value but the end of the line
    text = "".join("%d,%d,%s\n" % (x[0], x[1], ",".join(map(str, r))) for x, r in items)
    p = pipe(c, text[:-1] if rng.random() < 0.2 else text, "scrub_td_mapbox", a, b)
    c.ensure(p.returncode == 0, lambda: "scrub_td_mapbox %d %d of %d columns failed: %s" % (a, b, k, p.stderr[:300]))
    want = "".join("%d,%d,%s\n" % (x[0], x[1], ",".join(map(str, r[a:b]))) for x, r in sorted(rows.items()) if len(set(r[a:b])) > 1)
    c.ensure(p.stdout == want, lambda: "scrub_td_mapbox %d %d: %r instead of %r" % (a, b, p.stdout[:300], want[:300]))
    c.verdict("scrub", want if want else None)
    if b == k:
        c.ev("scrub-last-column")


def live(c):
    """reports of current speeds become live data of the arcs"""
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail = graph(c, d)
    n, m = len(first) - 1, len(head)
    rows, want = [], []
    for _ in range(rng.randint(0, 40)):
        if m and rng.random() < 0.7:
            e = rng.randrange(m)
            a, b = tail[e], head[e]
        else:
            a, b = rng.randrange(n), rng.randrange(n)
        speed = rng.choice([0, rng.randint(1, 200), rng.randint(1, 2000)])
        dist = rng.choice([0, rng.randint(0, 2000), rng.randint(0, 10 ** 6)])
        dur = rng.choice([0, rng.randint(0, 4 * 10 ** 6), 2 ** 32 - 1])
        rows.append((a, b, speed, dist, dur))
        e = next((e for e in range(first[a], first[a + 1]) if head[e] == b), None)
        if e is not None:
            want += [e, 3600 * dist // speed if speed else M.INF, min(2 ** 32 - 1, dur * 1000)]
    f = os.path.join(c.dir, "ti.csv")
    with open(f, "w") as o:
        o.write("from;to;speed;distance;duration\n")
        o.writelines("%d;%d;%d;%d;%d\n" % r for r in rows)
    name = rng.choice(["live_data", "other"])
    M.tool(c, "ptv_ti_to_live", *([d, f] if name == "live_data" else [d, f, name]))
    expect(c, d, {name: ("I", want)}, "ptv_ti_to_live")
    c.verdict("live", tuple(want) if want else None)


def run(c):
    c.rng.choice([vectors, vectors, graphs, graphs, graphs, turns, tdfiles, queries, queries, queries, scrub, live])(c)


PROPS = {"C30": run}
