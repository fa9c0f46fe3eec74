"""C28: conversion of time-dependent and live data, run through the real command line tools."""
import gzip, os, struct

P = 86400000


def _m():
    import importlib, sys
    return sys.modules["__main__"]


def rand_graph(rng, n, m):
    first, head = [0], []
    cuts = sorted(rng.randint(0, m) for _ in range(n - 1)) + [m]
    for v in range(n):
        first.append(cuts[v])
        head += [rng.randrange(n) for _ in range(first[v], first[v + 1])]
    return first, head


def write_graph(M, d, first, head):
    os.makedirs(d, exist_ok=True)
    M.write_vec(os.path.join(d, "first_out"), "I", first)
    M.write_vec(os.path.join(d, "head"), "I", head)


def rand_plf(rng):
    """FIFO travel time function in ms on multiples of 100 ms, without the point at the end of the day"""
    k = rng.choice([1, 1, 2, 3, 8])
    ts = [0] + sorted(rng.sample(range(1, P // 100), k - 1))
    ts = [t * 100 for t in ts]
    tt = []
    cur = rng.randint(1, 36000)
    for i, t in enumerate(ts):
        if i:
            lo = max(1, cur - (t - ts[i - 1]) // 100)
            cur = rng.randint(lo, cur + rng.randint(0, 20000))
        tt.append(cur * 100)
    return list(zip(ts, tt))


def tpgr(c):
    M, rng = _m(), c.rng
    n, m = rng.randint(1, 30), rng.randint(0, 80)
    first, head = rand_graph(rng, n, m)
    fs = [rand_plf(rng) for _ in range(m)]
    pts = sum(map(len, fs))
    text = "%d %d %d 86400\n" % (n, m, pts)
    sec = lambda ms: "%d.%d" % (ms // 1000, ms % 1000 // 100) if ms % 1000 else str(ms // 1000)
    for v in range(n):
        for e in range(first[v], first[v + 1]):
            text += "%d %d %d %s\n" % (v, head[e], len(fs[e]), " ".join("%s %s" % (sec(a), sec(b)) for a, b in fs[e]))
    src = os.path.join(c.dir, "g.tpgr")
    with open(src, "w") as f:
        f.write(text)
    d = os.path.join(c.dir, "td")
    os.makedirs(d)
    M.tool(c, "import_tpgr", src, d)
    rd = lambda x: M.read_vec(os.path.join(d, x), "I")
    c.ensure(rd("first_out") == first and rd("head") == head, "the imported graph differs from the tpgr graph")
    fi, dt, tt = rd("first_ipp_of_arc"), rd("ipp_departure_time"), rd("ipp_travel_time")
    c.ensure(len(fi) == m + 1 and fi[-1] == len(dt) == len(tt) == pts, "points of the imported functions do not fit")
    for e in range(m):
        got = list(zip(dt, tt))[fi[e]:fi[e + 1]]
        c.ensure(len(got) == len(fs[e]) and all(abs(a - x) <= 1 and abs(b - y) <= 1 for (a, b), (x, y) in zip(got, fs[e])), lambda: "function of arc %d imported as %r instead of %r" % (e, got, fs[e]))
    c.verdict("import-tpgr", text)
    # both ways to tenths of seconds agree
    M.write_vec(os.path.join(d, "period"), "I", [P])
    up, veit, tb = (os.path.join(c.dir, x) for x in ("up", "veit", "tb"))
    M.tool(c, "tpgr_upscaling", src, up)
    M.tool(c, "td_ben_bin_to_veit_tpgr", d, veit)
    M.tool(c, "td_ben_to_tbgr", d, tb)
    a, b = open(up).read().split("\n"), open(veit).read().split("\n")
    c.ensure(len(a) == len(b) == m + 2, "a tpgr graph lost or gained lines")
    for x, y in zip(a, b):
        x, y = [float(z) for z in x.split()], [float(z) for z in y.split()]
        c.ensure(len(x) == len(y) and all(abs(p - q) <= 0.011 for p, q in zip(x, y)), lambda: "tpgr lines differ: %r %r" % (x, y))
    want = [float(z) for l in text.split("\n") for z in l.split()]
    c.ensure(a[0].split() == [str(n), str(m), str(pts), "864000"], "header of the scaled graph")
    got = [float(z) for l in a[1:] for z in l.split()]
    ex = []
    for v in range(n):
        for e in range(first[v], first[v + 1]):
            ex += [v, head[e], len(fs[e])] + [z / 100 for p in fs[e] for z in p]
    c.ensure(len(got) == len(ex) and all(abs(p - q) < 1e-6 for p, q in zip(got, ex)), "scaled functions differ")
    raw = open(tb, "rb").read()
    c.ensure(len(raw) == 20 + 4 * n + 8 * m + 8 * pts, "size of the tbgr graph")
    ws = list(struct.unpack("<%di" % (len(raw) // 4), raw))
    c.ensure(ws[:5] == [2, n, m, pts, P] and ws[5:5 + n] == first[:n] and ws[5 + n:5 + n + 2 * m:2] == head and ws[6 + n:5 + n + 2 * m:2] == fi[:m]
             and ws[5 + n + 2 * m::2] == dt and ws[6 + n + 2 * m::2] == tt, "the tbgr graph differs")
    c.verdict("export-tpgr", None)


def queries(c):
    M, rng = _m(), c.rng
    k = rng.randint(0, 40)
    base = os.path.join(c.dir, "g")
    sub = os.path.join(base, "metric", "algo") if rng.random() < 0.5 else base
    os.makedirs(sub)
    cols = {x: [rng.randint(0, 2 ** 31) for _ in range(k)] for x in ("source_node", "source_time", "target_node", "dij_rank")}
    for x, v in cols.items():
        M.write_vec(os.path.join(base, x), "I", v)
    truth = [rng.choice([M.INF, rng.randint(0, M.INF - 1)]) for _ in range(k)]
    M.write_vec(os.path.join(sub, "optimal_target_time"), "I", truth)
    out = M.tool(c, "td_ben_queries_to_stdout", sub).stdout
    c.ensure(out == "".join("%d %d %d\n" % x for x in zip(cols["source_node"], cols["source_time"], cols["target_node"])), "the printed queries differ")
    d = os.path.join(c.dir, "dem")
    M.tool(c, "td_ben_queries_to_veit_demands", sub, d)
    want = b"demands\r\n" + struct.pack("<I", sum(t != M.INF for t in truth))
    for i in range(k):
        if truth[i] != M.INF:
            want += struct.pack("<IIddI", cols["source_node"][i], cols["target_node"][i], cols["source_time"][i] / 100, truth[i] / 100, cols["dij_rank"][i])
    c.ensure(open(d, "rb").read() == want + struct.pack("<I", 0x07162534), "the written demands differ")
    c.verdict("queries", (k, tuple(truth[:4])) if k else None)


def osm_graph(c, d, unique):
    """graph with ids, lengths in m and travel times in ms"""
    M, rng = _m(), c.rng
    n = rng.choice([1, 2, 5, 20, 50])
    m = rng.randint(1, 4 * n)
    first, head = rand_graph(rng, n, m)
    if unique:
        h2, f2 = [], [0]
        for v in range(n):
            hs = list(dict.fromkeys(head[first[v]:first[v + 1]]))
            h2 += hs
            f2.append(len(h2))
        first, head = f2, h2
    write_graph(M, d, first, head)
    m = len(head)
    ids = sorted(rng.sample(range(1, rng.choice([n + 1, 1000, 300000]) + n), n))
    M.write_vec(os.path.join(d, "osm_node_ids"), "Q", ids)
    length = [rng.choice([0, rng.randint(1, 30), rng.randint(1, 3000)]) if rng.random() < 0.3 else rng.randint(1, 2000) for _ in range(m)]
    vmax = [rng.choice([30, 50, 100, 130]) for _ in range(m)]
    tt = [max(1, l * 3600 // v) for l, v in zip(length, vmax)]
    M.write_vec(os.path.join(d, "geo_distance"), "I", length)
    M.write_vec(os.path.join(d, "travel_time"), "I", tt)
    tail = [v for v in range(n) for _ in range(first[v], first[v + 1])]
    return first, head, tail, ids, length, tt


def live(c):
    M, rng = _m(), c.rng
    d, lv = os.path.join(c.dir, "g"), os.path.join(c.dir, "live")
    first, head, tail, ids, length, tt = osm_graph(c, d, True)
    os.makedirs(lv)
    rows = []
    used = set()
    for _ in range(rng.randint(0, 40)):
        if rng.random() < 0.6 and head:
            e = rng.randrange(len(head))
            a, b = ids[tail[e]], ids[head[e]]
        else:
            # unknown nodes, or known ones which are not neighbours
            a, b = (rng.choice(ids) if rng.random() < 0.5 else rng.randint(0, ids[-1] + 500) for _ in range(2))
        if (a, b) not in used:
            used.add((a, b))
            rows.append((a, b, rng.randint(1, 140)))
    for i in range(2):
        with open(os.path.join(lv, "f%d.csv" % i), "w") as f:
            f.writelines("%d,%d,%d\n" % r for r in rows[i::2])
    M.tool(c, "import_mapbox_live", d, lv, "new_live")
    M.tool(c, "mapbox_to_live_array", d, lv, "arr")
    M.tool(c, "osm_id_check", d, lv) if rows else None
    local = {x: i for i, x in enumerate(ids)}
    arcs = {(a, b): e for e, (a, b) in enumerate(zip(tail, head))}
    want, trip = list(tt), {}
    for a, b, v in rows:
        e = arcs.get((local.get(a), local.get(b)))
        if e is not None:
            want[e] = 3600 * length[e] // v
            trip[e] = (want[e], 3600000)
    got = M.read_vec(os.path.join(d, "new_live"), "I")
    c.ensure(got == want, lambda: "live travel times %r instead of %r" % (got, want))
    raw = M.read_vec(os.path.join(d, "arr"), "I")
    c.ensure(len(raw) == 3 * len(trip) and {raw[i]: (raw[i + 1], raw[i + 2]) for i in range(0, len(raw), 3)} == trip, "live reports differ")
    c.verdict("live", (tuple(got), len(trip)) if trip else None)
    c.ev("unknown-links", len(rows) - len(trip))


def check_profiles(c, d, tt, fast, what):
    """well formed, nobody overtakes, not faster than allowed"""
    M = _m()
    rd = lambda x: M.read_vec(os.path.join(d, x), "I")
    fi, dt, vals = rd("first_ipp_of_arc"), rd("ipp_departure_time"), rd("ipp_travel_time")
    c.ensure(len(fi) == len(tt) + 1 and fi[0] == 0 and fi[-1] == len(dt) == len(vals) and all(a < b for a, b in zip(fi, fi[1:])), what + ": malformed functions")
    res = []
    for e in range(len(tt)):
        f = list(zip(dt, vals))[fi[e]:fi[e + 1]]
        c.ensure(f[0][0] == 0, lambda: "%s: the function of arc %d does not start at midnight" % (what, e))
        if len(f) > 1:
            c.ensure(f[-1] == (P, f[0][1]) and all(a[0] < b[0] and a[0] + a[1] <= b[0] + b[1] for a, b in zip(f, f[1:])), lambda: "%s: the function of arc %d is not periodic or allows overtaking: %r" % (what, e, f))
        c.ensure(min(y for _, y in f) >= fast(e), lambda: "%s: arc %d takes %d ms, less than the %d possible: %r %d" % (what, e, min(y for _, y in f), fast(e), f[:30], tt[e]))
        res.append(f)
    return res


def mapbox(c):
    M, rng = _m(), c.rng
    d = os.path.join(c.dir, "g")
    first, head, tail, ids, length, tt = osm_graph(c, d, False)
    local = {x: i for i, x in enumerate(ids)}
    rows, seen = [], set()
    for e in range(len(head)):
        if rng.random() < 0.5 and (tail[e], head[e]) not in seen:
            seen.add((tail[e], head[e]))
            base = rng.randint(5, 140)
            sp = [max(0, base + rng.randint(-base, 20)) for _ in range(288)] if rng.random() < 0.7 else [base] * 288
            if rng.random() < 0.3:
                for i in range(90, 130):
                    sp[i] = rng.randint(0, 8)
            # the first arc of a bundle which has a length gets the speeds
            es = [x for x in range(first[tail[e]], first[tail[e] + 1]) if head[x] == head[e] and length[x] > 0]
            v = length[es[0]] * 3600 // tt[es[0]] if es else 0
            rows.append((ids[tail[e]], ids[head[e]], sp, es[0] if es else None))
    with open(os.path.join(c.dir, "sp.csv"), "w") as f:
        for a, b, sp, _ in rows:
            f.write("%d,%d,%s\n" % (a, b, ",".join(map(str, sp))))
        f.write("%d,%d,%s\n" % (ids[-1] + 7, ids[0], ",".join(["50"] * 288)))
    M.tool(c, "import_td_mapbox", d, os.path.join(c.dir, "sp.csv"))
    withsp = {e: sp for _, _, sp, e in rows if e is not None}

    def smooth(sp):
        top = max(sp)
        x = [max(5, top if i < 60 or i >= 276 else s) for i, s in enumerate(sp)]
        return [sum(x[(i + k) % 288] for k in range(-3, 4)) // 7 for i in range(288)]

    fs = check_profiles(c, d, tt, lambda e: 3600 * length[e] // (length[e] * 3600 // tt[e]) - 1 - (3600 * tt[e] // (length[e] * 3600) + 1) * (3 + tt[e] // 150000) if e in withsp else tt[e], "import_td_mapbox")
    for e, f in enumerate(fs):
        if e not in withsp:
            c.ensure(f == [(0, tt[e])], lambda: "arc %d without measurements is not constant: %r" % (e, f))
            continue
        v = length[e] * 3600 // tt[e]
        sp = [min(s, v) for s in smooth(withsp[e])]
        # drive along the link
        for t0 in [rng.randrange(P) for _ in range(6)]:
            t, left = float(t0), float(length[e])
            n = 0
            while True:
                s = sp[int(t // 300000) % 288] / 3600
                end = (t // 300000 + 1) * 300000
                if t + left / s <= end:
                    t += left / s
                    break
                left -= (end - t) * s
                t = end
                n += 1
            k = max(i for i in range(len(f)) if f[i][0] <= t0)
            if k + 1 < len(f):
                got = f[k][1] + (f[k + 1][1] - f[k][1]) * (t0 - f[k][0]) / (f[k + 1][0] - f[k][0])
            else:
                got = f[k][1]
            tol = 5 + (n + 2) * 3600 / min(sp) * 1.05
            c.ensure(abs(got - (t - t0)) <= tol, lambda: "arc %d of %d m entered at %d takes %f, imported %f" % (e, length[e], t0, t - t0, got))
    c.ev("td-arcs", len(withsp))
    c.verdict("mapbox", tuple(map(len, fs)))


def gps(c):
    M, rng = _m(), c.rng
    m = M.Map(rng, rng.choice([2, 5, 12]))
    m.links = [l for l in m.links if l[1] != l[2]]
    m.nav = {l[0]: m.nav[l[0]] for l in m.links if l[0] in m.nav}
    if not m.nav:
        c.ev("gps-skipped")
        return
    src, out = os.path.join(c.dir, "csv"), os.path.join(c.dir, "out")
    m.write(rng, src)
    os.makedirs(out)
    M.tool(c, "import_here", src, out)
    g = M.Imported(c, m, out)
    length = M.read_vec(os.path.join(out, "geo_distance"), "I")
    speed = [l * 36000 // (t * 10) if t else 0 for l, t in zip(length, g.tt)]
    if not all(t > 0 and 0 < l < 100000 and s >= 1 and 3600 * l / max(1, s // 5) < P * 0.4 for t, s, l in zip(g.tt, speed, length)):
        c.ev("gps-skipped")
        return
    start = rng.choice([0, 1500000000000])
    days = rng.choice([1, 1, 3])
    rows, cnt = [], {}
    for k, e in g.arc.items():
        if rng.random() < 0.4:
            continue
        for _ in range(rng.randint(1, 4)):
            b, day = rng.randrange(96), 0
            for _ in range(rng.choice([1, 2, 3, 5])):
                day = rng.randrange(days)
                v = rng.uniform(0.2, 1.4) * speed[e] / 3.6 if rng.random() < 0.9 else speed[e] * 2 / 3.6
                t = start + day * P + b * 900000 + rng.randrange(900000)
                if rng.random() < 0.05:
                    t += days * P
                rows.append((t, k, v))
                if v * 3.6 <= speed[e] * 1.5 and t < start + days * P:
                    cnt.setdefault((e, b), []).append(v * 3.6)
    rows.append((start, (10 ** 7 - 1, True), 3.0))
    rng.shuffle(rows)
    p = os.path.join(c.dir, "t.csv.gz")
    cols = ["timestampUTC_ms", "x", "mm_linkId", "mm_isFromRef", "mm_speed_mps"]
    rng.shuffle(cols)
    with gzip.open(p, "wt") as f:
        f.write(",".join(cols) + "\n")
        for t, (l, dr), v in rows:
            val = {"timestampUTC_ms": str(t), "x": "y", "mm_linkId": str(l), "mm_isFromRef": str(dr).lower(), "mm_speed_mps": repr(v)}
            f.write(",".join(val[x] for x in cols) + "\n")
    M.tool(c, "gps_to_td_for_here", out, start, start + days * P, p)
    measured = {e for (e, b), v in cnt.items() if len(v) >= 3}
    fs = check_profiles(c, out, g.tt, lambda e: min(g.tt[e], 3600 * length[e] // speed[e] - 1 - (3600 // speed[e] + 1) * (3 + g.tt[e] // 400000)) if e in measured else g.tt[e], "gps_to_td_for_here")
    for e, f in enumerate(fs):
        c.ensure(e in measured or f == [(0, g.tt[e])], lambda: "arc %d without measurements is not constant: %r" % (e, f))
        if len(f) > 1:
            slow = min(min(v) for (x, b), v in cnt.items() if x == e and len(v) >= 3)
            worst = 3600 * length[e] / max(1, int(slow)) + 2 * 3600 + 10
            c.ensure(max(y for _, y in f) <= worst, lambda: "arc %d takes up to %d ms, slower than every measurement (%f)" % (e, max(y for _, y in f), worst))
            c.ev("gps-td-arcs")
    c.verdict("gps", tuple(map(tuple, fs)) if measured else None)


def run(c):
    c.rng.choice([tpgr, queries, live, mapbox, gps])(c)


PROPS = {"C28": run}
