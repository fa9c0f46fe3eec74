//! Monitors for the search extensions: topology aware A*, alternatives, subpath optimality, traffic aware routing, metric merging.
use rust_road_router::algo::{
    a_star::*,
    ch_potentials::{query as pq, *},
    customizable_contraction_hierarchy::*,
    dijkstra::*,
    minimal_nonshortest_subpaths::*,
    traffic_aware::*,
    topocore::{virtual_topocore, VirtualTopocoreGraph},
    *,
};
use rust_road_router::report::*;
use rust_road_router::datastr::{graph::*, node_order::NodeOrder};
use vh::{drive, ensure, ensure_eq, gen, gen::*, oracle, Case, Prop, INF, R};

fn main() {
    vh::main_loop(&[Prop { id: "C09", run: c09 }, Prop { id: "C10", run: c10 }, Prop { id: "C11", run: c11 }, Prop { id: "C12", run: c12 }]);
}

type Rows = Vec<Vec<Option<u64>>>;

fn permuted(g: &G, order: &NodeOrder) -> G {
    let mut adj = Vec::new();
    for r in 0..g.n as u32 {
        adj.push(g.adj[order.node(r) as usize].iter().map(|&(v, w)| (order.rank(v), w)).collect());
    }
    G { n: g.n, adj, kind: g.kind }
}
/// the graph in rank space as the server sees it (edge ids), after checking that it is the input graph
fn rank_space(g: &G, vg: &VirtualTopocoreGraph<OwnedGraph>, order: &NodeOrder) -> Result<G, String> {
    let exp = permuted(g, order);
    let mut adj = Vec::new();
    for r in 0..g.n {
        let a: Vec<(u32, u32)> = LinkIterable::<Link>::link_iter(vg, r as u32).map(|l| (l.node, l.weight)).collect();
        let (mut x, mut y) = (a.clone(), exp.adj[r].clone());
        x.sort_unstable();
        y.sort_unstable();
        ensure_eq!(x, y, "reordered graph differs from the input graph at rank {}", r);
        adj.push(a);
    }
    Ok(G { n: g.n, adj, kind: g.kind })
}
fn permuted_rows(rows: &Rows, order: &NodeOrder) -> Rows {
    (0..rows.len() as u32).map(|r| (0..rows.len() as u32).map(|s| rows[order.node(r) as usize][order.node(s) as usize]).collect()).collect()
}

fn lower_metric(c: &mut Case, g: &G) -> G {
    let mut lb = g.clone();
    let full = c.rng.chance(1, 4);
    for a in &mut lb.adj {
        for e in a {
            if e.1 < INF {
                if !full {
                    e.1 = c.rng.range(0, u64::from(e.1)) as u32;
                }
            } else if c.rng.chance(1, 2) {
                e.1 = c.rng.range(0, 1000) as u32;
            }
        }
    }
    lb
}

/// Low degree skipping / biconnected core A*
fn c09(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { min_n: 2, max_n: 60, min_m: 1, ..Default::default() });
    let rows = oracle::apsp(&g);
    let k = 6 + c.rng.below(16);
    let mut qs = gen::queries(&mut c.rng, g.n, k);
    let t = c.rng.below(g.n) as u32;
    for _ in 0..3 {
        qs.push((c.rng.below(g.n) as u32, t));
    }
    let graph = g.owned();
    let (order, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order));
    let pot = CCHPotData::new(&cch, &graph);
    let lb = lower_metric(c, &g);
    let lbpot = CCHPotData::new(&cch, &lb.owned());

    macro_rules! uni {
        ($name:expr, $p:expr, $bcc:expr, $d2:expr, $d3:expr) => {{
            let mut s: pq::Server<OwnedGraph, DefaultOps, _, $bcc, $d2, $d3> = pq::Server::new_custom(&graph, $p, DefaultOps::default());
            drive!(c, $name, s, g, rows, qs);
        }};
    }
    uni!("topo-full-pot", pot.forward_potential(), true, true, true);
    uni!("topo-full-lb", lbpot.forward_potential(), true, true, true);
    uni!("topo-bcc-only-lb", lbpot.forward_potential(), true, false, false);
    uni!("topo-bcc-deg2-lb", lbpot.forward_potential(), true, true, false);
    uni!("topo-deg3-lb", lbpot.forward_potential(), false, true, true);
    uni!("topo-deg2-zero", ZeroPotential(), false, true, false);
    uni!("topo-none-lb", lbpot.forward_potential(), false, false, false);

    // rank space servers
    let (vg, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new(&graph);
    let pg = rank_space(&g, &vg, &topo.order)?;
    let prows = permuted_rows(&rows, &topo.order);
    let per = |p| PotentialForPermutated { order: topo.order.clone(), potential: p };
    let mut s = pq::SkipLowDegServer::<_, _, _, true, true>::new(vg.clone(), per(lbpot.forward_potential()), pq::VirtualTopocoreOps(DefaultOps::default()));
    drive!(c, "skip-low-deg", s, pg, prows, qs);
    for _ in 0..2 {
        let a = c.rng.below(g.n) as u32;
        let r = s.one_to_all(a);
        for v in 0..g.n as u32 {
            let d = r.distance(v);
            ensure_eq!(if d >= INF { None } else { Some(u64::from(d)) }, prows[a as usize][v as usize], "topo one_to_all {}->{} on {}", a, v, pg.describe());
        }
        c.verdict("topo-one-to-all", Some(vh::hash64(&[pg.fingerprint(), u64::from(a)])));
    }

    macro_rules! bi {
        ($name:expr, $p:expr, $d:ty) => {{
            let mut s: pq::BiDirServer<_, $d> = pq::BiDirServer::new(&graph, $p);
            drive!(c, $name, s, g, rows, qs);
        }};
    }
    bi!("topo-bidir-zero", BiDirZeroPot, ChooseMinKeyDir);
    bi!("topo-bidir-sym-lb", SymmetricBiDirPotential::<_, _>::new(lbpot.forward_potential(), lbpot.backward_potential()), ChooseMinKeyDir);
    bi!("topo-bidir-sym-alt-lb", SymmetricBiDirPotential::<_, _, false>::new(lbpot.forward_potential(), lbpot.backward_potential()), AlternatingDirs);
    bi!("topo-bidir-avg-lb", AveragePotential::<_, _>::new(lbpot.forward_potential(), lbpot.backward_potential()), ChooseMinKeyDir);
    bi!("topo-bidir-avg-ip-lb", AveragePotential::<_, _, true>::new(lbpot.forward_potential(), lbpot.backward_potential()), AlternatingDirs);

    macro_rules! core {
        ($name:expr, $s:expr) => {{
            let mut s = $s;
            drive!(c, $name, s, pg, prows, qs);
            for &(a, b) in &qs {
                if let Some(d) = prows[a as usize][b as usize] {
                    let mut r = s.query(Query { from: a, to: b });
                    ensure_eq!(r.distance().map(u64::from), Some(d), "{}: repeated query {}->{}", $name, a, b);
                    let ep: Vec<u32> = r.edge_path().unwrap().into_iter().map(|e: EdgeIdT| e.0).collect();
                    oracle::check_edge_path(&pg, &ep, a, b, d).map_err(|e| format!("{}: {} on {}", $name, e, pg.describe()))?;
                    c.verdict("topo-edge-path", None);
                }
            }
            for &(a, b) in qs.iter().take(5) {
                let exp = prows[a as usize][b as usize];
                let cap = match exp {
                    Some(d) if c.rng.chance(2, 3) => (d as u32).saturating_add(c.rng.range(1, 10) as u32).min(INF),
                    _ => c.rng.range(0, 200) as u32,
                };
                let pot_cap = if c.rng.chance(1, 2) { Some(cap) } else { None };
                let r = s.distance_with_cap(Query { from: a, to: b }, cap, pot_cap).distance().map(u64::from);
                if let Some(d) = exp {
                    if d < u64::from(cap) {
                        ensure_eq!(r, Some(d), "{} with cap {} {:?}: {}->{} on {}", $name, cap, pot_cap, a, b, pg.describe());
                    }
                }
                if let Some(r) = r {
                    ensure!(r >= u64::from(cap) || exp.map_or(false, |d| r >= d), "{} with cap {}: {}->{} found {} below the true distance {:?}", $name, cap, a, b, r, exp);
                }
                c.verdict("topo-cap", None);
            }
        }};
    }
    core!(
        "topo-core-bidir",
        pq::BiDirCoreServer::<_, AlternatingDirs>::new(vg.clone(), SymmetricBiDirPotential::<_, _>::new(per(lbpot.forward_potential()), per(lbpot.backward_potential())))
    );
    if c.idx % 4 == 0 {
        core!(
            "topo-multithreaded",
            pq::MultiThreadedBiDirSkipLowDegServer::new(
                vg.clone(),
                SymmetricBiDirPotential::<_, _>::new(RecyclingPotential::new(per(lbpot.forward_potential())), RecyclingPotential::new(per(lbpot.backward_potential())))
            )
        );
    }
    // search space of a found path: labels and lower bounds
    let mut s: pq::Server<OwnedGraph, DefaultOps, _, true, true, true> = pq::Server::new_custom(&graph, lbpot.forward_potential(), DefaultOps::default());
    let lrows = oracle::apsp(&lb);
    for &(a, b) in qs.iter().filter(|q| q.0 != q.1).take(6) {
        let mut r = s.query(Query { from: a, to: b });
        if let Some(p) = r.node_path() {
            let mut data = r.data();
            for &v in &p {
                ensure_eq!(Some(u64::from(data.distance(v))), rows[a as usize][v as usize], "topo label of {} on the path {:?} on {}", v, p, g.describe());
                let x = data.lower_bound(v).map(u64::from);
                ensure_eq!(x, lrows[v as usize][b as usize], "topo lower bound of {} to {} on {}", v, b, g.describe());
            }
            ensure_eq!((data.query().from(), data.query().to()), (a, b), "query of the result");
            c.verdict("topo-labels", None);
        }
    }
    if g.m() <= 120 && c.rng.chance(1, 2) {
        vh::turns::turn_expanded(c, &g, &graph, &lbpot, true)?;
    }
    Ok(())
}

/// Penalty alternatives
fn c10(c: &mut Case) -> R {
    let zero = c.rng.chance(1, 6);
    let mut g = gen::graph(c, &Opt { min_n: 2, max_n: 60, min_m: 1, zero, ..Default::default() });
    for a in &mut g.adj {
        for e in a {
            if e.1 < INF {
                e.1 = e.1.min(2_000_000); // penalizing multiplies weights by 11
                if !zero && e.1 == 0 {
                    e.1 = 1;
                }
            }
        }
    }
    let rows = oracle::apsp(&g);
    let graph = g.owned();
    let (order, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order));
    let pot = CCHPotData::new(&cch, &graph);
    let topo = virtual_topocore(&graph);
    let core = |v: u32| {
        let r = topo.order.rank(v);
        topo.order.node(topo.bridge_node(r).unwrap_or(r))
    };
    let in_core = |v: u32| topo.node_type(topo.order.rank(v)).in_core();
    let mut iter = penalty::PenaltyIterative::new(&graph, &pot);
    let mut pen = penalty::Penalty::new(&graph, pot.forward_potential(), pot.backward_potential());
    let k = 4 + c.rng.below(8);
    let mut qs = gen::queries(&mut c.rng, g.n, k);
    let again = qs[c.rng.below(qs.len())];
    qs.push(again);
    for &(s, t) in &qs {
        let (cs, ct) = (core(s), core(t));
        // the alternatives only use the core
        let base = if cs == ct {
            Some(0)
        } else if in_core(cs) && in_core(ct) {
            rows[cs as usize][ct as usize]
        } else {
            None
        };
        let judge = |path: &[u32], name: &str| -> Result<u64, String> {
            let base = base.ok_or_else(|| format!("{}: {}->{} has no path in the core, got {:?} on {}", name, s, t, path, g.describe()))?;
            ensure_eq!((path.first(), path.last()), (Some(&cs), Some(&ct)), "{}: alternative {:?} for {}->{} on {}", name, path, s, t, g.describe());
            let len = oracle::path_len(&g, path).ok_or_else(|| format!("{}: {:?} is no path on {}", name, path, g.describe()))?;
            ensure!(len >= base && len * 4 <= base * 5, "{}: alternative {:?} of length {} for {}->{} with distance {} is too long on {}", name, path, len, s, t, base, g.describe());
            let mut sorted = path.to_vec();
            sorted.sort_unstable();
            sorted.dedup();
            ensure!(zero || sorted.len() == path.len(), "{}: alternative {:?} for {}->{} contains a cycle on {}", name, path, s, t, g.describe());
            Ok(len)
        };
        // the shortest path, when it is unique
        let unique = base.and_then(|b| unique_path(&g, &rows, cs, ct, b));
        let alt = iter.alternatives(Query { from: s, to: t });
        if let Some(path) = &alt {
            let len = judge(path, "penalty-iterative")?;
            if let Some(u) = &unique {
                let shared = shared_len(&g, u, path);
                ensure!((len - shared) > len / 5, "penalty-iterative: {:?} shares {} of {} with the shortest path {:?} for {}->{} on {}", path, shared, len, u, s, t, g.describe());
                c.ev("penalty-sharing");
            }
            c.verdict("penalty-iterative", Some(vh::hash64(&[g.fingerprint(), u64::from(s), u64::from(t), vh::hash64(&path.iter().map(|&v| u64::from(v)).collect::<Vec<_>>())])));
        } else {
            c.verdict("penalty-none", None);
        }
        let res = pen.alternatives(Query { from: s, to: t });
        ensure_eq!(res.is_some(), base.is_some(), "penalty: {}->{} on {}", s, t, g.describe());
        c.verdict("penalty-graph", None);
        match pen.alternatives_iterative(Query { from: s, to: t }) {
            None => ensure!(base.is_none(), "penalty alternatives_iterative: {}->{} not found on {}", s, t, g.describe()),
            Some(alts) => {
                ensure!(base.is_some(), "penalty alternatives_iterative: {}->{} found on {}", s, t, g.describe());
                ensure!(alts.len() <= 5, "more than five alternatives");
                for (i, path) in alts.iter().enumerate() {
                    let len = judge(path, "penalty-alternatives")?;
                    let mut seen: Vec<Vec<u32>> = alts[..i].to_vec();
                    if let Some(u) = &unique {
                        seen.push(u.clone());
                    }
                    let new: u64 = path.windows(2).filter(|w| !seen.iter().any(|p| p.windows(2).any(|x| x == *w))).map(|w| oracle::path_len(&g, w).unwrap()).sum();
                    // a parallel road counts as a different one
                    let multi = path.windows(2).any(|w| g.adj[w[0] as usize].iter().filter(|e| e.0 == w[1]).count() > 1);
                    ensure!(multi || new > len / 5, "penalty-alternatives: {:?} shares too much with {:?} ({} of {} is new) for {}->{} on {}", path, seen, new, len, s, t, g.describe());
                    c.verdict("penalty-alternatives", Some(vh::hash64(&[g.fingerprint(), u64::from(s), u64::from(t), i as u64])));
                }
            }
        }
    }
    Ok(())
}

fn shared_len(g: &G, a: &[u32], b: &[u32]) -> u64 {
    b.windows(2).filter(|w| a.windows(2).any(|x| x == *w)).map(|w| oracle::path_len(g, w).unwrap()).sum()
}

/// the shortest path if there is exactly one as node sequence and no second edge could replace one of its edges
fn unique_path(g: &G, rows: &Rows, s: u32, t: u32, d: u64) -> Option<Vec<u32>> {
    let mut path = vec![s];
    let mut left = d;
    while *path.last().unwrap() != t {
        let u = *path.last().unwrap();
        let next: Vec<_> = g.adj[u as usize].iter().filter(|&&(v, w)| w < INF && rows[v as usize][t as usize].map_or(false, |x| x + u64::from(w) == left)).collect();
        if next.len() != 1 || next[0].1 == 0 {
            return None;
        }
        // another (longer) parallel edge would be counted as not shared
        if g.adj[u as usize].iter().filter(|e| e.0 == next[0].0).count() != 1 {
            return None;
        }
        left -= u64::from(next[0].1);
        path.push(next[0].0);
    }
    Some(path)
}

/// Minimal non-shortest subpaths
fn c11(c: &mut Case) -> R {
    let mut g = gen::graph(c, &Opt { min_n: 2, max_n: 45, min_m: 1, zero: false, ..Default::default() });
    for a in &mut g.adj {
        for e in a {
            e.1 = e.1.max(1);
        }
    }
    let rows = oracle::apsp(&g);
    let graph = g.owned();
    let (order, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order));
    let pot = CCHPotData::new(&cch, &graph);
    let mut tree = MinimalNonShortestSubPaths::new(&pot, graph.borrowed());
    let mut sse = MinimalNonShortestSubPathsSSERphast::new(&pot, graph.borrowed());
    let mut dij = MinimalNonShortestSubPathsDijkstra::new(graph.borrowed());
    for _ in 0..8 {
        let mut path = random_path(c, &g);
        let cyc = c.rng.chance(1, 8);
        if cyc && path.len() > 2 {
            // drive back to create a cycle, when possible
            let back = c.rng.below(path.len() - 1);
            if g.adj[*path.last().unwrap() as usize].iter().any(|e| e.0 == path[back] && e.1 < INF) {
                let b = path[back];
                path.push(b);
            }
        }
        if path.len() < 2 {
            continue;
        }
        let mut dists = vec![0u64];
        for w in path.windows(2) {
            let l = oracle::path_len(&g, w).unwrap();
            dists.push(dists.last().unwrap() + l);
        }
        if *dists.last().unwrap() >= u64::from(INF) / 4 {
            continue;
        }
        let mut sorted = path.clone();
        sorted.sort_unstable();
        sorted.dedup();
        let simple = sorted.len() == path.len();
        let eps = *c.rng.pick(&[0.0, 0.0, 0.1, 0.2, 0.5, 1.0]);
        let bad = |i: usize, j: usize| {
            let sh = rows[path[i] as usize][path[j] as usize].unwrap();
            dists[j] - dists[i] - sh > (sh as f64 * eps) as u64
        };
        let desc = || format!("path {:?} eps {} on {}", path, eps, g.describe());
        let naive = tree.find_ubs_violating_subpaths_lazy_rphast_naive(&path, eps);
        let by_sse = sse.find_ubs_violating_subpaths_sse_rphast(&path, eps);
        let by_tree = tree.find_ubs_violating_subpaths(&path, eps);
        let by_dij = dij.find_ubs_violating_subpaths(&path, eps);
        if !simple {
            for (name, r) in [("naive", &naive), ("sse", &by_sse), ("tree", &by_tree), ("dijkstra", &by_dij)] {
                ensure!(!r.is_empty(), "{}: cycle not reported for {}", name, desc());
                for x in r {
                    ensure_eq!(path[x.start], path[x.end], "{}: reported cycle {:?} for {}", name, x, desc());
                }
            }
            c.verdict("subpath-cycle", None);
        } else {
            let mut exp = Vec::new();
            for i in 0..path.len() {
                if let Some(j) = (i + 1..path.len()).find(|&j| bad(i, j)) {
                    exp.push(i..j);
                }
            }
            let all = exp.clone();
            exp.retain(|r| !all.iter().any(|o| o != r && o.start >= r.start && o.end <= r.end));
            ensure_eq!(naive, exp, "naive: {}", desc());
            ensure_eq!(by_sse, exp, "sse: {}", desc());
            c.verdict("subpath-naive", if exp.is_empty() { None } else { Some(vh::hash64(&[g.fingerprint(), vh::hash64(&path.iter().map(|&v| u64::from(v)).collect::<Vec<_>>())])) });
            if eps == 0.0 {
                ensure_eq!(by_tree, exp, "tree: {}", desc());
                ensure_eq!(by_dij, exp, "dijkstra: {}", desc());
                c.verdict("subpath-exact", None);
            }
            ensure_eq!(by_tree.is_empty(), exp.is_empty(), "tree: {:?} expected {:?} {}", by_tree, exp, desc());
            ensure_eq!(by_dij.is_empty(), exp.is_empty(), "dijkstra: {:?} expected {:?} {}", by_dij, exp, desc());
            for r in by_tree.iter().chain(&by_dij) {
                ensure!(bad(r.start, r.end), "reported subpath {:?} is within the bound: {}", r, desc());
            }
            c.verdict("subpath-tree", None);
        }
        if simple {
            // local optimality: length of the shortest subpath that is not shortest, relative to the path
            let total = *dists.last().unwrap();
            let mut lo = total;
            let mut ubs = 0.0f64;
            for i in 0..path.len() {
                for j in i + 1..path.len() {
                    let sh = rows[path[i] as usize][path[j] as usize].unwrap();
                    let len = dists[j] - dists[i];
                    if len > sh {
                        lo = lo.min(len);
                        ubs = ubs.max((len - sh) as f64 / sh as f64);
                    }
                }
            }
            let got = tree.local_optimality(&path);
            ensure!((got - lo as f64 / total as f64).abs() < 1e-9, "local optimality {} expected {} {}", got, lo as f64 / total as f64, desc());
            let (glo, gubs) = tree.suboptimal_stats(&path);
            ensure!((glo - lo as f64 / total as f64).abs() < 1e-9, "stats local optimality {} expected {} {}", glo, lo as f64 / total as f64, desc());
            ensure!((gubs - 1.0 - ubs).abs() < 1e-9, "stats ubs {} expected {} {}", gubs, ubs + 1.0, desc());
            c.verdict("subpath-stats", None);
        }
        match tree.fix_violating_subpaths(&path, eps) {
            Err(_) => return Err("fixing reports a timeout without a time limit".into()),
            Ok(None) => ensure!(simple && by_tree.is_empty(), "nothing fixed: {}", desc()),
            Ok(Some(fixed)) => {
                ensure!(!simple || !by_tree.is_empty(), "fixed a fine path: {}", desc());
                let len = oracle::path_len(&g, &fixed).ok_or_else(|| format!("fixed path {:?} is no path: {}", fixed, desc()))?;
                ensure_eq!((fixed[0], fixed.last()), (path[0], path.last()), "fixed path terminals: {:?} {}", fixed, desc());
                ensure!(len < *dists.last().unwrap(), "fixing did not shorten the path: {:?} {}", fixed, desc());
                if fixed.len() > 1 {
                    let left = tree.find_ubs_violating_subpaths_lazy_rphast_naive(&fixed, eps);
                    ensure!(left.is_empty(), "fixed path {:?} still has violating subpaths {:?}: {}", fixed, left, desc());
                }
                c.verdict("subpath-fixed", None);
            }
        }
    }
    Ok(())
}

/// random walk without repetitions or the shortest path of a perturbed metric
fn random_path(c: &mut Case, g: &G) -> Vec<u32> {
    let s = c.rng.below(g.n) as u32;
    if c.rng.chance(1, 3) {
        let mut p = vec![s];
        let max = 2 + c.rng.below(20);
        while p.len() < max {
            let u = *p.last().unwrap() as usize;
            let cand: Vec<u32> = g.adj[u].iter().filter(|e| e.1 < INF && !p.contains(&e.0)).map(|e| e.0).collect();
            if cand.is_empty() {
                break;
            }
            p.push(cand[c.rng.below(cand.len())]);
        }
        p
    } else {
        let mut h = g.clone();
        for a in &mut h.adj {
            for e in a {
                if e.1 < INF {
                    e.1 = if c.rng.chance(1, 3) { c.rng.range(1, 100_000) as u32 } else { 1 + c.rng.range(0, u64::from(e.1.min(10_000_000)) * 2) as u32 };
                }
            }
        }
        let t = c.rng.below(g.n) as u32;
        let d: Vec<_> = (0..g.n as u32).map(|v| oracle::sssp(&h, v)[t as usize]).collect();
        let mut p = vec![s];
        if d[s as usize].is_none() {
            return p;
        }
        while *p.last().unwrap() != t {
            let u = *p.last().unwrap() as usize;
            let nx = h.adj[u].iter().find(|e| e.1 < INF && d[e.0 as usize].map_or(false, |x| x + u64::from(e.1) == d[u].unwrap())).unwrap().0;
            p.push(nx);
        }
        p
    }
}

/// Traffic aware routing: shortest path in the live metric without badly suboptimal parts in the smooth metric
fn c12(c: &mut Case) -> R {
    thread_local!(static REP: std::mem::ManuallyDrop<ReportingGuard> = std::mem::ManuallyDrop::new(enable_reporting("monitor")));
    REP.with(|_| ());
    // everything reported outside of captures is discarded
    let discard = block_reporting();
    let tiny = c.rng.chance(3, 4);
    let mut g = gen::graph(c, &Opt { min_n: 2, max_n: if tiny { 11 } else { 30 }, min_m: 1, zero: false, inf: false, ..Default::default() });
    for a in &mut g.adj {
        for e in a {
            e.1 = e.1.clamp(1, 1_000_000);
        }
    }
    let mut live = g.clone();
    let jam = c.rng.range(2, 20);
    let dens = *c.rng.pick(&[1, 2, 4, 8]);
    for a in &mut live.adj {
        for e in a {
            if c.rng.chance(dens, 12) {
                e.1 = (u64::from(e.1) * c.rng.range(10, 10 * jam) / 10).max(1) as u32;
            }
        }
    }
    let closed = c.rng.chance(1, 4);
    if closed {
        for a in &mut live.adj {
            for e in a {
                if c.rng.chance(1, 6) {
                    e.1 = INF;
                }
            }
        }
    }
    let rows = oracle::apsp(&g);
    let lrows = oracle::apsp(&live);
    let (graph, lgraph) = (g.owned(), live.owned());
    let (order, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order));
    let pot = CCHPotData::new(&cch, &graph);
    let lpot = CCHPotData::new(&cch, &lgraph);
    let mut exact = TrafficAwareServer::new(graph.borrowed(), lgraph.borrowed(), &pot, &lpot);
    let mut heur = HeuristicTrafficAwareServer::new(graph.borrowed(), lgraph.borrowed(), &pot, &lpot);
    let mut fixing = IterativePathFixing::new(graph.borrowed(), lgraph.borrowed(), &pot, &lpot);
    let mut base = SmoothPathBaseline::new(graph.borrowed(), lgraph.borrowed(), &pot, &lpot);
    drop(discard);
    let qs = gen::queries(&mut c.rng, g.n, 6);
    for &(s, t) in &qs {
        if s == t {
            continue;
        }
        let q = Query { from: s, to: t };
        let eps = *c.rng.pick(&[0.0, 0.1, 0.2, 0.5, 1.0, 2.0]);
        let best = lrows[s as usize][t as usize];
        let desc = || format!("{}->{} eps {} smooth {} live {}", s, t, eps, g.describe(), live.describe());
        let opt = if tiny { Some(best_feasible(&g, &live, &rows, s, t, eps)) } else { None };
        let live_len = |rep: &std::collections::BTreeMap<&'static str, ReportingValue>| -> Option<u64> {
            match (rep.get("length_increase_percent"), best) {
                (Some(ReportingValue::Value(v)), Some(b)) => v.as_f64().map(|x| (b as f64 * (1.0 + x / 100.0)).round() as u64),
                _ => None,
            }
        };
        if tiny || c.rng.chance(1, 2) {
            let cap = capture_reporting();
            let start = std::time::Instant::now();
            let res = exact.query(q, eps);
            let slow = start.elapsed().as_secs() > 5;
            let rep = capture_take(cap);
            let len = live_len(&rep);
            if slow {
                // the time limit of the query may have stopped it
                c.ev("traffic-timeout");
            } else if let Some(opt) = opt {
                match res {
                    None => ensure!(opt.is_none(), "traffic aware: nothing found, optimum {:?}: {}", opt, desc()),
                    Some(()) => ensure_eq!(len, opt, "traffic aware: {}", desc()),
                }
                c.verdict("traffic-exact", opt.map(|o| vh::hash64(&[live.fingerprint(), u64::from(s), u64::from(t), o, (eps * 10.0) as u64])));
                if opt.is_some() && opt != best {
                    c.ev("traffic-detour");
                }
            } else if res.is_some() {
                ensure!(len >= best, "traffic aware: {:?} below the shortest distance {:?}: {}", len, best, desc());
                c.ev("traffic-larger");
            }
        }
        let mut paths: Vec<Vec<u32>> = Vec::new();
        let cap = capture_reporting();
        let start = std::time::Instant::now();
        let res = heur.query(q, eps, |p| paths.push(p.to_vec()));
        if start.elapsed().as_secs() > 5 {
            c.ev("traffic-timeout");
        }
        let rep = capture_take(cap);
        ensure_eq!(paths.is_empty(), best.is_none(), "heuristic: {}", desc());
        for (i, p) in paths.iter().enumerate() {
            ensure_eq!((p[0], p[p.len() - 1]), (s, t), "heuristic: terminals of {:?}: {}", p, desc());
            let len = oracle::path_len(&live, p).filter(|&l| l < u64::from(INF));
            ensure!(len.is_some() && len >= best, "heuristic: bad path {:?}: {}", p, desc());
            ensure!(i > 0 || len == best, "heuristic: first path {:?} is not shortest: {}", p, desc());
        }
        if res.is_some() {
            let p = paths.last().unwrap();
            ensure!(feasible(&g, &rows, p, eps), "heuristic: final path {:?} has suboptimal parts: {}", p, desc());
            let len = oracle::path_len(&live, p);
            ensure_eq!(live_len(&rep), len, "heuristic: reported length of {:?}: {}", p, desc());
            if let Some(opt) = opt {
                ensure!(opt.is_some() && len >= opt, "heuristic: {:?} better than the optimum {:?}: {}", p, opt, desc());
            }
            c.verdict("traffic-heuristic", None);
        }
        if !closed {
            let cap = capture_reporting();
            let res = fixing.query(q, eps);
            let rep = capture_take(cap);
            ensure_eq!(res.is_some(), best.is_some(), "path fixing: {}", desc());
            if res.is_some() {
                let len = live_len(&rep);
                ensure!(len >= best, "path fixing: {:?}: {}", len, desc());
                if let Some(opt) = opt {
                    ensure!(opt.is_some() && len >= opt, "path fixing: {:?} better than the optimum {:?}: {}", len, opt, desc());
                }
                c.verdict("traffic-fixing", None);
            }
            let cap = capture_reporting();
            let res = base.query(q);
            let rep = capture_take(cap);
            ensure_eq!(res.is_some(), best.is_some(), "smooth baseline: {}", desc());
            if res.is_some() {
                let len = live_len(&rep);
                ensure!(len >= best, "smooth baseline: {:?}: {}", len, desc());
                if let Some(u) = unique_path(&g, &rows, s, t, rows[s as usize][t as usize].unwrap()) {
                    ensure_eq!(len, oracle::path_len(&live, &u), "smooth baseline: {}", desc());
                    c.ev("traffic-baseline-unique");
                }
                c.verdict("traffic-baseline", None);
            }
        }
    }
    Ok(())
}
fn capture_take(cap: CaptureReportingContextGuard) -> std::collections::BTreeMap<&'static str, ReportingValue> {
    cap.reported().unwrap()
}
fn feasible(g: &G, rows: &Rows, path: &[u32], eps: f64) -> bool {
    let mut d = vec![0u64];
    for w in path.windows(2) {
        d.push(d.last().unwrap() + oracle::path_len(g, w).unwrap());
    }
    for i in 0..path.len() {
        for j in i + 1..path.len() {
            if path[i] == path[j] {
                return false;
            }
            let sh = rows[path[i] as usize][path[j] as usize].unwrap();
            if d[j] - d[i] - sh > (sh as f64 * eps) as u64 {
                return false;
            }
        }
    }
    true
}
/// enumerates all simple paths; prefixes of feasible paths are feasible
fn best_feasible(g: &G, live: &G, rows: &Rows, s: u32, t: u32, eps: f64) -> Option<u64> {
    fn rec(g: &G, live: &G, rows: &Rows, p: &mut Vec<u32>, len: u64, t: u32, eps: f64, best: &mut Option<u64>) {
        let u = *p.last().unwrap();
        if best.map_or(false, |b| b <= len) || !feasible(g, rows, p, eps) {
            return;
        }
        if u == t {
            *best = Some(len);
            return;
        }
        let mut heads: Vec<u32> = live.adj[u as usize].iter().filter(|e| e.1 < INF).map(|e| e.0).collect();
        heads.sort_unstable();
        heads.dedup();
        for v in heads {
            if !p.contains(&v) {
                let w = oracle::path_len(live, &[u, v]).unwrap();
                p.push(v);
                rec(g, live, rows, p, len + w, t, eps, best);
                p.pop();
            }
        }
    }
    let mut best = None;
    rec(g, live, rows, &mut vec![s], 0, t, eps, &mut best);
    best
}
