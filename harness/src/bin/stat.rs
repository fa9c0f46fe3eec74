//! Monitors for static one-to-one searches (Dijkstra family, A*, CH).
use rust_road_router::algo::{
    a_star::*,
    alt::*,
    ch_potentials::*,
    customizable_contraction_hierarchy::*,
    dijkstra::{query::bidirectional_dijkstra, query::dijkstra::Server as DijkServer, query::disconnected_targets::CatchDisconnectedTarget, *},
    *,
};
use rust_road_router::datastr::{graph::*, node_order::NodeOrder};
use vh::{ensure, ensure_eq, drive, gen, gen::*, oracle, Case, Prop, INF, R};

fn main() {
    vh::main_loop(&[
        Prop { id: "C01", run: c01 },
        Prop { id: "C02", run: c02 },
        Prop { id: "C03", run: c03 },
    ]);
}

type Bidir<D> = bidirectional_dijkstra::Server<OwnedGraph, OwnedGraph, BiDirZeroPot, D>;

/// Dijkstra, bidirectional Dijkstra: exact for every graph and query history
fn c01(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 90, ..Default::default() });
    let rows = oracle::apsp(&g);
    let k = 6 + c.rng.below(20);
    let qs = gen::queries(&mut c.rng, g.n, k);
    let graph = g.owned();

    let mut s: DijkServer = DijkServer::new(graph.clone());
    drive!(c, "dijkstra", s, g, rows, qs);
    let mut s: Bidir<ChooseMinKeyDir> = Bidir::new(graph.clone());
    drive!(c, "bidir-minkey", s, g, rows, qs);
    let mut s: Bidir<AlternatingDirs> = Bidir::new(graph.clone());
    drive!(c, "bidir-alternating", s, g, rows, qs);
    if g.n <= 150 {
        let mut s = CatchDisconnectedTarget::new(DijkServer::<OwnedGraph>::new(graph.clone()), &graph);
        drive!(c, "catch-disconnected", s, g, rows, qs);
    }
    // edge paths
    let mut s = DijkServer::<OwnedGraph, DefaultOpsByEdgeId>::new(graph.clone());
    drive!(c, "dijkstra-by-edge-id", s, g, rows, qs);
    let mut s = DijkServer::<OwnedGraph, DefaultOpsWithLinkPath>::new(graph.clone());
    for &(a, b) in &qs {
        let mut r = s.query(Query { from: a, to: b });
        let exp = rows[a as usize][b as usize];
        ensure_eq!(r.distance().map(u64::from), exp, "dijkstra-link-path {}->{} on {}", a, b, g.describe());
        if let Some(d) = exp {
            let ep: Vec<u32> = r.edge_path().unwrap().into_iter().map(|e: EdgeIdT| e.0).collect();
            oracle::check_edge_path(&g, &ep, a, b, d)?;
            let np = r.node_path().unwrap();
            ensure_eq!(np.len(), ep.len() + 1, "node/edge path length mismatch {}->{}", a, b);
            c.verdict("edge-path", Some(vh::hash_u32s(&ep)));
        }
    }
    // one to all, interleaved with point to point on the same server
    let mut s: DijkServer = DijkServer::new(graph.clone());
    for i in 0..3 {
        let a = c.rng.below(g.n) as u32;
        {
            let r = s.one_to_all(a);
            for v in 0..g.n as u32 {
                let d = r.distance(v);
                let exp = rows[a as usize][v as usize];
                ensure_eq!(if d >= INF { None } else { Some(u64::from(d)) }, exp, "one_to_all {}->{} on {}", a, v, g.describe());
                if let Some(x) = exp {
                    if v != a {
                        let p = r.predecessor(v);
                        let pd = rows[a as usize].get(p as usize).copied().flatten();
                        ensure!(pd.is_some(), "one_to_all: predecessor {} of {} unreachable", p, v);
                        let w = g.adj[p as usize].iter().filter(|e| e.0 == v).map(|e| u64::from(e.1)).min();
                        ensure_eq!(w.map(|w| w + pd.unwrap()), Some(x), "one_to_all: predecessor {} of {} not on a shortest path", p, v);
                    }
                }
            }
            c.verdict("one_to_all", Some(vh::hash64(&[g.fingerprint(), u64::from(a)])));
        }
        let q = [qs[i % qs.len()]];
        drive!(c, "dijkstra-after-one-to-all", s, g, rows, q);
    }
    // dijkstra ranks: node reported for rank r is the 2^r-th settled one
    let a = c.rng.below(g.n) as u32;
    let mut reach: Vec<u64> = rows[a as usize].iter().filter_map(|&d| d).collect();
    reach.sort_unstable();
    let mut seen = Vec::new();
    s.ranks(a, |node, d, r| seen.push((node, d, r)));
    let mut expected_ranks = 0;
    while (1usize << expected_ranks) <= reach.len() {
        expected_ranks += 1;
    }
    ensure_eq!(seen.len(), expected_ranks, "ranks: number of ranks from {}", a);
    for (i, &(node, d, r)) in seen.iter().enumerate() {
        ensure_eq!(r, i, "ranks: rank index");
        ensure_eq!(u64::from(d), reach[(1usize << r) - 1], "ranks: distance of rank {} from {}", r, a);
        ensure_eq!(rows[a as usize][node as usize], Some(u64::from(d)), "ranks: node {} distance", node);
    }
    c.verdict("ranks", None);
    // distance caps of the bidirectional search: anything strictly below the cap has to be found exactly
    let mut s: Bidir<ChooseMinKeyDir> = Bidir::new(graph);
    for &(a, b) in qs.iter().take(6) {
        let exp = rows[a as usize][b as usize];
        let cap = match exp {
            Some(d) if c.rng.chance(1, 2) => (d as u32).saturating_add(c.rng.range(1, 10) as u32).min(INF),
            _ => c.rng.range(0, 200) as u32,
        };
        let r = s.distance_with_cap(a, b, cap, |_, _, _| ()).map(u64::from);
        if let Some(d) = exp {
            if d < u64::from(cap) {
                ensure_eq!(r, Some(d), "bidir with cap {}: {}->{} on {}", cap, a, b, g.describe());
            }
        }
        if let Some(r) = r {
            ensure!(exp.map_or(false, |d| r >= d), "bidir with cap {}: {}->{} found {} below the true distance {:?}", cap, a, b, r, exp);
        }
        c.verdict("bidir-cap", None);
    }
    Ok(())
}

/// every potential is a lower bound of the true remaining distance; target has potential 0
fn check_pot<P: Potential>(c: &mut Case, name: &str, p: &mut P, g: &G, rows: &[Vec<Option<u64>>], exact: bool, backward: bool) -> R {
    for _ in 0..3 {
        let t = c.rng.below(g.n) as u32;
        p.init(t);
        let mut nodes = c.rng.perm(g.n);
        nodes.push(t);
        for v in nodes {
            let d = if backward { rows[t as usize][v as usize] } else { rows[v as usize][t as usize] };
            let pot = p.potential(v).map(u64::from);
            match (d, pot) {
                (Some(d), Some(x)) => {
                    ensure!(x <= d, "{}: potential {} of {} to {} exceeds distance {} on {}", name, x, v, t, d, g.describe());
                    if exact {
                        ensure_eq!(x, d, "{}: exact potential of {} to {} on {}", name, v, t, g.describe());
                    }
                }
                (Some(d), None) => return Err(format!("{}: {} reported as unable to reach {} but distance is {} on {}", name, v, t, d, g.describe())),
                (None, Some(x)) if exact => return Err(format!("{}: potential {} for unreachable {}->{} on {}", name, x, v, t, g.describe())),
                _ => (),
            }
        }
        c.verdict(name, Some(vh::hash64(&[g.fingerprint(), u64::from(t), vh::hash_str(name)])));
    }
    Ok(())
}

/// A*: unidirectional and bidirectional with every kind of potential stays exact
fn c02(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 70, ..Default::default() });
    let rows = oracle::apsp(&g);
    let k = 6 + c.rng.below(14);
    let mut qs = gen::queries(&mut c.rng, g.n, k);
    // runs of queries to the same target exercise potential recycling
    let t = c.rng.below(g.n) as u32;
    for _ in 0..3 {
        qs.push((c.rng.below(g.n) as u32, t));
    }
    let graph = g.owned();
    let (order, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order));
    let potdata = CCHPotData::new(&cch, &graph);

    let mut p = BaselinePotential::new(&graph);
    check_pot(c, "baseline-potential", &mut p, &g, &rows, true, false)?;
    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), p);
    drive!(c, "astar-baseline", s, g, rows, qs);
    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), RecyclingPotential::new(BaselinePotential::new(&graph)));
    drive!(c, "astar-recycling", s, g, rows, qs);

    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), potdata.forward_potential());
    drive!(c, "astar-cchpot", s, g, rows, qs);
    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), potdata.ch_forward_potential());
    drive!(c, "astar-chpot", s, g, rows, qs);
    if g.m() <= 100 && c.rng.chance(1, 3) {
        vh::turns::turn_expanded(c, &g, &graph, &potdata, false)?;
    }

    // ALT
    let nl = 1 + c.rng.below(4);
    // farthest-landmark selection presupposes a strongly connected graph with more nodes than landmarks and positive weights
    let strongly = rows.iter().all(|r| r.iter().all(Option::is_some));
    let positive = g.adj.iter().flatten().all(|e| e.1 > 0);
    let landmarks: Vec<u32> = if !(strongly && positive && g.n > nl + 1) || c.rng.chance(1, 4) {
        (0..nl).map(|_| c.rng.below(g.n) as u32).collect()
    } else {
        ALTPotData::farthest_landmarks(&graph, nl, c.rng.below(g.n) as u32)
    };
    let alt = ALTPotData::new(&graph, landmarks);
    check_pot(c, "alt-forward", &mut alt.forward_potential(), &g, &rows, false, false)?;
    check_pot(c, "alt-backward", &mut alt.backward_potential(), &g, &rows, false, true)?;
    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), alt.forward_potential());
    drive!(c, "astar-alt", s, g, rows, qs);
    if g.n > nl + 1 && strongly && positive {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(c.rng.u64());
        let alt = ALTPotData::new_with_avoid(&graph, nl, &mut rng);
        let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), alt.forward_potential());
        drive!(c, "astar-alt-avoid", s, g, rows, qs);
    }

    // lower bound metric: potentials of a pointwise smaller metric must stay admissible for the real one
    let mut lb = g.clone();
    for a in &mut lb.adj {
        for e in a {
            if e.1 < INF {
                e.1 = c.rng.range(0, u64::from(e.1)) as u32;
            } else if c.rng.chance(1, 2) {
                e.1 = c.rng.range(0, 1000) as u32;
            }
        }
    }
    let lbg = lb.owned();
    let lbdata = CCHPotData::new(&cch, &lbg);
    let mut s = DijkServer::<OwnedGraph, DefaultOps, _>::with_potential(graph.clone(), lbdata.forward_potential());
    drive!(c, "astar-cchpot-lb", s, g, rows, qs);

    macro_rules! bidir {
        ($name:expr, $p:expr, $d:ty) => {{
            let mut s: bidirectional_dijkstra::Server<OwnedGraph, OwnedGraph, _, $d> = bidirectional_dijkstra::Server::new_with_potentials(graph.clone(), $p);
            drive!(c, $name, s, g, rows, qs);
        }};
    }
    bidir!("bidir-sym-cchpot", SymmetricBiDirPotential::<_, _>::new(potdata.forward_potential(), potdata.backward_potential()), ChooseMinKeyDir);
    bidir!("bidir-sym-lb", SymmetricBiDirPotential::<_, _>::new(lbdata.forward_potential(), lbdata.backward_potential()), AlternatingDirs);
    bidir!("bidir-sym-lb-noip", SymmetricBiDirPotential::<_, _, false>::new(lbdata.forward_potential(), lbdata.backward_potential()), ChooseMinKeyDir);
    bidir!("bidir-sym-alt", SymmetricBiDirPotential::<_, _>::new(alt.forward_potential(), alt.backward_potential()), ChooseMinKeyDir);
    bidir!("bidir-avg-cchpot", AveragePotential::<_, _>::new(potdata.forward_potential(), potdata.backward_potential()), ChooseMinKeyDir);
    bidir!("bidir-avg-lb", AveragePotential::<_, _>::new(lbdata.forward_potential(), lbdata.backward_potential()), AlternatingDirs);
    bidir!("bidir-avg-lb-ip", AveragePotential::<_, _, true>::new(lbdata.forward_potential(), lbdata.backward_potential()), ChooseMinKeyDir);
    if strongly {
        bidir!("bidir-avg-alt", AveragePotential::<_, _, true>::new(alt.forward_potential(), alt.backward_potential()), ChooseMinKeyDir);
    }

    // turn expanded potential: line graph search guided by the base graph potential
    Ok(())
}

/// Contraction hierarchies: exact distances and unpacked paths for every graph and every order
fn c03(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 45, ..Default::default() });
    let rows = oracle::apsp(&g);
    let graph = g.owned();
    for _ in 0..2 {
        let (order, okind) = gen::order(&mut c.rng, &g);
        let order = NodeOrder::from_node_order(order);
        let ch = contraction_hierarchy::contract(&graph, order.clone());
        let mut s = contraction_hierarchy::query::Server::new(ch, order.clone());
        let k = 8 + c.rng.below(20);
        let qs = gen::queries(&mut c.rng, g.n, k);
        drive!(c, "ch", s, g, rows, qs);
        c.ev(okind);
    }
    // overlay after contracting a prefix of the order: distances between the remaining nodes are preserved
    let (order, _) = gen::order(&mut c.rng, &g);
    let order = NodeOrder::from_node_order(order);
    let k = c.rng.below(g.n + 1);
    let (fw, bw) = contraction_hierarchy::overlay(&graph, order.clone(), k);
    let core = |gr: &OwnedGraph| -> G {
        let mut e = Vec::new();
        for u in k..g.n {
            for l in LinkIterable::<Link>::link_iter(gr, u as u32) {
                e.push((u as u32, l.node, l.weight));
            }
        }
        G::from_edges(g.n, &e, "overlay")
    };
    let (f, b) = (core(&fw), core(&bw));
    for u in k..g.n {
        let (df, db) = (oracle::sssp(&f, u as u32), oracle::sssp(&b, u as u32));
        let ou = order.node(u as u32) as usize;
        for v in k..g.n {
            let ov = order.node(v as u32) as usize;
            ensure_eq!(df[v], rows[ou][ov], "overlay of {} contracted nodes: forward distance {}->{} on {}", k, ou, ov, g.describe());
            ensure_eq!(db[v], rows[ov][ou], "overlay of {} contracted nodes: backward distance {}->{} on {}", k, ov, ou, g.describe());
        }
        c.verdict("overlay", Some(vh::hash64(&[g.fingerprint(), k as u64, u as u64])));
    }
    // a CH handed in from outside: augmented graph split by rank
    let mut aug = vec![Vec::new(); g.n];
    let (order, _) = gen::order(&mut c.rng, &g);
    let order = NodeOrder::from_node_order(order);
    let (fw, bw) = contraction_hierarchy::overlay(&graph, order.clone(), g.n);
    for u in 0..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&fw, u) {
            aug[order.node(u) as usize].push(Link { node: order.node(l.node), weight: l.weight });
        }
        for l in LinkIterable::<Link>::link_iter(&bw, u) {
            aug[order.node(l.node) as usize].push(Link { node: order.node(u), weight: l.weight });
        }
    }
    let ch = contraction_hierarchy::ContractionHierarchy::from_contracted_graph(OwnedGraph::from_adjancecy_lists(aug), &order);
    let mut s = contraction_hierarchy::query::Server::new(ch, NodeOrder::identity(g.n));
    for (a, b) in gen::queries(&mut c.rng, g.n, 10) {
        let d = s.query(Query { from: a, to: b }).distance().map(u64::from);
        ensure_eq!(d, rows[a as usize][b as usize], "ch from contracted graph {}->{} on {}", a, b, g.describe());
        c.verdict("ch-external", None);
    }
    Ok(())
}
