//! Monitors for customizable contraction hierarchies and everything answered on top of them.
use rust_road_router::algo::{
    a_star::Potential,
    ch_potentials::*,
    customizable_contraction_hierarchy::{
        query::{nearest_neighbor::*, Server},
        separator_decomposition::*,
        *,
    },
    dijkstra::query::nearest_neighbor::DijkstraNearestNeighbor,
    hl::HubLabels,
    rphast::*,
    *,
};
use rust_road_router::datastr::{graph::*, node_order::NodeOrder};
use rust_road_router::io::*;
use std::collections::{BTreeMap, BTreeSet};
use vh::{drive, ensure, ensure_eq, gen, gen::*, oracle, Case, Prop, INF, R};

fn main() {
    vh::main_loop(&[
        Prop { id: "C04", run: c04 },
        Prop { id: "C05", run: c05 },
        Prop { id: "C06", run: c06 },
        Prop { id: "C07", run: c07 },
        Prop { id: "C08", run: c08 },
    ]);
}

type Rows = Vec<Vec<Option<u64>>>;

/// new weights for the same topology
fn reweight(c: &mut Case, g: &G) -> G {
    let mut g = g.clone();
    let wf = gen::weight_fn(&mut c.rng, g.n, &Opt::default());
    let partial = c.rng.chance(1, 2);
    let mut w = g.weights();
    for x in w.iter_mut() {
        if !partial || c.rng.chance(1, 4) {
            *x = wf(&mut c.rng);
        }
    }
    g.set_weights(&w);
    g
}

/// CCH server over a history of metric updates and queries
fn c04(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 70, ..Default::default() });
    let (ord, ok) = gen::order(&mut c.rng, &g);
    let graph = g.owned();
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let dcch = cch.to_directed_cch();
    let slim = cch.remove_always_infinity();
    c.ev(ok);
    let mut metrics = vec![g.clone()];
    for _ in 0..c.rng.below(3) {
        let m = reweight(c, &g);
        metrics.push(m);
    }
    let first = graph.clone();
    let mut basic = Server::new(customize(&cch, &first));
    let mut perfect = Server::new(customize_perfect(customize(&cch, &first)));
    let mut dir = Server::new(customize_directed(&dcch, &first));
    let mut dirperf = Server::new(customize_directed_perfect(customize_directed(&dcch, &first)));
    let mut slimbasic = Server::new(customize(&slim, &first));
    let mut slimperf = Server::new(customize_perfect(customize(&slim, &first)));
    // metric alternates: A, B, A, ... so that leftovers of an old metric become visible
    let mut hist: Vec<usize> = (0..metrics.len()).collect();
    if metrics.len() > 1 && c.rng.chance(1, 2) {
        hist.push(0);
    }
    for (i, &mi) in hist.iter().enumerate() {
        let m = &metrics[mi];
        let mg = m.owned();
        let rows = oracle::apsp(m);
        if i > 0 {
            basic.update(customize(&cch, &mg));
            perfect.update(customize_perfect(customize(&cch, &mg)));
            dir.update(customize_directed(&dcch, &mg));
            dirperf.update(customize_directed_perfect(customize_directed(&dcch, &mg)));
            slimbasic.update(customize(&slim, &mg));
            slimperf.update(customize_perfect(customize(&slim, &mg)));
            c.ev("metric-update");
        }
        let k = 4 + c.rng.below(14);
        let qs = gen::queries(&mut c.rng, g.n, k);
        drive!(c, "cch-basic", basic, m, rows, qs);
        drive!(c, "cch-perfect", perfect, m, rows, qs);
        drive!(c, "cch-directed", dir, m, rows, qs);
        drive!(c, "cch-directed-perfect", dirperf, m, rows, qs);
        drive!(c, "cch-slim", slimbasic, m, rows, qs);
        drive!(c, "cch-slim-perfect", slimperf, m, rows, qs);
    }
    Ok(())
}

/// independent elimination game: up-neighborhoods in rank space
fn eliminate(g: &G, order: &NodeOrder) -> Vec<BTreeSet<u32>> {
    let mut up = vec![BTreeSet::new(); g.n];
    for (u, a) in g.adj.iter().enumerate() {
        for &(v, _) in a {
            if u as u32 != v {
                let (x, y) = (order.rank(u as u32), order.rank(v));
                up[x.min(y) as usize].insert(x.max(y));
            }
        }
    }
    for r in 0..g.n {
        let nb: Vec<u32> = up[r].iter().copied().collect();
        for (i, &a) in nb.iter().enumerate() {
            for &b in &nb[i + 1..] {
                up[a as usize].insert(b);
            }
        }
    }
    up
}

/// independent basic customization on the chordal supergraph
fn ref_customize(g: &G, order: &NodeOrder, up: &[BTreeSet<u32>]) -> (BTreeMap<(u32, u32), u64>, BTreeMap<(u32, u32), u64>) {
    let inf = u64::from(INF);
    let mut uw = BTreeMap::new();
    let mut dw = BTreeMap::new();
    for (r, s) in up.iter().enumerate() {
        for &h in s {
            uw.insert((r as u32, h), inf);
            dw.insert((r as u32, h), inf);
        }
    }
    for (u, a) in g.adj.iter().enumerate() {
        for &(v, w) in a {
            let (x, y) = (order.rank(u as u32), order.rank(v));
            if x < y {
                let e = uw.get_mut(&(x, y)).unwrap();
                *e = (*e).min(u64::from(w));
            } else if y < x {
                let e = dw.get_mut(&(y, x)).unwrap();
                *e = (*e).min(u64::from(w));
            }
        }
    }
    for r in 0..g.n as u32 {
        let nb: Vec<u32> = up[r as usize].iter().copied().collect();
        for (i, &a) in nb.iter().enumerate() {
            for &b in &nb[i + 1..] {
                // a < b: a -> r -> b and b -> r -> a
                let via = dw[&(r, a)] + uw[&(r, b)];
                let e = uw.get_mut(&(a, b)).unwrap();
                *e = (*e).min(via);
                let via = dw[&(r, b)] + uw[&(r, a)];
                let e = dw.get_mut(&(a, b)).unwrap();
                *e = (*e).min(via);
            }
        }
    }
    (uw, dw)
}

fn flat<C: Customized>(x: &C) -> (Vec<(u32, u32, u32)>, Vec<(u32, u32, u32)>) {
    let f = |g: &BorrowedG| {
        (0..g.num_nodes() as u32)
            .flat_map(|v| LinkIterable::<Link>::link_iter(g, v).map(move |l| (v, l.node, l.weight)).collect::<Vec<_>>())
            .collect()
    };
    (f(&x.forward_graph()), f(&x.backward_graph()))
}
type BorrowedG<'a> = first_out_graph::BorrowedGraph<'a>;

fn compare_basic(name: &str, edges: &[(u32, u32, u32)], reference: &BTreeMap<(u32, u32), u64>) -> R {
    ensure_eq!(edges.len(), reference.len(), "{}: number of customized edges", name);
    for &(u, v, w) in edges {
        let r = reference.get(&(u, v)).ok_or_else(|| format!("{}: unexpected edge {}-{}", name, u, v))?;
        ensure_eq!(u64::from(w).min(u64::from(INF)), (*r).min(u64::from(INF)), "{}: customized weight of {}-{}", name, u, v);
    }
    Ok(())
}

/// Parallel customization: same weights for every number of threads and schedule, on graphs large enough to be cut into cells
fn c05(c: &mut Case) -> R {
    let hi = if c.thorough { 6000 } else { 1500 };
    let n = match c.rng.below(4) {
        0 => c.size(1, 200),
        1 => c.size(200, 600),
        _ => c.size(300, hi),
    };
    let g = big_graph(c, n);
    let graph = g.owned();
    let ord = nested_dissection(c, &g);
    let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1).min(8) as u64;
    let set = |t: u64| std::env::set_var("RAYON_NUM_THREADS", t.to_string());
    set(1 + c.rng.u64() % cpus);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let up = eliminate(&g, cch.node_order());
    let (ru, rd) = ref_customize(&g, cch.node_order(), &up);
    let mut perfect_seen: Option<(Vec<(u32, u32, u32)>, Vec<(u32, u32, u32)>)> = None;
    let mut dirperf_seen: Option<(Vec<(u32, u32, u32)>, Vec<(u32, u32, u32)>)> = None;
    let dcch = cch.to_directed_cch();
    let mut ts = vec![1, cpus, 1 + c.rng.u64() % cpus];
    if c.thorough {
        ts.extend([2.min(cpus), 3.min(cpus), cpus]);
    }
    let srcs: Vec<u32> = (0..4).map(|_| c.rng.below(g.n) as u32).collect();
    let rows: BTreeMap<u32, Vec<Option<u64>>> = srcs.iter().map(|&s| (s, oracle::sssp(&g, s))).collect();
    let mut qs = Vec::new();
    for _ in 0..12 {
        qs.push((*c.rng.pick(&srcs), c.rng.below(g.n) as u32));
    }
    let rows: Rows = (0..g.n).map(|s| rows.get(&(s as u32)).cloned().unwrap_or_default()).collect();
    for t in ts {
        set(t);
        let basic = customize(&cch, &graph);
        let (f, b) = flat(&basic);
        compare_basic("upward", &f, &ru)?;
        compare_basic("downward", &b, &rd)?;
        c.verdict("basic-compared", Some(vh::hash64(&[g.fingerprint(), t])));
        let perfect = customize_perfect(basic);
        let pf = flat(&perfect);
        if let Some(p) = &perfect_seen {
            ensure!(*p == pf, "perfect customization with {} threads differs from an earlier run on {}", t, g.describe());
            c.verdict("perfect-compared", None);
        }
        let mut s = Server::new(perfect);
        drive!(c, "par-perfect", s, g, rows, qs);
        perfect_seen = Some(pf);
        let db = customize_directed(&dcch, &graph);
        let (f, b) = flat(&db);
        for (name, edges, reference) in [("dir-upward", &f, &ru), ("dir-downward", &b, &rd)] {
            for &(u, v, w) in edges.iter() {
                let r = reference.get(&(u, v)).ok_or_else(|| format!("{}: unexpected edge {}-{}", name, u, v))?;
                ensure_eq!(u64::from(w).min(u64::from(INF)), (*r).min(u64::from(INF)), "{}: customized weight of {}-{}", name, u, v);
            }
        }
        let dp = customize_directed_perfect(db);
        let pf = flat(&dp);
        if let Some(p) = &dirperf_seen {
            ensure!(*p == pf, "directed perfect customization with {} threads differs from an earlier run on {}", t, g.describe());
        }
        dirperf_seen = Some(pf);
        let mut s = Server::new(dp);
        drive!(c, "par-dir-perfect", s, g, rows, qs);
    }
    c.evn("max-nodes-1000", (g.n >= 1000) as u64);
    c.evn("cells-exist", (g.n >= 32 * 8 * 2) as u64);
    Ok(())
}

/// larger road like graph
fn big_graph(c: &mut Case, n: usize) -> G {
    let rng = &mut c.rng;
    let w = ((n as f64).sqrt() as usize).max(1);
    let mut e = Vec::new();
    let drop = *rng.pick(&[3u64, 10, 25]);
    let oneway = *rng.pick(&[0u64, 10, 40]);
    let inf = *rng.pick(&[0u64, 0, 3]);
    let maxw = *rng.pick(&[5u64, 100, 100_000]);
    let comps = rng.chance(1, 4);
    let mut push = |rng: &mut vh::Rng, u: usize, v: usize| {
        if comps && (u % w < w / 2) != (v % w < w / 2) {
            return;
        }
        let one = rng.chance(oneway, 100);
        let mut wt = |rng: &mut vh::Rng| if rng.chance(inf, 100) { INF } else { rng.range(0, maxw) as u32 };
        let dir = rng.chance(1, 2);
        if !one || dir {
            e.push((u as u32, v as u32, wt(rng)));
        }
        if !one || !dir {
            e.push((v as u32, u as u32, wt(rng)));
        }
    };
    for v in 0..n {
        if v % w + 1 < w && v + 1 < n && !rng.chance(drop, 100) {
            push(rng, v, v + 1);
        }
        if v + w < n && !rng.chance(drop, 100) {
            push(rng, v, v + w);
        }
    }
    for _ in 0..rng.below(4) {
        let (u, v) = (rng.below(n), rng.below(n));
        if u != v {
            push(rng, u, v);
        }
    }
    G::from_edges(n, &e, "biggrid")
}

/// recursive geometric bisection with BFS fallback: a nested dissection order like the ones used with real networks
fn nested_dissection(c: &mut Case, g: &G) -> Vec<u32> {
    let mut nb = vec![Vec::new(); g.n];
    for (u, a) in g.adj.iter().enumerate() {
        for &(v, _) in a {
            if u as u32 != v {
                nb[u].push(v);
                nb[v as usize].push(u as u32);
            }
        }
    }
    fn rec(nb: &[Vec<u32>], part: &mut [u32], cell: &mut [u32], id: u32, next: &mut u32, nodes: Vec<u32>, out: &mut Vec<u32>, leaf: usize) {
        let _ = part;
        if nodes.len() <= leaf {
            out.extend(nodes);
            return;
        }
        // BFS halves within the cell
        for &v in &nodes {
            cell[v as usize] = id;
        }
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut q = std::collections::VecDeque::new();
        let mut a = Vec::new();
        'outer: for &s in &nodes {
            if seen.contains(&s) {
                continue;
            }
            q.push_back(s);
            seen.insert(s);
            while let Some(v) = q.pop_front() {
                a.push(v);
                if a.len() >= nodes.len() / 2 {
                    break 'outer;
                }
                for &x in &nb[v as usize] {
                    if cell[x as usize] == id && seen.insert(x) {
                        q.push_back(x);
                    }
                }
            }
        }
        let aset: BTreeSet<u32> = a.iter().copied().collect();
        let mut sep = Vec::new();
        let mut b = Vec::new();
        for &v in &nodes {
            if !aset.contains(&v) {
                if nb[v as usize].iter().any(|x| aset.contains(x)) {
                    sep.push(v)
                } else {
                    b.push(v)
                }
            }
        }
        *next += 2;
        let (i, j) = (*next, *next + 1);
        *next += 2;
        if sep.is_empty() && b.is_empty() {
            out.extend(a);
            return;
        }
        rec(nb, part, cell, i, next, a, out, leaf);
        rec(nb, part, cell, j, next, b, out, leaf);
        out.extend(sep);
    }
    let mut out = Vec::new();
    let mut nodes: Vec<u32> = (0..g.n as u32).collect();
    if c.rng.chance(1, 2) {
        c.rng.shuffle(&mut nodes);
    }
    let leaf = 1 + c.rng.below(6);
    rec(&nb, &mut vec![0; g.n], &mut vec![0; g.n], 1, &mut 1, nodes, &mut out, leaf);
    out
}

fn sep_nodes(t: &SeparatorTree, out: &mut Vec<u32>) -> usize {
    let before = out.len();
    out.extend(t.nodes.iter());
    for ch in &t.children {
        sep_nodes(ch, out);
    }
    out.len() - before
}

fn check_sep_tree(t: &SeparatorTree, up: &[BTreeSet<u32>]) -> R {
    let mut all = Vec::new();
    let cnt = sep_nodes(t, &mut all);
    ensure_eq!(cnt, t.num_nodes, "separator tree: num_nodes of a cell");
    // different children must not touch each other
    let mut owner = BTreeMap::new();
    for (i, ch) in t.children.iter().enumerate() {
        let mut v = Vec::new();
        sep_nodes(ch, &mut v);
        for x in v {
            owner.insert(x, i);
        }
    }
    for (&x, &i) in &owner {
        for y in &up[x as usize] {
            if let Some(&j) = owner.get(y) {
                ensure_eq!(i, j, "separator tree: edge {}-{} crosses sibling cells", x, y);
            }
        }
    }
    for ch in &t.children {
        check_sep_tree(ch, up)?;
    }
    Ok(())
}

fn check_order(name: &str, o: &NodeOrder, n: usize) -> R {
    ensure_eq!(o.len(), n, "{}: length", name);
    let mut seen = vec![false; n];
    for r in 0..n as u32 {
        let v = o.node(r);
        ensure!((v as usize) < n && !seen[v as usize], "{}: not a permutation", name);
        seen[v as usize] = true;
        ensure_eq!(o.rank(v), r, "{}: rank/node inverse", name);
    }
    Ok(())
}

fn check_cch(name: &str, cch: &CCH, g: &G, up: &[BTreeSet<u32>], exact: bool) -> R {
    let o = cch.node_order();
    let n = g.n;
    ensure_eq!(cch.num_nodes(), n, "{}: nodes", name);
    let mut arcs: BTreeMap<(u32, u32), Vec<u32>> = BTreeMap::new();
    let (tails, heads) = (g.tails(), g.heads());
    for e in 0..heads.len() {
        arcs.entry((o.rank(tails[e]), o.rank(heads[e]))).or_default().push(e as u32);
    }
    let mut edges = 0;
    for r in 0..n as u32 {
        let nb: Vec<u32> = cch.neighbor_iter(r).collect();
        if exact {
            ensure_eq!(nb, up[r as usize].iter().copied().collect::<Vec<_>>(), "{}: up neighborhood of rank {} on {}", name, r, g.describe());
            ensure_eq!(cch.elimination_tree()[r as usize].value(), nb.first().copied(), "{}: elimination tree parent of {}", name, r);
        } else {
            ensure!(nb.windows(2).all(|w| w[0] < w[1]), "{}: heads not sorted", name);
            ensure!(nb.iter().all(|x| up[r as usize].contains(x)), "{}: superfluous edge", name);
            // every arc between the endpoints has to be represented
            for &y in &up[r as usize] {
                if arcs.contains_key(&(r, y)) || arcs.contains_key(&(y, r)) {
                    ensure!(nb.contains(&y), "{}: edge {}-{} with original arcs missing", name, r, y);
                }
            }
            // elimination tree must still cover all up neighbors as ancestors
            let mut anc = BTreeSet::new();
            let mut x = r;
            while let Some(p) = cch.elimination_tree()[x as usize].value() {
                anc.insert(p);
                x = p;
            }
            ensure!(nb.iter().all(|y| anc.contains(y)), "{}: neighbor of {} is no elimination tree ancestor", name, r);
        }
        for e in cch.neighbor_edge_indices(r) {
            let h = cch.head()[e as usize];
            ensure_eq!(cch.edge_id_to_tail(e), r, "{}: tail of edge {}", name, e);
            let mut f: Vec<u32> = cch.forward_cch_edge_to_orig_arc()[e as usize].iter().map(|x| x.0).collect();
            let mut b: Vec<u32> = cch.backward_cch_edge_to_orig_arc()[e as usize].iter().map(|x| x.0).collect();
            f.sort_unstable();
            b.sort_unstable();
            ensure_eq!(f, arcs.get(&(r, h)).cloned().unwrap_or_default(), "{}: original arcs of up edge {}-{}", name, r, h);
            ensure_eq!(b, arcs.get(&(h, r)).cloned().unwrap_or_default(), "{}: original arcs of down edge {}-{}", name, r, h);
            edges += 1;
        }
        // inverted graph
        let mut last = None;
        for (NodeIdT(low), Reversed(EdgeIdT(e))) in LinkIterable::<(NodeIdT, Reversed)>::link_iter(cch.forward_inverted(), r) {
            ensure_eq!((cch.edge_id_to_tail(e), cch.head()[e as usize]), (low, r), "{}: inverted edge", name);
            ensure!(last.map_or(true, |l| l < low), "{}: inverted neighbors not ascending", name);
            last = Some(low);
        }
    }
    ensure_eq!(edges, cch.num_arcs(), "{}: arcs", name);
    ensure_eq!(cch.forward_inverted().num_arcs(), edges, "{}: inverted arcs", name);
    Ok(())
}

/// structure of the metric independent preprocessing, order transformations and serialization
fn c06(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 60, ..Default::default() });
    let graph = g.owned();
    let ord = if c.rng.chance(1, 3) { nested_dissection(c, &g) } else { gen::order(&mut c.rng, &g).0 };
    let o = NodeOrder::from_node_order(ord.clone());
    check_order("from_node_order", &o, g.n)?;
    let ranks: Vec<u32> = (0..g.n as u32).map(|v| o.rank(v)).collect();
    let o2 = NodeOrder::from_ranks(ranks);
    ensure_eq!(o2.order(), o.order(), "from_ranks inverts");
    // plain contraction with the order as given
    let raw = contract(&graph, o.clone());
    ensure_eq!(raw.node_order().order(), &ord[..], "contract keeps the order");
    let up = eliminate(&g, raw.node_order());
    check_cch("contract", &raw, &g, &up, true)?;
    let mut all = Vec::new();
    sep_nodes(raw.separators(), &mut all);
    all.sort_unstable();
    ensure_eq!(all, (0..g.n as u32).collect::<Vec<_>>(), "separator tree partitions the nodes");
    check_sep_tree(raw.separators(), &up)?;
    c.verdict("contract", Some(g.fingerprint()));

    let cch = CCH::fix_order_and_build(&graph, o.clone());
    let upf = eliminate(&g, cch.node_order());
    check_order("fixed order", cch.node_order(), g.n)?;
    check_cch("fix_order_and_build", &cch, &g, &upf, true)?;
    check_sep_tree(cch.separators(), &upf)?;
    cch.separators().validate_for_parallelization();
    // reordering along the separator tree must not introduce additional fill in
    ensure_eq!(cch.num_arcs(), raw.num_arcs(), "reordering for parallelization changes the number of shortcuts on {}", g.describe());
    c.verdict("fixed", Some(vh::hash64(&[g.fingerprint(), cch.num_arcs() as u64])));

    let lat: Vec<f32> = (0..g.n).map(|_| c.rng.below(1000) as f32 / 10.0).collect();
    let lng: Vec<f32> = (0..g.n).map(|_| c.rng.below(1000) as f32 / 10.0).collect();
    for (name, no) in [("reorder", reorder(&cch, &lat, &lng)), ("reorder_bfs", reorder_bfs(&cch))] {
        check_order(name, &no, g.n)?;
        let re = contract(&graph, no);
        let upr = eliminate(&g, re.node_order());
        check_cch(name, &re, &g, &upr, true)?;
        if name == "reorder_bfs" {
            ensure_eq!(re.num_arcs(), cch.num_arcs(), "{} changes the number of shortcuts", name);
        }
        c.ev("reordered");
    }
    let slim = cch.remove_always_infinity();
    check_cch("remove_always_infinity", &slim, &g, &upf, false)?;
    c.verdict("slim", if slim.num_arcs() < cch.num_arcs() { Some(vh::hash64(&[g.fingerprint(), 1])) } else { None });

    // save, load: same structure
    let dir = c.scratch.join("cch");
    let _ = std::fs::remove_dir_all(&dir);
    cch.deconstruct_to(&dir).map_err(|e| e.to_string())?;
    cch.node_order().deconstruct_to(&dir).map_err(|e| e.to_string())?;
    let re = CCHReconstrctor(&graph).reconstruct_from(&dir).map_err(|e| e.to_string())?;
    ensure_eq!(re.node_order().order(), cch.node_order().order(), "loaded order");
    check_cch("loaded", &re, &g, &upf, true)?;
    let cust = customize_perfect(customize(&cch, &graph));
    let cd = c.scratch.join("cust");
    let _ = std::fs::remove_dir_all(&cd);
    cust.deconstruct_to(&cd).map_err(|e| e.to_string())?;
    let loaded: CustomizedPerfect<CCH> = (&re).reconstruct_from(&cd).map_err(|e| e.to_string())?;
    ensure!(flat(&cust) == flat(&loaded), "customized hierarchy changed by saving and loading on {}", g.describe());
    ensure_eq!(loaded.forward_tail(), cust.forward_tail(), "loaded forward tails");
    ensure_eq!(loaded.backward_tail(), cust.backward_tail(), "loaded backward tails");
    let rows = oracle::apsp(&g);
    let qs = gen::queries(&mut c.rng, g.n, 8);
    let mut s = Server::new(loaded);
    drive!(c, "loaded-cch", s, g, rows, qs);
    Ok(())
}

fn targets(c: &mut Case, n: usize) -> Vec<u32> {
    let k = match c.rng.below(4) {
        0 => 1,
        1 => n,
        _ => 1 + c.rng.below(n),
    };
    let mut p = c.rng.perm(n);
    p.truncate(k);
    p
}

fn dist(w: u32) -> Option<u64> {
    if w >= INF {
        None
    } else {
        Some(u64::from(w))
    }
}

/// distances from one node to many / many to one
fn c07(c: &mut Case) -> R {
    let g = gen::graph(c, &Opt { max_n: 60, ..Default::default() });
    let graph = g.owned();
    let rows = oracle::apsp(&g);
    let (ord, _) = gen::order(&mut c.rng, &g);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let data = CCHPotData::new(&cch, &graph);
    let order = cch.node_order().clone();
    let fp = g.fingerprint();

    let mut fw = data.forward_potential();
    let mut bw = data.backward_potential();
    let mut ch = data.ch_forward_potential();
    let mut chb = CHPotential::new(data.customized().backward_graph(), data.customized().forward_graph(), order.clone());
    for _ in 0..3 {
        let t = c.rng.below(g.n) as u32;
        fw.init(t);
        bw.init(t);
        ch.init(t);
        chb.init(t);
        let mut nodes = c.rng.perm(g.n);
        let keep = 1 + c.rng.below(g.n);
        nodes.truncate(keep);
        for _ in 0..3 {
            let x = *c.rng.pick(&nodes);
            nodes.push(x);
        }
        for v in nodes {
            let to = rows[v as usize][t as usize];
            let from = rows[t as usize][v as usize];
            ensure_eq!(fw.potential(v).map(u64::from), to, "CCH potential {}->{} on {}", v, t, g.describe());
            ensure_eq!(bw.potential(v).map(u64::from), from, "backward CCH potential {}->{} on {}", t, v, g.describe());
            ensure_eq!(ch.potential(v).map(u64::from), to, "CH potential {}->{} on {}", v, t, g.describe());
            ensure_eq!(chb.potential(v).map(u64::from), from, "backward CH potential {}->{} on {}", t, v, g.describe());
        }
        c.verdict("potentials", Some(vh::hash64(&[fp, u64::from(t)])));
    }
    // potentials with path unpacking work on ranks
    let mut pp = data.forward_path_potential();
    for _ in 0..2 {
        let t = c.rng.below(g.n) as u32;
        pp.init(order.rank(t));
        let mut nodes = c.rng.perm(g.n);
        nodes.truncate(12);
        for v in nodes {
            let exp = rows[v as usize][t as usize];
            ensure_eq!(pp.potential(order.rank(v)).map(u64::from), exp, "path potential {}->{} on {}", v, t, g.describe());
            if let Some(d) = exp {
                pp.unpack_path(NodeIdT(order.rank(v)));
                let mut path = vec![v];
                let mut cur = order.rank(v);
                while cur != order.rank(t) {
                    cur = pp.target_shortest_path_tree()[cur as usize].0;
                    ensure!((cur as usize) < g.n && path.len() <= g.n, "path potential: broken tree {}->{} on {}", v, t, g.describe());
                    path.push(order.node(cur));
                }
                oracle::check_path(&g, &path, v, t, d).map_err(|e| format!("path potential: {} on {}", e, g.describe()))?;
                c.verdict("unpacked-tree-path", Some(vh::hash_u32s(&path)));
            }
        }
    }
    let mut pp = data.backward_path_potential();
    for _ in 0..2 {
        let s = c.rng.below(g.n) as u32;
        pp.init(order.rank(s));
        let mut nodes = c.rng.perm(g.n);
        nodes.truncate(12);
        for v in nodes {
            let exp = rows[s as usize][v as usize];
            ensure_eq!(pp.potential(order.rank(v)).map(u64::from), exp, "backward path potential {}->{} on {}", s, v, g.describe());
            if let Some(d) = exp {
                pp.unpack_path(NodeIdT(order.rank(v)));
                let mut path = vec![v];
                let mut cur = order.rank(v);
                while cur != order.rank(s) {
                    cur = pp.target_shortest_path_tree()[cur as usize].0;
                    ensure!((cur as usize) < g.n && path.len() <= g.n, "backward path potential: broken tree on {}", g.describe());
                    path.push(order.node(cur));
                }
                path.reverse();
                oracle::check_path(&g, &path, s, v, d).map_err(|e| format!("backward path potential: {} on {}", e, g.describe()))?;
                c.verdict("unpacked-tree-path-bw", Some(vh::hash_u32s(&path)));
            }
        }
    }

    // RPHAST: selections and queries interleaved on the same structures
    let fwg = data.customized().forward_graph();
    let bwg = data.customized().backward_graph();
    let mut r = RPHAST::new(data.customized().forward_graph(), data.customized().backward_graph(), order.clone());
    let mut q = RPHASTQuery::new(&r);
    let mut sse = SSERPHASTQuery::new(&r);
    let mut bucket = BucketCHPotential::new(fwg, bwg, order.clone());
    for _ in 0..3 {
        let ts = targets(c, g.n);
        r.select(&ts);
        for _ in 0..3 {
            let s = c.rng.below(g.n) as u32;
            let res = q.query(s, &r);
            for &t in &ts {
                ensure_eq!(dist(res.distance(t)), rows[s as usize][t as usize], "RPHAST {}->{} on {}", s, t, g.describe());
            }
            c.verdict("rphast", Some(vh::hash64(&[fp, u64::from(s), vh::hash_u32s(&ts)])));
        }
        let ss = targets(c, g.n);
        let ss = &ss[..ss.len().min(6)];
        let res = sse.query(ss, &r);
        for &t in &ts {
            let d = res.distances(t);
            ensure_eq!(d.len(), ss.len(), "SSE RPHAST: number of distances");
            for (i, &s) in ss.iter().enumerate() {
                ensure_eq!(dist(d[i]), rows[s as usize][t as usize], "SSE RPHAST {}->{} on {}", s, t, g.describe());
            }
        }
        c.verdict("rphast-multi", None);
        bucket.init(&ts);
        for _ in 0..6 {
            let s = c.rng.below(g.n) as u32;
            let d = bucket.potential(s).to_vec();
            ensure_eq!(d.len(), ts.len(), "bucket potential: number of distances");
            for (i, &t) in ts.iter().enumerate() {
                ensure_eq!(dist(d[i]), rows[s as usize][t as usize], "bucket potential {}->{} on {}", s, t, g.describe());
            }
        }
        c.verdict("bucket", None);
    }
    let hl = HubLabels::new(&data.customized().forward_graph(), &data.customized().backward_graph());
    for s in 0..g.n as u32 {
        for t in 0..g.n as u32 {
            let exp = rows[s as usize][t as usize];
            let got = hl.dist(order.rank(s), order.rank(t)).map(u64::from);
            ensure_eq!(got, exp, "hub labels {}->{} on {}", s, t, g.describe());
            if let Some((hub, d)) = hl.hub_and_dist(order.rank(s), order.rank(t)) {
                let h = order.node(hub) as usize;
                let via = rows[s as usize][h].zip(rows[h][t as usize]).map(|(a, b)| a + b);
                ensure_eq!(via, Some(u64::from(d)), "hub {} of {}->{} not on a shortest path", h, s, t);
            }
        }
    }
    c.verdict("hub-labels", Some(vh::hash64(&[fp, 77])));
    Ok(())
}

fn check_knn(name: &str, g: &G, got: &[(u32, u32)], s: u32, ts: &[u32], k: usize, row: &[Option<u64>]) -> R {
    let mut all: Vec<u64> = ts.iter().filter_map(|&t| row[t as usize]).collect();
    all.sort_unstable();
    all.truncate(k);
    let mut seen = BTreeSet::new();
    let mut ds = Vec::new();
    for &(d, t) in got {
        ensure!(ts.contains(&t), "{}: {} is not a target (source {}, k {}) on {}", name, t, s, k, g.describe());
        ensure!(seen.insert(t), "{}: target {} reported twice (source {}, k {})", name, t, s, k);
        ensure_eq!(row[t as usize], Some(u64::from(d)), "{}: distance {}->{} (k {}, targets {:?}) on {}", name, s, t, k, ts, g.describe());
        ds.push(u64::from(d));
    }
    ds.sort_unstable();
    ensure_eq!(ds, all, "{}: the {} closest of {:?} from {} on {}", name, k, ts, s, g.describe());
    Ok(())
}

/// k nearest targets
fn c08(c: &mut Case) -> R {
    let g = if c.rng.chance(1, 4) {
        let n = c.size(20, 200);
        big_graph(c, n)
    } else {
        gen::graph(c, &Opt { max_n: 80, ..Default::default() })
    };
    let graph = g.owned();
    let ord = if c.rng.chance(1, 2) { nested_dissection(c, &g) } else { gen::order(&mut c.rng, &g).0 };
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let data = CCHPotData::new(&cch, &graph);
    let mut sep = SeparatorBasedNearestNeighbor::new(&cch, data.backward_potential());
    let mut lazy = LazyRphastNearestNeighbor::new(data.backward_potential());
    let mut bcch = BCCHNearestNeighbor::new(data.customized());
    let mut dij = DijkstraNearestNeighbor::new(graph.clone());
    for _ in 0..3 {
        let ts = targets(c, g.n);
        let qs: Vec<(u32, usize)> = (0..6)
            .map(|_| {
                let k = match c.rng.below(3) {
                    0 => 1,
                    1 => ts.len() + c.rng.below(2),
                    _ => 1 + c.rng.below(ts.len()),
                };
                (c.rng.below(g.n) as u32, k)
            })
            .collect();
        let rows: Vec<Vec<Option<u64>>> = qs.iter().map(|q| oracle::sssp(&g, q.0)).collect();
        {
            let mut x = sep.select_targets(&ts);
            for (i, &(s, k)) in qs.iter().enumerate() {
                check_knn("separator-knn", &g, &x.query(s, k), s, &ts, k, &rows[i])?;
                c.verdict("separator-knn", Some(vh::hash64(&[g.fingerprint(), s.into(), k as u64, vh::hash_u32s(&ts)])));
            }
        }
        for (i, &(s, k)) in qs.iter().enumerate() {
            check_knn("lazy-knn", &g, &lazy.query(s, &ts, k), s, &ts, k, &rows[i])?;
            c.verdict("lazy-knn", None);
        }
        {
            let mut x = bcch.select_targets(&ts);
            for (i, &(s, k)) in qs.iter().enumerate() {
                check_knn("bcch-knn", &g, &x.query(s, k), s, &ts, k, &rows[i])?;
                c.verdict("bcch-knn", None);
            }
        }
        {
            let mut x = dij.select_targets(&ts);
            for (i, &(s, k)) in qs.iter().enumerate() {
                check_knn("dijkstra-knn", &g, &x.query(s, k), s, &ts, k, &rows[i])?;
                c.verdict("dijkstra-knn", None);
            }
        }
    }
    Ok(())
}
