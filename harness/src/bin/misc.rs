//! Monitors for storage, graph transformations, metric merging and link speed estimation.
use rust_road_router::{
    algo::{a_star::*, ch_potentials::*, contraction_hierarchy, customizable_contraction_hierarchy::*, metric_merging, td_astar::*},
    datastr::{
        graph::{link_id_to_tail_mapper::*, first_out_graph::degrees_to_first_out, floating_time_dependent as fl, time_dependent::*, *},
        node_order::NodeOrder,
        rank_select_map::BitVec,
    },
    export::*,
    io::*,
    link_speed_estimates::*,
    report::*,
    util::{in_range_option::InRangeOption, *},
};
use std::collections::{BTreeMap, BTreeSet};
use vh::{ensure, ensure_eq, gen::*, hash64, hash_u32s, tdgen::*, Case, Prop, Rng, R};

const P: u32 = 86_400_000;

fn main() {
    vh::main_loop(&[Prop { id: "C21", run: c21 }, Prop { id: "C22", run: c22 }, Prop { id: "C23", run: c23 }, Prop { id: "C24", run: c24 }]);
}

fn es<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}

// ---------------------------------------------------------------- C21

fn c21(c: &mut Case) -> R {
    std::fs::create_dir_all(&c.scratch).map_err(es)?;
    plain_arrays(c)?;
    graphs(c)?;
    match c.rng.below(4) {
        0 => exports(c),
        1 => potentials(c),
        2 => td_graphs(c),
        _ => td_potentials(c),
    }
}

trait Elem: Copy + Default + PartialEq + std::fmt::Debug {
    fn random(r: &mut Rng) -> Self;
}
macro_rules! elem {
    ($($t:ty),*) => {$(impl Elem for $t { fn random(r: &mut Rng) -> Self { match r.below(6) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => r.u64() as $t } } })*}
}
elem!(u8, u16, u32, u64, i8, i32, i64, usize);
impl Elem for f32 {
    fn random(r: &mut Rng) -> Self {
        (r.f64() * 360. - 180.) as f32
    }
}
impl Elem for f64 {
    fn random(r: &mut Rng) -> Self {
        r.f64() * 1e9 - 5e8
    }
}
impl Elem for (u32, u32) {
    fn random(r: &mut Rng) -> Self {
        (u32::random(r), u32::random(r))
    }
}

fn array<T: Elem>(c: &mut Case, name: &'static str) -> R {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => c.rng.below(20_000),
        _ => c.rng.below(300),
    };
    let v: Vec<T> = (0..n).map(|_| T::random(&mut c.rng)).collect();
    let file = c.scratch.join("arr");
    if c.rng.chance(1, 2) {
        // an older, longer file has to be replaced completely
        std::fs::write(&file, vec![0xabu8; c.rng.below(200_000)]).map_err(es)?;
    }
    match c.rng.below(3) {
        0 => v.write_to(&file).map_err(es)?,
        1 => (&v[..]).write_to(&file).map_err(es)?,
        _ => v.clone().into_boxed_slice().write_to(&file).map_err(es)?,
    }
    let bytes = std::fs::read(&file).map_err(es)?;
    ensure_eq!(bytes.len(), n * std::mem::size_of::<T>(), "{}: size of the file written for {} elements", name, n);
    let a = Vec::<T>::load_from(&file).map_err(es)?;
    ensure!(a == v, "{}: Vec with {} elements changed by writing and loading", name, n);
    let b = Box::<[T]>::load_from(&file).map_err(es)?;
    ensure!(b[..] == v[..], "{}: Box<[T]> with {} elements changed by writing and loading", name, n);
    c.verdict("array", Some(hash64(&[n as u64, vh::hash_str(name), c.rng.clone().u64()])));
    Ok(())
}

fn plain_arrays(c: &mut Case) -> R {
    for _ in 0..3 {
        match c.rng.below(11) {
            0 => array::<u8>(c, "u8"),
            1 => array::<u16>(c, "u16"),
            2 => array::<u64>(c, "u64"),
            3 => array::<i32>(c, "i32"),
            4 => array::<i64>(c, "i64"),
            5 => array::<f32>(c, "f32"),
            6 => array::<f64>(c, "f64"),
            7 => array::<(u32, u32)>(c, "(u32, u32)"),
            8 => array::<usize>(c, "usize"),
            9 => array::<i8>(c, "i8"),
            _ => array::<u32>(c, "u32"),
        }?;
    }
    // interpretable by other tools: little endian numbers back to back
    let v: Vec<u32> = (0..c.rng.below(50)).map(|_| c.rng.u64() as u32).collect();
    let file = c.scratch.join("le");
    v.write_to(&file).map_err(es)?;
    let bytes = std::fs::read(&file).map_err(es)?;
    ensure_eq!(bytes, v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>(), "on disk representation of {:?}", v);
    // bit vectors are padded to full words
    let n = c.rng.below(400);
    let mut b = BitVec::new(n);
    let bits: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 3)).collect();
    for (i, &x) in bits.iter().enumerate() {
        if x {
            b.set(i)
        }
    }
    let file = c.scratch.join("bits");
    b.write_to(&file).map_err(es)?;
    let l = BitVec::load_from(&file).map_err(es)?;
    ensure!(l.len() >= n, "loaded bit vector has {} bits instead of {}", l.len(), n);
    for i in 0..n {
        ensure_eq!(l.get(i), bits[i], "bit {} of {} after loading", i, n);
    }
    ensure_eq!(l.count_ones(), bits.iter().filter(|&&x| x).count(), "number of ones after loading");
    c.verdict("bits", Some(hash64(&[n as u64, l.count_ones() as u64])));
    // errors are reported
    let missing = c.scratch.join("does_not_exist");
    ensure!(Vec::<u32>::load_from(&missing).is_err(), "loading a missing file did not fail");
    ensure!(v.write_to(&missing.join("sub")).is_err(), "writing into a missing directory did not fail");
    c.verdict("io-errors", None);
    Ok(())
}

fn same_graph(a: &OwnedGraph, g: &G, what: &str) -> R {
    ensure_eq!(a.first_out(), &g.first_out()[..], "{}: first_out", what);
    ensure_eq!(a.head(), &g.heads()[..], "{}: head", what);
    ensure_eq!(a.weight(), &g.weights()[..], "{}: weight", what);
    Ok(())
}

fn graphs(c: &mut Case) -> R {
    let g = graph(c, &Opt { max_n: 80, ..Opt::default() });
    let o = g.owned();
    let dir = c.scratch.join("graph");
    o.deconstruct_to(&dir).map_err(es)?;
    same_graph(&OwnedGraph::reconstruct_from(&dir).map_err(es)?, &g, "weighted graph")?;
    let b: FirstOutGraph<Box<[u32]>, Box<[u32]>, Box<[u32]>> = FirstOutGraph::reconstruct_from(&dir).map_err(es)?;
    ensure_eq!((b.first_out(), b.head(), b.weight()), (o.first_out(), o.head(), o.weight()), "boxed graph");
    let u = UnweightedOwnedGraph::reconstruct_from(&dir).map_err(es)?;
    ensure_eq!((u.first_out(), u.head()), (o.first_out(), o.head()), "unweighted graph");
    // a second metric next to the first one
    let w2: Vec<u32> = g.weights().iter().map(|w| w ^ 5).collect();
    w2.write_to(&dir.join("other_metric")).map_err(es)?;
    let r = WeightedGraphReconstructor("other_metric").reconstruct_from(&dir).map_err(es)?;
    ensure_eq!((r.first_out(), r.head(), r.weight()), (o.first_out(), o.head(), &w2[..]), "graph with second metric");
    let r = WeightedGraphReconstructor("weights").reconstruct_from(&dir).map_err(es)?;
    same_graph(&r, &g, "graph with named metric")?;
    // overwriting a stored object
    let g2 = graph(c, &Opt { max_n: 40, ..Opt::default() });
    g2.owned().deconstruct_to(&dir).map_err(es)?;
    same_graph(&OwnedGraph::reconstruct_from(&dir).map_err(es)?, &g2, "overwritten graph")?;
    let ud = c.scratch.join("unweighted");
    UnweightedOwnedGraph::new(g2.first_out(), g2.heads()).deconstruct_to(&ud).map_err(es)?;
    let u = UnweightedOwnedGraph::reconstruct_from(&ud).map_err(es)?;
    ensure_eq!((u.first_out().to_vec(), u.head().to_vec()), (g2.first_out(), g2.heads()), "unweighted graph");
    ensure!(<OwnedGraph>::reconstruct_from(&ud).is_err(), "loading a graph without weights did not fail");
    // node orders
    let perm = c.rng.perm(g.n);
    let order = NodeOrder::from_node_order(perm.clone());
    let od = c.scratch.join("order");
    order.deconstruct_to(&od).map_err(es)?;
    let l = NodeOrder::reconstruct_from(&od).map_err(es)?;
    ensure_eq!(l.order(), &perm[..], "loaded node order");
    ensure_eq!(l.ranks(), order.ranks(), "loaded ranks");
    for d in [dir, ud, od] {
        std::fs::remove_dir_all(d).map_err(es)?;
    }
    c.verdict("graphs", (g.m() > 0).then(|| g.fingerprint()));
    Ok(())
}

fn exports(c: &mut Case) -> R {
    let g = graph(c, &Opt { max_n: 60, ..Opt::default() });
    let f = c.scratch.join("x.gr");
    write_graph_to_gr(&g.owned(), f.to_str().unwrap()).map_err(es)?;
    let text = std::fs::read_to_string(&f).map_err(es)?;
    let mut lines = text.lines();
    ensure_eq!(lines.next().map(str::to_owned), Some(format!("p sp {} {}", g.n, g.m())), "header");
    let mut adj = vec![Vec::new(); g.n];
    for l in lines {
        let p: Vec<&str> = l.split_whitespace().collect();
        ensure!(p.len() == 4 && p[0] == "a", "arc line {:?}", l);
        let x: Vec<usize> = p[1..].iter().map(|s| s.parse().unwrap()).collect();
        ensure!(x[0] >= 1 && x[0] <= g.n && x[1] >= 1 && x[1] <= g.n, "node ids of {:?} out of range", l);
        adj[x[0] - 1].push((x[1] as u32 - 1, x[2] as u32));
    }
    ensure_eq!(adj, g.adj, "arcs exported in the DIMACS format");
    let n = c.rng.below(60);
    let lat: Vec<f32> = (0..n).map(|_| (c.rng.f64() * 180. - 90.) as f32).collect();
    let lng: Vec<f32> = (0..n).map(|_| (c.rng.f64() * 360. - 180.) as f32).collect();
    let f = c.scratch.join("x.co");
    write_coords_to_co(&lat, &lng, f.to_str().unwrap()).map_err(es)?;
    let text = std::fs::read_to_string(&f).map_err(es)?;
    let mut lines = text.lines();
    ensure_eq!(lines.next().map(str::to_owned), Some(format!("p aux sp co {}", n)), "coordinate header");
    let mut k = 0;
    for l in lines {
        let p: Vec<i64> = l.strip_prefix("v ").ok_or("coordinate line")?.split_whitespace().map(|s| s.parse().unwrap()).collect();
        ensure!(p.len() == 3 && p[0] == k as i64 + 1, "coordinate line {:?} at node {}", l, k);
        // single precision products
        ensure!((p[1] as f64 - lat[k] as f64 * 1e6).abs() <= 32. && (p[2] as f64 - lng[k] as f64 * 1e6).abs() <= 32., "coordinates {:?} of {:?}", l, (lat[k], lng[k]));
        k += 1;
    }
    ensure_eq!(k, n, "number of exported coordinates");
    c.verdict("export", (g.m() > 0).then(|| g.fingerprint()));
    Ok(())
}

/// potentials loaded from the files which the CH preprocessing writes
fn potentials(c: &mut Case) -> R {
    let g = graph(c, &Opt { max_n: 60, inf: false, ..Opt::default() });
    let o = g.owned();
    let (ord, _) = order(&mut c.rng, &g);
    let ord = NodeOrder::from_node_order(ord);
    let (fw, bw) = {
        let _b = block_reporting();
        contraction_hierarchy::overlay(&o, ord.clone(), g.n)
    };
    let dir = c.scratch.join("ch");
    std::fs::create_dir_all(&dir).map_err(es)?;
    for (p, g) in [("forward", &fw), ("backward", &bw)] {
        g.first_out().write_to(&dir.join(format!("{}_first_out", p))).map_err(es)?;
        g.head().write_to(&dir.join(format!("{}_head", p))).map_err(es)?;
        g.weight().write_to(&dir.join(format!("{}_weight", p))).map_err(es)?;
    }
    ord.order().write_to(&dir.join("order")).map_err(es)?;
    let mut orig = CHPotential::new(fw.clone(), bw.clone(), ord.clone());
    let mut loaded = CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&dir).map_err(es)?;
    let loader = CHPotLoader::reconstruct_from(&dir).map_err(es)?;
    let (mut pf, mut pb) = loader.potentials();
    ensure_eq!(loader.order().order(), ord.order(), "loaded order");
    let rev = vh::gen::G::reversed(&g);
    for _ in 0..3 {
        let t = c.rng.below(g.n) as u32;
        let to = vh::oracle::sssp(&rev, t);
        let from = vh::oracle::sssp(&g, t);
        Potential::init(&mut orig, t);
        Potential::init(&mut loaded, t);
        Potential::init(&mut pf, t);
        Potential::init(&mut pb, t);
        for v in 0..g.n as u32 {
            let exp = to[v as usize].map(|d| d as u32);
            ensure_eq!(Potential::potential(&mut loaded, v), exp, "loaded CH potential of {} to {} in {}", v, t, g.describe());
            ensure_eq!(Potential::potential(&mut orig, v), exp, "CH potential of {} to {}", v, t);
            ensure_eq!(Potential::potential(&mut pf, v), exp, "forward potential of {} to {} in {}", v, t, g.describe());
            ensure_eq!(Potential::potential(&mut pb, v), from[v as usize].map(|d| d as u32), "backward potential of {} from {} in {}", v, t, g.describe());
        }
    }
    std::fs::remove_dir_all(dir).map_err(es)?;
    c.verdict("loaded-potential", (g.m() > 0).then(|| g.fingerprint()));
    Ok(())
}

fn store_td(tg: &TG, dir: &std::path::Path) -> R {
    std::fs::create_dir_all(dir).map_err(es)?;
    tg.g.first_out().write_to(&dir.join("first_out")).map_err(es)?;
    tg.g.heads().write_to(&dir.join("head")).map_err(es)?;
    tg.first_ipp.write_to(&dir.join("first_ipp_of_arc")).map_err(es)?;
    tg.dep.write_to(&dir.join("ipp_departure_time")).map_err(es)?;
    tg.tt.write_to(&dir.join("ipp_travel_time")).map_err(es)
}

fn td_graphs(c: &mut Case) -> R {
    let tg = td_graph(c, &TdOpt { g: Opt { max_n: 16, inf: false, zero: false, min_m: 1, ..Opt::default() }, strict: true, max_pts: 8 });
    let dir = c.scratch.join("td");
    store_td(&tg, &dir)?;
    let mem = tg.graph();
    let g = TDGraph::reconstruct_from(&dir).map_err(es)?;
    let f = fl::TDGraph::reconstruct_from(&dir).map_err(es)?;
    ensure_eq!((g.first_out(), g.head()), (mem.first_out(), mem.head()), "time-dependent topology");
    ensure_eq!((f.first_out(), f.head()), (mem.first_out(), mem.head()), "floating time-dependent topology");
    ensure_eq!((g.num_ipps(), g.num_constant()), (mem.num_ipps(), mem.num_constant()), "breakpoints");
    let mut nontrivial = false;
    for e in 0..tg.m() {
        nontrivial |= tg.f[e].len() > 1;
        for _ in 0..4 {
            let t = c.rng.below(P as usize) as u32;
            let (num, den) = exact(&tg.f[e], t as u64);
            let v = g.travel_time_function(e as u32).eval(t);
            ensure_eq!(v, mem.travel_time_function(e as u32).eval(t), "function {} at {}", e, t);
            ensure!((v as i128 * den - num).abs() <= den, "loaded function {} at {}: {} instead of {}/{}", e, t, v, num, den);
            let v = f64::from(fl::TDGraphTrait::evaluate_path(&f, &[e as u32], fl::Timestamp::new(t as f64 / 1000.))) * 1000.;
            ensure!((v - num as f64 / den as f64).abs() < 1.5, "loaded floating function {} at {}: {} instead of {}/{}", e, t, v, num, den);
        }
    }
    // live reports: (edge, travel time, remaining duration)
    let now = c.rng.below(P as usize / 2) as u32;
    let mut reports: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    for e in 0..tg.m() as u32 {
        if c.rng.chance(1, 3) {
            reports.insert(e, (1000 + c.rng.below(4_000_000) as u32, if c.rng.chance(1, 4) { P + c.rng.below(1000) as u32 } else { c.rng.below(P as usize / 2) as u32 }));
        }
    }
    let mut rows: Vec<(u32, u32, u32)> = reports.iter().map(|(&e, &(w, d))| (e, w, d)).collect();
    c.rng.shuffle(&mut rows);
    rows.write_to(&dir.join("live")).map_err(es)?;
    let pg: PessimisticLiveTDGraph = ("live".to_owned(), now).reconstruct_from(&dir).map_err(es)?;
    for e in 0..tg.m() as u32 {
        let rep = reports.get(&e).filter(|r| r.1 < P);
        for _ in 0..4 {
            let t = now + c.rng.below(P as usize) as u32;
            let pred = |t: u32| mem.travel_time_function(e).eval(t);
            let exp = match rep {
                Some(&(w, d)) if t < now + d => pred(t).max(w.min(pred(now + d) + (now + d - t))),
                _ => pred(t),
            };
            ensure_eq!(pg.eval(e, t), exp, "live travel time of {} at {} with report {:?} at {}", e, t, rep, now);
        }
    }
    std::fs::remove_dir_all(dir).map_err(es)?;
    c.verdict("td-graph", nontrivial.then(|| tg.fingerprint()));
    Ok(())
}

fn td_potentials(c: &mut Case) -> R {
    let tg = td_graph(c, &TdOpt { g: Opt { max_n: 20, inf: false, zero: false, min_m: 1, ..Opt::default() }, strict: true, max_pts: 6 });
    let graph = tg.graph();
    let _b = block_reporting();
    let (ord, _) = order(&mut c.rng, &tg.g);
    let ord = NodeOrder::from_node_order(ord);
    let cch = CCH::fix_order_and_build(&graph, ord);
    if (0..tg.g.n).all(|v| tg.g.adj[v].iter().all(|&(w, _)| w as usize == v)) {
        // the number of metrics is derived from the array sizes, that takes at least one arc
        return Ok(());
    }
    let h = P / 4;
    let times: Vec<TRange<Timestamp>> = (0..4).map(|i| TRange { start: i * h, end: (i + 1) * h }).collect();
    let reduce = c.rng.chance(1, 2).then(|| 1 + c.rng.below(5));
    let mmp = MultiMetricPreprocessed::new(&cch, times, &graph, reduce);
    let d1 = c.scratch.join("mmp");
    mmp.deconstruct_to(&d1).map_err(es)?;
    let loaded: MultiMetricPreprocessed = (&cch).reconstruct_from(&d1).map_err(es)?;
    let mut a = MultiMetric::new(mmp);
    let mut b = MultiMetric::new(loaded);
    let d2 = c.scratch.join("mm");
    a.deconstruct_to(&d2).map_err(es)?;
    let mut m: MultiMetric = (&cch).reconstruct_from(&d2).map_err(es)?;
    let mut found = false;
    for _ in 0..4 {
        let (s, t, dep) = (c.rng.below(tg.g.n) as u32, c.rng.below(tg.g.n) as u32, c.rng.below(P as usize) as u32);
        a.init(s, t, dep);
        b.init(s, t, dep);
        m.init(s, t, dep);
        for v in 0..tg.g.n as u32 {
            let x = a.potential(v, Some(dep));
            found |= x.map_or(false, |x| x > 0);
            ensure_eq!(b.potential(v, Some(dep)), x, "multi metric potential of {} for {:?} built from loaded metrics in {}", v, (s, t, dep), tg.describe());
            ensure_eq!(m.potential(v, Some(dep)), x, "loaded multi metric potential of {} for {:?} in {}", v, (s, t, dep), tg.describe());
        }
    }
    for d in [d1, d2] {
        std::fs::remove_dir_all(d).map_err(es)?;
    }
    c.verdict("td-potential", found.then(|| tg.fingerprint()));
    Ok(())
}

// ---------------------------------------------------------------- C22

type Adj = Vec<Vec<(u32, u32)>>;

fn sorted(mut a: Adj) -> Adj {
    a.iter_mut().for_each(|x| x.sort_unstable());
    a
}
/// all ways to look at a weighted graph have to agree
fn view<F: AsRef<[u32]>, H: AsRef<[u32]>, W: AsRef<[u32]>>(g: &FirstOutGraph<F, H, W>, what: &str) -> Result<Adj, String> {
    let n = g.num_nodes();
    ensure_eq!(g.first_out().len(), n + 1, "{}: first_out length", what);
    ensure_eq!((g.first_out()[0], g.first_out()[n] as usize), (0, g.num_arcs()), "{}: first_out ends", what);
    ensure_eq!((g.head().len(), g.weight().len()), (g.num_arcs(), g.num_arcs()), "{}: array sizes", what);
    let mut adj = Vec::new();
    for v in 0..n as u32 {
        let a: Vec<(u32, u32)> = LinkIterable::<Link>::link_iter(g, v).map(|l| (l.node, l.weight)).collect();
        ensure_eq!(g.degree(v), a.len(), "{}: degree of {}", what, v);
        let r = g.neighbor_edge_indices(v);
        ensure_eq!(g.neighbor_edge_indices_usize(v), r.start as usize..r.end as usize, "{}: edge ids of {}", what, v);
        ensure_eq!(r.clone().map(|e| g.link(e)).map(|l| (l.node, l.weight)).collect::<Vec<_>>(), a, "{}: links by id at {}", what, v);
        ensure_eq!(LinkIterable::<NodeIdT>::link_iter(g, v).map(|x| x.0).collect::<Vec<_>>(), a.iter().map(|x| x.0).collect::<Vec<_>>(), "{}: heads at {}", what, v);
        ensure_eq!(LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(g, v).map(|x| (x.0 .0, x.1 .0)).collect::<Vec<_>>(), r.clone().zip(&a).map(|(e, x)| (x.0, e)).collect::<Vec<_>>(), "{}: heads with ids at {}", what, v);
        ensure_eq!(LinkIterable::<(NodeIdT, Weight, EdgeIdT)>::link_iter(g, v).map(|x| (x.0 .0, x.1, x.2 .0)).collect::<Vec<_>>(), r.clone().zip(&a).map(|(e, x)| (x.0, x.1, e)).collect::<Vec<_>>(), "{}: links with ids at {}", what, v);
        adj.push(a);
    }
    Ok(adj)
}
fn rev_adj(adj: &Adj) -> Adj {
    let mut r = vec![Vec::new(); adj.len()];
    for (u, a) in adj.iter().enumerate() {
        for &(v, w) in a {
            r[v as usize].push((u as u32, w));
        }
    }
    r
}

fn c22(c: &mut Case) -> R {
    let g = graph(c, &Opt { max_n: 60, ..Opt::default() });
    let desc = g.describe();
    let o = g.owned();
    ensure_eq!(view(&o, "graph")?, g.adj, "graph built from arrays");
    let l = OwnedGraph::from_adjancecy_lists(g.adj.iter().map(|a| a.iter().map(|&(node, weight)| Link { node, weight }).collect()).collect());
    ensure_eq!(view(&l, "from lists")?, g.adj, "graph built from adjacency lists {}", desc);
    let u = UnweightedOwnedGraph::from_adjancecy_lists(g.adj.iter().map(|a| a.iter().map(|x| x.0).collect()).collect());
    ensure_eq!((u.first_out().to_vec(), u.head().to_vec()), (g.first_out(), g.heads()), "unweighted graph built from adjacency lists {}", desc);
    ensure_eq!(degrees_to_first_out(g.adj.iter().map(|a| a.len() as u32)).collect::<Vec<_>>(), g.first_out(), "prefix sums");
    let b = o.borrowed();
    ensure_eq!(view(&b, "borrowed")?, g.adj, "borrowed graph");
    // edges by end points
    let (tails, heads) = (g.tails(), g.heads());
    let mut pairs = vh::gen::queries(&mut c.rng, g.n, 4);
    for _ in 0..4 {
        if g.m() > 0 {
            let e = c.rng.below(g.m());
            pairs.push((tails[e], heads[e]));
        }
    }
    for (s, t) in pairs {
        let exp: Vec<u32> = (0..g.m() as u32).filter(|&e| tails[e as usize] == s && heads[e as usize] == t).collect();
        ensure_eq!(o.edge_indices(s, t).map(|e| e.0).collect::<Vec<_>>(), exp, "edges between {} and {} in {}", s, t, desc);
        ensure_eq!(u.edge_indices(s, t).map(|e| e.0).collect::<Vec<_>>(), exp, "unweighted edges between {} and {} in {}", s, t, desc);
    }
    c.verdict("views", (g.m() > 0).then(|| g.fingerprint()));

    // tails
    let mapper = LinkIdToTailMapper::new(&o);
    let fo = g.first_out();
    for e in 0..g.m() {
        ensure_eq!(mapper.link_id_to_tail(e as u32), tails[e], "tail of {} (mapper) in {}", e, desc);
        ensure_eq!(link_id_to_tail(&fo, e as u32), tails[e], "tail of {} (search) in {}", e, desc);
    }
    c.verdict("tails", (g.m() > 0).then(|| hash_u32s(&fo)));

    // reversal
    let rev = sorted(rev_adj(&g.adj));
    let r = OwnedGraph::reversed(&o);
    ensure_eq!(sorted(view(&r, "reversed")?), rev, "reversed {}", desc);
    ensure_eq!(sorted(view(&OwnedGraph::reversed(&r), "reversed twice")?), sorted(g.adj.clone()), "reversed twice {}", desc);
    let ur = UnweightedOwnedGraph::reversed(&o);
    let rid = ReversedGraphWithEdgeIds::reversed(&o);
    ensure_eq!((ur.num_nodes(), ur.num_arcs(), rid.num_nodes(), rid.num_arcs()), (g.n, g.m(), g.n, g.m()), "sizes of reversed graphs");
    let mut seen = BTreeSet::new();
    for v in 0..g.n as u32 {
        let mut a: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(&ur, v).map(|x| x.0).collect();
        a.sort_unstable();
        ensure_eq!(a, rev[v as usize].iter().map(|x| x.0).collect::<Vec<_>>(), "unweighted reversed at {} in {}", v, desc);
        ensure_eq!(rid.degree(v), rev[v as usize].len(), "degree of {} in the reversed graph", v);
        for (NodeIdT(t), Reversed(EdgeIdT(e))) in rid.link_iter(v) {
            ensure!(heads[e as usize] == v && tails[e as usize] == t && seen.insert(e), "reversed edge {} between {} and {} in {}", e, v, t, desc);
        }
    }
    ensure_eq!(seen.len(), g.m(), "all edges are in the reversed graph");
    // with blocked edges
    let filtered: Adj = g.adj.iter().map(|a| a.iter().copied().filter(|x| x.1 < vh::INF).collect()).collect();
    let blocked = filtered.iter().map(Vec::len).sum::<usize>() < g.m();
    let inf = InfinityFilteringGraph(o.clone());
    let frev = sorted(rev_adj(&filtered));
    ensure_eq!(sorted(view(&OwnedGraph::reversed(&inf), "reversed without blocked edges")?), frev, "reversed without blocked edges {}", desc);
    let ur = UnweightedOwnedGraph::reversed(&inf);
    for v in 0..g.n as u32 {
        ensure_eq!(LinkIterable::<Link>::link_iter(&inf, v).map(|l| (l.node, l.weight)).collect::<Vec<_>>(), filtered[v as usize], "filtered links at {}", v);
        let mut a: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(&ur, v).map(|x| x.0).collect();
        a.sort_unstable();
        ensure_eq!(a, frev[v as usize].iter().map(|x| x.0).collect::<Vec<_>>(), "unweighted reversed without blocked edges at {} in {}", v, desc);
    }
    ensure_eq!(ur.num_arcs(), filtered.iter().map(Vec::len).sum::<usize>(), "number of arcs of the reversed graph without blocked edges");
    if blocked {
        c.ev("blocked-edges");
    }
    c.verdict("reversal", (g.m() > 0).then(|| g.fingerprint()));

    // orders and permutations
    let perm = c.rng.perm(g.n);
    let order = NodeOrder::from_node_order(perm.clone());
    let mut ranks = vec![0; g.n];
    for (r, &v) in perm.iter().enumerate() {
        ranks[v as usize] = r as u32;
    }
    ensure_eq!((order.order(), order.ranks(), order.len()), (&perm[..], &ranks[..], g.n), "order from nodes");
    let other = NodeOrder::from_ranks(ranks.clone());
    ensure_eq!((other.order(), other.ranks()), (&perm[..], &ranks[..]), "order from ranks");
    for v in 0..g.n as u32 {
        ensure_eq!((order.node(order.rank(v)), order.rank(order.node(v))), (v, v), "order is a bijection");
    }
    let id = NodeOrder::identity(g.n);
    ensure!((0..g.n as u32).all(|v| id.rank(v) == v && id.node(v) == v), "identity");
    let permute = |adj: &Adj| -> Adj { (0..g.n).map(|r| adj[perm[r] as usize].iter().map(|&(v, w)| (ranks[v as usize], w)).collect()).collect() };
    let p = OwnedGraph::permutated(&o, &order);
    let pa = view(&p, "permuted")?;
    ensure_eq!(sorted(pa.clone()), sorted(permute(&g.adj)), "permuted {} by {:?}", desc, perm);
    ensure!(pa.iter().all(|a| a.windows(2).all(|w| w[0].0 <= w[1].0)), "heads of the permuted graph are not sorted");
    ensure_eq!(sorted(view(&OwnedGraph::permutated(&p, &NodeOrder::from_ranks(perm.clone())), "permuted back")?), sorted(g.adj.clone()), "permuted back {}", desc);
    ensure_eq!(sorted(view(&OwnedGraph::permutated(&inf, &order), "permuted without blocked edges")?), sorted(permute(&filtered)), "permuted without blocked edges {}", desc);
    let k = c.rng.below(g.n + 1) as u32;
    let f = OwnedGraph::permutated_filtered(&o, &order, Box::new(move |t, h| t < k && h % 3 != 0));
    let exp: Adj = permute(&g.adj).into_iter().enumerate().map(|(t, a)| a.into_iter().filter(|x| (t as u32) < k && x.0 % 3 != 0).collect()).collect();
    ensure_eq!(sorted(view(&f, "permuted and filtered")?), sorted(exp), "permuted and filtered {}", desc);
    // split by rank
    let (up, down) = o.ch_split(&order);
    let (mut eu, mut ed) = (vec![Vec::new(); g.n], vec![Vec::new(); g.n]);
    for (t, a) in g.adj.iter().enumerate() {
        for &(h, w) in a {
            if ranks[t] < ranks[h as usize] {
                eu[t].push((h, w))
            } else {
                ed[h as usize].push((t as u32, w))
            }
        }
    }
    ensure_eq!(sorted(view(&up, "up")?), sorted(eu), "upward part of {}", desc);
    ensure_eq!(sorted(view(&down, "down")?), sorted(ed), "downward part of {}", desc);
    c.verdict("permutation", (g.m() > 0).then(|| hash64(&[g.fingerprint(), hash_u32s(&perm)])));

    // parallel edges
    let mut un = o.clone();
    unify_parallel_edges(&mut un);
    let mut exp = g.adj.clone();
    for a in &mut exp {
        let mut m: BTreeMap<u32, u32> = BTreeMap::new();
        for &(v, w) in a.iter() {
            let e = m.entry(v).or_insert(vh::INF);
            *e = w.min(*e);
        }
        for x in a.iter_mut() {
            x.1 = m[&x.0];
        }
    }
    ensure_eq!(view(&un, "unified")?, exp, "unified parallel edges of {}", desc);
    if exp != g.adj {
        c.ev("parallel-edges");
    }
    // swapping metrics
    let mut sw = o.clone();
    let mut w2: Vec<u32> = g.weights().iter().map(|w| w / 2).collect();
    let keep = w2.clone();
    sw.swap_weights(&mut w2);
    ensure_eq!((sw.weight(), &w2), (&keep[..], &g.weights()), "swapped weights");

    if g.m() <= 400 {
        line_graphs(c, &g, &o)?;
    }
    containers(c)?;
    if c.rng.chance(1, 3) {
        td_transforms(c)?;
    }
    Ok(())
}

/// arbitrary but deterministic turn costs
fn turns(seed: u64, e: u32, f: u32) -> Option<u32> {
    let h = hash64(&[seed, e as u64, f as u64]);
    (h % 4 != 0).then(|| (h >> 20) as u32 % 100)
}

fn line_graphs(c: &mut Case, g: &G, o: &OwnedGraph) -> R {
    let seed = c.rng.u64();
    let mut calls = 0;
    let l = line_graph(o, |e, f| {
        calls += 1;
        turns(seed, e, f)
    });
    let (fo, heads, weights) = (g.first_out(), g.heads(), g.weights());
    let mut exp: Adj = Vec::new();
    let mut pairs = 0;
    for e in 0..g.m() as u32 {
        let h = heads[e as usize] as usize;
        let mut a = Vec::new();
        for f in fo[h]..fo[h + 1] {
            pairs += 1;
            if let Some(t) = turns(seed, e, f) {
                a.push((f, weights[e as usize] + t));
            }
        }
        exp.push(a);
    }
    ensure_eq!(l.num_nodes(), g.m(), "nodes of the turn expanded graph");
    ensure_eq!(sorted(view(&l, "line graph")?), sorted(exp.clone()), "turn expanded {}", g.describe());
    ensure_eq!(calls, pairs, "turn costs are asked for once per pair of consecutive edges");
    // the query between edges in the expanded graph is the optimal way with turn costs
    c.verdict("line-graph", (pairs > 0).then(|| hash64(&[g.fingerprint(), seed])));
    Ok(())
}

fn containers(c: &mut Case) -> R {
    let k = c.rng.below(20);
    let lists: Vec<Vec<u32>> = (0..k).map(|_| (0..if c.rng.chance(1, 3) { 0 } else { c.rng.below(6) }).map(|_| c.rng.below(100) as u32).collect()).collect();
    let v = Vecs::from_iters(lists.iter().map(|l| l.iter().copied()));
    ensure_eq!(v.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), lists, "nested lists");
    use rayon::prelude::*;
    ensure_eq!(v.par_iter().map(|s| s.to_vec()).collect::<Vec<_>>(), lists, "nested lists in parallel");
    let idx: Vec<u32> = degrees_to_first_out(lists.iter().map(|l| l.len() as u32)).collect();
    let mut data: Vec<u32> = lists.iter().flatten().copied().collect();
    for i in 0..k {
        ensure_eq!(&v[i], &lists[i][..], "nested list {}", i);
        ensure_eq!(&Slcs(&idx[..], &data[..])[i], &lists[i][..], "slice {}", i);
        ensure_eq!(SlcsIdx(&idx[..]).range(i), idx[i] as usize..idx[i + 1] as usize, "range {}", i);
    }
    if k > 0 {
        let i = c.rng.below(k);
        let mut copy = lists.clone();
        let mut m = SlcsMut(&idx[..], &mut data[..]);
        for x in &mut m[i] {
            *x += 1000;
        }
        for x in &mut copy[i] {
            *x += 1000;
        }
        ensure_eq!(&m[i], &copy[i][..], "mutable slice");
        ensure_eq!(data, copy.iter().flatten().copied().collect::<Vec<_>>(), "mutation of one slice");
    }
    let (a, b): (Vec<u32>, Vec<u32>) = ((0..c.rng.below(10)).map(|_| c.rng.below(20) as u32).collect(), (0..c.rng.below(10)).map(|_| c.rng.below(20) as u32).collect());
    let mut exp: Vec<u32> = Vec::new();
    for i in 0..a.len().max(b.len()) {
        exp.extend(a.get(i));
        exp.extend(b.get(i));
    }
    let it = interleave(a.iter().copied(), b.iter().copied());
    ensure_eq!(it.size_hint(), (a.len() + b.len(), Some(a.len() + b.len())), "size hint");
    ensure_eq!(it.collect::<Vec<_>>(), exp, "interleaved {:?} {:?}", a, b);
    let (mut x, mut y) = (a.clone(), b.clone());
    x.sort_unstable();
    y.sort_unstable();
    x.dedup();
    y.dedup();
    let got: Vec<(Option<u32>, Option<u32>)> = coordinated_sweep_iter(x.iter().copied(), y.iter().copied()).collect();
    let all: BTreeSet<u32> = x.iter().chain(&y).copied().collect();
    let exp: Vec<_> = all.iter().map(|k| (x.contains(k).then(|| *k), y.contains(k).then(|| *k))).collect();
    ensure_eq!(got, exp, "coordinated sweep over {:?} {:?}", x, y);
    c.verdict("containers", (!data.is_empty()).then(|| hash_u32s(&data)));
    Ok(())
}

/// permuting and turn expanding time-dependent graphs keeps the functions with their edges
fn td_transforms(c: &mut Case) -> R {
    let tg = td_graph(c, &TdOpt { g: Opt { max_n: 12, inf: false, zero: false, min_m: 1, ..Opt::default() }, strict: true, max_pts: 6 });
    let graph = tg.graph();
    let now = c.rng.below(P as usize / 2) as u32;
    let reports: Vec<Option<(u32, u32)>> = (0..tg.m()).map(|_| c.rng.chance(1, 3).then(|| (1000 + c.rng.below(4_000_000) as u32, now + c.rng.below(P as usize / 3) as u32))).collect();
    let pg = PessimisticLiveTDGraph::new(graph.clone(), reports.iter().map(|r| InRangeOption::new(*r)).collect());
    let soon = now + c.rng.below(P as usize / 3) as u32;
    let lg = LiveTDGraph::new(graph.clone(), soon, reports.iter().map(|r| InRangeOption::new(r.map(|x| x.0))).collect());
    let times: Vec<u32> = (0..5).map(|i| if i == 0 { now } else { now + c.rng.below(P as usize / 2) as u32 }).collect();
    let seed = c.rng.u64();
    // expansion
    let (tl, pl, ll) = (graph.line_graph(|e, f| turns(seed, e, f)), pg.line_graph(|e, f| turns(seed, e, f)), lg.line_graph(|e, f| turns(seed, e, f)));
    let (fo, heads) = (tg.g.first_out(), tg.g.heads());
    let mut id = 0;
    for e in 0..tg.m() as u32 {
        ensure_eq!(tl.first_out()[e as usize], id, "first turn of {}", e);
        let h = heads[e as usize] as usize;
        for f in fo[h]..fo[h + 1] {
            if let Some(tc) = turns(seed, e, f) {
                ensure_eq!((tl.head()[id as usize], pl.graph().head()[id as usize], ll.graph().head()[id as usize]), (f, f, f), "target of turn {}", id);
                for &t in &times {
                    ensure_eq!(tl.travel_time_function(id).eval(t), graph.travel_time_function(e).eval(t) + tc, "turn {} from {} at {} in {}", id, e, t, tg.describe());
                    // the report with turn costs is evaluated with the same rules
                    let pred = |t: u32| graph.travel_time_function(e).eval(t) + tc;
                    let exp = match reports[e as usize] {
                        Some((w, until)) if t < until => pred(t).max((w + tc).min(pred(until) + (until - t))),
                        _ => pred(t),
                    };
                    ensure_eq!(pl.eval(id, t), exp, "live turn {} from {} at {} report {:?} in {}", id, e, t, reports[e as usize], tg.describe());
                    ensure_eq!(pg.eval(e, t) + tc, exp, "live edge {} at {} report {:?}", e, t, reports[e as usize]);
                    ensure_eq!(ll.eval(id, t), lg.eval(e, t) + tc, "simple live turn {} from {} at {} report {:?} until {} in {}", id, e, t, reports[e as usize], soon, tg.describe());
                }
                id += 1;
            }
        }
    }
    ensure_eq!((tl.num_nodes(), tl.num_arcs()), (tg.m(), id as usize), "size of the expanded graph");
    // permutation
    let perm = c.rng.perm(tg.g.n);
    let order = NodeOrder::from_node_order(perm.clone());
    let tp = TDGraph::permutated(&graph, &order);
    let pp = PessimisticLiveTDGraph::permutated(&pg, &order);
    for r in 0..tg.g.n as u32 {
        let v = order.node(r);
        let rows = |x: Vec<(u32, Vec<u32>)>| {
            let mut x = x;
            x.sort_unstable();
            x
        };
        let exp = rows((fo[v as usize]..fo[v as usize + 1]).map(|e| (order.rank(heads[e as usize]), times.iter().map(|&t| graph.travel_time_function(e).eval(t)).collect())).collect());
        let got = rows(tp.neighbor_edge_indices(r).map(|e| (tp.head()[e as usize], times.iter().map(|&t| tp.travel_time_function(e).eval(t)).collect())).collect());
        ensure_eq!(got, exp, "edges of rank {} in the permuted graph {}", r, tg.describe());
        let exp = rows((fo[v as usize]..fo[v as usize + 1]).map(|e| (order.rank(heads[e as usize]), times.iter().map(|&t| pg.eval(e, t)).collect())).collect());
        let got = rows(pp.graph().neighbor_edge_indices(r).map(|e| (pp.graph().head()[e as usize], times.iter().map(|&t| pp.eval(e, t)).collect())).collect());
        ensure_eq!(got, exp, "edges of rank {} in the permuted live graph {}", r, tg.describe());
    }
    // constant lower bounds
    let mut low = graph.clone();
    low.to_constant_lower();
    for e in 0..tg.m() as u32 {
        let lb = tg.f[e as usize].iter().map(|x| x.1).min().unwrap();
        for &t in &times {
            ensure_eq!(low.travel_time_function(e).eval(t), lb, "constant lower bound of {}", e);
        }
    }
    c.verdict("td-transforms", (id > 0).then(|| hash64(&[tg.fingerprint(), seed])));
    Ok(())
}

// ---------------------------------------------------------------- C23

/// the specification: greedily merge the two groups whose minimum metrics differ least. None when there are ties.
fn greedy(metrics: &[Vec<u32>], target: usize) -> Option<Vec<BTreeSet<usize>>> {
    let mut groups: Vec<(BTreeSet<usize>, Vec<u32>)> = metrics.iter().enumerate().map(|(i, m)| ([i].into(), m.clone())).collect();
    while groups.len() > target.max(1) {
        let mut best: Vec<(u128, usize, usize)> = Vec::new();
        for i in 0..groups.len() {
            for j in i + 1..groups.len() {
                let d: u128 = groups[i].1.iter().zip(&groups[j].1).map(|(&a, &b)| (a.abs_diff(b) as u128).pow(2)).sum();
                best.push((d, i, j));
            }
        }
        best.sort_unstable();
        if best.len() > 1 && best[0].0 == best[1].0 {
            return None;
        }
        let (_, i, j) = best[0];
        let (set, m) = groups.remove(j);
        groups[i].0.extend(set);
        for (a, b) in groups[i].1.iter_mut().zip(m) {
            *a = b.min(*a);
        }
    }
    Some(groups.into_iter().map(|g| g.0).collect())
}

fn c23(c: &mut Case) -> R {
    let k = 1 + c.size(1, 14);
    let m = c.size(0, 60);
    let target = c.rng.below(k + 3);
    let style = c.rng.below(4);
    let max = *c.rng.pick(&[4u64, 100, 100_000, 100_000_000]);
    let base: Vec<u32> = (0..m).map(|_| c.rng.range(0, max) as u32).collect();
    let metrics: Vec<Vec<u32>> = (0..k)
        .map(|i| {
            base.iter()
                .map(|&b| match style {
                    0 => c.rng.range(0, max) as u32,
                    // clusters
                    1 => b + (i as u32 % 3) * 1000 + c.rng.below(50) as u32,
                    // differences only at the end: partial sums are useless
                    2 => b,
                    _ => b + c.rng.below(3) as u32,
                })
                .collect::<Vec<u32>>()
        })
        .collect();
    let mut metrics = metrics;
    if style == 2 && m > 0 {
        for x in &mut metrics {
            *x.last_mut().unwrap() += c.rng.below(100_000) as u32;
        }
    }
    let refs: Vec<&[u32]> = metrics.iter().map(|m| &m[..]).collect();
    let mut results: Vec<Vec<BTreeSet<usize>>> = Vec::new();
    let _b = block_reporting();
    for threads in [1, 2, 1 + c.rng.below(8)] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(es)?;
        let merged = pool.install(|| metric_merging::merge(&refs, target));
        let mut all: Vec<usize> = merged.iter().flatten().copied().collect();
        all.sort_unstable();
        ensure_eq!(all, (0..k).collect::<Vec<_>>(), "groups {:?} are not a partition of {} metrics", merged, k);
        ensure!(merged.iter().all(|g| !g.is_empty()), "empty group in {:?}", merged);
        ensure_eq!(merged.len(), k.min(target.max(1)), "number of groups of {} metrics for target {}", k, target);
        let mut r: Vec<BTreeSet<usize>> = merged.into_iter().map(|g| g.into_iter().collect()).collect();
        r.sort();
        if let Some(first) = results.first() {
            ensure_eq!(&r, first, "result with {} threads differs for {:?} target {}", threads, metrics, target);
        }
        results.push(r);
    }
    if let Some(mut exp) = greedy(&metrics, target) {
        exp.sort();
        ensure_eq!(results[0], exp, "merged {:?} to {}", metrics, target);
        c.verdict("greedy", (k > target && m > 0).then(|| hash64(&metrics.iter().map(|x| hash_u32s(x)).collect::<Vec<_>>())));
    } else {
        c.ev("ties");
    }
    c.verdict("partition", None);
    Ok(())
}

// ---------------------------------------------------------------- C24

fn c24(c: &mut Case) -> R {
    let k = c.size(1, 12);
    let links: Vec<LinkData> = {
        let ids = c.rng.perm(k * 3);
        (0..k)
            .map(|i| LinkData { link_id: ids[i] as u64 + if c.rng.chance(1, 2) { 1 << 40 } else { 0 }, length: c.rng.range(1_000, 3_000_000) as u32, speed_limit: *c.rng.pick(&[5, 30, 50, 80, 100, 130]) })
            .collect()
    };
    // traces: positions (link, fraction) with increasing times
    let mut traces: Vec<(usize, f32, u64)> = Vec::new();
    let mut t = 1u64 << 40;
    let density = c.rng.below(4);
    for i in 0..k {
        let must = i == 0 || i + 1 == k;
        let cnt = if must || c.rng.chance(density as u64, 4) { 1 + if c.rng.chance(1, 3) { c.rng.below(3) } else { 0 } } else { 0 };
        let cnt = if k == 1 { cnt.max(2) } else { cnt };
        let mut fr: Vec<f32> = (0..cnt).map(|_| if c.rng.chance(1, 12) { 1. } else { c.rng.range(1, 999) as f32 / 1000. }).collect();
        fr.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if i == 0 {
            // standing still is only allowed after the first link
            fr.dedup();
            while k == 1 && fr.len() < 2 {
                fr.insert(0, fr[0] / 2.);
            }
        }
        for f in fr {
            traces.push((i, f, 0));
        }
    }
    for j in 0..traces.len() {
        if j > 0 {
            // time of the gap: some multiple of the free flow time
            let (a, b) = (traces[j - 1], traces[j]);
            let ff = |i: usize| links[i].length as f64 * 3.6 / links[i].speed_limit as f64;
            let mut free = (b.1 as f64) * ff(b.0) - (a.1 as f64) * ff(a.0);
            for i in a.0..b.0 {
                free += ff(i);
            }
            let factor = *c.rng.pick(&[0.5, 0.9, 1.0, 1.3, 3.0, 10.0]);
            t += 1 + (free * factor) as u64 + if c.rng.chance(1, 10) { c.rng.below(5000) as u64 } else { 0 };
        }
        traces[j].2 = t;
    }
    let data: Vec<TraceData> = traces.iter().map(|&(i, f, timestamp)| TraceData { timestamp, link_id: links[i].link_id, traversed_in_travel_direction_fraction: f }).collect();
    let got: Vec<LinkSpeedData> = estimate_iter(Box::new(links.iter()), Box::new(data.iter())).map_err(es)?.collect();
    let desc = || format!("links {:?} traces {:?}", links, traces);
    ensure_eq!(got.iter().map(|x| x.link_id).collect::<Vec<_>>(), links.iter().map(|x| x.link_id).collect::<Vec<_>>(), "one estimate per link in order {}", desc());

    // reference: constant fraction of the speed limit between consecutive traces, extrapolated before the first one
    let len = |i: usize| links[i].length as f64;
    let vff = |i: usize| links[i].speed_limit as f64 / 3.6; // mm per ms
    let mut entry = vec![f64::NAN; k]; // relative to the first trace
    let mut exit = vec![f64::NAN; k];
    let mut tol = vec![0f64; k + 1];
    let mut quality = vec![0f64; k];
    let mut gap_velocity = vec![f64::NAN; k];
    let t0 = traces[0].2;
    for j in 1..traces.len() {
        let (a, b) = (traces[j - 1], traces[j]);
        let (fa, fb) = (a.1 as f64, b.1 as f64);
        // covered part of each link
        let part = |i: usize| (if i == b.0 { fb } else { 1. }) - (if i == a.0 { fa } else { 0. });
        let free: f64 = (a.0..=b.0).map(|i| part(i) * len(i) / vff(i)).sum();
        let total: f64 = (a.0..=b.0).map(|i| part(i) * len(i)).sum();
        let dt = (b.2 - a.2) as f64;
        let factor = free / dt;
        let mut time = (a.2 - t0) as f64;
        for i in a.0..=b.0 {
            // rounded to milliseconds and millimeters
            let mm = 1. / (vff(i) * factor);
            tol[i + 1] = if i == a.0 { 3. + 2. * mm } else { tol[i] + 2. + mm };
            if i == b.0 && i != a.0 {
                // derived from the trace at the end of the gap
                tol[i] = tol[i].max(3. + 2. * mm);
            }
            if j == 1 && i == 0 {
                entry[0] = -(fa * len(0) / (vff(0) * factor));
                tol[0] = 3. + 2. * mm;
            } else if i > a.0 {
                entry[i] = time;
                exit[i - 1] = time;
            }
            time += part(i) * len(i) / (vff(i) * factor);
            if total > 0. {
                quality[i] += part(i) * len(i) / total * part(i);
            }
            if i > a.0 && i < b.0 || i == 0 && j == 1 && b.0 > 0 {
                gap_velocity[i] = vff(i) * factor;
            }
        }
    }
    for i in 0..k {
        let g = &got[i];
        let e = g.link_entered_timestamp as i64 - t0 as i64;
        ensure!((e as f64 - entry[i]).abs() <= tol[i], "link {} entered at {} instead of {} (tolerance {}) {}", i, e, entry[i], tol[i], desc());
        let v = if !gap_velocity[i].is_nan() {
            gap_velocity[i]
        } else if i + 1 < k {
            len(i) / (exit[i] - entry[i])
        } else {
            let l = traces.last().unwrap();
            l.1 as f64 * len(i) / ((l.2 - t0) as f64 - entry[i])
        };
        let dur = len(i) / v * if i + 1 == k { traces.last().unwrap().1 as f64 } else { 1. };
        let slack = (tol[i] + tol[i + 1] + 3.) / dur + 1e-3;
        if slack < 0.5 {
            ensure!((g.velocity as f64 / 3.6 - v).abs() <= v * slack * 2., "velocity of link {}: {} instead of {} km/h {}", i, g.velocity, v * 3.6, desc());
        }
        ensure!(g.velocity >= 0., "velocity of link {}: {}", i, g.velocity);
        ensure!(g.estimate_quality >= 0. && g.estimate_quality <= 1.0001, "quality of link {}: {} {}", i, g.estimate_quality, desc());
        ensure!((g.estimate_quality as f64 - quality[i]).abs() <= 0.01, "quality of link {}: {} instead of {} {}", i, g.estimate_quality, quality[i], desc());
        if i > 0 {
            ensure!(g.link_entered_timestamp as f64 + tol[i] + tol[i - 1] >= got[i - 1].link_entered_timestamp as f64, "link {} entered before its predecessor {}", i, desc());
        }
    }
    c.evn("traces", traces.len() as u64);
    c.evn("links", k as u64);
    // incomplete input
    let no_links: Vec<LinkData> = Vec::new();
    let no_traces: Vec<TraceData> = Vec::new();
    ensure!(estimate_iter(Box::new(no_links.iter()), Box::new(data.iter())).is_err(), "no links accepted");
    ensure!(estimate_iter(Box::new(links.iter()), Box::new(no_traces.iter())).is_err(), "no traces accepted");
    c.verdict("estimate", (k > 1).then(|| hash64(&traces.iter().map(|x| x.2).collect::<Vec<_>>())));
    Ok(())
}
