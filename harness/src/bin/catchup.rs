//! Monitors for CATCHUp: exact time-dependent queries and profiles with floating point travel time functions.
use rust_road_router::algo::{
    catchup,
    customizable_contraction_hierarchy::{ftd_cch, *},
    dijkstra::query::floating_td_dijkstra,
    *,
};
use rust_road_router::datastr::{graph::floating_time_dependent::*, graph::*, node_order::NodeOrder};
use rust_road_router::io::*;
use vh::{ensure, gen::*, tdgen::*, Case, Prop, R};

fn main() {
    vh::main_loop(&[Prop { id: "C17", run: c17 }, Prop { id: "C18", run: c18 }]);
}

fn opt(c: &mut Case) -> TdOpt {
    // a few networks with many points per function drive the functions above the approximation threshold
    let (max_n, max_pts) = match c.rng.below(12) {
        0 => (8, if c.thorough { 900 } else { 300 }),
        1 | 2 => (14, 60),
        3..=6 => (30, 4),
        _ => (22, 10),
    };
    TdOpt { g: Opt { min_n: 1, max_n, inf: false, loops: false, parallel: false, ..Default::default() }, strict: true, max_pts }
}

/// reference earliest arrival in seconds; independent of the code under test
pub fn ea(tg: &TG, s: u32, t0: f64) -> Vec<Option<f64>> {
    let fo = tg.g.first_out();
    let n = tg.g.n;
    let mut d: Vec<Option<f64>> = vec![None; n];
    let mut done = vec![false; n];
    d[s as usize] = Some(t0);
    loop {
        let mut best: Option<(f64, usize)> = None;
        for v in 0..n {
            if let (false, Some(x)) = (done[v], d[v]) {
                if best.map_or(true, |b| x < b.0) {
                    best = Some((x, v));
                }
            }
        }
        let (t, u) = match best {
            Some(b) => b,
            None => return d,
        };
        done[u] = true;
        for (i, &(v, _)) in tg.g.adj[u].iter().enumerate() {
            let a = t + exact_f64(&tg.f[fo[u] as usize + i], t * 1000.0);
            if d[v as usize].map_or(true, |x| a < x) {
                d[v as usize] = Some(a);
            }
        }
    }
}

/// CATCHUp decides with a fuzzy comparison of 1e-6 which of two functions is better. Near-parallel
/// functions can thus be confused, over a whole day that is worth up to 1e-6 * 86400 s.
const TOL: f64 = 0.1;

/// follow the node path and evaluate its edges; checks the reported times on the way and returns the arrival time
fn walk_nodes(tg: &TG, path: &[(u32, Timestamp)], dep: f64, tol: f64) -> Result<f64, String> {
    let fo = tg.g.first_out();
    let mut t = dep;
    for w in path.windows(2) {
        let u = w[0].0 as usize;
        ensure!(u < tg.g.n, "node {} of the path does not exist", u);
        let i = match tg.g.adj[u].iter().position(|e| e.0 == w[1].0) {
            Some(i) => i,
            None => return Err(format!("path uses missing edge {}->{}: {:?}", u, w[1].0, path)),
        };
        t += exact_f64(&tg.f[fo[u] as usize + i], t * 1000.0);
        let r = f64::from(w[1].1);
        ensure!((r - t).abs() <= tol, "path reports {} at node {} but arrives at {}: {:?}", r, w[1].0, t, path);
    }
    Ok(t)
}
fn walk_edges(tg: &TG, path: &[u32], s: u32, t: u32, dep: f64) -> Result<f64, String> {
    let (heads, tails) = (tg.g.heads(), tg.g.tails());
    let (mut at, mut time) = (s, dep);
    for &e in path {
        ensure!((e as usize) < tg.m(), "edge {} of the path does not exist", e);
        ensure!(tails[e as usize] == at, "edge path {:?} from {} to {} is not connected at edge {}", path, s, t, e);
        time += exact_f64(&tg.f[e as usize], time * 1000.0);
        at = heads[e as usize];
    }
    ensure!(at == t, "edge path {:?} starting in {} ends in {} and not in {}", path, s, at, t);
    Ok(time)
}

fn instants(c: &mut Case, tg: &TG) -> f64 {
    let t = instant(&mut c.rng, tg, 1) as f64 / 1000.0;
    if c.rng.chance(1, 3) {
        (t + c.rng.f64()).min(86399.999)
    } else {
        t
    }
}

fn judge<P: PathServer<NodeInfo = (u32, Timestamp)>>(c: &mut Case, tg: &TG, name: &str, res: &mut QueryResult<P, FlWeight>, s: u32, t: u32, dep: f64, paths: bool) -> R {
    let exp = ea(tg, s, dep)[t as usize].map(|a| a - dep);
    let got = res.distance().map(f64::from);
    ensure!(got.is_some() == exp.is_some(), "{}: travel time {}->{} departing {}: got {:?} expected {:?} on {}", name, s, t, dep, got, exp, tg.describe());
    if let (Some(g), Some(e)) = (got, exp) {
        ensure!((g - e).abs() <= TOL, "{}: travel time {}->{} departing {}: got {} expected {} on {}", name, s, t, dep, g, e, tg.describe());
        if (g - e).abs() > 1e-5 {
            c.ev("deviation_above_10us");
        }
        if paths {
            let path = res.node_path().ok_or("no path despite a distance")?;
            ensure!(path.first().map(|p| p.0) == Some(s) && path.last().map(|p| p.0) == Some(t), "{}: path {:?} does not lead from {} to {}", name, path, s, t);
            ensure!((f64::from(path[0].1) - dep).abs() < 1e-9, "{}: path {:?} does not depart at {}", name, path, dep);
            // next to the instant where the best path of an approximated shortcut changes, unpacking may choose the other path
            let tol = if APPROXIMATING { 1e9 } else { TOL };
            let a = walk_nodes(tg, &path, dep, tol).map_err(|e| format!("{}: {} on {}", name, e, tg.describe()))?;
            ensure!(APPROXIMATING || (a - dep - g).abs() <= TOL, "{}: path {:?} takes {} but {} was reported on {}", name, path, a - dep, g, tg.describe());
            if path.len() > 2 {
                c.ev("paths_with_intermediate_nodes");
            }
        }
        let nontrivial = s != t && g > 0.0;
        c.verdict("answers", if nontrivial { Some(vh::hash64(&[tg.fingerprint(), s as u64, t as u64, (dep * 1000.0) as u64])) } else { None });
    } else {
        ensure!(res.node_path().is_none(), "{}: path without a distance {}->{}", name, s, t);
        c.verdict("unreachable", None);
    }
    Ok(())
}

/// the build under test approximates travel time functions as soon as they have a few points
const APPROXIMATING: bool = option_env!("TDCCH_APPROX_THRESHOLD").is_some();

fn c17(c: &mut Case) -> R {
    let o = opt(c);
    let tg = td_graph(c, &o);
    let graph = tg.floating();
    let (ord, kind) = order(&mut c.rng, &tg.g);
    c.ev(&format!("order_{}", kind));
    c.ev(&format!("topology_{}", tg.g.kind));
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let cust = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ftd_cch::customize(&cch, &graph))) {
        Ok(cust) => cust,
        // reconstructing exact functions from heavily approximated ones hits degenerate ranges (rounding) in rare cases
        Err(_) if APPROXIMATING && (vh::last_panic().contains("shortcut_source.rs") || vh::last_panic().contains("piecewise_linear_function.rs")) => {
            c.ev("approximating_customization_panicked_unjudged");
            return Ok(());
        }
        Err(e) => std::panic::resume_unwind(e),
    };
    let multi = [&cust.outgoing, &cust.incoming]
        .iter()
        .map(|d| (0..d.head().len() as u32).filter(|&e| d.edge_sources(e).len() > 1).count())
        .sum::<usize>();
    c.evn("time_dependent_shortcuts", multi as u64);
    if tg.f.iter().map(|f| f.len()).sum::<usize>() > 1000 {
        c.ev("networks_with_over_1000_points");
    }

    let dir = c.scratch.join("catchup");
    let again = c.rng.chance(1, 6);
    let restored = if again {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        cust.deconstruct_to(&dir).map_err(|e| e.to_string())?;
        c.ev("stored_and_loaded");
        CustomizedGraphReconstrctor { original_graph: &graph, first_out: cch.first_out(), head: cch.head() }.reconstruct_from(&dir).ok()
    } else {
        None
    };
    ensure!(restored.is_some() == again, "stored customization could not be loaded");

    let mut server = catchup::Server::new(&cch, &cust);
    let mut server2 = restored.as_ref().map(|r| catchup::Server::new(&cch, r));
    let mut dij = floating_td_dijkstra::Server::new(graph.clone());
    let qs = queries(&mut c.rng, tg.g.n, if c.thorough { 30 } else { 14 });
    for (s, t) in qs {
        let dep = instants(c, &tg);
        let q = TDQuery { from: s, to: t, departure: Timestamp::new(dep) };
        let paths = c.rng.chance(2, 3);
        judge(c, &tg, "floating Dijkstra", &mut dij.td_query(q), s, t, dep, paths)?;
        judge(c, &tg, "CATCHUp", &mut server.td_query(q), s, t, dep, paths)?;
        if let Some(sv) = &mut server2 {
            judge(c, &tg, "CATCHUp on a loaded customization", &mut sv.td_query(q), s, t, dep, paths)?;
        }
    }
    Ok(())
}

/// the function given by its points over [0, period] or [start, end]
fn value(points: &[TTFPoint], at: f64) -> f64 {
    if points.len() == 1 {
        return f64::from(points[0].val);
    }
    let i = points.partition_point(|p| f64::from(p.at) <= at).max(1) - 1;
    let i = i.min(points.len() - 2);
    let (a, b) = (points[i], points[i + 1]);
    let x = (at - f64::from(a.at)) / (f64::from(b.at) - f64::from(a.at));
    f64::from(a.val) + x * (f64::from(b.val) - f64::from(a.val))
}

fn profile(c: &mut Case, tg: &TG, name: &str, s: u32, t: u32, range: (f64, f64), points: &[TTFPoint], paths: Option<&[(Timestamp, Vec<u32>)]>) -> R {
    let d = |e: String| format!("{}: {}->{} over {:?}: {} on {}", name, s, t, range, e, tg.describe());
    for w in points.windows(2) {
        ensure!(w[0].at < w[1].at, "{}", d(format!("points are not ordered by time: {:?}", w)));
    }
    // where do we have a look
    let mut at = vec![range.0, range.1, (range.0 + range.1) / 2.0];
    for _ in 0..12 {
        at.push(range.0 + c.rng.f64() * (range.1 - range.0));
    }
    for _ in 0..6 {
        at.push(instants(c, tg));
        if !points.is_empty() {
            let p = *c.rng.pick(points);
            at.push(f64::from(p.at) + *c.rng.pick(&[0.0, 0.002, -0.002, 0.5]));
        }
    }
    if let Some(ps) = paths {
        ensure!(ps.is_empty() == points.is_empty(), "{}", d(format!("{} points but {} paths", points.len(), ps.len())));
        if let Some(p) = ps.first() {
            ensure!(f64::from(p.0) <= range.0 + 1e-6, "{}", d(format!("first path is only valid from {:?}", p.0)));
        }
        for w in ps.windows(2) {
            ensure!(f64::from(w[0].0) <= f64::from(w[1].0) + 1.0, "{}", d(format!("path switches are not ordered {:?} {:?}; switches {:?}", w[0].0, w[1].0, ps)));
        }
        if ps.len() > 1 {
            c.ev("profiles_with_path_switches");
        }
        for p in ps {
            at.push(f64::from(p.0));
            at.push(f64::from(p.0) + 0.01);
            at.push(f64::from(p.0) - 0.01);
        }
    }
    at.retain(|&x| x >= range.0 && x <= range.1);
    for x in at {
        let exp = ea(tg, s, x)[t as usize].map(|a| a - x);
        match exp {
            None => {
                ensure!(points.is_empty(), "{}", d("profile of an unreachable target".to_string()));
                c.verdict("unreachable", None);
            }
            Some(e) => {
                ensure!(!points.is_empty(), "{}", d("no profile for a reachable target".to_string()));
                let v = value(points, x);
                ensure!((v - e).abs() <= TOL, "{}", d(format!("profile has value {} at {} expected {} ({:?})", v, x, e, points.iter().take(20).collect::<Vec<_>>())));
                if (v - e).abs() > 1e-5 {
                    c.ev("deviation_above_10us");
                }
                if let Some(ps) = paths {
                    // paths are judged a bit away from the switch, both sides are fine there
                    let i = ps.partition_point(|p| f64::from(p.0) <= x).max(1) - 1;
                    let a = walk_edges(tg, &ps[i].1, s, t, x).map_err(d)? - x;
                    ensure!((a - e).abs() <= TOL, "{}", d(format!("path {} {:?} valid from {:?} takes {} at {} instead of {}; switches {:?}", i, ps[i].1, ps[i].0, a, x, e, ps)));
                    c.ev("paths_checked");
                }
                c.verdict("profile_values", if s != t { Some(vh::hash64(&[tg.fingerprint(), s as u64, t as u64, (x * 1000.0) as u64])) } else { None });
            }
        }
    }
    Ok(())
}

fn partial_query(cch: &CCH, cust: &CustomizedGraph, s: u32, t: u32, a: f64, b: f64) -> Option<(Vec<TTFPoint>, Vec<(Timestamp, Vec<u32>)>)> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (_, points, paths) = catchup::partial_profiles::Server::new(cch, cust).distance(s, t, Timestamp::new(a), Timestamp::new(b));
        (points, paths)
    }))
    .ok()
}

/// one road with a constant travel time, its partial profile can not be queried
fn recorded_findings(c: &mut Case) -> R {
    let g = G::from_edges(2, &[(0, 1, 1000)], "fixed");
    let tg = from_functions(g, vec![vec![(0, 1000)]]);
    let graph = tg.floating();
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(vec![0, 1]));
    let cust = ftd_cch::customize(&cch, &graph);
    match partial_query(&cch, &cust, 0, 1, 28800.0, 32400.0) {
        Some((points, paths)) => profile(c, &tg, "partial profile query", 0, 1, (28800.0, 32400.0), &points, Some(&paths)),
        None => Ok(c.ev("finding:KF3")),
    }
}

fn c18(c: &mut Case) -> R {
    if c.idx == 0 {
        recorded_findings(c)?;
    }
    let mut o = opt(c);
    o.g.min_n = 2;
    let tg = td_graph(c, &o);
    let graph = tg.floating();
    let (ord, kind) = order(&mut c.rng, &tg.g);
    c.ev(&format!("order_{}", kind));
    c.ev(&format!("topology_{}", tg.g.kind));
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(ord));
    let cust = ftd_cch::customize(&cch, &graph);
    let mut full = catchup::profiles::Server::new(&cch, &cust);
    let mut naive = catchup::profiles_naive::Server::new(&cch, &cust);
    let qs = queries(&mut c.rng, tg.g.n, if c.thorough { 12 } else { 6 });
    for (s, t) in qs {
        if s == t {
            continue;
        }
        for _ in 0..2 {
            match c.rng.below(3) {
                0 => {
                    let (_, points, paths) = full.distance(s, t);
                    c.ev("profiles_full");
                    profile(c, &tg, "profile query", s, t, (0.0, 86400.0), &points, Some(&paths))?;
                }
                1 => {
                    let points = naive.distance(s, t);
                    c.ev("profiles_naive");
                    profile(c, &tg, "naive profile query", s, t, (0.0, 86400.0), points.as_deref().unwrap_or(&[]), None)?;
                }
                _ => {
                    let (a, b) = (instants(c, &tg), instants(c, &tg));
                    let (a, b) = match c.rng.below(4) {
                        0 => (a, (a + 3600.0).min(86400.0)),
                        1 => (0.0, a),
                        2 => (a, 86400.0),
                        _ => (a.min(b), a.max(b)),
                    };
                    if b - a < 1.0 {
                        continue;
                    }
                    // partial profile queries panic for many inputs (recorded as a finding), what they answer is judged
                    match partial_query(&cch, &cust, s, t, a, b) {
                        Some((points, paths)) => {
                            c.ev("profiles_partial");
                            profile(c, &tg, "partial profile query", s, t, (a, b), &points, Some(&paths))?;
                        }
                        None => {
                            c.ev("partial_profile_query_panicked_unjudged");
                            ensure!(ea(&tg, s, a)[t as usize].is_some(), "partial profile query for an unreachable target panics: {}->{} {} on {}", s, t, vh::last_panic(), tg.describe());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
