//! Monitors for time-dependent routing with integer travel times.
use rust_road_router::algo::{
    a_star::*,
    ch_potentials::{query as pq, td_query as tq, *},
    customizable_contraction_hierarchy::{customization::ftd_for_pot, *},
    dijkstra::query::{dijkstra::Server as Dijkstra, disconnected_targets::CatchDisconnectedTarget, td_dijkstra::*},
    td_astar::*,
    time_dependent_sampling,
    topocore::VirtualTopocoreGraph,
    *,
};
use rust_road_router::io::*;
use rust_road_router::datastr::{
    graph::{time_dependent::*, *},
    node_order::NodeOrder,
};
use rust_road_router::util::in_range_option::InRangeOption;
use vh::{ensure, ensure_eq, gen, gen::*, tdgen, tdgen::*, Case, Prop, INF, R};

fn main() {
    vh::main_loop(&[Prop { id: "C13", run: c13 }, Prop { id: "C14", run: c14 }, Prop { id: "C15", run: c15 }, Prop { id: "C16", run: c16 }]);
}

fn small() -> TdOpt {
    TdOpt { g: Opt { min_n: 1, max_n: 30, inf: false, ..Default::default() }, strict: false, max_pts: 8 }
}

/// |got - num/den| < 1 and equal when integral
fn near(got: u32, e: (i128, i128)) -> bool {
    let d = got as i128 * e.1 - e.0;
    if e.0 % e.1 == 0 {
        d == 0
    } else {
        d.abs() < e.1
    }
}
/// exact minimum/maximum of f over [a, b] as float
fn extremes(f: &F, a: u64, b: u64) -> ((i128, i128), (i128, i128)) {
    let mut c = vec![exact(f, a), exact(f, b)];
    let day = P as u64;
    let k0 = a / day;
    for k in k0..=(b / day).min(k0 + 2) {
        for p in f {
            let t = k * day + p.0 as u64;
            if t >= a && t <= b {
                c.push((p.1 as i128, 1));
            }
        }
    }
    let lt = |x: &(i128, i128), y: &(i128, i128)| (x.0 * y.1).cmp(&(y.0 * x.1));
    (*c.iter().min_by(|x, y| lt(x, y)).unwrap(), *c.iter().max_by(|x, y| lt(x, y)).unwrap())
}
/// twice the exact integral over [a,b] as float, divided by 2(b-a)
fn mean(f: &F, a: u64, b: u64) -> f64 {
    let day = P as u64;
    let mut cuts = vec![a, b];
    for k in a / day..=b / day {
        for p in f {
            let t = k * day + p.0 as u64;
            if t > a && t < b {
                cuts.push(t);
            }
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    let v = |t: u64| {
        let e = exact(f, t);
        e.0 as f64 / e.1 as f64
    };
    cuts.windows(2).map(|w| (v(w[0]) + v(w[1])) / 2.0 * (w[1] - w[0]) as f64).sum::<f64>() / (b - a) as f64
}

/// Drive a time-dependent query server and monitor every answer
macro_rules! drive_td {
    ($c:expr, $name:expr, $server:expr, $g:expr, $eval:expr, $qs:expr, $desc:expr) => {
        drive_td!($c, $name, $server, $g, $eval, $qs, $desc, 0)
    };
    ($c:expr, $name:expr, $server:expr, $g:expr, $eval:expr, $qs:expr, $desc:expr, $tol:expr) => {{
        for &(s, t, dep) in $qs.iter() {
            let tol: u64 = $tol;
            let exp = tdgen::ea(&$g, s, dep as u64, &$eval)[t as usize].map(|a| a - dep as u64);
            let mut res = TDQueryServer::td_query(&mut $server, TDQuery { from: s, to: t, departure: dep });
            let got = res.distance().map(u64::from);
            if tol == 0 {
                ensure_eq!(got, exp, "{}: travel time {}->{} departing {} on {}", $name, s, t, dep, $desc);
            } else {
                ensure!(
                    got.is_some() == exp.is_some() && got.map_or(true, |g| g >= exp.unwrap() && g <= exp.unwrap() + tol),
                    "{}: travel time {}->{} departing {}: got {:?} expected {:?} (tolerance {}) on {}", $name, s, t, dep, got, exp, tol, $desc
                );
                if got != exp {
                    $c.ev("within-tolerance");
                }
            }
            match got {
                Some(d) => {
                    let p: Vec<u32> = res.node_path().ok_or_else(|| format!("{}: no path for found query", $name))?;
                    tdgen::check_td_path(&$g, &p, s, t, dep as u64, d, &$eval).map_err(|e| format!("{}: {} on {}", $name, e, $desc))?;
                    if p.len() > 2 {
                        $c.verdict($name, Some(vh::hash64(&[vh::hash_str($name), vh::hash_u32s(&p), d, dep as u64])));
                        $c.sample(|| format!("{} {}->{} at {} takes {} via {:?} on {}", $name, s, t, dep, d, p, $desc));
                    } else {
                        $c.verdict($name, None);
                    }
                }
                None => {
                    ensure!(res.node_path().is_none(), "{}: path for unreachable {}->{}", $name, s, t);
                    $c.verdict("unreachable", None);
                }
            }
        }
    }};
}

fn td_queries(c: &mut Case, tg: &TG, k: usize, days: u32) -> Vec<(u32, u32, u32)> {
    gen::queries(&mut c.rng, tg.g.n, k).into_iter().map(|(s, t)| (s, t, instant(&mut c.rng, tg, days))).collect()
}

/// Travel time functions and time-dependent Dijkstra
fn c13(c: &mut Case) -> R {
    let tg = td_graph(c, &small());
    let graph = tg.graph();
    ensure_eq!(graph.num_arcs(), tg.m(), "number of arcs");
    let by_const = tg.f.iter().filter(|f| f.len() == 1).count();
    ensure_eq!(graph.num_constant(), by_const, "number of constant functions");
    for e in 0..tg.m().min(12) {
        let f = &tg.f[e];
        let ttf = graph.travel_time_function(e as u32);
        let vals: Vec<u32> = f.iter().map(|p| p.1).collect();
        ensure_eq!(ttf.lower_bound(), *vals.iter().min().unwrap(), "lower bound of {:?}", f);
        ensure_eq!(ttf.upper_bound(), *vals.iter().max().unwrap(), "upper bound of {:?}", f);
        let slopes: Vec<f64> = f.windows(2).map(|w| (w[1].1 as f64 - w[0].1 as f64) / (w[1].0 as f64 - w[0].0 as f64)).collect();
        let smin = slopes.iter().cloned().fold(f64::INFINITY, f64::min);
        let smax = slopes.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        if !slopes.is_empty() {
            ensure!((ttf.min_slope() - smin).abs() < 1e-9 && (ttf.max_slope() - smax).abs() < 1e-9, "slopes {} {} of {:?}", ttf.min_slope(), ttf.max_slope(), f);
        }
        // evaluation
        let mut ts: Vec<u32> = f.iter().flat_map(|p| [p.0, p.0 + 1, (p.0 + P - 1) % P, p.0 + P]).collect();
        for _ in 0..8 {
            ts.push(instant(&mut c.rng, &tg, 20));
        }
        ts.sort_unstable();
        let mut last = 0;
        for &t in &ts {
            let got = ttf.eval(t);
            ensure!(near(got, exact(f, t as u64)), "value {} at {} of {:?}", got, t, f);
            ensure!(t as u64 + got as u64 >= last, "arrival decreases at {} for {:?}", t, f);
            last = t as u64 + got as u64;
            c.verdict("eval", if f.len() > 2 { Some(vh::hash64(&[t as u64, got as u64, vh::hash_u32s(&vals)])) } else { None });
        }
        // bounds on ranges
        for _ in 0..6 {
            let a = instant(&mut c.rng, &tg, 2) as u64;
            let len = match c.rng.below(7) {
                0 => 1 + c.rng.below(10) as u64,
                1 => P as u64 - 1 + c.rng.below(3) as u64,
                2 => P as u64 * 2,
                3 => u64::from(INF) - a,
                4 => 3_600_000,
                5 => {
                    let p = f[c.rng.below(f.len())].0 as u64;
                    let b = if p > a % P as u64 { a - a % P as u64 + p } else { a - a % P as u64 + P as u64 + p };
                    (b - a).max(1)
                }
                _ => 1 + c.rng.below(2 * P as usize) as u64,
            };
            let b = a + len;
            let (lo, hi) = extremes(f, a, b.min(a + 2 * P as u64));
            let got = ttf.lower_bound_in_range(a as u32..b as u32);
            ensure!(near(got, lo), "lower bound {} in {}..{} of {:?} should be {:?}", got, a, b, f, lo);
            let got = ttf.upper_bound_in_range(a as u32..b as u32);
            ensure!(near(got, hi), "upper bound {} in {}..{} of {:?} should be {:?}", got, a, b, f, hi);
            c.verdict("range-bounds", if f.len() > 2 { Some(vh::hash64(&[a, b, vh::hash_u32s(&vals)])) } else { None });
        }
        // averages
        for _ in 0..4 {
            let a = instant(&mut c.rng, &tg, 1);
            let b = match c.rng.below(3) {
                0 => (a + 3_600_000 * (1 + c.rng.below(20) as u32)) % P,
                1 => a,
                _ => instant(&mut c.rng, &tg, 1),
            };
            let end = if b > a { b as u64 } else { b as u64 + P as u64 };
            let got = ttf.average(WrappingRange::new(a..b));
            let exp = mean(f, a as u64, end);
            // up to one unit lost at each end of the window and in the final division
            ensure!((got as f64 - exp).abs() <= 2.0, "average {} in {}..{} of {:?} should be {}", got, a, end, f, exp);
            c.verdict("average", None);
        }
    }
    // derived graphs
    if c.rng.chance(1, 3) {
        let mut z = graph.clone();
        z.fix_zero_travel_times();
        let mut lo = graph.clone();
        lo.to_constant_lower();
        let cost: Vec<Option<u32>> = (0..7).map(|_| if c.rng.chance(1, 4) { None } else { Some(c.rng.below(1000) as u32) }).collect();
        let turn = |a: u32, b: u32| cost[((a * 31 + b * 17) % 7) as usize];
        let lg = graph.line_graph(turn);
        ensure_eq!(lg.num_nodes(), graph.num_arcs(), "line graph nodes");
        let ord = NodeOrder::from_node_order(c.rng.perm(tg.g.n));
        let pg = <TDGraph as BuildPermutated<TDGraph>>::permutated(&graph, &ord);
        for _ in 0..3 {
            let t = instant(&mut c.rng, &tg, 3);
            let heads = tg.g.heads();
            let fo = tg.g.first_out();
            let mut arc = 0;
            for e in 0..tg.m() as u32 {
                let v = graph.travel_time_function(e).eval(t);
                ensure_eq!(lo.travel_time_function(e).eval(t), graph.travel_time_function(e).lower_bound(), "constant lower graph");
                let zf: F = tg.f[e as usize].iter().map(|p| (p.0, p.1.max(1))).collect();
                ensure!(near(z.travel_time_function(e).eval(t), exact(&zf, t as u64)), "zero fixed graph at {} {:?}", t, tg.f[e as usize]);
                let h = heads[e as usize];
                for e2 in fo[h as usize]..fo[h as usize + 1] {
                    if let Some(cst) = turn(e, e2) {
                        ensure_eq!(lg.head()[arc], e2, "line graph head");
                        ensure_eq!(lg.travel_time_function(arc as u32).eval(t), v + cst, "line graph value for turn {}->{}", e, e2);
                        arc += 1;
                    }
                }
                ensure_eq!(lg.first_out()[e as usize + 1] as usize, arc, "line graph first out");
            }
            ensure_eq!(arc, lg.num_arcs(), "line graph arcs");
            for r in 0..tg.g.n as u32 {
                let u = ord.node(r);
                let mut x: Vec<(u32, u32)> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&pg, r).map(|(h, e)| (ord.node(h.0), pg.travel_time_function(e.0).eval(t))).collect();
                let mut y: Vec<(u32, u32)> = (fo[u as usize]..fo[u as usize + 1]).map(|e| (heads[e as usize], graph.travel_time_function(e).eval(t))).collect();
                x.sort_unstable();
                y.sort_unstable();
                ensure_eq!(x, y, "permutated graph at node {}", u);
            }
            c.verdict("derived-graphs", None);
        }
    }
    live_graphs(c, &tg, &graph)?;
    Ok(())
}

/// A live report for about a third of the edges
/// Departures of queries with live reports: when they are known, shortly before one of them ends, or anywhere in the rest of the period
fn live_departure(c: &mut Case, live: &[Option<(u32, u32)>], now: u32) -> u32 {
    let ends: Vec<(u32, u32)> = live.iter().flatten().copied().filter(|l| l.1 > now).collect();
    match c.rng.below(4) {
        0 | 1 if !ends.is_empty() && c.rng.chance(2, 3) => {
            let (tt, end) = ends[c.rng.below(ends.len())];
            let back = 1 + tt.min(P).saturating_mul(2).min(end - now);
            (end - c.rng.below(back as usize) as u32).min(P - 1).max(now)
        }
        0 | 1 => now,
        _ => now + c.rng.below((P - now) as usize) as u32,
    }
}

fn live_reports(c: &mut Case, tg: &TG, now: u32) -> Vec<Option<(u32, u32)>> {
    let style = c.rng.below(3);
    (0..tg.m())
        .map(|e| {
            if c.rng.chance(2, 3) {
                return None;
            }
            let f = &tg.f[e];
            let lo = f.iter().map(|p| p.1).min().unwrap();
            let hi = f.iter().map(|p| p.1).max().unwrap();
            let live = match c.rng.below(6) {
                0 if style > 0 => INF,
                1 => lo,
                2 => hi,
                3 => c.rng.range(lo as u64, hi as u64) as u32,
                _ => hi + c.rng.below((3 * hi as usize + 100_000).min(P as usize / (2 * tg.g.n))) as u32,
            };
            let dur = match c.rng.below(4) {
                0 => 0,
                1 => 1 + c.rng.below(1000) as u32,
                2 => 600_000 + c.rng.below(3_600_000) as u32,
                _ if live < INF => c.rng.below(P as usize) as u32,
                _ => c.rng.below(P as usize / (2 * tg.g.n)) as u32,
            };
            Some((live, now + dur))
        })
        .collect()
}

/// exact values of the pessimistic live function, given the value of the prediction
fn pess(pred: &dyn Fn(u64) -> u64, live: Option<(u32, u32)>, t: u64) -> u64 {
    match live {
        Some((l, soon)) if t < soon as u64 => pred(t).max((l as u64).min(pred(soon as u64) + soon as u64 - t)),
        _ => pred(t),
    }
}
fn optimistic(pred: &dyn Fn(u64) -> u64, live: Option<u32>, soon: u64, t: u64) -> u64 {
    match live {
        None => pred(t),
        Some(l) if t < soon => l as u64,
        Some(l) if pred(soon) < l as u64 => pred(t).max((l as u64 + soon).saturating_sub(t)),
        Some(l) => pred(t).min(l as u64 + t - soon),
    }
}

/// Graphs with live reports, `live` until individual instants, and `finite` until `soon`
struct Live {
    now: u32,
    soon: u32,
    live: Vec<Option<(u32, u32)>>,
    finite: Vec<Option<(u32, u32)>>,
    pg: PessimisticLiveTDGraph,
    lfin: LiveTDGraph,
}

/// Travel times, bounds, line graphs and reordering of graphs with live reports
fn live_graphs(c: &mut Case, tg: &TG, graph: &TDGraph) -> Result<Live, String> {
    let now = instant(&mut c.rng, tg, 1);
    let live = live_reports(c, tg, now);
    let pg = PessimisticLiveTDGraph::new(graph.clone(), live.iter().map(|l| InRangeOption::new(*l)).collect());
    let soon = now + c.rng.below(7_200_000) as u32;
    let lg = LiveTDGraph::new(graph.clone(), soon, live.iter().map(|l| InRangeOption::new(l.map(|l| l.0))).collect());
    let cost: Vec<Option<u32>> = (0..7).map(|_| if c.rng.chance(1, 4) { None } else { Some(c.rng.below(1000) as u32) }).collect();
    let turn = |a: u32, b: u32| cost[((a * 31 + b * 17) % 7) as usize];
    let finite: Vec<Option<(u32, u32)>> = live.iter().map(|l| l.filter(|l| l.0 < INF)).collect();
    let pfin = PessimisticLiveTDGraph::new(graph.clone(), finite.iter().map(|l| InRangeOption::new(*l)).collect());
    let lfin = LiveTDGraph::new(graph.clone(), soon, finite.iter().map(|l| InRangeOption::new(l.map(|l| l.0))).collect());
    let (pline, lline) = (pfin.line_graph(turn), lfin.line_graph(turn));
    let heads = tg.g.heads();
    let fo = tg.g.first_out();
    let mut arc = 0u32;
    for e in 0..tg.m() {
        let eu = e as u32;
        let h = heads[e] as usize;
        let turns: Vec<(u32, u32)> = (fo[h]..fo[h + 1]).filter_map(|e2| turn(eu, e2)).map(|cst| { arc += 1; (arc - 1, cst) }).collect();
        if live[e].is_none() && c.rng.chance(2, 3) {
            continue;
        }
        let pred = |t: u64| graph.travel_time_function(eu).eval(t as u32) as u64;
        let mut ts: Vec<u32> = (0..6).map(|_| instant(&mut c.rng, tg, 2)).collect();
        ts.extend([now, soon, soon.saturating_sub(1), soon + 1]);
        if let Some((l, s)) = live[e] {
            ts.extend([s, s.saturating_sub(1), s + 1]);
            ts.push((s as i64 - (l as i64 - pred(s as u64) as i64)).clamp(0, s as i64 + 1) as u32);
            ts.push(soon.saturating_add((l as i64 - pred(soon as u64) as i64).unsigned_abs().min(P as u64) as u32));
        }
        ts.sort_unstable();
        let (mut lastp, mut lasto) = (0, 0);
        for &t in &ts {
            let got = pg.eval(eu, t) as u64;
            ensure_eq!(got, pess(&pred, live[e], t as u64), "live travel time at {} with report {:?} on {:?}", t, live[e], tg.f[e]);
            ensure!(t as u64 + got >= lastp, "live arrival decreases at {} with report {:?} on {:?}", t, live[e], tg.f[e]);
            lastp = t as u64 + got;
            let got = lg.eval(eu, t) as u64;
            ensure_eq!(got, optimistic(&pred, live[e].map(|l| l.0), soon as u64, t as u64), "live travel time at {} with report {:?} until {} on {:?}", t, live[e], soon, tg.f[e]);
            ensure!(t as u64 + got >= lasto, "live arrival decreases at {} with report {:?} until {} on {:?}", t, live[e], soon, tg.f[e]);
            lasto = t as u64 + got;
            c.verdict("live-eval", live[e].map(|l| vh::hash64(&[t as u64, l.0 as u64, l.1 as u64, soon as u64])));
            if t >= now {
                ensure!(pg.upper_bound(eu, now) as u64 >= pg.eval(eu, t) as u64, "live upper bound {} at {} of {:?} with {:?}", pg.upper_bound(eu, now), t, tg.f[e], live[e]);
                for &u in ts.iter().filter(|&&u| u > t) {
                    // only covers up to one day of ranges
                    let lb = pg.live_lower_bound(eu, t, u) as u64;
                    for &x in ts.iter().filter(|&&x| t <= x && x <= u) {
                        ensure!(lb <= pg.eval(eu, x) as u64, "live lower bound {} for {}..{} exceeds travel time {} at {} of {:?} with {:?}", lb, t, u, pg.eval(eu, x), x, tg.f[e], live[e]);
                    }
                    c.ev("live-lower-bound");
                }
            }
            for &(a, cst) in &turns {
                ensure_eq!(pline.eval(a, t), pfin.eval(eu, t) + cst, "live line graph at {}", t);
                ensure_eq!(lline.eval(a, t), lfin.eval(eu, t) + cst, "live line graph at {}", t);
            }
        }
    }
    ensure_eq!(Graph::num_arcs(&pline), arc as usize, "live line graph arcs");
    // reordered live graphs
    let ord = NodeOrder::from_node_order(c.rng.perm(tg.g.n));
    let (pp, lp) = (<PessimisticLiveTDGraph as BuildPermutated<_>>::permutated(&pg, &ord), <LiveTDGraph as BuildPermutated<_>>::permutated(&lg, &ord));
    let t = now + c.rng.below(1_000_000) as u32;
    for r in 0..tg.g.n as u32 {
        let u = ord.node(r);
        let mut x: Vec<(u32, u32, u32)> =
            LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&pp, r).map(|(h, e)| (ord.node(h.0), pp.eval(e.0, t), lp.eval(e.0, t))).collect();
        let mut y: Vec<(u32, u32, u32)> = (fo[u as usize]..fo[u as usize + 1]).map(|e| (heads[e as usize], pg.eval(e, t), lg.eval(e, t))).collect();
        // parallel edges: the two live graphs sort independently
        let key = |v: &mut Vec<(u32, u32, u32)>| {
            let mut a: Vec<_> = v.iter().map(|e| (e.0, e.1)).collect();
            let mut b: Vec<_> = v.iter().map(|e| (e.0, e.2)).collect();
            a.sort_unstable();
            b.sort_unstable();
            (a, b)
        };
        ensure_eq!(key(&mut x), key(&mut y), "reordered live graph at node {}", u);
    }
    c.verdict("live-reordered", None);
    Ok(Live { now, soon, live, finite, pg, lfin })
}

/// Time-dependent Dijkstra, with potentials, live reports and the sampling heuristic
fn c14(c: &mut Case) -> R {
    let tg = td_graph(c, &small());
    let graph = tg.graph();
    // queries
    let qs = td_queries(c, &tg, 12, 3);
    let eval = |e: u32, t: u64| Some(graph.travel_time_function(e).eval(t as u32) as u64);
    let mut s: Dijkstra<TDGraph, TDDijkstraOps> = Dijkstra::new(graph.clone());
    drive_td!(c, "td-dijkstra", s, tg.g, eval, qs, tg.describe());
    let mut s = CatchDisconnectedTarget::new(Dijkstra::<TDGraph, TDDijkstraOps>::new(graph.clone()), &graph);
    drive_td!(c, "td-dijkstra-catch", s, tg.g, eval, qs, tg.describe());
    let (ord, _) = gen::order(&mut c.rng, &tg.g);
    let lower = tg.g.owned();
    let cch = CCH::fix_order_and_build(&lower, NodeOrder::from_node_order(ord));
    let pot = CCHPotData::new(&cch, &lower);
    let mut s: Dijkstra<TDGraph, TDDijkstraOps, _> = Dijkstra::with_potential(graph.clone(), pot.forward_potential());
    drive_td!(c, "td-astar", s, tg.g, eval, qs, tg.describe());
    // sampling heuristic
    let mut s = time_dependent_sampling::Server::new(graph.clone(), &cch);
    for &(a, b, dep) in &qs {
        let exp = tdgen::ea(&tg.g, a, dep as u64, &eval)[b as usize].map(|x| x - dep as u64);
        let mut res = s.td_query(TDQuery { from: a, to: b, departure: dep });
        let got = res.distance().map(u64::from);
        ensure_eq!(got.is_some(), exp.is_some(), "sampling {}->{} at {} on {}", a, b, dep, tg.describe());
        if let (Some(x), Some(y)) = (got, exp) {
            ensure!(x >= y, "sampling found {} better than {}", x, y);
            let p: Vec<u32> = res.node_path().ok_or("sampling: no path")?;
            tdgen::check_td_path(&tg.g, &p, a, b, dep as u64, x, &eval).map_err(|e| format!("sampling: {} on {}", e, tg.describe()))?;
            c.ev(if x == y { "sampling-optimal" } else { "sampling-suboptimal" });
        }
        c.verdict("sampling", None);
    }
    // live traffic
    let Live { now, soon, live, finite, pg, lfin } = live_graphs(c, &tg, &graph)?;
    let mut qs = td_queries(c, &tg, 8, 1);
    for q in &mut qs {
        if c.rng.chance(1, 2) {
            q.2 = now + c.rng.below(600_000) as u32;
        }
    }
    let eval = |e: u32, t: u64| Some(pg.eval(e, t as u32) as u64).filter(|&w| w < INF as u64);
    let mut s: Dijkstra<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps> = Dijkstra::new(pg.clone());
    drive_td!(c, "live-dijkstra", s, tg.g, eval, qs, format!("{} live {:?}", tg.describe(), live));
    let eval = |e: u32, t: u64| Some(lfin.eval(e, t as u32) as u64);
    let mut s: Dijkstra<LiveTDGraph, LiveTDDijkstraOps> = Dijkstra::new(lfin.clone());
    drive_td!(c, "optimistic-live-dijkstra", s, tg.g, eval, qs, format!("{} live {:?} until {}", tg.describe(), finite, soon));
    Ok(())
}
/// Time-dependent potentials never exceed the remaining travel time
fn admissible(c: &mut Case, name: &str, pot: &mut dyn TDPotential, tg: &TG, eval: &dyn Fn(u32, u64) -> Option<u64>, qs: &[(u32, u32, u32)], tol: u64, tight: bool, desc: &str) -> R {
    for &(s, t, dep) in qs {
        let arr = tdgen::ea(&tg.g, s, dep as u64, eval);
        let best = match arr[t as usize] {
            Some(b) => b,
            None => continue,
        };
        pot.init(s, t, dep);
        // `tight`: only nodes on paths which leave every node as early as possible. Interval potentials need not care for paths which
        // come back to a node they have left before (which may arrive equally early where travel times decrease by one second per second).
        let mut tight_on = vec![!tight; tg.g.n];
        tight_on[t as usize] = true;
        let mut work = vec![t];
        while let Some(v) = work.pop() {
            let mut e = 0;
            for u in 0..tg.g.n {
                for &(h, _) in &tg.g.adj[u] {
                    if let (true, Some(au)) = (h == v && !tight_on[u], arr[u]) {
                        if eval(e, au).map_or(false, |w| Some(au + w) == arr[v as usize]) {
                            tight_on[u] = true;
                            work.push(u as u32);
                        }
                    }
                    e += 1;
                }
            }
        }
        // nodes on shortest paths, evaluated in random order and repeatedly
        let mut on: Vec<(u32, u64)> = Vec::new();
        for v in 0..tg.g.n as u32 {
            if let (true, Some(a)) = (tight_on[v as usize], arr[v as usize]) {
                if tdgen::ea(&tg.g, v, a, eval)[t as usize] == Some(best) {
                    on.push((v, a));
                }
            }
        }
        for _ in 0..2 {
            c.rng.shuffle(&mut on);
            for &(v, a) in &on {
                for with_time in [true, false] {
                    let p = pot.potential(v, if with_time { Some(a as u32) } else { None });
                    match p {
                        Some(p) => ensure!(p as u64 <= best - a + tol, "{}: potential {} of node {} at {} exceeds remaining travel time {} of query {}->{} at {} on {}", name, p, v, a, best - a, s, t, dep, desc),
                        None => return Err(format!("{}: no potential for node {} at {} on a shortest path of query {}->{} at {} on {}", name, v, a, s, t, dep, desc)),
                    }
                }
            }
        }
        c.verdict("admissible", if on.len() > 2 { Some(vh::hash64(&[tg.fingerprint(), s as u64, t as u64, dep as u64])) } else { None });
    }
    Ok(())
}

fn random_ranges(c: &mut Case, tg: &TG) -> Vec<TRange<u32>> {
    if c.rng.chance(1, 10) {
        return ranges();
    }
    (0..c.rng.below(8))
        .map(|_| {
            let start = instant(&mut c.rng, tg, 1);
            let len = match c.rng.below(4) {
                0 => 3_600_000,
                1 => 1 + c.rng.below(1000) as u32,
                2 => 4 * 3_600_000,
                _ => 1 + c.rng.below(P as usize) as u32,
            };
            TRange { start, end: start + len }
        })
        .collect()
}

/// Goal directed time-dependent queries
fn c15(c: &mut Case) -> R {
    let tg = td_graph(c, &TdOpt { g: Opt { min_n: 2, max_n: 26, min_m: 1, inf: false, ..Default::default() }, strict: false, max_pts: 8 });
    if !tg.g.adj.iter().enumerate().any(|(u, a)| a.iter().any(|e| e.0 != u as u32)) {
        return Ok(());
    }
    let graph = tg.graph();
    let lower = tg.g.owned();
    let (ord, _) = gen::order(&mut c.rng, &tg.g);
    let cch = CCH::fix_order_and_build(&lower, NodeOrder::from_node_order(ord));
    let lb = CCHPotData::new(&cch, &lower);
    let desc = tg.describe();
    let eval = |e: u32, t: u64| Some(graph.travel_time_function(e).eval(t as u32) as u64);
    let k = 4 + c.rng.below(8);
    let qs = td_queries(c, &tg, k, 1);
    macro_rules! srv {
        ($name:expr, $p:expr, $b:expr, $d2:expr, $d3:expr, $tol:expr) => {{
            let mut s: tq::Server<TDGraph, TDDijkstraOps, _, $b, $d2, $d3> = tq::Server::new_custom(&graph, $p, TDDijkstraOps::default());
            drive_td!(c, $name, s, tg.g, eval, qs, desc, $tol);
        }};
    }
    srv!("td-topo-zero", ZeroPotential(), true, true, true, 0);
    srv!("td-topo-lb", lb.forward_potential(), true, true, true, 0);
    srv!("td-no-topo-lb", lb.forward_potential(), false, false, false, 0);
    srv!("td-deg2-lb", lb.forward_potential(), false, true, false, 0);
    srv!("td-bcc-lb", TDRecyclingPotential::new(lb.forward_potential()), true, false, false, 0);
    // labels and lower bounds of found paths
    let mut s: tq::Server<TDGraph, TDDijkstraOps, _, true, true, true> = tq::Server::new_custom(&graph, lb.forward_potential(), TDDijkstraOps::default());
    for &(a, b, dep) in qs.iter().filter(|q| q.0 != q.1).take(3) {
        let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
        let d = r.distance();
        if let (Some(p), Some(d)) = (r.node_path(), d) {
            let mut data = r.data();
            for (i, &v) in p.iter().enumerate() {
                let label = data.distance(v) as u64;
                tdgen::check_td_path(&tg.g, &p[..=i], a, v, dep as u64, label - dep as u64, &eval).map_err(|e| format!("td topo label of {}: {} on {}", v, e, desc))?;
                if let Some(x) = data.lower_bound(v, Some(label as u32)) {
                    ensure!(label + x as u64 <= dep as u64 + d as u64, "td topo lower bound of {} on the path {:?} of {}->{} at {} on {}", v, p, a, b, dep, desc);
                }
            }
            c.verdict("td-topo-labels", None);
        }
    }
    // rank space
    let (vg, _, topo) = VirtualTopocoreGraph::<TDGraph>::new(&graph);
    let (fo, ord) = (tg.g.first_out(), &topo.order);
    let mut orig = Vec::new();
    let mut adj = Vec::new();
    for r in 0..tg.g.n as u32 {
        let u = ord.node(r);
        orig.extend(fo[u as usize]..fo[u as usize + 1]);
        adj.push(tg.g.adj[u as usize].iter().map(|x| (ord.rank(x.0), x.1)).collect());
    }
    let pg = G { n: tg.g.n, adj, kind: tg.g.kind };
    let peval = |e: u32, t: u64| eval(orig[e as usize], t);
    macro_rules! skip {
        ($name:expr, $d2:expr, $d3:expr) => {{
            let p = TDPotentialForPermutated { order: topo.order.clone(), potential: lb.forward_potential() };
            let mut s = tq::SkipLowDegServer::<_, _, _, $d2, $d3>::new(vg.clone(), p, pq::VirtualTopocoreOps(TDDijkstraOps::default()));
            drive_td!(c, $name, s, pg, peval, qs, desc);
            for &(a, b, dep) in qs.iter().take(4) {
                let exp = tdgen::ea(&pg, a, dep as u64, &peval)[b as usize].map(|x| x as u32);
                // arrival
                let cap = match exp {
                    Some(x) if c.rng.chance(1, 2) => x.saturating_add(c.rng.below(3) as u32),
                    _ => dep + c.rng.below(1_000_000) as u32,
                };
                let got = s.distance_with_cap(TDQuery { from: a, to: b, departure: dep }, cap).distance();
                match (exp, got) {
                    (Some(x), _) if x <= cap => ensure_eq!(got, Some(x - dep), "capped td query {}->{} at {} until {} on {}", a, b, dep, cap, desc),
                    (Some(x), Some(y)) => ensure!(y >= x - dep, "capped td query {}->{} at {} until {} is too fast on {}", a, b, dep, cap, desc),
                    (None, _) => ensure!(got.is_none(), "capped td query finds unreachable {}->{}", a, b),
                    _ => (),
                }
                c.verdict("td-topo-cap", None);
            }
        }};
    }
    if c.rng.chance(1, 2) {
        skip!("td-skip-low-deg", true, true);
    } else {
        skip!("td-skip-low-deg", true, false);
    }
    if tg.m() <= 60 {
        td_turns(c, &tg, &graph, &cch)?;
    }
    // multi metric potentials
    let rs = random_ranges(c, &tg);
    let reduce = if c.rng.chance(1, 2) { Some(1 + c.rng.below(rs.len() + 1)) } else { None };
    let mut mm = MultiMetric::new(MultiMetricPreprocessed::new(&cch, rs.clone(), &graph, reduce));
    let mdesc = format!("{} ranges {:?} reduce {:?}", desc, rs.iter().map(|r| (r.start, r.end)).collect::<Vec<_>>(), reduce);
    admissible(c, "multi-metric", &mut mm, &tg, &eval, &qs[..3], 0, false, &mdesc)?;
    let variant = c.rng.below(3);
    match variant {
        0 => srv!("td-multi-metric", mm, true, true, true, 0),
        1 => srv!("td-multi-metric", mm, false, false, false, 0),
        _ => srv!("td-multi-metric", TDRecyclingPotential::new(mm), true, true, true, 0),
    }
    // live
    let now = instant(&mut c.rng, &tg, 1);
    let live = live_reports(c, &tg, now);
    let pg = PessimisticLiveTDGraph::new(graph.clone(), live.iter().map(|l| InRangeOption::new(*l)).collect());
    let leval = |e: u32, t: u64| Some(pg.eval(e, t as u32) as u64);
    let mut lqs = qs.clone();
    for q in &mut lqs {
        q.2 = live_departure(c, &live, now);
    }
    let ldesc = format!("{} now {} live {:?}", mdesc, now, live);
    macro_rules! lsrv {
        ($name:expr, $p:expr, $b:expr, $d2:expr, $d3:expr, $tol:expr) => {{
            let mut s: tq::Server<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, $b, $d2, $d3> = tq::Server::new_custom(&pg, $p, PessimisticLiveTDDijkstraOps::default());
            drive_td!(c, $name, s, tg.g, leval, lqs, ldesc, $tol);
        }};
    }
    lsrv!("live-topo-lb", lb.forward_potential(), true, true, true, 0);
    let mut mmp = MultiMetricPreprocessed::new(&cch, rs.clone(), &graph, reduce);
    let lname = if c.rng.chance(1, 2) {
        mmp.customize_simple_live(&pg, now);
        "live-multi-metric-simple"
    } else {
        mmp.reserve_space_for_additional_metrics(1);
        mmp.customize_live(&pg, now);
        "live-multi-metric"
    };
    let mut mm = MultiMetric::new(mmp);
    admissible(c, lname, &mut mm, &tg, &leval, &lqs[..3], 0, false, &ldesc)?;
    if variant == 0 {
        lsrv!(lname, mm, false, false, false, 0)
    } else {
        lsrv!(lname, mm, true, true, true, 0)
    }
    Ok(())
}

/// Queries between edges with turn costs, forbidden turns and live reports; potentials come from the graph without turns
fn td_turns(c: &mut Case, tg: &TG, graph: &TDGraph, cch: &CCH) -> R {
    let now = instant(&mut c.rng, tg, 1);
    let live: Vec<Option<u32>> = live_reports(c, tg, now).iter().map(|l| l.map(|l| l.0).filter(|&l| l < INF)).collect();
    let soon = now + c.rng.below(7_200_000) as u32;
    let mut lower = tg.g.clone();
    let mut e = 0;
    for a in &mut lower.adj {
        for x in a {
            x.1 = graph.travel_time_function(e).lower_bound().min(live[e as usize].unwrap_or(INF));
            e += 1;
        }
    }
    let lb = CCHPotData::new(cch, &lower.owned());
    let (fo, heads, tails) = (tg.g.first_out(), tg.g.heads(), tg.g.tails());
    let seed = c.rng.u64();
    let forbid = 2 + c.rng.below(6) as u64;
    let turn = |e: u32, f: u32| {
        let h = vh::hash64(&[seed, e as u64, f as u64]);
        if h % forbid == 0 || tails[e as usize] == heads[f as usize] { None } else { Some((h >> 20) as u32 % 100) }
    };
    let mut arcs = Vec::new();
    let mut adj = Vec::new();
    for e in 0..tg.m() as u32 {
        let h = heads[e as usize] as usize;
        adj.push((fo[h]..fo[h + 1]).filter_map(|f| turn(e, f).map(|t| { arcs.push((e, t)); (f, 0) })).collect::<Vec<_>>());
    }
    if adj.iter().enumerate().all(|(e, a)| a.iter().all(|x| x.0 as usize == e)) {
        return Ok(());
    }
    let l = G { n: tg.m(), adj, kind: "turn expanded" };
    let mut qs: Vec<(u32, u32, u32)> = (0..6).map(|_| (c.rng.below(l.n) as u32, c.rng.below(l.n) as u32, instant(&mut c.rng, tg, 1))).collect();
    qs.push((qs[0].1, qs[0].0, now));
    qs.push((qs[1].1, qs[1].0, soon.saturating_sub(1)));
    let desc = format!("{} turns {:?} live {:?} until {}", tg.describe(), arcs, live, soon);
    let eval = |a: u32, t: u64| {
        let (e, cost) = arcs[a as usize];
        let pred = |t: u64| graph.travel_time_function(e).eval(t as u32) as u64;
        Some(optimistic(&pred, live[e as usize], soon as u64, t) + cost as u64)
    };
    let lg = LiveTDGraph::new(graph.clone(), soon, live.iter().map(|l| InRangeOption::new(*l)).collect());
    let exp = lg.line_graph(turn);
    let s = pq::Server::<LiveTDGraph, LiveTDDijkstraOps, _, true, true, true>::new_custom(&exp, TurnExpandedPotential::new(graph, lb.forward_potential()), LiveTDDijkstraOps::default());
    let mut s = CatchDisconnectedTarget::new(s, &exp);
    drive_td!(c, "td-turns-live", s, l, eval, qs, desc);
    let mut s = tq::Server::<LiveTDGraph, LiveTDDijkstraOps, _, true, true, true>::new_custom(&exp, TurnExpandedPotential::new(graph, lb.forward_potential()), LiveTDDijkstraOps::default());
    drive_td!(c, "td-turns-live", s, l, eval, qs, desc);
    Ok(())
}

/// Fixed inputs of the recorded findings. An answer which is neither optimal nor the recorded wrong one is a new violation.
fn recorded_findings(c: &mut Case) -> R {
    let build = |adj: Vec<Vec<(u32, u32)>>, f: Vec<F>| {
        let g = G { n: adj.len(), adj, kind: "fixed" };
        tdgen::from_functions(g, f)
    };
    let mut judge = |c: &mut Case, tag: &'static str, got: Option<u32>, wrong: Option<u32>, right: u32| -> R {
        if got == Some(right) {
            c.ev("finding-gone");
        } else if got == wrong {
            c.ev(tag);
        } else {
            return Err(format!("{}: got {:?}, optimum {}, recorded {:?}", tag, got, right, wrong));
        }
        Ok(())
    };
    // KF1: the search restricted to the core stops although the exit of the core may still be reached earlier
    let adj = vec![vec![(5, 48)], vec![(2, 273009), (8, 4)], vec![(1, 14), (6, 36), (5, 23)], vec![(4, 11)], vec![(5, 27), (7, 3), (3, 32), (8, 21)], vec![(2, 2), (4, 42), (0, 51), (7, 44)], vec![(2, 1)], vec![(5, 12), (4, 22)], vec![(1, 39), (4, 16)]];
    let f: Vec<F> = vec![
        vec![(0, 48)], vec![(0, 273009), (86390000, 282008), (86400000, 273009)], vec![(0, 4)], vec![(0, 14)], vec![(0, 47558), (13170000, 47558), (19110000, 36), (52790000, 4375), (86400000, 47558)],
        vec![(0, 23)], vec![(0, 11)], vec![(0, 467303), (1800000, 523673), (16200000, 27), (34200000, 27), (39600000, 27), (57600000, 428146), (61200000, 112849), (86400000, 467303)],
        vec![(0, 3)], vec![(0, 32)], vec![(0, 21)], vec![(0, 2)], vec![(0, 42)],
        vec![(0, 51), (12600000, 51), (16200000, 283608), (39600000, 51), (41400000, 421353), (45000000, 516772), (55800000, 51), (70200000, 51), (82800000, 538402), (86400000, 51)],
        vec![(0, 44)], vec![(0, 1), (5400000, 1), (36000000, 471436), (86400000, 1)], vec![(0, 492199), (3600000, 492199), (5400000, 12), (18000000, 19696), (41400000, 351089), (86400000, 492199)], vec![(0, 22)],
        vec![(0, 293894), (740000, 84374), (1480000, 39), (9540000, 293097), (22280000, 39), (22880000, 446588), (35280000, 534929), (46410000, 142245), (82260000, 345363), (86400000, 293894)],
        vec![(0, 16), (28760000, 16), (49060000, 544009), (49470000, 223955), (53090000, 305587), (64130000, 460046), (67220000, 471754), (80410000, 16), (82790000, 16), (86400000, 16)],
    ];
    let tg = build(adj, f);
    let graph = tg.graph();
    let cch = CCH::fix_order_and_build(&tg.g.owned(), NodeOrder::from_node_order(vec![1, 8, 5, 3, 7, 2, 4, 6, 0]));
    let ip = IntervalMinPotential::new(&cch, ftd_for_pot::customize::<24>(&cch, &tg.floating()));
    let mut s: tq::Server<TDGraph, TDDijkstraOps, _, true, true, true> = tq::Server::new_custom(&graph, ip, TDDijkstraOps::default());
    let right = tdgen::ea(&tg.g, 7, 19756755, &|e, t| Some(graph.travel_time_function(e).eval(t as u32) as u64))[0].unwrap() as u32 - 19756755;
    let got = TDQueryServer::td_query(&mut s, TDQuery { from: 7, to: 0, departure: 19756755 }).distance();
    judge(c, "finding:KF1", got, Some(284542), right)?;
    // KF2: shortcuts which are irrelevant for predicted traffic get removed although the detour over them is needed with live traffic
    let adj = vec![vec![(4, 59), (2, 52), (5, 58), (1, 87)], vec![(0, 99)], vec![(0, 75), (3, 58)], vec![(4, 96), (2, 94)], vec![(3, 6), (0, 14)], vec![(0, 2)]];
    let f: Vec<F> = vec![
        vec![(0, 63), (52200000, 59), (86400000, 63)], vec![(0, 52)], vec![(0, 58), (86390000, 58), (86400000, 58)], vec![(0, 137), (18000000, 94), (45000000, 87), (86400000, 137)], vec![(0, 99)], vec![(0, 75)], vec![(0, 58)],
        vec![(0, 96)], vec![(0, 94)], vec![(0, 6)], vec![(0, 27), (15070000, 27), (17790000, 14), (46070000, 14), (57320000, 38), (64520000, 14), (72330000, 16), (86400000, 27)], vec![(0, 2)],
    ];
    let live = [Some((32644, 86399999)), None, None, None, None, None, Some((58, 88199999)), Some((96, 86399999)), None, Some((99887, 172017123)), Some((28, 132653357)), Some((23108, 136853999))];
    let now = 86399999;
    let tg = build(adj, f);
    let pg = PessimisticLiveTDGraph::new(tg.graph(), live.iter().map(|l| InRangeOption::new(*l)).collect());
    let cch = CCH::fix_order_and_build(&tg.g.owned(), NodeOrder::from_node_order(vec![5, 2, 0, 4, 3, 1]));
    let eval = |e: u32, t: u64| Some(pg.eval(e, t as u32) as u64);
    let (at0, end) = { let a = tdgen::ea(&tg.g, 4, now as u64, &eval); (a[0].unwrap() as u32, a[3].unwrap() as u32) };
    for full in [false, true] {
        let data = ftd_for_pot::customize::<96>(&cch, &tg.floating());
        let p = if full {
            let mut ip = IntervalMinPotential::new_for_live(&cch, data, &pg, now);
            ip.init(4, 3, now);
            ip.potential(0, Some(at0))
        } else {
            let mut ip = IntervalMinPotential::new_for_simple_live(&cch, data, &pg, now);
            ip.init(4, 3, now);
            ip.potential(0, Some(at0))
        };
        if p.map_or(true, |p| p > end - at0) {
            judge(c, "finding:KF2", p, Some(256), 0)?;
        }
    }
    Ok(())
}

/// do all nodes get reached within the same time interval even if travelling as slowly as possible
fn one_interval(tg: &TG, q: &(u32, u32, u32), k: u64, upper: &dyn Fn(u32) -> u64) -> bool {
    let arr = tdgen::ea(&tg.g, q.0, q.2 as u64, &|e, _| Some(upper(e)));
    // rounding of bounds
    let last = arr.iter().flatten().max().unwrap() + 2 * tg.g.n as u64;
    q.2 as u64 * k / P as u64 == last * k / P as u64
}

/// Interval potentials: time-dependent lower bounds per time interval obtained from travel time profiles.
fn c16(c: &mut Case) -> R {
    if c.idx == 0 {
        recorded_findings(c)?;
    }
    let tg = td_graph(c, &TdOpt { g: Opt { min_n: 2, max_n: 26, min_m: 1, inf: false, loops: false, parallel: false, ..Default::default() }, strict: true, max_pts: 8 });
    if !tg.g.adj.iter().enumerate().any(|(u, a)| a.iter().any(|e| e.0 != u as u32)) {
        return Ok(());
    }
    let graph = tg.graph();
    let (ord, _) = gen::order(&mut c.rng, &tg.g);
    let cch = CCH::fix_order_and_build(&tg.g.owned(), NodeOrder::from_node_order(ord.clone()));
    let desc = format!("{} order {:?}", tg.describe(), ord);
    let eval = |e: u32, t: u64| Some(graph.travel_time_function(e).eval(t as u32) as u64);
    let k = 4 + c.rng.below(8);
    let qs = td_queries(c, &tg, k, 1);
    let tol = 2 * tg.g.n as u64;
    let fl = tg.floating();
    let buckets = c.idx % 3;
    let pot_data = || match buckets {
        0 => ftd_for_pot::customize::<96>(&cch, &fl),
        1 => ftd_for_pot::customize::<24>(&cch, &fl),
        _ => ftd_for_pot::customize::<5>(&cch, &fl),
    };
    macro_rules! weak_td {
        ($name:expr, $s:expr, $ev:expr, $qs:expr, $desc:expr, $may_miss:expr) => {{
            for &(s, t, dep) in $qs.iter() {
                let exp = tdgen::ea(&tg.g, s, dep as u64, &$ev)[t as usize].map(|a| a - dep as u64);
                let mut res = TDQueryServer::td_query(&mut $s, TDQuery { from: s, to: t, departure: dep });
                match res.distance().map(u64::from) {
                    Some(d) => {
                        ensure!(exp.map_or(false, |e| e <= d), "{}: {}->{} at {}: {:?} is better than the optimum {:?} on {}", $name, s, t, dep, d, exp, $desc);
                        let p: Vec<u32> = res.node_path().ok_or_else(|| format!("{}: no path for found query", $name))?;
                        tdgen::check_td_path(&tg.g, &p, s, t, dep as u64, d, &$ev).map_err(|e| format!("{}: {} on {}", $name, e, $desc))?;
                        c.verdict($name, None);
                    }
                    None => {
                        ensure!(exp.is_none() || $may_miss, "{}: {}->{} at {} not found on {}", $name, s, t, dep, $desc);
                        c.verdict("unreachable", None);
                    }
                }
            }
        }};
    }
    // `exact_only`: the potential is only exact if all interesting times of a query belong to one interval, see KNOWN findings KF1 and KF2.
    // All other answers have to be valid paths.
    macro_rules! run {
        ($name:expr, $pot:expr, $g:expr, $gt:ty, $ops:ty, $ev:expr, $up:expr, $always:expr, $qs:expr, $desc:expr) => {{
            let mut ip = $pot;
            let name: &'static str = $name;
            let nb = [96, 24, 5][buckets as usize];
            let (simple, other): (Vec<_>, Vec<_>) = $qs.iter().copied().partition(|q| one_interval(&tg, q, nb, &$up));
            let (judged, weak) = if $always { ($qs.clone(), Vec::new()) } else { (simple.clone(), other.clone()) };
            admissible(c, name, &mut ip, &tg, &$ev, &judged[..judged.len().min(3)], tol, true, &$desc)?;
            match c.rng.below(4) {
                0 => {
                    let mut s: tq::Server<$gt, $ops, _, false, false, false> = tq::Server::new_custom($g, ip, <$ops>::default());
                    drive_td!(c, name, s, tg.g, $ev, judged, $desc, tol);
                    weak_td!("interval-min-weak", s, $ev, weak, $desc, true);
                }
                1 => {
                    let mut s: tq::Server<$gt, $ops, _, false, true, true> = tq::Server::new_custom($g, ip, <$ops>::default());
                    drive_td!(c, name, s, tg.g, $ev, judged, $desc, tol);
                    weak_td!("interval-min-weak", s, $ev, weak, $desc, true);
                }
                2 => {
                    let mut s: tq::Server<$gt, $ops, _, true, true, true> = tq::Server::new_custom($g, ip, <$ops>::default());
                    weak_td!("interval-min-topo", s, $ev, $qs, $desc, !$always);
                }
                _ => {
                    let mut s: tq::Server<$gt, $ops, _, false, true, false> = tq::Server::new_custom($g, TDRecyclingPotential::new(ip), <$ops>::default());
                    drive_td!(c, name, s, tg.g, $ev, judged, $desc, tol);
                    weak_td!("interval-min-weak", s, $ev, weak, $desc, true);
                }
            }
        }};
    }
    let stored = c.rng.chance(1, 3);
    let ip = IntervalMinPotential::new(&cch, pot_data());
    let dir = c.scratch.join("interval");
    if stored {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        ip.deconstruct_to(&dir).map_err(|e| e.to_string())?;
        let loaded: IntervalMinPotential<(u32, u32)> = cch.reconstruct_from(&dir).map_err(|e| e.to_string())?;
        run!("interval-min-loaded", loaded, &graph, TDGraph, TDDijkstraOps, eval, |e: u32| graph.travel_time_function(e).upper_bound() as u64, true, qs, desc);
    } else {
        run!("interval-min", ip, &graph, TDGraph, TDDijkstraOps, eval, |e: u32| graph.travel_time_function(e).upper_bound() as u64, true, qs, desc);
    }
    // live
    let now = instant(&mut c.rng, &tg, 1);
    let live = live_reports(c, &tg, now);
    let pg = PessimisticLiveTDGraph::new(graph.clone(), live.iter().map(|l| InRangeOption::new(*l)).collect());
    let leval = |e: u32, t: u64| Some(pg.eval(e, t as u32) as u64);
    let mut lqs = qs.clone();
    for q in &mut lqs {
        q.2 = live_departure(c, &live, now);
    }
    let ldesc = format!("{} now {} live {:?}", desc, now, live);
    if c.rng.chance(1, 2) {
        run!("interval-min-live", IntervalMinPotential::new_for_live(&cch, pot_data(), &pg, now), &pg, PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, leval, |e: u32| pg.upper_bound(e, now) as u64, false, lqs, ldesc);
    } else {
        run!("interval-min-simple-live", IntervalMinPotential::new_for_simple_live(&cch, pot_data(), &pg, now), &pg, PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, leval, |e: u32| pg.upper_bound(e, now) as u64, false, lqs, ldesc);
    }
    Ok(())
}
