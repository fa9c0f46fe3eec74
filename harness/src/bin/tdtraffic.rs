//! Monitors for traffic aware routing with time-dependent travel times.
use rust_road_router::algo::{
    ch_potentials::*,
    customizable_contraction_hierarchy::{customization::ftd_for_pot, *},
    td_astar::TRange,
    traffic_aware::{td_live, td_traffic_pots::*, time_dependent as td},
    *,
};
use rust_road_router::datastr::{
    graph::{time_dependent::*, *},
    node_order::NodeOrder,
};
use rust_road_router::io::*;
use rust_road_router::report::*;
use rust_road_router::util::in_range_option::InRangeOption;
use std::collections::BTreeMap;
use vh::{ensure, ensure_eq, gen, gen::*, oracle, tdgen, tdgen::*, Case, Prop, R};

fn main() {
    vh::main_loop(&[Prop { id: "C25", run: c25 }]);
}

type Eval<'a> = dyn Fn(u32, u64) -> u64 + 'a;
type Rows = Vec<Vec<Option<u64>>>;
type Rep = BTreeMap<&'static str, ReportingValue>;

/// Everything needed to judge one answer.
struct Judge<'a> {
    g: &'a G,
    rows: &'a Rows,
    eval: &'a Eval<'a>,
    s: u32,
    t: u32,
    dep: u64,
    eps: f64,
    /// earliest arrival without the constraint
    best: Option<u64>,
    /// earliest arrival of a path all of whose parts are good enough, None if not enumerated
    opt: Option<Option<u64>>,
    /// rounding errors of the potential
    tol: u64,
    /// the potential guarantees optimal answers of the exact algorithm
    sound: bool,
    /// the potential guarantees optimal answers of the core restricted search (see KF1, KF2)
    core_sound: bool,
    /// the potential may rule out all paths (see KF2)
    may_miss: bool,
    desc: String,
}

fn arrivals(g: &G, eval: &Eval, path: &[u32], dep: u64) -> Option<u64> {
    let mut at = dep;
    for w in path.windows(2) {
        at += cheapest(g, eval, w[0], w[1], at)?;
    }
    Some(at)
}
fn cheapest(g: &G, eval: &Eval, u: u32, v: u32, at: u64) -> Option<u64> {
    let first: usize = g.adj[..u as usize].iter().map(|a| a.len()).sum();
    g.adj[u as usize].iter().enumerate().filter(|(_, e)| e.0 == v).map(|(i, _)| eval((first + i) as u32, at)).min()
}
fn feasible(g: &G, rows: &Rows, path: &[u32], eps: f64) -> bool {
    let mut d = vec![0u64];
    for w in path.windows(2) {
        d.push(d.last().unwrap() + oracle::path_len(g, w).unwrap());
    }
    for i in 0..path.len() {
        for j in i + 1..path.len() {
            if path[i] == path[j] {
                return false;
            }
            let sh = rows[path[i] as usize][path[j] as usize].unwrap();
            if d[j] - d[i] - sh > (sh as f64 * eps) as u64 {
                return false;
            }
        }
    }
    true
}
/// enumerates all simple paths; prefixes of feasible paths are feasible
fn best_feasible(j: &Judge) -> Option<u64> {
    fn rec(j: &Judge, p: &mut Vec<u32>, at: u64, best: &mut Option<u64>) {
        let u = *p.last().unwrap();
        if best.map_or(false, |b| b <= at) || !feasible(j.g, j.rows, p, j.eps) {
            return;
        }
        if u == j.t {
            *best = Some(at);
            return;
        }
        let mut heads: Vec<u32> = j.g.adj[u as usize].iter().map(|e| e.0).collect();
        heads.sort_unstable();
        heads.dedup();
        for v in heads {
            if !p.contains(&v) {
                let w = cheapest(j.g, j.eval, u, v, at).unwrap();
                p.push(v);
                rec(j, p, at + w, best);
                p.pop();
            }
        }
    }
    let mut best = None;
    rec(j, &mut vec![j.s], j.dep, &mut best);
    best
}
fn increase(rep: &Rep) -> Option<f64> {
    match rep.get("length_increase_percent") {
        Some(ReportingValue::Value(v)) => v.as_f64(),
        _ => None,
    }
}
/// reported increase relative to the optimum, as absolute value
fn absolute(rep: &Rep, base: Option<u64>) -> Option<u64> {
    Some((base? as f64 * (1.0 + increase(rep)? / 100.0)).round() as u64)
}

fn judge_exact(c: &mut Case, name: &'static str, j: &Judge, res: Option<()>, rep: &Rep, slow: bool) -> R {
    if slow {
        c.ev("traffic-timeout");
        return Ok(());
    }
    let at = absolute(rep, j.best);
    match (res, j.opt) {
        (None, Some(opt)) => ensure!(opt.is_none() || j.may_miss, "{}: nothing found, optimum {:?}: {}", name, opt, j.desc),
        (None, None) => (),
        (Some(()), Some(opt)) => {
            let (at, opt) = (at.ok_or("no increase reported")?, opt.ok_or_else(|| format!("{}: found but there is no acceptable path: {}", name, j.desc))?);
            // the reported value is relative to the fastest path, which may be missed by the tolerance or by unsound potentials
            if j.sound {
                ensure!(at + j.tol >= opt, "{}: arrival {} before the optimum {}: {}", name, at, opt, j.desc);
                ensure!(at <= opt + j.tol, "{}: arrival {}, optimum {}: {}", name, at, opt, j.desc);
            }
        }
        (Some(()), None) => ensure!(!j.sound || at.map(|a| a + j.tol) >= j.best, "{}: arrival {:?} before the optimum {:?}: {}", name, at, j.best, j.desc),
    }
    let detour = j.opt.map_or(false, |o| o.is_some() && o != j.best);
    if detour {
        c.ev("detour");
    }
    c.verdict(name, j.opt.flatten().filter(|_| res.is_some()).map(|o| vh::hash64(&[j.g.fingerprint(), u64::from(j.s), u64::from(j.t), j.dep, o, (j.eps * 10.0) as u64])));
    Ok(())
}

fn judge_heuristic(c: &mut Case, name: &'static str, j: &Judge, res: Option<()>, rep: &Rep, paths: &[Vec<u32>]) -> R {
    ensure!(paths.is_empty() == j.best.is_none() || j.may_miss && paths.is_empty(), "{}: {:?}: {}", name, paths, j.desc);
    for (i, p) in paths.iter().enumerate() {
        ensure_eq!((p[0], p[p.len() - 1]), (j.s, j.t), "{}: terminals of {:?}: {}", name, p, j.desc);
        let at = arrivals(j.g, j.eval, p, j.dep);
        ensure!(at.is_some() && at >= j.best, "{}: bad path {:?}: {}", name, p, j.desc);
        ensure!(i > 0 || !j.core_sound || at <= j.best.map(|b| b + j.tol), "{}: first path {:?} arrives at {:?} instead of {:?}: {}", name, p, at, j.best, j.desc);
    }
    if res.is_some() {
        let p = paths.last().unwrap();
        ensure!(feasible(j.g, j.rows, p, j.eps), "{}: final path {:?} has suboptimal parts: {}", name, p, j.desc);
        let tt = arrivals(j.g, j.eval, p, j.dep).map(|a| a - j.dep);
        // relative to the first path
        let base = arrivals(j.g, j.eval, &paths[0], j.dep).map(|a| a - j.dep);
        ensure_eq!(absolute(rep, base), tt, "{}: reported length of {:?}: {}", name, p, j.desc);
        if let Some(opt) = j.opt {
            ensure!(opt.map_or(false, |o| tt.unwrap() + j.dep >= o), "{}: {:?} better than the optimum {:?}: {}", name, p, opt, j.desc);
        }
        c.verdict(name, None);
    }
    Ok(())
}

fn judge_fixing(c: &mut Case, name: &'static str, j: &Judge, res: Option<()>, rep: &Rep) -> R {
    ensure!(res.is_some() == j.best.is_some() || j.may_miss && res.is_none(), "{}: {:?}: {}", name, res, j.desc);
    if let (Some(()), Some(best), true) = (res, j.best, j.core_sound) {
        let x = increase(rep).ok_or("no increase reported")?;
        let tt = (best - j.dep) as f64 * (1.0 + x / 100.0);
        ensure!(tt + 0.5 + j.tol as f64 >= (best - j.dep) as f64, "{}: {:?}: {}", name, tt, j.desc);
        if let (Some(opt), Some(ReportingValue::Value(f))) = (j.opt, rep.get("failed")) {
            if f.as_bool() == Some(false) {
                ensure!(opt.map_or(false, |o| tt.round() as u64 + j.dep + j.tol >= o), "{}: {:?} better than the optimum {:?}: {}", name, tt, opt, j.desc);
            }
        }
        c.verdict(name, None);
    }
    Ok(())
}

fn judge_baseline(c: &mut Case, name: &'static str, j: &Judge, res: Option<()>, rep: &Rep) -> R {
    ensure!(res.is_some() == j.best.is_some() || j.may_miss && res.is_none(), "{}: {:?}: {}", name, res, j.desc);
    if let (Some(()), Some(best), true) = (res, j.best, j.core_sound) {
        let x = increase(rep).ok_or("no increase reported")?;
        let tt = (best - j.dep) as f64 * (1.0 + x / 100.0);
        ensure!(tt + 0.5 + j.tol as f64 >= (best - j.dep) as f64, "{}: {:?}: {}", name, tt, j.desc);
        if let Some(p) = unique_path(j.g, j.rows, j.s, j.t, j.rows[j.s as usize][j.t as usize].unwrap()) {
            let exp = arrivals(j.g, j.eval, &p, j.dep).unwrap() - j.dep;
            // the reported value is relative to the fastest path, which may be missed by the tolerance
            ensure!((tt - exp as f64).abs() <= 0.5 + j.tol as f64 * (1.0 + x / 100.0), "{}: {} but the shortest path takes {}: {}", name, tt, exp, j.desc);
            c.ev("baseline-unique");
        }
        c.verdict(name, None);
    }
    Ok(())
}
/// the shortest path if it is unique
fn unique_path(g: &G, rows: &Rows, s: u32, t: u32, d: u64) -> Option<Vec<u32>> {
    let (mut p, mut len) = (vec![s], 0);
    while *p.last().unwrap() != t {
        let u = *p.last().unwrap();
        let mut next: Vec<(u32, u64)> = g.adj[u as usize].iter().filter(|e| rows[e.0 as usize][t as usize].map_or(false, |r| len + u64::from(e.1) + r == d)).map(|e| (e.0, u64::from(e.1))).collect();
        next.dedup();
        if next.len() != 1 {
            return None;
        }
        len += next[0].1;
        p.push(next[0].0);
    }
    Some(p)
}

macro_rules! drive {
    ($c:expr, $pre:expr, $module:ident, $smooth:expr, $net:expr, $spot:expr, $pot:expr, $judges:expr) => {{
        let names: [&'static str; 4] = $pre;
        match $c.rng.below(5) {
            0 | 1 => {
                let mut s = $module::TDTrafficAwareServer::new($smooth.borrowed(), $net, $spot, $pot);
                for j in $judges {
                    let cap = capture_reporting();
                    let start = std::time::Instant::now();
                    let res = s.query(TDQuery { from: j.s, to: j.t, departure: j.dep as u32 }, j.eps);
                    let slow = start.elapsed().as_secs() > 5;
                    let rep = cap.reported().unwrap();
                    judge_exact($c, names[0], j, res, &rep, slow)?;
                }
            }
            2 => {
                let mut s = $module::HeuristicTDTrafficAwareServer::new($smooth.borrowed(), $net, $spot, $pot);
                for j in $judges {
                    let cap = capture_reporting();
                    let mut paths = Vec::new();
                    let res = s.query(TDQuery { from: j.s, to: j.t, departure: j.dep as u32 }, j.eps, |p| paths.push(p.to_vec()));
                    let rep = cap.reported().unwrap();
                    judge_heuristic($c, names[1], j, res, &rep, &paths)?;
                }
            }
            3 => {
                let mut s = $module::IterativePathFixing::new($smooth.borrowed(), $net, $spot, $pot);
                for j in $judges {
                    let cap = capture_reporting();
                    let res = s.query(TDQuery { from: j.s, to: j.t, departure: j.dep as u32 }, j.eps);
                    let rep = cap.reported().unwrap();
                    judge_fixing($c, names[2], j, res, &rep)?;
                }
            }
            _ => {
                let mut s = $module::SmoothPathBaseline::new($smooth.borrowed(), $net, $spot, $pot);
                for j in $judges {
                    let cap = capture_reporting();
                    let res = s.query(TDQuery { from: j.s, to: j.t, departure: j.dep as u32 });
                    let rep = cap.reported().unwrap();
                    judge_baseline($c, names[3], j, res, &rep)?;
                }
            }
        }
    }};
}

fn judges<'a>(c: &mut Case, g: &'a G, rows: &'a Rows, eval: &'a Eval<'a>, tiny: bool, from: u32, now: bool, tol: u64, (sound, core_sound, may_miss): (bool, bool, bool), tg: &TG, desc: &str) -> Vec<Judge<'a>> {
    let mut js = Vec::new();
    for (s, t) in gen::queries(&mut c.rng, g.n, if tiny { 30 } else { 6 }) {
        if s == t {
            continue;
        }
        let dep = if now { from + if c.rng.chance(1, 2) { 0 } else { c.rng.below((P - from) as usize) as u32 } } else if c.rng.chance(2, 3) { from + c.rng.below(2 * HOUR as usize) as u32 } else { instant(&mut c.rng, tg, 1) };
        let eps = *c.rng.pick(&[0.0, 0.1, 0.2, 0.5, 1.0, 2.0]);
        let best = tdgen::ea(g, s, dep as u64, &|e, t| Some(eval(e, t)))[t as usize];
        let mut j = Judge { g, rows, eval, s, t, dep: dep as u64, eps, best, opt: None, tol, sound, core_sound, may_miss, desc: format!("{}->{} at {} eps {} on {}", s, t, dep, eps, desc) };
        if tiny {
            j.opt = Some(best_feasible(&j));
        }
        js.push(j);
    }
    // mostly queries where the fastest path is not acceptable
    js.sort_by_key(|j| j.opt.map_or(false, |o| o == j.best));
    let keep = 3 + js.iter().take_while(|j| j.opt.map_or(true, |o| o != j.best)).count().min(5);
    js.truncate(keep);
    c.rng.shuffle(&mut js);
    js
}

const HOUR: u32 = 3_600_000;
/// a rush hour on some of the edges
fn jammed(c: &mut Case, tg: TG, rush: u32) -> TG {
    let dens = *c.rng.pick(&[1, 2, 4, 8]);
    let jam = c.rng.range(2, 20);
    let w = tg.g.weights();
    let f = tg.f.iter().enumerate().map(|(e, f)| {
        if !c.rng.chance(dens, 12) {
            return f.clone();
        }
        let low = w[e];
        let high = (u64::from(low) * c.rng.range(11, 10 * jam) / 10 + 1).min(u64::from(HOUR)).max(u64::from(low)) as u32;
        let start = rush - 1 - c.rng.below(HOUR as usize / 2) as u32;
        let full = start + 1 + c.rng.below(HOUR as usize) as u32;
        let over = full + 1 + c.rng.below(3 * HOUR as usize) as u32;
        let end = over + (high - low) + 1 + c.rng.below(HOUR as usize) as u32;
        vec![(0, low), (start, low), (full, high), (over, high), (end, low), (P, low)]
    }).collect();
    tdgen::from_functions(tg.g, f)
}

fn c25(c: &mut Case) -> R {
    thread_local!(static REP: std::mem::ManuallyDrop<ReportingGuard> = std::mem::ManuallyDrop::new(enable_reporting("monitor")));
    REP.with(|_| ());
    let discard = block_reporting();
    let tiny = c.rng.chance(3, 4);
    let tg = td_graph(
        c,
        &TdOpt { g: Opt { min_n: 2, max_n: if tiny { 11 } else { 26 }, min_m: 1, zero: false, inf: false, loops: false, parallel: false, ..Default::default() }, strict: true, max_pts: 8 },
    );
    if !tg.g.adj.iter().enumerate().any(|(u, a)| a.iter().any(|e| e.0 != u as u32)) || tg.g.weights().iter().any(|&w| w == 0) {
        return Ok(());
    }
    let rush = c.rng.below(P as usize - 12 * HOUR as usize) as u32 + HOUR;
    let tg = if c.rng.chance(3, 4) { jammed(c, tg, rush) } else { tg };
    let graph = tg.graph();
    let smooth = tg.g.owned();
    let rows = oracle::apsp(&tg.g);
    let (ord, _) = gen::order(&mut c.rng, &tg.g);
    let cch = CCH::fix_order_and_build(&smooth, NodeOrder::from_node_order(ord.clone()));
    let spot = CCHPotData::new(&cch, &smooth);
    let desc = format!("{} order {:?}", tg.describe(), ord);
    let fl = tg.floating();
    let kind = c.rng.below(3);
    let buckets = c.rng.below(3);
    let tol = if kind == 1 { 2 * tg.g.n as u64 } else { 0 };
    drop(discard);
    let pot_data = || match buckets {
        0 => ftd_for_pot::customize::<96>(&cch, &fl),
        1 => ftd_for_pot::customize::<24>(&cch, &fl),
        _ => ftd_for_pot::customize::<5>(&cch, &fl),
    };
    let times: Vec<TRange<u32>> = (0..c.rng.below(8))
        .map(|_| {
            let start = instant(&mut c.rng, &tg, 1);
            TRange { start, end: start + 1 + c.rng.below(P as usize / 2) as u32 }
        })
        .collect();
    let reduce = if times.len() > 2 && c.rng.chance(1, 3) { Some(2) } else { None };
    let stored = c.rng.chance(1, 4);
    let dir = c.scratch.join("traffic-pot");
    macro_rules! store {
        ($pot:expr) => {
            if stored {
                std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
                $pot.deconstruct_to(&dir).map_err(|e| e.to_string())?;
            }
        };
    }
    if c.rng.chance(2, 3) {
        let eval = |e: u32, t: u64| graph.travel_time_function(e).eval(t as u32) as u64;
        let js = judges(c, &tg.g, &rows, &eval, tiny, rush, false, tol, (true, kind != 1, false), &tg, &desc);
        match kind {
            0 => drive!(c, ["lb-exact", "lb-heuristic", "lb-fixing", "lb-baseline"], td, smooth, &graph, &spot, spot.forward_potential(), &js),
            1 => {
                let b = block_reporting();
                let mut pot = IntervalMinPotential::new(&cch, pot_data(), smooth.borrowed(), &graph);
                store!(pot);
                if stored {
                    pot = cch.reconstruct_from(&dir).map_err(|e| e.to_string())?;
                    c.ev("im-loaded");
                }
                drop(b);
                drive!(c, ["im-exact", "im-heuristic", "im-fixing", "im-baseline"], td, smooth, &graph, &spot, pot, &js)
            }
            _ => {
                let b = block_reporting();
                let mut pre = MultiMetricPreprocessed::new(&cch, times, &graph, &smooth.borrowed(), reduce);
                store!(pre);
                if stored {
                    pre = cch.reconstruct_from(&dir).map_err(|e| e.to_string())?;
                    c.ev("mm-loaded");
                }
                let pot = MultiMetric::new(pre, &graph);
                drop(b);
                drive!(c, ["mm-exact", "mm-heuristic", "mm-fixing", "mm-baseline"], td, smooth, &graph, &spot, pot, &js)
            }
        }
        return Ok(());
    }
    let now = rush + c.rng.below(HOUR as usize) as u32;
    let live: Vec<Option<(u32, u32)>> = tg
        .f
        .iter()
        .map(|f| {
            if c.rng.chance(2, 3) {
                return None;
            }
            let lo = f.iter().map(|p| p.1).min().unwrap();
            let hi = f.iter().map(|p| p.1).max().unwrap();
            let l = match c.rng.below(4) {
                0 => lo,
                1 => c.rng.range(lo as u64, hi as u64) as u32,
                _ => hi + c.rng.below((5 * hi as usize + 1000).min(HOUR as usize)) as u32,
            };
            Some((l, now + c.rng.below(3 * HOUR as usize) as u32))
        })
        .collect();
    let pg = PessimisticLiveTDGraph::new(graph.clone(), live.iter().map(|l| InRangeOption::new(*l)).collect());
    let eval = |e: u32, t: u64| pg.eval(e, t as u32) as u64;
    let desc = format!("{} now {} live {:?}", desc, now, live);
    let js = judges(c, &tg.g, &rows, &eval, tiny, now, true, tol, (kind != 1, kind != 1, kind == 1), &tg, &desc);
    if kind == 1 {
        let b = block_reporting();
        let mut pot = IntervalMinPotential::new_for_simple_live(&cch, pot_data(), &pg, now, smooth.borrowed());
        store!(pot);
        if stored {
            pot = cch.reconstruct_from(&dir).map_err(|e| e.to_string())?;
            c.ev("im-loaded");
        }
        drop(b);
        drive!(c, ["live-im-exact", "live-im-heuristic", "live-im-fixing", "live-im-baseline"], td_live, smooth, &pg, &spot, pot, &js)
    } else {
        drive!(c, ["live-lb-exact", "live-lb-heuristic", "live-lb-fixing", "live-lb-baseline"], td_live, smooth, &pg, &spot, spot.forward_potential(), &js)
    }
    Ok(())
}
