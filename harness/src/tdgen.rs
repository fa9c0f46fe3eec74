//! Time-dependent workload generators and reference semantics.
use crate::{gen::*, Case, Rng};
use rust_road_router::datastr::graph::time_dependent::TDGraph;

pub const P: u32 = 86_400_000;

/// A travel time function as its normalised list of interpolation points: a single point (constant) or from 0 to P with equal end values.
pub type F = Vec<(u32, u32)>;

#[derive(Clone, Debug)]
pub struct TG {
    pub g: G,
    pub f: Vec<F>,
    /// raw arrays as they would be stored on disk
    pub first_ipp: Vec<u32>,
    pub dep: Vec<u32>,
    pub tt: Vec<u32>,
}

#[derive(Clone, Copy)]
pub struct TdOpt {
    pub g: Opt,
    /// no edge with slope of exactly -1
    pub strict: bool,
    pub max_pts: usize,
}

impl TG {
    pub fn graph(&self) -> TDGraph {
        TDGraph::new(self.g.first_out(), self.g.heads(), self.first_ipp.clone(), self.dep.clone(), self.tt.clone())
    }
    pub fn floating(&self) -> rust_road_router::datastr::graph::floating_time_dependent::TDGraph {
        rust_road_router::datastr::graph::floating_time_dependent::TDGraph::new(self.g.first_out(), self.g.heads(), self.first_ipp.clone(), self.dep.clone(), self.tt.clone())
    }
    pub fn m(&self) -> usize {
        self.f.len()
    }
    pub fn describe(&self) -> String {
        if self.g.m() <= 16 || std::env::var_os("VH_FULL").is_some() {
            format!("{} f={:?}", self.g.describe(), self.f)
        } else {
            self.g.describe()
        }
    }
    pub fn fingerprint(&self) -> u64 {
        crate::hash64(&[self.g.fingerprint(), crate::hash_u32s(&self.dep), crate::hash_u32s(&self.tt)])
    }
}

/// exact value at t as a rational (numerator, denominator)
pub fn exact(f: &F, t: u64) -> (i128, i128) {
    if f.len() == 1 {
        return (f[0].1 as i128, 1);
    }
    let t = (t % P as u64) as u32;
    let i = f.partition_point(|p| p.0 <= t) - 1;
    let (a, b) = (f[i], f[(i + 1).min(f.len() - 1)]);
    if a.0 == t || i + 1 == f.len() {
        return (a.1 as i128, 1);
    }
    let dx = (b.0 - a.0) as i128;
    (a.1 as i128 * dx + (t - a.0) as i128 * (b.1 as i128 - a.1 as i128), dx)
}
/// seconds
pub fn exact_f64(f: &F, t_ms: f64) -> f64 {
    if f.len() == 1 {
        return f[0].1 as f64 / 1000.0;
    }
    let t = t_ms.rem_euclid(P as f64);
    let i = (f.partition_point(|p| p.0 as f64 <= t)).max(1) - 1;
    let i = i.min(f.len() - 2);
    let (a, b) = (f[i], f[i + 1]);
    let x = (t - a.0 as f64) / (b.0 as f64 - a.0 as f64);
    (a.1 as f64 + x * (b.1 as f64 - a.1 as f64)) / 1000.0
}

/// make a normalised function FIFO
fn fifo(f: &mut F, strict: bool) {
    loop {
        let mut changed = false;
        if strict {
            // realistic functions rise at most by 3 seconds per second
            for i in 0..f.len() - 1 {
                let max = f[i].1 + 3 * (f[i + 1].0 - f[i].0);
                if f[i + 1].1 > max {
                    f[i + 1].1 = max;
                    changed = true;
                }
            }
        }
        for i in (0..f.len() - 1).rev() {
            let gap = f[i + 1].0 - f[i].0;
            let gap = if strict { gap - gap.min(1 + gap / 10) } else { gap };
            if f[i].1 > f[i + 1].1 + gap {
                f[i].1 = f[i + 1].1 + gap;
                changed = true;
            }
        }
        let k = f.len() - 1;
        if f[k].1 != f[0].1 {
            f[k].1 = f[0].1.min(f[k].1);
            f[0].1 = f[k].1;
            changed = true;
        }
        if !changed {
            return;
        }
    }
}

pub fn function(rng: &mut Rng, base: u32, style: usize, o: &TdOpt) -> (F, bool) {
    if rng.chance(1, 3) || style == 0 && rng.chance(1, 2) {
        return (vec![(0, base)], false);
    }
    let k = 1 + rng.below(o.max_pts);
    let amp = match style {
        0 | 1 => base as u64 / 2 + 20,
        2 => 600_000,
        3 => base as u64 * 2 + 5,
        _ => 100_000,
    };
    let half_hour = P / 48;
    let mut xs: Vec<u32> = match rng.below(4) {
        0 => (0..k).map(|_| rng.below(48) as u32 * half_hour).collect(),
        1 => {
            let c = rng.below(P as usize) as u32;
            (0..k).map(|_| (c + rng.below(2_000_000) as u32) % P).collect()
        }
        2 => (0..k).map(|_| rng.below(60) as u32 + *rng.pick(&[0u32, P - 61, 1000])).collect(),
        _ => (0..k).map(|_| rng.below(P as usize) as u32).collect(),
    };
    if o.strict {
        // at least ten seconds between two points
        for x in &mut xs {
            *x -= *x % 10_000;
        }
    }
    xs.retain(|&x| x != 0);
    xs.sort_unstable();
    xs.dedup();
    let v = |rng: &mut Rng| {
        if rng.chance(1, 3) {
            base
        } else {
            (base as u64 + rng.range(0, amp)) as u32
        }
    };
    let omit0 = rng.chance(1, 2) && !xs.is_empty();
    let v0 = v(rng);
    let mut f = vec![(0, v0)];
    for (i, x) in xs.into_iter().enumerate() {
        let y = if i == 0 && omit0 { v0 } else { v(rng) };
        f.push((x, y));
    }
    f.push((P, v0));
    fifo(&mut f, o.strict);
    let omit0 = omit0 && f.len() > 3 && f[0].1 == f[1].1;
    (f, omit0)
}

pub fn td_graph(c: &mut Case, o: &TdOpt) -> TG {
    let mut g = graph(c, &o.g);
    let rng = &mut c.rng;
    // keep everything clearly below one period
    let cap = *rng.pick(&[20u32, 2_000, 200_000, 200_000]);
    let w: Vec<u32> = g.weights().iter().map(|&w| if o.g.zero { w % cap } else { w % cap + 1 }).collect();
    g.set_weights(&w);
    let style = rng.below(5);
    let (mut fs, mut first_ipp, mut dep, mut tt) = (Vec::new(), vec![0], Vec::new(), Vec::new());
    let mut lower = Vec::new();
    for &b in &w {
        let (f, omit0) = function(rng, b, style, o);
        let mut raw = f.clone();
        if f.len() == 1 {
            if rng.chance(1, 3) {
                raw[0].0 = rng.below(P as usize) as u32;
            }
        } else {
            if omit0 {
                raw.remove(0);
            }
            // the last point may be implied, but two raw points have to remain for a non constant function
            if rng.chance(1, 2) && raw.len() > 2 {
                raw.pop();
            }
        }
        for p in raw {
            dep.push(p.0);
            tt.push(p.1);
        }
        first_ipp.push(dep.len() as u32);
        lower.push(f.iter().map(|p| p.1).min().unwrap());
        fs.push(f);
    }
    g.set_weights(&lower);
    TG { g, f: fs, first_ipp, dep, tt }
}

/// network with the given normalised functions, the weights of the graph have to be their minima
pub fn from_functions(g: G, f: Vec<F>) -> TG {
    let (mut first_ipp, mut dep, mut tt) = (vec![0], Vec::new(), Vec::new());
    for f in &f {
        dep.extend(f.iter().map(|p| p.0));
        tt.extend(f.iter().map(|p| p.1));
        first_ipp.push(dep.len() as u32);
    }
    TG { g, f, first_ipp, dep, tt }
}

/// times around interesting instants
pub fn instant(rng: &mut Rng, tg: &TG, days: u32) -> u32 {
    let t = match rng.below(5) {
        0 if tg.m() > 0 => {
            let f = rng.pick(&tg.f).clone();
            let p = rng.pick(&f).0;
            (p + rng.below(5) as u32 + P - 2) % P
        }
        1 => rng.below(48) as u32 * (P / 48),
        2 => *rng.pick(&[0, 1, P - 1, P / 2]),
        _ => rng.below(P as usize) as u32,
    };
    t + rng.below(days as usize) as u32 * P
}

/// earliest arrivals from s departing at t0 for FIFO edge costs; None = unreachable
pub fn ea(g: &G, s: u32, t0: u64, eval: &dyn Fn(u32, u64) -> Option<u64>) -> Vec<Option<u64>> {
    let fo = g.first_out();
    let mut d = vec![None; g.n];
    let mut done = vec![false; g.n];
    let mut q = std::collections::BinaryHeap::new();
    d[s as usize] = Some(t0);
    q.push((std::cmp::Reverse(t0), s));
    while let Some((std::cmp::Reverse(t), u)) = q.pop() {
        if done[u as usize] {
            continue;
        }
        done[u as usize] = true;
        for (i, &(v, _)) in g.adj[u as usize].iter().enumerate() {
            if let Some(w) = eval(fo[u as usize] + i as u32, t) {
                let a = t + w;
                if d[v as usize].map_or(true, |x| a < x) {
                    d[v as usize] = Some(a);
                    q.push((std::cmp::Reverse(a), v));
                }
            }
        }
    }
    d
}

/// walk a node path greedily over the fastest parallel edge; returns the arrival time
pub fn walk(g: &G, path: &[u32], t0: u64, eval: &dyn Fn(u32, u64) -> Option<u64>) -> Result<u64, String> {
    let fo = g.first_out();
    let mut t = t0;
    for w in path.windows(2) {
        if w[0] as usize >= g.n {
            return Err(format!("node {} out of range", w[0]));
        }
        let best = g.adj[w[0] as usize].iter().enumerate().filter(|(_, e)| e.0 == w[1]).filter_map(|(i, _)| eval(fo[w[0] as usize] + i as u32, t)).min();
        match best {
            Some(b) => t += b,
            None => return Err(format!("path uses missing edge {}->{}: {:?}", w[0], w[1], path)),
        }
    }
    Ok(t)
}
pub fn check_td_path(g: &G, path: &[u32], s: u32, t: u32, dep: u64, tt: u64, eval: &dyn Fn(u32, u64) -> Option<u64>) -> Result<(), String> {
    if path.first() != Some(&s) || path.last() != Some(&t) {
        return Err(format!("path {:?} does not lead from {} to {}", path, s, t));
    }
    let arr = walk(g, path, dep, eval)?;
    if arr != dep + tt {
        return Err(format!("path {:?} departing {} takes {} but {} was reported", path, dep, arr - dep, tt));
    }
    Ok(())
}
