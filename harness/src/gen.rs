//! Workload generators.
use crate::{Case, Rng, INF};

/// Plain adjacency representation used by generators and oracles. Edge ids are the flattened positions.
#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub adj: Vec<Vec<(u32, u32)>>,
    pub kind: &'static str,
}

impl G {
    pub fn m(&self) -> usize {
        self.adj.iter().map(Vec::len).sum()
    }
    pub fn first_out(&self) -> Vec<u32> {
        let mut f = vec![0];
        for a in &self.adj {
            f.push(f.last().unwrap() + a.len() as u32);
        }
        f
    }
    pub fn heads(&self) -> Vec<u32> {
        self.adj.iter().flatten().map(|e| e.0).collect()
    }
    pub fn tails(&self) -> Vec<u32> {
        self.adj.iter().enumerate().flat_map(|(u, a)| std::iter::repeat(u as u32).take(a.len())).collect()
    }
    pub fn weights(&self) -> Vec<u32> {
        self.adj.iter().flatten().map(|e| e.1).collect()
    }
    pub fn set_weights(&mut self, w: &[u32]) {
        let mut i = 0;
        for a in &mut self.adj {
            for e in a {
                e.1 = w[i];
                i += 1;
            }
        }
    }
    pub fn owned(&self) -> rust_road_router::datastr::graph::OwnedGraph {
        rust_road_router::datastr::graph::OwnedGraph::new(self.first_out(), self.heads(), self.weights())
    }
    pub fn reversed(&self) -> G {
        let mut adj = vec![Vec::new(); self.n];
        for (u, a) in self.adj.iter().enumerate() {
            for &(v, w) in a {
                adj[v as usize].push((u as u32, w));
            }
        }
        G { n: self.n, adj, kind: self.kind }
    }
    pub fn fingerprint(&self) -> u64 {
        let mut v = self.first_out();
        v.extend(self.heads());
        v.extend(self.weights());
        crate::hash_u32s(&v)
    }
    pub fn describe(&self) -> String {
        if self.m() <= 24 || std::env::var_os("VH_FULL").is_some() {
            format!("{} n={} adj={:?}", self.kind, self.n, self.adj)
        } else {
            format!("{} n={} m={} fp={:x}", self.kind, self.n, self.m(), self.fingerprint())
        }
    }
    pub fn sort_adj(&mut self) {
        for a in &mut self.adj {
            a.sort();
        }
    }
    pub fn from_edges(n: usize, edges: &[(u32, u32, u32)], kind: &'static str) -> G {
        let mut adj = vec![Vec::new(); n];
        for &(u, v, w) in edges {
            adj[u as usize].push((v, w));
        }
        G { n, adj, kind }
    }
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub min_n: usize,
    pub max_n: usize,
    pub zero: bool,
    pub inf: bool,
    pub loops: bool,
    pub parallel: bool,
    pub min_m: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { min_n: 1, max_n: 60, zero: true, inf: true, loops: true, parallel: true, min_m: 0 }
    }
}

fn both(e: &mut Vec<(u32, u32)>, rng: &mut Rng, u: usize, v: usize, oneway: u64) {
    if rng.chance(oneway, 100) {
        if rng.chance(1, 2) {
            e.push((u as u32, v as u32))
        } else {
            e.push((v as u32, u as u32))
        }
    } else {
        e.push((u as u32, v as u32));
        e.push((v as u32, u as u32));
    }
}

/// Random topology as a directed edge list
pub fn topology(rng: &mut Rng, n: usize) -> (Vec<(u32, u32)>, &'static str) {
    let mut e = Vec::new();
    let oneway = *rng.pick(&[0u64, 10, 30, 60]);
    let kind = match rng.below(12) {
        0 => {
            for v in 1..n {
                let u = rng.below(v);
                both(&mut e, rng, u, v, oneway);
            }
            "tree"
        }
        1 => {
            for v in 1..n {
                both(&mut e, rng, v - 1, v, oneway);
            }
            if n > 2 && rng.chance(1, 2) {
                both(&mut e, rng, n - 1, 0, oneway);
            }
            "path/cycle"
        }
        2 | 3 | 4 => {
            // road-like grid with holes and shortcuts
            let w = 1 + rng.below(((n as f64).sqrt() as usize * 2).max(1));
            for v in 0..n {
                if v % w + 1 < w && v + 1 < n && rng.chance(88, 100) {
                    both(&mut e, rng, v, v + 1, oneway);
                }
                if v + w < n && rng.chance(88, 100) {
                    both(&mut e, rng, v, v + w, oneway);
                }
            }
            for _ in 0..rng.below(1 + n / 10) {
                let (u, v) = (rng.below(n), rng.below(n));
                both(&mut e, rng, u, v, oneway);
            }
            "grid"
        }
        5 | 6 => {
            // sparse core with subdivided edges and pendant trees: exercises degree 1/2 chains
            let core = (n / 3).max(1);
            let mut pairs = Vec::new();
            for v in 1..core {
                pairs.push((rng.below(v), v));
            }
            for _ in 0..core / 2 + 1 {
                pairs.push((rng.below(core), rng.below(core)));
            }
            let mut next = core;
            for (u, v) in pairs {
                let mut prev = u;
                let k = rng.below(4);
                for _ in 0..k {
                    if next >= n {
                        break;
                    }
                    both(&mut e, rng, prev, next, oneway / 3);
                    prev = next;
                    next += 1;
                }
                both(&mut e, rng, prev, v, oneway / 3);
            }
            while next < n {
                let u = rng.below(next);
                both(&mut e, rng, u, next, oneway / 3);
                next += 1;
            }
            "chains"
        }
        7 => {
            // several components
            let k = 2 + rng.below(3);
            for _ in 0..2 * n {
                let (u, v) = (rng.below(n), rng.below(n));
                if u % k == v % k {
                    both(&mut e, rng, u, v, oneway);
                }
            }
            "components"
        }
        8 => {
            for v in 1..n {
                both(&mut e, rng, 0, v, oneway);
            }
            for _ in 0..rng.below(n + 1) {
                let (u, v) = (rng.below(n), rng.below(n));
                both(&mut e, rng, u, v, oneway);
            }
            "star"
        }
        9 => {
            // dense
            let k = n.min(14);
            for u in 0..k {
                for v in 0..k {
                    if u != v && rng.chance(70, 100) {
                        e.push((u as u32, v as u32));
                    }
                }
            }
            for v in k..n {
                let u = rng.below(v);
                both(&mut e, rng, u, v, oneway);
            }
            "dense"
        }
        10 => {
            // two clusters joined by few bridges
            let h = (n / 2).max(1);
            for _ in 0..3 * n / 2 {
                let a = rng.below(h);
                let b = rng.below(h);
                both(&mut e, rng, a, b, oneway);
                if n > h {
                    let a = h + rng.below(n - h);
                    let b = h + rng.below(n - h);
                    both(&mut e, rng, a, b, oneway);
                }
            }
            if n > h {
                for _ in 0..1 + rng.below(3) {
                    let (u, v) = (rng.below(h), h + rng.below(n - h));
                    both(&mut e, rng, u, v, oneway);
                }
            }
            "clusters"
        }
        _ => {
            let m = rng.below(4 * n + 1);
            for _ in 0..m {
                e.push((rng.below(n) as u32, rng.below(n) as u32));
            }
            "random"
        }
    };
    (e, kind)
}

pub fn weight_fn(rng: &mut Rng, n: usize, o: &Opt) -> impl Fn(&mut Rng) -> u32 {
    let dist = rng.below(8);
    let zero = o.zero && rng.chance(1, 3);
    let inf = if o.inf && rng.chance(1, 3) { *rng.pick(&[3u64, 15, 40]) } else { 0 };
    let big = INF / (n as u32 + 1).max(2) / 2;
    move |rng: &mut Rng| {
        if inf > 0 && rng.chance(inf, 100) {
            return INF;
        }
        let lo = if zero { 0 } else { 1 };
        (match dist {
            0 => rng.range(lo, 3),
            1 => rng.range(lo, 10),
            2 | 3 => rng.range(lo, 100),
            4 | 5 => rng.range(lo, 100_000),
            6 => {
                if rng.chance(1, 8) {
                    u64::from(big)
                } else {
                    rng.range(lo, 1000)
                }
            }
            _ => {
                if zero && rng.chance(1, 3) {
                    0
                } else {
                    rng.range(lo.max(1), 60)
                }
            }
        }) as u32
    }
}

/// Random graph
pub fn graph(c: &mut Case, o: &Opt) -> G {
    loop {
        let n = c.size(o.min_n, o.max_n);
        let rng = &mut c.rng;
        let (mut e, kind) = topology(rng, n);
        if o.parallel && rng.chance(1, 4) && !e.is_empty() {
            for _ in 0..1 + rng.below(e.len().min(10)) {
                let x = *rng.pick(&e);
                e.push(x);
            }
        }
        if o.loops && rng.chance(1, 5) {
            for _ in 0..1 + rng.below(3) {
                let u = rng.below(n) as u32;
                e.push((u, u));
            }
        }
        if !o.loops {
            e.retain(|(u, v)| u != v);
        }
        // relabel nodes so that ids carry no structure
        if rng.chance(3, 4) {
            let p = rng.perm(n);
            for x in &mut e {
                *x = (p[x.0 as usize], p[x.1 as usize]);
            }
        }
        if !o.parallel {
            e.sort();
            e.dedup();
        }
        rng.shuffle(&mut e);
        let wf = weight_fn(rng, n, o);
        // symmetric weights half of the time: pairs sharing endpoints share weight
        let sym = rng.chance(1, 3);
        let mut memo = std::collections::HashMap::new();
        let edges: Vec<(u32, u32, u32)> = e
            .iter()
            .map(|&(u, v)| {
                let w = if sym { *memo.entry((u.min(v), u.max(v))).or_insert_with(|| wf(rng)) } else { wf(rng) };
                (u, v, w)
            })
            .collect();
        let mut g = G::from_edges(n, &edges, kind);
        if rng.chance(1, 2) {
            g.sort_adj();
        }
        if g.m() >= o.min_m {
            return g;
        }
    }
}

/// A query workload: random pairs, biased to repetitions, s=t and pairs from a small pool (stale state shows up there)
pub fn queries(rng: &mut Rng, n: usize, k: usize) -> Vec<(u32, u32)> {
    let pool: Vec<u32> = (0..4).map(|_| rng.below(n) as u32).collect();
    (0..k)
        .map(|_| match rng.below(8) {
            0 => {
                let s = rng.below(n) as u32;
                (s, s)
            }
            1 => (*rng.pick(&pool), *rng.pick(&pool)),
            2 => (*rng.pick(&pool), rng.below(n) as u32),
            _ => (rng.below(n) as u32, rng.below(n) as u32),
        })
        .collect()
}

/// Random elimination orders: random, by degree, or BFS layered
pub fn order(rng: &mut Rng, g: &G) -> (Vec<u32>, &'static str) {
    let n = g.n;
    match rng.below(4) {
        0 | 1 => (rng.perm(n), "random"),
        2 => {
            let mut deg = vec![0usize; n];
            for (u, a) in g.adj.iter().enumerate() {
                for &(v, _) in a {
                    deg[u] += 1;
                    deg[v as usize] += 1;
                }
            }
            let mut o = rng.perm(n);
            o.sort_by_key(|&v| deg[v as usize]);
            (o, "degree")
        }
        _ => {
            // greedy minimum degree elimination
            let mut nb = vec![std::collections::BTreeSet::new(); n];
            for (u, a) in g.adj.iter().enumerate() {
                for &(v, _) in a {
                    if u as u32 != v {
                        nb[u].insert(v);
                        nb[v as usize].insert(u as u32);
                    }
                }
            }
            let mut left = rng.perm(n);
            let mut o = Vec::new();
            while !left.is_empty() {
                let i = (0..left.len()).min_by_key(|&i| nb[left[i] as usize].len()).unwrap();
                let v = left.swap_remove(i);
                let ns: Vec<u32> = nb[v as usize].iter().copied().collect();
                for &a in &ns {
                    nb[a as usize].remove(&v);
                    for &b in &ns {
                        if a != b {
                            nb[a as usize].insert(b);
                        }
                    }
                }
                o.push(v);
            }
            (o, "mindeg")
        }
    }
}
