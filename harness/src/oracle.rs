//! Reference models. Deliberately naive and written without looking at the engine's structures.
use crate::gen::G;
use crate::INF;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// distances from s; None = unreachable (edges with weight >= INF are closed)
pub fn sssp(g: &G, s: u32) -> Vec<Option<u64>> {
    let mut d = vec![None; g.n];
    let mut q = BinaryHeap::new();
    d[s as usize] = Some(0u64);
    q.push(Reverse((0u64, s)));
    while let Some(Reverse((x, u))) = q.pop() {
        if d[u as usize] != Some(x) {
            continue;
        }
        for &(v, w) in &g.adj[u as usize] {
            if w >= INF {
                continue;
            }
            let nd = x + u64::from(w);
            if d[v as usize].map_or(true, |o| nd < o) {
                d[v as usize] = Some(nd);
                q.push(Reverse((nd, v)));
            }
        }
    }
    // distances that do not fit below the engine's infinity count as unreachable
    for x in d.iter_mut() {
        if x.map_or(false, |x| x >= u64::from(INF)) {
            *x = None;
        }
    }
    d
}

pub fn apsp(g: &G) -> Vec<Vec<Option<u64>>> {
    (0..g.n as u32).map(|s| sssp(g, s)).collect()
}

/// minimal length of a node sequence interpreted as a path in g (cheapest parallel edge), None if not a path
pub fn path_len(g: &G, path: &[u32]) -> Option<u64> {
    let mut sum = 0;
    for w in path.windows(2) {
        let (u, v) = (w[0] as usize, w[1]);
        if u >= g.n {
            return None;
        }
        let m = g.adj[u].iter().filter(|&&(x, w)| x == v && w < INF).map(|&(_, w)| u64::from(w)).min()?;
        sum += m;
    }
    Some(sum)
}

/// Monitor for a node path answer.
pub fn check_path(g: &G, path: &[u32], from: u32, to: u32, dist: u64) -> Result<(), String> {
    if path.is_empty() {
        return Err(format!("empty path for {}->{} dist {}", from, to, dist));
    }
    if path[0] != from || path[path.len() - 1] != to {
        return Err(format!("path {:?} does not run from {} to {}", path, from, to));
    }
    match path_len(g, path) {
        None => Err(format!("path {:?} for {}->{} uses a non-existing or closed edge", path, from, to)),
        Some(l) if l != dist => Err(format!("path {:?} for {}->{} has length {} but reported distance {}", path, from, to, l, dist)),
        _ => Ok(()),
    }
}

/// Monitor for an edge path answer (edge ids index the flat arrays of g)
pub fn check_edge_path(g: &G, edges: &[u32], from: u32, to: u32, dist: u64) -> Result<(), String> {
    let (tail, head, weight) = (g.tails(), g.heads(), g.weights());
    let mut cur = from;
    let mut sum = 0u64;
    for &e in edges {
        let e = e as usize;
        if e >= head.len() {
            return Err(format!("edge path of {}->{}: edge id {} out of range", from, to, e));
        }
        if tail[e] != cur {
            return Err(format!("edge path {:?} of {}->{}: edge {} starts at {} not {}", edges, from, to, e, tail[e], cur));
        }
        sum += u64::from(weight[e]);
        cur = head[e];
    }
    if cur != to {
        return Err(format!("edge path {:?} of {}->{} ends at {}", edges, from, to, cur));
    }
    if sum != dist {
        return Err(format!("edge path {:?} of {}->{} has length {} but reported distance {}", edges, from, to, sum, dist));
    }
    Ok(())
}
