//! Monitor of searches on turn expanded graphs.
use crate::{drive, ensure, ensure_eq, gen, gen::G, oracle, Case, INF, R};
use rust_road_router::algo::{a_star::*, ch_potentials::{query as pq, *}, dijkstra::*, *};
use rust_road_router::algo::dijkstra::query::{bidirectional_dijkstra::Server as Bidir, dijkstra::Server as Dijkstra, disconnected_targets::CatchDisconnectedTarget};
use rust_road_router::datastr::graph::*;

/// Queries between edges with turn costs and forbidden turns, where potentials come from the graph without turns
pub fn turn_expanded(c: &mut Case, g: &G, graph: &OwnedGraph, lbpot: &CCHPotData, topo: bool) -> R {
    let (fo, heads, weights) = (g.first_out(), g.heads(), g.weights());
    let seed = c.rng.u64();
    let free = c.rng.chance(1, 2);
    let forbid = 2 + c.rng.below(6) as u64;
    let tails = g.tails();
    let turn = |e: u32, f: u32| {
        let h = crate::hash64(&[seed, e as u64, f as u64]);
        if weights[e as usize] >= INF || h % forbid == 0 || tails[e as usize] == heads[f as usize] {
            None
        } else {
            Some(if free { 0 } else { (h >> 20) as u32 % 100 })
        }
    };
    let adj: Vec<Vec<(u32, u32)>> = (0..g.m() as u32)
        .map(|e| {
            let h = heads[e as usize] as usize;
            (fo[h]..fo[h + 1]).filter_map(|f| turn(e, f).map(|t| (f, weights[e as usize] + t))).collect()
        })
        .collect();
    let l = G { n: g.m(), adj, kind: "turn expanded" };
    if l.adj.iter().enumerate().all(|(e, a)| a.iter().all(|x| x.0 as usize == e)) {
        return Ok(());
    }
    let exp = line_graph(graph, turn);
    let rows = oracle::apsp(&l);
    let qs = gen::queries(&mut c.rng, l.n, 8);
    let fw = || TurnExpandedPotential::new(graph, lbpot.forward_potential());
    let bw = || TurnExpandedPotential::new(graph, lbpot.backward_potential());
    if topo {
        let s: pq::Server<OwnedGraph, DefaultOps, _, true, true, true> = pq::Server::new_custom(&exp, fw(), DefaultOps::default());
        let mut s = CatchDisconnectedTarget::new(s, &exp);
        drive!(c, "turns-topo", s, l, rows, qs);
        let mut s: pq::BiDirServer<_, AlternatingDirs> = pq::BiDirServer::new(&exp, SymmetricBiDirPotential::<_, _>::new(fw(), bw()));
        drive!(c, "turns-topo-bidir", s, l, rows, qs);
    }
    let mut s = Dijkstra::<OwnedGraph, DefaultOps, _>::with_potential(exp.clone(), fw());
    drive!(c, "turns-astar", s, l, rows, qs);
    let mut s: Bidir<OwnedGraph, OwnedGraph, _, ChooseMinKeyDir> = Bidir::new_with_potentials(exp.clone(), AveragePotential::<_, _>::new(fw(), bw()));
    drive!(c, "turns-bidir-astar", s, l, rows, qs);
    Ok(())
}

