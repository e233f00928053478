//! potentials defined by the harness: exact distances under a smaller metric are feasible, admissible and zero at the target
use crate::oracle::*;
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

#[derive(Clone)]
pub struct Feasible {
    /// d[t][v]: distance v -> t in the reduced metric
    d: Vec<Vec<u32>>,
    target: usize,
}

impl Feasible {
    pub fn new(rng: &mut StdRng, g: &G) -> Self {
        let style = rng.gen_range(0..4);
        let r = G::new(
            g.n,
            g.arcs
                .iter()
                .map(|&(u, v, w)| {
                    (
                        v,
                        u,
                        if w >= INF {
                            w
                        } else {
                            match style {
                                0 => w,
                                1 => rng.gen_range(0..=w),
                                2 => if rng.gen_bool(0.5) { w } else { 0 },
                                _ => w / 2,
                            }
                        },
                    )
                })
                .collect(),
        );
        Feasible { d: r.all_dists(), target: usize::MAX }
    }
    pub fn bound(&self, v: u32, t: u32) -> u32 {
        self.d[t as usize][v as usize]
    }
}
impl Potential for Feasible {
    fn init(&mut self, target: NodeId) {
        self.target = target as usize;
    }
    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        opt(self.d[self.target][node as usize])
    }
}

pub fn forward<P: Potential>(name: &str, g: &G, d: &[Vec<u32>], qs: &[(u32, u32)], pot: P) -> Result<(), String> {
    let mut s = Server::<OwnedGraph, DefaultOps, P>::with_potential(g.owned(), pot);
    crate::check_dists!(format!("A* with {}", name), s, d, qs);
    Ok(())
}

pub fn forward_paths<P: Potential>(name: &str, g: &G, qs: &[(u32, u32)], pot: P) -> Result<(), String> {
    let mut s = Server::<OwnedGraph, DefaultOps, P>::with_potential(g.owned(), pot);
    crate::check_node_paths!(format!("A* with {}", name), s, g, qs);
    Ok(())
}

pub fn bidir<P: BiDirPotential, D: BidirChooseDir>(name: &str, g: &G, d: &[Vec<u32>], qs: &[(u32, u32)], caps: u64, pot: P) -> Result<(), String> {
    let mut s = bidirectional_dijkstra::Server::<_, _, P, D>::new_with_potentials(g.owned(), pot);
    let name = format!("bidirectional with {}, {}", name, D::strategy_key());
    crate::check_dists!(name, s, d, qs);
    // a cap: below it the answer is exact, otherwise it may be given up but never be too small
    let mut rng = StdRng::seed_from_u64(caps);
    for &(a, b) in qs.iter().take(20) {
        let x = d[a as usize][b as usize];
        let cap = *[x, x.saturating_sub(1), x.saturating_add(1).min(INF), x / 2, x.saturating_mul(2).min(INF), 0, 5].choose(&mut rng).unwrap();
        let r = s.distance_with_cap(a, b, cap, |_, _, _| ());
        if x < cap {
            crate::ensure_eq!(r, Some(x), "{}: {} -> {} capped at {}", name, a, b, cap);
        } else {
            crate::ensure!(r.map_or(true, |r| r >= x), "{}: {} -> {} capped at {}: {:?} is below the distance {}", name, a, b, cap, r, x);
        }
    }
    let again: Vec<(u32, u32)> = qs.iter().rev().take(10).copied().collect();
    crate::check_dists!(name, s, d, again);
    Ok(())
}

pub fn bidir_paths<P: BiDirPotential, D: BidirChooseDir>(name: &str, g: &G, qs: &[(u32, u32)], pot: P) -> Result<(), String> {
    let mut s = bidirectional_dijkstra::Server::<_, _, P, D>::new_with_potentials(g.owned(), pot);
    crate::check_node_paths!(format!("bidirectional with {}, {}", name, D::strategy_key()), s, g, qs);
    Ok(())
}
