//! Brute-force oracles and instance generators.
use rand::prelude::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

/// a multigraph as a plain arc list
#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub arcs: Vec<(u32, u32, u32)>,
}

pub const INF: u32 = INFINITY;

impl G {
    pub fn new(n: usize, arcs: Vec<(u32, u32, u32)>) -> Self {
        // grouped by tail, keeping the order within a tail: the arc with index i has id i
        let mut arcs = arcs;
        arcs.sort_by_key(|a| a.0);
        G { n, arcs }
    }
    pub fn first_out(&self) -> Vec<u32> {
        let mut fo = vec![0u32; self.n + 1];
        for a in &self.arcs {
            fo[a.0 as usize + 1] += 1;
        }
        for i in 0..self.n {
            fo[i + 1] += fo[i];
        }
        fo
    }
    pub fn head(&self) -> Vec<u32> {
        self.arcs.iter().map(|a| a.1).collect()
    }
    pub fn weight(&self) -> Vec<u32> {
        self.arcs.iter().map(|a| a.2).collect()
    }
    pub fn owned(&self) -> OwnedGraph {
        OwnedGraph::new(self.first_out(), self.head(), self.weight())
    }
    pub fn unweighted(&self) -> UnweightedOwnedGraph {
        UnweightedOwnedGraph::new(self.first_out(), self.head())
    }
    pub fn lists(&self) -> Vec<Vec<(u32, u32)>> {
        let mut l = vec![vec![]; self.n];
        for a in &self.arcs {
            l[a.0 as usize].push((a.1, a.2));
        }
        l
    }
    pub fn rev(&self) -> G {
        G::new(self.n, self.arcs.iter().map(|&(u, v, w)| (v, u, w)).collect())
    }
    pub fn desc(&self) -> String {
        format!("n={} arcs(tail,head,weight)={:?}", self.n, self.arcs)
    }
    /// shortest distance from `s` to everything (INF: none), by repeated relaxation
    pub fn dist_from(&self, s: u32) -> Vec<u32> {
        let mut d = vec![u64::MAX / 4; self.n];
        d[s as usize] = 0;
        loop {
            let mut changed = false;
            for &(u, v, w) in &self.arcs {
                if w >= INF {
                    continue;
                }
                let c = d[u as usize] + w as u64;
                if c < d[v as usize] {
                    d[v as usize] = c;
                    changed = true;
                }
            }
            if !changed {
                return d.into_iter().map(|x| if x < INF as u64 { x as u32 } else { INF }).collect();
            }
        }
    }
    pub fn all_dists(&self) -> Vec<Vec<u32>> {
        (0..self.n as u32).map(|s| self.dist_from(s)).collect()
    }
    /// cheapest arc from u to v
    pub fn arc(&self, u: u32, v: u32) -> Option<u32> {
        self.arcs.iter().filter(|a| a.0 == u && a.1 == v).map(|a| a.2).min()
    }
    /// is `p` a node path from s to t whose cheapest realisation has length `len`?
    pub fn check_path(&self, p: &[u32], s: u32, t: u32, len: u32) -> Result<(), String> {
        if p.first() != Some(&s) || p.last() != Some(&t) {
            return Err(format!("path {:?} does not lead from {} to {}", p, s, t));
        }
        let mut sum = 0u64;
        for w in p.windows(2) {
            match self.arc(w[0], w[1]) {
                Some(x) => sum += x as u64,
                None => return Err(format!("path {:?} uses {} -> {}, which is not an arc", p, w[0], w[1])),
            }
        }
        if sum != len as u64 {
            return Err(format!("path {:?} has length {}, reported {}", p, sum, len));
        }
        Ok(())
    }
}

pub fn opt(d: u32) -> Option<u32> {
    if d < INF {
        Some(d)
    } else {
        None
    }
}

fn weight(rng: &mut StdRng, style: u32) -> u32 {
    match style {
        0 => rng.gen_range(0..3),
        1 => rng.gen_range(1..10),
        2 => rng.gen_range(0..1000),
        3 => 1,
        4 => *[0, 1, 1, 2, 50, 1000].choose(rng).unwrap(),
        _ => rng.gen_range(1..1_000_000),
    }
}

/// a random multigraph out of several families (paths, trees, cycles, grids, dense, disconnected, with loops and parallel arcs)
pub fn random_graph(rng: &mut StdRng, max_n: usize) -> G {
    let n = rng.gen_range(1..=max_n.max(1));
    random_graph_n(rng, n)
}
pub fn random_graph_n(rng: &mut StdRng, n: usize) -> G {
    let style = rng.gen_range(0..6);
    let mut arcs: Vec<(u32, u32, u32)> = vec![];
    let node = |rng: &mut StdRng| rng.gen_range(0..n) as u32;
    match rng.gen_range(0..9) {
        // uniform sparse
        0 | 1 => {
            for _ in 0..rng.gen_range(0..=3 * n) {
                let (u, v) = (node(rng), node(rng));
                arcs.push((u, v, weight(rng, style)));
            }
        }
        // dense
        2 => {
            for _ in 0..(n * n).min(400) {
                let (u, v) = (node(rng), node(rng));
                arcs.push((u, v, weight(rng, style)));
            }
        }
        // bidirectional random tree plus extra edges
        3 | 4 => {
            for v in 1..n as u32 {
                let u = rng.gen_range(0..v);
                let w = weight(rng, style);
                arcs.push((u, v, w));
                arcs.push((v, u, if rng.gen_bool(0.7) { w } else { weight(rng, style) }));
            }
            for _ in 0..rng.gen_range(0..=n) {
                let (u, v) = (node(rng), node(rng));
                let w = weight(rng, style);
                arcs.push((u, v, w));
                if rng.gen_bool(0.5) {
                    arcs.push((v, u, w));
                }
            }
        }
        // grid like
        5 => {
            let k = ((n as f64).sqrt() as usize).max(1);
            for i in 0..n {
                if (i + 1) % k != 0 && i + 1 < n {
                    arcs.push((i as u32, i as u32 + 1, weight(rng, style)));
                    arcs.push((i as u32 + 1, i as u32, weight(rng, style)));
                }
                if i + k < n {
                    arcs.push((i as u32, (i + k) as u32, weight(rng, style)));
                    arcs.push(((i + k) as u32, i as u32, weight(rng, style)));
                }
            }
        }
        // directed cycle with chords
        6 => {
            for i in 0..n {
                arcs.push((i as u32, ((i + 1) % n) as u32, weight(rng, style)));
            }
            for _ in 0..n / 3 {
                let (u, v) = (node(rng), node(rng));
                arcs.push((u, v, weight(rng, style)));
            }
        }
        // path with dead ends, both directions
        7 => {
            for v in 1..n as u32 {
                let u = if rng.gen_bool(0.7) { v - 1 } else { rng.gen_range(0..v) };
                arcs.push((u, v, weight(rng, style)));
                if rng.gen_bool(0.9) {
                    arcs.push((v, u, weight(rng, style)));
                }
            }
        }
        // arcs among a part of the nodes only: isolated nodes at the ends and in between
        _ => {
            let m = rng.gen_range(0..=n);
            let mut some: Vec<u32> = (0..n as u32).collect();
            some.shuffle(rng);
            some.truncate(m);
            if m > 0 {
                for _ in 0..rng.gen_range(0..=3 * m) {
                    let (u, v) = (*some.choose(rng).unwrap(), *some.choose(rng).unwrap());
                    arcs.push((u, v, weight(rng, style)));
                }
            }
        }
    }
    // parallel arcs and self loops
    if rng.gen_bool(0.3) && !arcs.is_empty() {
        for _ in 0..rng.gen_range(0..4) {
            let a = *arcs.choose(rng).unwrap();
            arcs.push((a.0, a.1, weight(rng, style)));
        }
        let v = node(rng);
        arcs.push((v, v, weight(rng, style)));
    }
    // relabel, and shuffle the order of the arcs of a node
    if rng.gen_bool(0.7) {
        let p = permutation(rng, n);
        for a in arcs.iter_mut() {
            *a = (p[a.0 as usize], p[a.1 as usize], a.2);
        }
    }
    arcs.shuffle(rng);
    G::new(n, arcs)
}

pub fn permutation(rng: &mut StdRng, n: usize) -> Vec<u32> {
    let mut p: Vec<u32> = (0..n as u32).collect();
    match rng.gen_range(0..6) {
        0 => {}
        1 => p.reverse(),
        _ => p.shuffle(rng),
    }
    p
}
pub fn random_order(rng: &mut StdRng, n: usize) -> NodeOrder {
    NodeOrder::from_node_order(permutation(rng, n))
}
/// every graph with `n` nodes over the given arc universe, by arc subset number
pub fn subset_graph(n: usize, universe: &[(u32, u32, u32)], pat: u64) -> G {
    G::new(n, universe.iter().enumerate().filter(|(i, _)| pat >> i & 1 == 1).map(|(_, a)| *a).collect())
}
pub fn permutations(n: usize) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u32 - 1);
            out.push(q);
        }
    }
    out
}
/// arcs of a graph in its own iteration order
pub fn arcs_of<F: AsRef<[EdgeId]>, H: AsRef<[NodeId]>, W: AsRef<[Weight]>>(g: &FirstOutGraph<F, H, W>) -> Vec<(u32, u32, u32)> {
    let mut out = vec![];
    for u in 0..g.num_nodes() as u32 {
        for l in LinkIterable::<Link>::link_iter(g, u) {
            out.push((u, l.node, l.weight));
        }
    }
    out
}
pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// a sequence of queries: all pairs for small graphs (in random order), random ones otherwise, with repetitions
pub fn queries(rng: &mut StdRng, n: usize, max: usize) -> Vec<(u32, u32)> {
    let mut q: Vec<(u32, u32)> = if n * n <= max {
        (0..n as u32).flat_map(|u| (0..n as u32).map(move |v| (u, v))).collect()
    } else {
        (0..max).map(|_| (rng.gen_range(0..n as u32), rng.gen_range(0..n as u32))).collect()
    };
    q.shuffle(rng);
    for _ in 0..3.min(q.len()) {
        let x = *q.choose(rng).unwrap();
        q.push(x);
    }
    q
}
/// closes some arcs (weight INF) or makes some so long that sums pass INF
pub fn with_extremes(rng: &mut StdRng, g: &G) -> G {
    let arcs = g
        .arcs
        .iter()
        .map(|&(u, v, w)| match rng.gen_range(0..10) {
            0 | 1 => (u, v, INF),
            2 => (u, v, INF - 1),
            3 => (u, v, INF / 2 + 1),
            4 => (u, v, INF / 2),
            _ => (u, v, w),
        })
        .collect();
    G::new(g.n, arcs)
}
