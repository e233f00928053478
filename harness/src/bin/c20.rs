//! potentials: exact (hierarchies, plain Dijkstra) or admissible and feasible (landmarks), whatever was asked before
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::contraction_hierarchy::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::*;

/// targets and nodes in random order, with repetitions; d(v, t) is the exact answer
fn exact<P: Potential>(name: &str, n: usize, rng: &mut StdRng, mut p: P, d: impl Fn(u32, u32) -> u32) -> Result<(), String> {
    for round in 0..5 {
        let t = rng.gen_range(0..n as u32);
        p.init(t);
        let mut nodes: Vec<u32> = (0..n as u32).chain((0..3).map(|_| rng.gen_range(0..n as u32))).collect();
        nodes.shuffle(rng);
        if rng.gen_bool(0.3) {
            nodes.truncate(3);
        }
        for v in nodes {
            let want = opt(d(v, t));
            let got = p.potential(v);
            ensure!(got == want, "{}: potential of {} to {} (target number {}): got {:?}, the distance is {:?}", name, v, t, round, got, want);
        }
    }
    Ok(())
}

fn admissible<P: Potential>(name: &str, g: &G, rng: &mut StdRng, mut p: P, d: impl Fn(u32, u32) -> u32) -> Result<(), String> {
    let n = g.n;
    for _ in 0..5 {
        let t = rng.gen_range(0..n as u32);
        p.init(t);
        let mut all = vec![None; n];
        let mut nodes: Vec<u32> = (0..n as u32).collect();
        nodes.shuffle(rng);
        for v in nodes {
            let got = p.potential(v);
            let dist = d(v, t);
            ensure!(dist == INF || got.map_or(false, |x| x <= dist), "{}: bound {:?} of {} to {} exceeds the distance {}", name, got, v, t, dist);
            ensure_eq!(p.potential(v), got, "{}: asked again for {} to {}", name, v, t);
            all[v as usize] = got;
        }
        // feasible on the part that reaches the target
        for &(u, v, w) in &g.arcs {
            if d(u, t) < INF && d(v, t) < INF {
                ensure!(all[u as usize].unwrap() as u64 <= w as u64 + all[v as usize].unwrap() as u64, "{}: not feasible to {} on the arc {} -> {} of weight {}: {:?}, {:?}", name, t, u, v, w, all[u as usize], all[v as usize]);
            }
        }
    }
    Ok(())
}

/// the path unpacking potential speaks in ranks
struct Ranked<'a, const B: bool>(CCHPotentialWithPathUnpacking<'a, B>, NodeOrder);
impl<const B: bool> Potential for Ranked<'_, B> {
    fn init(&mut self, t: NodeId) {
        self.0.init(self.1.rank(t))
    }
    fn potential(&mut self, v: NodeId) -> Option<Weight> {
        self.0.potential(self.1.rank(v))
    }
}

/// parents of the path unpacking potential lead along arcs of the input to the target
fn unpacked<const B: bool>(name: &str, g: &G, rng: &mut StdRng, order: &NodeOrder, mut p: CCHPotentialWithPathUnpacking<B>) -> Result<(), String> {
    let n = g.n as u32;
    for round in 0..4 {
        let t = rng.gen_range(0..n);
        let d = g.rev().dist_from(t);
        p.init(order.rank(t));
        for _ in 0..6 {
            let v = rng.gen_range(0..n);
            let want = opt(d[v as usize]);
            ensure_eq!(p.potential(order.rank(v)), want, "{}: potential of {} to {} (target number {})", name, v, t, round);
            if want.is_none() {
                continue;
            }
            p.unpack_path(NodeIdT(order.rank(v)));
            let mut path = vec![v];
            while *path.last().unwrap() != t {
                let next = order.node(p.target_shortest_path_tree()[order.rank(*path.last().unwrap()) as usize].0);
                path.push(next);
                ensure!(path.len() <= g.n, "{}: the unpacked path {:?} of {} to {} does not end", name, path, v, t);
            }
            g.check_path(&path, v, t, want.unwrap()).map_err(|e| format!("{}: {}", name, e))?;
        }
    }
    Ok(())
}

fn check(g: &G, order: &[u32], seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = g.all_dists();
    let o = g.owned();
    let to = |v: u32, t: u32| d[v as usize][t as usize];
    let from = |v: u32, t: u32| d[t as usize][v as usize];
    let n = g.n;

    exact("plain", n, &mut rng, BaselinePotential::new(&o), to)?;
    let cch = CCH::fix_order_and_build(&o, NodeOrder::from_node_order(order.to_vec()));
    let data = CCHPotData::new(&cch, &o);
    exact("customizable hierarchy, forward", n, &mut rng, data.forward_potential(), to)?;
    exact("customizable hierarchy, backward", n, &mut rng, data.backward_potential(), from)?;
    exact("customizable hierarchy, reused", n, &mut rng, RecyclingPotential::new(data.forward_potential()), to)?;
    exact("customizable hierarchy as hierarchy", n, &mut rng, data.ch_forward_potential(), to)?;
    let basic = customize(&cch, &o);
    exact("basic customizable hierarchy", n, &mut rng, BorrowedCCHPot::new_from_customized(&basic), to)?;
    let rank = cch.node_order();
    exact("path unpacking, forward", n, &mut rng, Ranked(data.forward_path_potential(), rank.clone()), to)?;
    exact("path unpacking, backward", n, &mut rng, Ranked(data.backward_path_potential(), rank.clone()), from)?;

    let ord = NodeOrder::from_node_order(order.to_vec());
    // the tree is not unique, and may be cyclic, with arcs of length zero
    if g.arcs.iter().all(|a| a.2 > 0) {
        unpacked("path unpacking, forward", g, &mut rng, rank, data.forward_path_potential())?;
        unpacked("path unpacking, backward", &g.rev(), &mut rng, rank, data.backward_path_potential())?;
    }

    let (fw, bw) = overlay(&o, ord.clone(), n);
    exact("contraction hierarchy, forward", n, &mut rng, CHPotential::new(fw.clone(), bw.clone(), ord.clone()), to)?;
    exact("contraction hierarchy, backward", n, &mut rng, CHPotential::new(bw.clone(), fw.clone(), ord.clone()), from)?;
    let mut b = BucketCHPotential::new(fw, bw, ord.clone());
    for round in 0..4 {
        // targets have to be distinct
        let mut ts = permutation(&mut rng, n);
        ts.truncate(rng.gen_range(0..=6));
        b.init(&ts);
        for _ in 0..8 {
            let v = rng.gen_range(0..n as u32);
            let got: Vec<u32> = b.potential(v).iter().map(|&x| x.min(INF)).collect();
            let want: Vec<u32> = ts.iter().map(|&t| to(v, t)).collect();
            ensure_eq!(got, want, "bucket potential of {} to {:?} (selection {})", v, ts, round);
        }
    }
    let p = random_order(&mut rng, n);
    exact("relabelled", n, &mut rng, PotentialForPermutated { potential: data.forward_potential(), order: p.clone() }, |v, t| to(p.node(v), p.node(t)))?;
    let t = TurnExpandedPotential::new(&o, data.forward_potential());
    if !g.arcs.is_empty() {
        exact("arcs by their tails", g.arcs.len(), &mut rng, t, |v, t| to(g.arcs[v as usize].0, g.arcs[t as usize].0))?;
    }

    let k = rng.gen_range(1..5);
    let marks: Vec<u32> = (0..k).map(|_| rng.gen_range(0..n as u32)).collect();
    let alt = ALTPotData::new(&o, marks.clone());
    admissible(&format!("landmarks {:?}, forward", marks), g, &mut rng, alt.forward_potential(), to)?;
    admissible(&format!("landmarks {:?}, backward", marks), &g.rev(), &mut rng, alt.backward_potential(), from)?;
    Ok(())
}

fn main() {
    vp_harness::main("c20", |ctx| {
        threads(2);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
            }
        }
        for i in 0..ctx.n(2000, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 40) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
        }
    });
}
