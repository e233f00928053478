//! hub labels: lookups combine the labels, labels answer exact distances
use rand::prelude::*;
use rust_road_router::algo::contraction_hierarchy::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::hl::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::*;

fn labels(name: &str, h: &HubLabels, n: usize, ord: &NodeOrder, d: &[Vec<u32>]) -> Result<(), String> {
    let dist = |a: u32, b: u32| d[ord.node(a) as usize][ord.node(b) as usize];
    ensure_eq!(h.num_labels(), h.forward_labels().iter().chain(h.backward_labels()).map(|l| l.len()).sum::<usize>(), "{}: number of labels", name);
    for v in 0..n as u32 {
        for (what, l, out) in [("forward", &h.forward_labels()[v as usize], true), ("backward", &h.backward_labels()[v as usize], false)] {
            ensure!(l.windows(2).all(|w| w[0].0 < w[1].0), "{}: hubs of the {} label of {} not ascending: {:?}", name, what, v, l);
            ensure!(l.first() == Some(&(v, 0)), "{}: the {} label of {} lacks the node itself: {:?}", name, what, v, l);
            for &(hub, x) in l.iter() {
                let want = if out { dist(v, hub) } else { dist(hub, v) };
                ensure!(x >= want, "{}: {} label of {} stores {} for the hub {}, below the distance {}", name, what, v, x, hub, want);
            }
        }
    }
    for s in 0..n as u32 {
        for t in 0..n as u32 {
            // the minimum over common hubs
            let mut best: Option<u64> = None;
            for &(a, x) in &h.forward_labels()[s as usize] {
                for &(b, y) in &h.backward_labels()[t as usize] {
                    if a == b {
                        best = Some(best.map_or(x as u64 + y as u64, |z| z.min(x as u64 + y as u64)));
                    }
                }
            }
            ensure_eq!(h.dist(s, t).map(|x| x as u64), best, "{}: lookup {} -> {} against the labels", name, s, t);
            match h.hub_and_dist(s, t) {
                None => ensure!(best.is_none(), "{}: no hub of {} -> {}", name, s, t),
                Some((hub, x)) => {
                    let f = h.forward_labels()[s as usize].iter().find(|l| l.0 == hub);
                    let b = h.backward_labels()[t as usize].iter().find(|l| l.0 == hub);
                    ensure!(f.is_some() && b.is_some() && f.unwrap().1 + b.unwrap().1 == x && Some(x as u64) == best, "{}: hub {} of {} -> {} with distance {}", name, hub, s, t, x);
                }
            }
            ensure_eq!(h.dist(s, t).filter(|&x| x < INF), opt(dist(s, t)), "{}: lookup {} -> {} against the distance (ranks of {} -> {})", name, s, t, ord.node(s), ord.node(t));
        }
    }
    Ok(())
}

fn check(g: &G, order: &[u32]) -> Result<(), String> {
    let d = g.all_dists();
    let o = g.owned();
    let ord = NodeOrder::from_node_order(order.to_vec());
    let (fw, bw) = overlay(&o, ord.clone(), g.n);
    labels("contraction hierarchy", &HubLabels::new(&fw, &bw), g.n, &ord, &d)?;
    let cch = CCH::fix_order_and_build(&o, ord);
    let directed = cch.to_directed_cch();
    // without arcs of infinite weight
    let p = customize_directed_perfect(customize_directed(&directed, &o));
    let (f, b) = (InfinityFilteringGraph(p.forward_graph()), InfinityFilteringGraph(p.backward_graph()));
    labels("customizable hierarchy", &HubLabels::new(&f, &b), g.n, cch.node_order(), &d)
}

fn main() {
    vp_harness::main("c22", |ctx| {
        threads(2);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?}", g.desc(), p), || check(&g, &p));
            }
        }
        for i in 0..ctx.n(2500, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 30) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            ctx.case("random graphs and orders", || format!("{} order {:?}", g.desc(), p), || check(&g, &p));
        }
    });
}
