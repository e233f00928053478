//! contraction hierarchy preprocessing and queries
use rand::prelude::*;
use rust_road_router::algo::contraction_hierarchy::query::Server;
use rust_road_router::algo::contraction_hierarchy::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::*;

fn check(g: &G, order: &[u32], seed: u64, max: usize) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = g.all_dists();
    let o = g.owned();
    let ord = NodeOrder::from_node_order(order.to_vec());
    let mut s = Server::new(contract(&o, ord.clone()), ord.clone());
    let qs = queries(&mut rng, g.n, max);
    check_dists!("contraction hierarchy", s, d, qs);
    check_node_paths!("contraction hierarchy", s, g, qs);
    check_dists!("contraction hierarchy, again", s, d, qs);

    // all up arcs lead up, and carry the length of a path
    let n = g.n;
    let (fw, bw) = overlay(&o, ord.clone(), n);
    for (u, v, w) in arcs_of(&fw) {
        ensure!(v > u, "upward arc {} -> {} of the overlay", u, v);
        ensure!(w >= d[ord.node(u) as usize][ord.node(v) as usize], "upward arc {} -> {} of weight {} is shorter than the distance", u, v, w);
    }
    for (u, v, w) in arcs_of(&bw) {
        ensure!(v > u, "downward arc {} -> {} of the overlay", u, v);
        ensure!(w >= d[ord.node(v) as usize][ord.node(u) as usize], "downward arc {} -> {} of weight {} is shorter than the distance", v, u, w);
    }
    // contracting only some nodes keeps the distances between the others
    let k = rng.gen_range(0..=n);
    let (fw, _) = overlay(&o, ord.clone(), k);
    let core = G::new(n, arcs_of(&fw).into_iter().filter(|a| a.0 as usize >= k).collect());
    ensure!(core.arcs.iter().all(|a| a.1 as usize >= k), "after contracting {} nodes the core has an arc into a contracted node: {:?}", k, core.arcs);
    let cd = core.all_dists();
    for a in k..n {
        for b in k..n {
            ensure_eq!(cd[a][b], d[ord.node(a as u32) as usize][ord.node(b as u32) as usize], "distance in the core of {} -> {} after contracting {} nodes", a, b, k);
        }
    }

    // a hierarchy from a graph that already contains its shortcuts
    let aug: Vec<(u32, u32, u32)> = {
        let (fw, bw) = overlay(&o, ord.clone(), n);
        let mut a: Vec<_> = arcs_of(&fw).into_iter().map(|(u, v, w)| (ord.node(u), ord.node(v), w)).collect();
        a.extend(arcs_of(&bw).into_iter().map(|(u, v, w)| (ord.node(v), ord.node(u), w)));
        a
    };
    let mut t = Server::new(ContractionHierarchy::from_contracted_graph(G::new(n, aug).owned(), &ord), NodeOrder::identity(n));
    check_dists!("contraction hierarchy from the augmented graph", t, d, qs);
    Ok(())
}

fn main() {
    vp_harness::main("c19", |ctx| {
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?}", g.desc(), p), || check(&g, &p, seed, 40));
            }
        }
        for i in 0..ctx.n(3000, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 40) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed, 60));
        }
    });
}
