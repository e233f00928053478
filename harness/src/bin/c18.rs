//! customizable contraction hierarchy queries
use rand::prelude::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::*;

fn reweigh(rng: &mut StdRng, g: &G) -> G {
    let top = *[2u32, 10, 1000, 100_000_000].choose(rng).unwrap();
    let p = *[0.0, 0.0, 0.2].choose(rng).unwrap();
    G::new(g.n, g.arcs.iter().map(|&(u, v, _)| (u, v, if rng.gen_bool(p) { INF } else { rng.gen_range(0..top) })).collect())
}

fn check(g: &G, order: &[u32], seed: u64, max: usize) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order.to_vec()));
    let reduced = cch.remove_always_infinity();
    let directed = cch.to_directed_cch();
    let o = g.owned();
    let mut b = Server::new(customize(&cch, &o));
    let mut p = Server::new(customize_perfect(customize(&cch, &o)));
    let mut rb = Server::new(customize(&reduced, &o));
    let mut rp = Server::new(customize_perfect(customize(&reduced, &o)));
    let mut db = Server::new(customize_directed(&directed, &o));
    let mut dp = Server::new(customize_directed_perfect(customize_directed(&directed, &o)));
    for round in 0..3 {
        let g = match round {
            0 => g.clone(),
            1 => reweigh(&mut rng, g),
            _ => with_extremes(&mut rng, g),
        };
        let d = g.all_dists();
        let o = g.owned();
        if round > 0 {
            b.update(customize(&cch, &o));
            p.update(customize_perfect(customize(&cch, &o)));
            rb.update(customize(&reduced, &o));
            rp.update(customize_perfect(customize(&reduced, &o)));
            db.update(customize_directed(&directed, &o));
            dp.update(customize_directed_perfect(customize_directed(&directed, &o)));
        }
        let qs = queries(&mut rng, g.n, max);
        check_dists!("basic", b, d, qs);
        check_node_paths!("basic", b, g, qs);
        check_dists!("basic, after asking for paths", b, d, qs);
        check_dists!("perfect", p, d, qs);
        check_node_paths!("perfect", p, g, qs);
        check_dists!("perfect, after asking for paths", p, d, qs);
        check_dists!("reduced basic", rb, d, qs);
        check_node_paths!("reduced basic", rb, g, qs);
        check_dists!("reduced perfect", rp, d, qs);
        check_node_paths!("reduced perfect", rp, g, qs);
        check_dists!("directed basic", db, d, qs);
        check_node_paths!("directed basic", db, g, qs);
        check_dists!("directed perfect", dp, d, qs);
        check_node_paths!("directed perfect", dp, g, qs);
    }
    Ok(())
}

fn main() {
    vp_harness::main("c18", |ctx| {
        threads(1);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?}", g.desc(), p), || check(&g, &p, seed, 40));
            }
        }
        for i in 0..ctx.n(700, 20) {
            threads(1 + i % 3);
            let g = if i % 3 == 0 { random_graph(&mut rng, 40) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed, 40));
        }
        for i in 0..ctx.n(15, 10) {
            threads(1 + i % 2);
            let n = rng.gen_range(60..200);
            let g = random_graph_n(&mut rng, n);
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("graphs with cells below the parallelization threshold", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed, 300));
        }
    });
}
