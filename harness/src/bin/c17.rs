//! customization: exact triangle weights, perfect weights, unpacking information
use rand::prelude::*;
use rust_road_router::algo::customizable_contraction_hierarchy::customization::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;
use vp_harness::cchs::*;
use vp_harness::oracle::*;
use vp_harness::*;

fn reweigh(rng: &mut StdRng, g: &G) -> G {
    let top = *[2u32, 10, 1000, 100_000_000].choose(rng).unwrap();
    let p = *[0.0, 0.0, 0.2].choose(rng).unwrap();
    G::new(g.n, g.arcs.iter().map(|&(u, v, _)| (u, v, if rng.gen_bool(p) { INF } else { rng.gen_range(0..top) })).collect())
}

fn check(g: &G, order: &[u32], seed: u64, dir: Option<&std::path::Path>) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order.to_vec()));
    let rank: Vec<u32> = (0..g.n as u32).map(|v| cch.node_order().rank(v)).collect();
    let reduced = cch.remove_always_infinity();
    let directed = cch.to_directed_cch();
    for round in 0..2 {
        let g = if round == 0 { g.clone() } else { reweigh(&mut rng, g) };
        let o = g.owned();
        let (low, d) = restricted(&g, &rank);
        let l = |a: u32, b: u32| low[a as usize][b as usize];
        let x = |a: u32, b: u32| d[a as usize][b as usize];

        let basic = customize(&cch, &o);
        check_customized("basic", &g, &basic, &rank, l)?;
        let (bf, bb) = (weights(&basic.forward_graph()), weights(&basic.backward_graph()));
        let mut unrebuilt = customize(&cch, &o);
        let (um, dm) = customize_perfect_without_rebuild(&mut unrebuilt);
        for up in [true, false] {
            let (b, p, m) = if up { (&bf, weights(&unrebuilt.forward_graph()), &um) } else { (&bb, weights(&unrebuilt.backward_graph()), &dm) };
            for e in 0..b.len() {
                let ((t, h), w) = p[e];
                ensure_eq!(w, if up { x(t, h) } else { x(h, t) }, "perfect weight of {} arc {} ({} - {})", if up { "upward" } else { "downward" }, e, t, h);
                ensure_eq!(m[e], w < b[e].1, "{} arc {} ({} - {}) marked as changed", if up { "upward" } else { "downward" }, e, t, h);
            }
        }
        let perfect = customize_perfect(basic);
        check_customized("perfect", &g, &perfect, &rank, x)?;
        check_kept("perfect", &bf, &weights(&perfect.forward_graph()), true, &d, &perfect)?;
        check_kept("perfect", &bb, &weights(&perfect.backward_graph()), false, &d, &perfect)?;
        if let Some(dir) = dir {
            let _ = std::fs::remove_dir_all(dir);
            std::fs::create_dir_all(dir).unwrap();
            perfect.deconstruct_to(&dir).map_err(|e| e.to_string())?;
            let back: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&dir).map_err(|e| e.to_string())?;
            check_customized("perfect, stored and loaded", &g, &back, &rank, x)?;
            ensure_eq!(weights(&back.forward_graph()), weights(&perfect.forward_graph()), "stored and loaded forward graph");
            ensure_eq!(weights(&back.backward_graph()), weights(&perfect.backward_graph()), "stored and loaded backward graph");
        }

        let rb = customize(&reduced, &o);
        check_customized("reduced basic", &g, &rb, &rank, l)?;
        let (rf, rbw) = (weights(&rb.forward_graph()), weights(&rb.backward_graph()));
        let rp = customize_perfect(rb);
        check_pruned("reduced perfect", &g, &rp, &rank, &low, &d)?;
        check_kept("reduced perfect", &rf, &weights(&rp.forward_graph()), true, &d, &rp)?;
        check_kept("reduced perfect", &rbw, &weights(&rp.backward_graph()), false, &d, &rp)?;

        let db = customize_directed(&directed, &o);
        check_customized("directed basic", &g, &db, &rank, l)?;
        let (df, dbw) = (weights(&db.forward_graph()), weights(&db.backward_graph()));
        let dp = customize_directed_perfect(db);
        check_pruned("directed perfect", &g, &dp, &rank, &low, &d)?;
        check_kept("directed perfect", &df, &weights(&dp.forward_graph()), true, &d, &dp)?;
        check_kept("directed perfect", &dbw, &weights(&dp.backward_graph()), false, &d, &dp)?;
        ensure!(low_finite(&bf, &df) && low_finite(&bb, &dbw), "the directed CCH lost a finite arc");
    }
    let z = always_infinity(&cch);
    let zero = G::new(g.n, g.arcs.iter().map(|&(u, v, _)| (u, v, 0)).collect());
    let (low, _) = restricted(&zero, &rank);
    check_customized("zero metric", &zero, &z, &rank, |a, b| low[a as usize][b as usize])
}

fn low_finite(all: &[((u32, u32), u32)], part: &[((u32, u32), u32)]) -> bool {
    all.iter().filter(|x| x.1 < INF).all(|x| part.contains(x))
}

fn main() {
    vp_harness::main("c17", |ctx| {
        threads(1);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, 1 + (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?}", g.desc(), p), || check(&g, &p, seed, None));
            }
        }
        let dir = std::env::temp_dir().join(format!("vp_c17_{}", std::process::id()));
        for i in 0..ctx.n(900, 20) {
            threads(1 + i % 3);
            let g = if i % 3 == 0 { random_graph(&mut rng, 30) } else { random_graph(&mut rng, 12) };
            let g = if i % 4 == 1 { with_extremes(&mut rng, &g) } else { g };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?}", g.desc(), p), || check(&g, &p, seed, if i % 20 == 0 { Some(&dir) } else { None }));
        }
        // large enough that whole cells are customized at once instead of node by node
        for i in 0..ctx.n(25, 10) {
            threads(1 + i % 2);
            let n = rng.gen_range(60..200);
            let g = random_graph_n(&mut rng, n);
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("graphs with cells below the parallelization threshold", || format!("{} order {:?}", g.desc(), p), || check(&g, &p, seed, None));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
