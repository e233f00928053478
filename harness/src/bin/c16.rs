//! contraction: chordal supergraph, elimination tree, arc mapping
use rand::prelude::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;
use vp_harness::cchs::*;
use vp_harness::oracle::*;
use vp_harness::*;

fn check(g: &G, order: Vec<u32>) -> Result<(), String> {
    let o = g.owned();
    let cch = contract(&o, NodeOrder::from_node_order(order.clone()));
    ensure_eq!(cch.node_order().order(), &order[..], "contract keeps the order");
    check_cch(g, &cch)?;
    // the same from the unweighted graph
    let u = g.unweighted();
    check_cch(g, &contract(&u, NodeOrder::from_node_order(order.clone())))?;
    let fixed = CCH::fix_order_and_build(&o, NodeOrder::from_node_order(order.clone()));
    check_cch(g, &fixed).map_err(|e| format!("fix_order_and_build: {}", e))?;
    check_reduced(g, &fixed)
}

// arcs dropped by the directed and the reduced CCH are infinite for every metric, everything else stays
fn check_reduced(g: &G, cch: &CCH) -> Result<(), String> {
    let order = cch.node_order();
    let rank: Vec<u32> = (0..g.n as u32).map(|v| order.rank(v)).collect();
    let zero = G::new(g.n, g.arcs.iter().map(|&(u, v, _)| (u, v, 0)).collect());
    let (low, _) = restricted(&zero, &rank);
    let red = cch.remove_always_infinity();
    let dir = cch.to_directed_cch();
    let all = arc_list(cch.first_out(), cch.head());
    let keep = |f: &dyn Fn(u32, u32) -> bool| -> Vec<(u32, u32)> { all.iter().copied().filter(|&(t, h)| f(t, h)).collect() };
    let fin = |a: u32, b: u32| low[a as usize][b as usize] < INF;
    ensure_eq!(arc_list(red.first_out(), red.head()), keep(&|t, h| fin(t, h) || fin(h, t)), "arcs of remove_always_infinity");
    ensure_eq!(arc_list(dir.forward_first_out(), dir.forward_head()), keep(&|t, h| fin(t, h)), "forward arcs of the directed CCH");
    ensure_eq!(arc_list(dir.backward_first_out(), dir.backward_head()), keep(&|t, h| fin(h, t)), "backward arcs of the directed CCH");
    let v = |x: &rust_road_router::util::Vecs<EdgeIdT>| x.iter().map(|s| s.to_vec()).collect::<Vec<_>>();
    check_direction("reduced forward", g, order, g.n, red.forward_first_out(), red.forward_head(), red.forward_tail(), red.forward_inverted(), v(red.forward_cch_edge_to_orig_arc()), false)?;
    check_direction("reduced backward", g, order, g.n, red.backward_first_out(), red.backward_head(), red.backward_tail(), red.backward_inverted(), v(red.backward_cch_edge_to_orig_arc()), true)?;
    check_direction("directed forward", g, order, g.n, dir.forward_first_out(), dir.forward_head(), dir.forward_tail(), dir.forward_inverted(), v(dir.forward_cch_edge_to_orig_arc()), false)?;
    check_direction("directed backward", g, order, g.n, dir.backward_first_out(), dir.backward_head(), dir.backward_tail(), dir.backward_inverted(), v(dir.backward_cch_edge_to_orig_arc()), true)?;
    for x in 0..g.n {
        ensure_eq!(red.elimination_tree()[x].value(), cch.elimination_tree()[x].value(), "elimination tree of the reduced CCH at {}", x);
        ensure_eq!(dir.elimination_tree()[x].value(), cch.elimination_tree()[x].value(), "elimination tree of the directed CCH at {}", x);
    }
    ensure_eq!(red.node_order().order(), order.order(), "order of the reduced CCH");
    ensure_eq!(dir.node_order().order(), order.order(), "order of the directed CCH");
    Ok(())
}

fn store_load(g: &G, order: Vec<u32>, dir: &std::path::Path) -> Result<(), String> {
    let o = g.owned();
    let cch = contract(&o, NodeOrder::from_node_order(order));
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    // as the preprocessing tool does: the order goes to the same directory
    cch.deconstruct_to(&dir).and_then(|_| cch.node_order().deconstruct_to(&dir)).map_err(|e| e.to_string())?;
    let back: CCH = CCHReconstrctor(&o).reconstruct_from(&dir).map_err(|e| e.to_string())?;
    check_cch(g, &back).map_err(|e| format!("after storing and loading: {}", e))
}

fn main() {
    vp_harness::main("c16", |ctx| {
        threads(1);
        let mut rng = ctx.rng();
        for n in 1..=4usize {
            let pairs: Vec<(u32, u32)> = (0..n as u32).flat_map(|a| (0..a).map(move |b| (b, a))).collect();
            for mask in 0..(1u32 << pairs.len()) {
                let arcs: Vec<_> = pairs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, &(a, b))| if rng.gen_bool(0.5) { (a, b, 1) } else { (b, a, 1) }).collect();
                let g = G::new(n, arcs);
                for p in permutations(n) {
                    ctx.case("every undirected graph and order up to 4 nodes", || format!("{} order {:?}", g.desc(), p), || check(&g, p.clone()));
                }
            }
        }
        let dir = std::env::temp_dir().join(format!("vp_c16_{}", std::process::id()));
        for i in 0..ctx.n(1500, 20) {
            threads(1 + i % 3);
            let g = if i % 3 == 0 { random_graph(&mut rng, 30) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            ctx.case("random graphs and orders", || format!("{} order {:?}", g.desc(), p), || check(&g, p.clone()));
            if i % 20 == 0 {
                ctx.case("stored and loaded", || format!("{} order {:?}", g.desc(), p), || store_load(&g, p.clone(), &dir));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
