//! separator trees and the orders derived from them
use rand::prelude::*;
use rust_road_router::algo::customizable_contraction_hierarchy::separator_decomposition::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::node_order::NodeOrder;
use std::collections::BTreeSet;
use vp_harness::cchs::*;
use vp_harness::oracle::*;
use vp_harness::*;

/// all nodes of the subtree; every node once, separators above their parts, sizes right
fn nodes_of(t: &SeparatorTree, all: &mut BTreeSet<u32>) -> Result<Vec<u32>, String> {
    let own: Vec<u32> = t.nodes.iter().collect();
    ensure_eq!(own.len(), t.nodes.len(), "length of the separator {:?}", own);
    ensure_eq!(t.nodes.is_empty(), own.is_empty(), "emptiness of the separator {:?}", own);
    ensure_eq!(t.nodes.highest_ranked_node(), own.iter().max().copied(), "highest node of the separator {:?}", own);
    for &v in &own {
        ensure!(all.insert(v), "node {} appears twice", v);
    }
    let mut sub = vec![];
    for c in &t.children {
        let below = nodes_of(c, all)?;
        for &v in &below {
            ensure!(own.iter().all(|&s| s > v), "separator {:?} is not above its part {:?}", own, below);
        }
        sub.extend(below);
    }
    sub.extend(own);
    ensure_eq!(t.num_nodes, sub.len(), "num_nodes of the tree over {:?}", sub);
    Ok(sub)
}

/// separator nodes of each tree node (as original nodes) with the nodes of each child subtree
fn split(t: &SeparatorTree, order: &NodeOrder, out: &mut Vec<(Vec<u32>, Vec<Vec<u32>>)>) -> Vec<u32> {
    let own: Vec<u32> = t.nodes.iter().map(|r| order.node(r)).collect();
    let kids: Vec<Vec<u32>> = t.children.iter().map(|c| split(c, order, out)).collect();
    out.push((own.clone(), kids.clone()));
    own.into_iter().chain(kids.into_iter().flatten()).collect()
}

fn derived(name: &str, g: &G, parts: &[(Vec<u32>, Vec<Vec<u32>>)], o: &NodeOrder, same: Option<&CCH>) -> Result<(), String> {
    let n = g.n;
    ensure_eq!(sorted(o.order().to_vec()), (0..n as u32).collect::<Vec<_>>(), "{}: not a permutation: {:?}", name, o.order());
    for v in 0..n as u32 {
        ensure_eq!(o.order()[o.rank(v) as usize], v, "{}: rank of {}", name, v);
    }
    for (own, kids) in parts {
        for (v, k) in own.iter().flat_map(|&v| kids.iter().flatten().map(move |&k| (v, k))) {
            ensure!(o.rank(v) > o.rank(k), "{}: separator node {} is not above {} of the parts it separates", name, v, k);
        }
    }
    if let Some(c) = same {
        // the order of nested parts does not matter for the hierarchy: the same arcs, relabelled
        let d = contract(&g.owned(), NodeOrder::from_node_order(o.order().to_vec()));
        let of = |c: &CCH| -> BTreeSet<(u32, u32)> { arc_list(c.first_out(), c.head()).into_iter().map(|(a, b)| (c.node_order().node(a), c.node_order().node(b))).collect() };
        ensure_eq!(of(&d), of(c), "{}: arcs of the hierarchy in the derived order", name);
    }
    Ok(())
}

fn check(g: &G, p: &[u32], seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let cch = contract(&g.owned(), NodeOrder::from_node_order(p.to_vec()));
    let order = cch.node_order();
    let tree = SeparatorTree::new(cch.elimination_tree());
    for (name, t) in [("rebuilt", &tree), ("stored", cch.separators())] {
        let mut all = BTreeSet::new();
        nodes_of(t, &mut all).map_err(|e| format!("{} separator tree: {}", name, e))?;
        ensure_eq!(all.into_iter().collect::<Vec<_>>(), (0..g.n as u32).collect::<Vec<_>>(), "{} separator tree: nodes", name);
    }
    let mut parts = vec![];
    split(&tree, order, &mut parts);
    // separators separate
    for (_, kids) in &parts {
        for (i, a) in kids.iter().enumerate() {
            for b in kids.iter().skip(i + 1) {
                ensure!(!g.arcs.iter().any(|&(u, v, _)| (a.contains(&u) && b.contains(&v)) || (a.contains(&v) && b.contains(&u))), "an arc between the parts {:?} and {:?}", a, b);
            }
        }
    }
    let coord = |rng: &mut StdRng| -> Vec<f32> { (0..g.n).map(|_| if rng.gen_bool(0.2) { 1.0 } else { rng.gen_range(-10.0..10.0f32) }).collect() };
    let (lat, lng) = (coord(&mut rng), coord(&mut rng));
    derived("reorder", g, &parts, &reorder(&cch, &lat, &lng), None)?;
    derived("reorder_bfs", g, &parts, &reorder_bfs(&cch), Some(&cch))?;
    let r = reorder_for_seperator_based_customization(order, tree.clone());
    derived("reorder_for_seperator_based_customization", g, &parts, &r, Some(&cch))?;
    let again = contract(&g.owned(), r);
    again.separators().validate_for_parallelization();
    let fixed = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(p.to_vec()));
    fixed.separators().validate_for_parallelization();
    derived("fix_order_and_build", g, &parts, fixed.node_order(), Some(&cch))
}

fn main() {
    vp_harness::main("c23", |ctx| {
        threads(1);
        let mut rng = ctx.rng();
        for n in 1..=4usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..a).map(move |b| (b, a, 1))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                for p in permutations(n) {
                    let seed = rng.gen();
                    ctx.case("every undirected graph and order up to 4 nodes", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
                }
            }
        }
        for i in 0..ctx.n(2000, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 60) } else { random_graph(&mut rng, 14) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
        }
    });
}
