//! every returned path is a real path of the reported length, as nodes and as arcs
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::contraction_hierarchy;
use rust_road_router::algo::customizable_contraction_hierarchy;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::pots::*;
use vp_harness::*;

/// arcs by id must lead along the node path and add up to the length
fn arcs_match(g: &G, nodes: &[u32], ids: &[u32], len: u32) -> Result<(), String> {
    ensure_eq!(ids.len() + 1, nodes.len(), "number of arcs on the path {:?}", nodes);
    let mut sum = 0u64;
    for (i, &e) in ids.iter().enumerate() {
        let (u, v, w) = g.arcs[e as usize];
        ensure!((u, v) == (nodes[i], nodes[i + 1]), "arc {} of the path is {} -> {}, the nodes are {} -> {}", e, u, v, nodes[i], nodes[i + 1]);
        sum += w as u64;
    }
    ensure_eq!(sum, len as u64, "length of the arcs {:?}", ids);
    Ok(())
}

macro_rules! check_counts {
    ($name:expr, $s:expr, $g:expr, $qs:expr) => {
        for &(from, to) in $qs.iter() {
            let mut r = $s.query(Query { from, to });
            if let Some(len) = r.distance() {
                let e = r.edge_path().unwrap().len();
                let p: Vec<u32> = r.node_path().unwrap();
                $g.check_path(&p, from, to, len).map_err(|e| format!("{}: query {} -> {}: {}", $name, from, to, e))?;
                ensure_eq!(e + 1, p.len(), "{}: {} -> {}: number of arcs against nodes", $name, from, to);
            } else {
                ensure!(r.edge_path().is_none() && r.node_path().is_none(), "{}: a path without a distance", $name);
            }
        }
    };
}

fn check(g: &G, order: &[u32], seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let o = g.owned();
    let qs = queries(&mut rng, g.n, 30);
    let rev = g.rev();
    let mut a = Server::<OwnedGraph, DefaultOps>::new(g.owned());
    check_node_paths!("DefaultOps", a, g, qs);
    check_counts!("DefaultOps", a, g, qs);
    let mut b = Server::<OwnedGraph, DefaultOpsByEdgeId>::new(g.owned());
    check_node_paths!("DefaultOpsByEdgeId", b, g, qs);
    let mut c = Server::<OwnedGraph, DefaultOpsWithLinkPath>::new(g.owned());
    for &(from, to) in &qs {
        let mut r = c.query(Query { from, to });
        if let Some(len) = r.distance() {
            let ids: Vec<u32> = r.edge_path().unwrap().into_iter().map(|e| e.0).collect();
            let nodes = r.node_path().unwrap();
            arcs_match(g, &nodes, &ids, len).map_err(|e| format!("Dijkstra with arc ids: {} -> {}: {}", from, to, e))?;
        }
        let dep = rng.gen_range(0..1000u32);
        let mut r = c.td_query(TDQuery { from, to, departure: dep });
        if let Some(arr) = r.distance() {
            let ids: Vec<u32> = r.edge_path().unwrap().into_iter().map(|e| e.0).collect();
            let nodes = r.node_path().unwrap();
            arcs_match(g, &nodes, &ids, arr - dep).map_err(|e| format!("Dijkstra departing at {}: {} -> {}: {}", dep, from, to, e))?;
        }
    }
    // the tree of a one-to-all run
    let s = rng.gen_range(0..g.n as u32);
    let d = g.dist_from(s);
    let r = a.one_to_all(s);
    for v in 0..g.n as u32 {
        if d[v as usize] < INF && v != s {
            let p = r.predecessor(v);
            ensure!((p as usize) < g.n && g.arcs.iter().any(|&(x, y, w)| x == p && y == v && d[p as usize] as u64 + w as u64 == d[v as usize] as u64),
                "one-to-all from {}: predecessor {} of {} is not on a shortest path", s, p, v);
        }
    }
    // potentials
    let (f, k) = (Feasible::new(&mut rng, g), Feasible::new(&mut rng, &rev));
    forward_paths("feasible potential", g, &qs, f.clone())?;
    let mut e = Server::<OwnedGraph, DefaultOpsWithLinkPath, _>::with_potential(g.owned(), f.clone());
    for &(from, to) in &qs {
        let mut r = e.query(Query { from, to });
        if let Some(len) = r.distance() {
            let ids: Vec<u32> = r.edge_path().unwrap().into_iter().map(|e| e.0).collect();
            let nodes = r.node_path().unwrap();
            arcs_match(g, &nodes, &ids, len).map_err(|e| format!("A* with arc ids: {} -> {}: {}", from, to, e))?;
        }
    }
    bidir_paths::<_, ChooseMinKeyDir>("no potential", g, &qs, BiDirZeroPot)?;
    bidir_paths::<_, AlternatingDirs>("no potential", g, &qs, BiDirZeroPot)?;
    bidir_paths::<_, ChooseMinKeyDir>("symmetric", g, &qs, SymmetricBiDirPotential::<_, _, true>::new(f.clone(), k.clone()))?;
    bidir_paths::<_, AlternatingDirs>("symmetric", g, &qs, SymmetricBiDirPotential::<_, _, true>::new(f.clone(), k.clone()))?;
    bidir_paths::<_, AlternatingDirs>("one sided", g, &qs, SymmetricBiDirPotential::<_, _, true>::new(ZeroPotential(), k.clone()))?;
    bidir_paths::<_, ChooseMinKeyDir>("average", g, &qs, AveragePotential::<_, _, false>::new(f.clone(), k.clone()))?;
    bidir_paths::<_, AlternatingDirs>("average", g, &qs, AveragePotential::<_, _, true>::new(f.clone(), k.clone()))?;
    let mut t = bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, ChooseMinKeyDir>::new(g.owned());
    check_counts!("bidirectional", t, g, qs);
    // hierarchies
    let ord = NodeOrder::from_node_order(order.to_vec());
    let mut h = contraction_hierarchy::query::Server::new(contraction_hierarchy::contract(&o, ord.clone()), ord.clone());
    check_node_paths!("contraction hierarchy", h, g, qs);
    check_counts!("contraction hierarchy", h, g, qs);
    let cch = CCH::fix_order_and_build(&o, ord);
    let directed = cch.to_directed_cch();
    let mut x = customizable_contraction_hierarchy::query::Server::new(customize(&cch, &o));
    check_node_paths!("basic customizable hierarchy", x, g, qs);
    check_counts!("basic customizable hierarchy", x, g, qs);
    let mut y = customizable_contraction_hierarchy::query::Server::new(customize_perfect(customize(&cch, &o)));
    check_node_paths!("perfect customizable hierarchy", y, g, qs);
    check_counts!("perfect customizable hierarchy", y, g, qs);
    let mut z = customizable_contraction_hierarchy::query::Server::new(customize_directed(&directed, &o));
    check_node_paths!("directed customizable hierarchy", z, g, qs);
    let mut w = customizable_contraction_hierarchy::query::Server::new(customize_directed_perfect(customize_directed(&directed, &o)));
    check_node_paths!("directed perfect customizable hierarchy", w, g, qs);
    Ok(())
}

fn main() {
    vp_harness::main("c14", |ctx| {
        threads(2);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
            }
        }
        for i in 0..ctx.n(1500, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 40) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
        }
    });
}
