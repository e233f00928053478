//! relabelling, splitting, unifying parallel arcs, line graphs
use rand::prelude::*;
use rust_road_router::datastr::graph::*;
use vp_harness::oracle::*;
use vp_harness::*;

fn check(g: &G, perm: &[u32], filter: u32, turns: u64) -> Result<(), String> {
    use rust_road_router::datastr::node_order::NodeOrder;
    let order = NodeOrder::from_node_order(perm.to_vec());
    let mut rank = vec![0u32; g.n];
    for (r, &v) in perm.iter().enumerate() {
        rank[v as usize] = r as u32;
    }
    let og = g.owned();
    let accept = move |u: u32, v: u32| match filter {
        0 => true,
        1 => u < v,
        2 => u > v,
        3 => (u ^ v) & 1 == 0,
        _ => false,
    };
    let p = OwnedGraph::permutated_filtered(&og, &order, Box::new(move |u, v| accept(u, v)));
    let want: Vec<(u32, u32, u32)> = g.arcs.iter().map(|&(u, v, w)| (rank[u as usize], rank[v as usize], w)).filter(|a| accept(a.0, a.1)).collect();
    ensure_eq!(p.num_nodes(), g.n, "number of nodes of the permuted graph");
    ensure_eq!(sorted(arcs_of(&p)), sorted(want), "arcs of the permuted graph");
    for u in 0..g.n as u32 {
        let hs: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(&p, u).map(|x| x.0).collect();
        ensure!(hs.windows(2).all(|w| w[0] <= w[1]), "links of {} are not sorted by head: {:?}", u, hs);
    }
    if filter == 0 {
        let q = OwnedGraph::permutated(&og, &order);
        ensure_eq!(sorted(arcs_of(&q)), sorted(g.arcs.iter().map(|&(u, v, w)| (rank[u as usize], rank[v as usize], w)).collect::<Vec<_>>()), "permutated");
    }
    // split
    let (up, down) = og.ch_split(&order);
    ensure_eq!((up.num_nodes(), down.num_nodes()), (g.n, g.n), "split sizes");
    let wup: Vec<_> = g.arcs.iter().copied().filter(|a| rank[a.0 as usize] < rank[a.1 as usize]).collect();
    let wdown: Vec<_> = g.arcs.iter().copied().filter(|a| rank[a.0 as usize] >= rank[a.1 as usize]).map(|(u, v, w)| (v, u, w)).collect();
    ensure_eq!(sorted(arcs_of(&up)), sorted(wup), "upward part");
    ensure_eq!(sorted(arcs_of(&down)), sorted(wdown), "downward part");
    // parallel arcs
    let mut m = g.owned();
    unify_parallel_edges(&mut m);
    ensure_eq!(m.head(), og.head(), "heads after unifying");
    ensure_eq!(m.first_out(), og.first_out(), "offsets after unifying");
    for (e, a) in g.arcs.iter().enumerate() {
        let best = g.arcs.iter().filter(|b| b.0 == a.0 && b.1 == a.1).map(|b| b.2).min().unwrap().min(INFINITY);
        ensure_eq!(m.weight()[e], best, "weight of arc {} after unifying", e);
    }
    // line graph
    let cost = move |a: u32, b: u32| {
        let h = (a as u64 * 31 + b as u64 * 17 + turns) % 7;
        if h < 2 {
            None
        } else {
            Some(h as u32)
        }
    };
    if g.arcs.iter().all(|a| a.2 < INFINITY) {
        let lg = line_graph(&og, cost);
        ensure_eq!(lg.num_nodes(), g.arcs.len(), "nodes of the line graph");
        let mut want = vec![];
        for (e, a) in g.arcs.iter().enumerate() {
            for (f, b) in g.arcs.iter().enumerate() {
                if a.1 == b.0 {
                    if let Some(c) = cost(e as u32, f as u32) {
                        want.push((e as u32, f as u32, a.2 + c));
                    }
                }
            }
        }
        ensure_eq!(sorted(arcs_of(&lg)), sorted(want), "arcs of the line graph");
    }
    Ok(())
}

fn main() {
    vp_harness::main("c07", |ctx| {
        let mut uni: Vec<(u32, u32, u32)> = vec![];
        for u in 0..3u32 {
            for v in 0..3u32 {
                uni.push((u, v, 10 - u * 3 - v));
            }
        }
        uni.push((1, 2, 3));
        for pat in 0..1u64 << uni.len() {
            let g = subset_graph(3, &uni, pat);
            let perms = permutations(3);
            let p = perms[pat as usize % 6].clone();
            let f = (pat / 6 % 5) as u32;
            ctx.case("all arc subsets on three nodes", || format!("{} order={:?} filter={}", g.desc(), p, f), || check(&g, &p, f, pat));
        }
        ctx.case("no nodes", || "n=0".into(), || check(&G::new(0, vec![]), &[], 0, 0));
        for _ in 0..ctx.n(1500, 20) {
            let mut g = random_graph(&mut ctx.rng, 25);
            if ctx.rng.gen_bool(0.3) {
                for a in g.arcs.iter_mut() {
                    if ctx.rng.gen_bool(0.1) {
                        a.2 = INFINITY;
                    }
                }
            }
            let p = permutation(&mut ctx.rng, g.n);
            let f = ctx.rng.gen_range(0..5);
            let t = ctx.rng.gen();
            ctx.case("random multigraphs", || format!("{} order={:?} filter={} turns={}", g.desc(), p, f, t), || check(&g, &p, f, t));
        }
    });
}
