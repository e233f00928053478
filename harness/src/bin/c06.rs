//! building and reversing graphs: the same multiset of arcs
use rand::prelude::*;
use rust_road_router::datastr::graph::first_out_graph::degrees_to_first_out;
use rust_road_router::datastr::graph::*;
use vp_harness::oracle::*;
use vp_harness::*;

/// the views of one graph agree with each other and with the arc list
fn views(g: &OwnedGraph, arcs: &[(u32, u32, u32)], n: usize) -> Result<(), String> {
    ensure_eq!(g.num_nodes(), n, "num_nodes");
    ensure_eq!(g.num_arcs(), arcs.len(), "num_arcs");
    ensure_eq!(g.first_out().len(), n + 1, "length of first_out");
    ensure_eq!(g.first_out()[0], 0, "first offset");
    ensure_eq!(g.first_out()[n] as usize, arcs.len(), "last offset");
    for u in 0..n {
        ensure!(g.first_out()[u] <= g.first_out()[u + 1], "offsets decrease at node {}", u);
        ensure_eq!(g.degree(u as u32), arcs.iter().filter(|a| a.0 == u as u32).count(), "degree({})", u);
        let links: Vec<(u32, u32)> = LinkIterable::<Link>::link_iter(g, u as u32).map(|l| (l.node, l.weight)).collect();
        let nodes: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(g, u as u32).map(|l| l.0).collect();
        let ids: Vec<(u32, u32)> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(g, u as u32).map(|(v, e)| (v.0, e.0)).collect();
        let full: Vec<(u32, u32, u32)> = LinkIterable::<(NodeIdT, Weight, EdgeIdT)>::link_iter(g, u as u32).map(|(v, w, e)| (v.0, w, e.0)).collect();
        ensure_eq!(nodes, links.iter().map(|l| l.0).collect::<Vec<_>>(), "node iterator of {}", u);
        ensure_eq!(ids.iter().map(|x| x.0).collect::<Vec<_>>(), nodes, "node/edge id iterator of {}", u);
        ensure_eq!(full.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), links, "full iterator of {}", u);
        let r = g.neighbor_edge_indices(u as u32);
        ensure_eq!(r.clone().collect::<Vec<_>>(), full.iter().map(|x| x.2).collect::<Vec<_>>(), "edge ids of {}", u);
        ensure_eq!(ids.iter().map(|x| x.1).collect::<Vec<_>>(), r.clone().collect::<Vec<_>>(), "edge ids of {}", u);
        for (k, e) in r.enumerate() {
            let l = EdgeRandomAccessGraph::<Link>::link(g, e);
            ensure_eq!((l.node, l.weight), links[k], "link({})", e);
        }
        for v in 0..n as u32 {
            let want: Vec<u32> = full.iter().filter(|x| x.0 == v).map(|x| x.2).collect();
            ensure_eq!(g.edge_indices(u as u32, v).map(|e| e.0).collect::<Vec<_>>(), want, "edge_indices({}, {})", u, v);
        }
    }
    ensure_eq!(sorted(arcs_of(g)), sorted(arcs.to_vec()), "arcs");
    let b = g.borrowed();
    ensure_eq!(arcs_of(&b), arcs_of(g), "arcs of the borrowed graph");
    Ok(())
}
fn check(g: &G) -> Result<(), String> {
    let og = g.owned();
    views(&og, &g.arcs, g.n)?;
    let turned: Vec<(u32, u32, u32)> = g.arcs.iter().map(|&(u, v, w)| (v, u, w)).collect();
    let r = OwnedGraph::reversed(&og);
    views(&r, &turned, g.n).map_err(|e| format!("reversed: {}", e))?;
    let rr = OwnedGraph::reversed(&r);
    views(&rr, &g.arcs, g.n).map_err(|e| format!("reversed twice: {}", e))?;
    // only arcs below infinity survive the filtering view
    let inf = InfinityFilteringGraph(og.borrowed());
    for u in 0..g.n as u32 {
        let want: Vec<(u32, u32)> = g.lists()[u as usize].iter().copied().filter(|x| x.1 < INFINITY).collect();
        ensure_eq!(LinkIterable::<Link>::link_iter(&inf, u).map(|l| (l.node, l.weight)).collect::<Vec<_>>(), want, "finite links of {}", u);
        ensure_eq!(LinkIterable::<NodeIdT>::link_iter(&inf, u).map(|l| l.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>(), "finite neighbours of {}", u);
    }
    // adjacency lists
    let lists = g.lists();
    let from = OwnedGraph::from_adjancecy_lists(lists.iter().map(|l| l.iter().map(|&(node, weight)| Link { node, weight }).collect()).collect());
    views(&from, &g.arcs, g.n).map_err(|e| format!("from adjacency lists: {}", e))?;
    ensure_eq!(arcs_of(&from), g.arcs, "arcs from adjacency lists, in order");
    // offsets from degrees
    let degs: Vec<u32> = lists.iter().map(|l| l.len() as u32).collect();
    ensure_eq!(degrees_to_first_out(degs.into_iter()).collect::<Vec<_>>(), g.first_out(), "degrees_to_first_out");
    // unweighted
    let un = g.unweighted();
    let uf = UnweightedOwnedGraph::from_adjancecy_lists(lists.iter().map(|l| l.iter().map(|x| x.0).collect()).collect());
    ensure_eq!((uf.first_out(), uf.head()), (un.first_out(), un.head()), "unweighted from adjacency lists");
    let ur = UnweightedOwnedGraph::reversed(&un);
    let ur2 = UnweightedOwnedGraph::reversed(&og);
    for u in 0..g.n as u32 {
        let want = sorted(turned.iter().filter(|a| a.0 == u).map(|a| a.1).collect());
        let got: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(&ur, u).map(|x| x.0).collect();
        ensure_eq!(sorted(got.clone()), want, "unweighted reversed neighbours of {}", u);
        ensure_eq!(sorted(LinkIterable::<NodeIdT>::link_iter(&ur2, u).map(|x| x.0).collect()), want, "unweighted reversed (of weighted) neighbours of {}", u);
        ensure_eq!(ur.degree(u), got.len(), "degree of {}", u);
        ensure_eq!(un.degree(u), lists[u as usize].len(), "degree of {}", u);
        let ids: Vec<(u32, u32)> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&un, u).map(|x| (x.0 .0, x.1 .0)).collect();
        let fo = g.first_out()[u as usize];
        ensure_eq!(ids, lists[u as usize].iter().enumerate().map(|(i, x)| (x.0, fo + i as u32)).collect::<Vec<_>>(), "unweighted links of {}", u);
        for e in un.neighbor_edge_indices(u) {
            ensure_eq!(un.link(e).0, g.arcs[e as usize].1, "unweighted link {}", e);
        }
        for v in 0..g.n as u32 {
            let want: Vec<u32> = (0..g.arcs.len()).filter(|&e| g.arcs[e].0 == u && g.arcs[e].1 == v).map(|e| e as u32).collect();
            ensure_eq!(un.edge_indices(u, v).map(|e| e.0).collect::<Vec<_>>(), want, "unweighted edge_indices({}, {})", u, v);
        }
    }
    ensure_eq!((ur.num_nodes(), ur.num_arcs()), (g.n, g.arcs.len()), "unweighted reversed size");
    // with edge ids
    let re = ReversedGraphWithEdgeIds::reversed(&og);
    ensure_eq!((re.num_nodes(), re.num_arcs()), (g.n, g.arcs.len()), "reversed with ids size");
    let mut seen = vec![false; g.arcs.len()];
    for v in 0..g.n as u32 {
        let l: Vec<(u32, u32)> = re.link_iter(v).map(|(u, Reversed(e))| (u.0, e.0)).collect();
        ensure_eq!(re.degree(v), l.len(), "reversed with ids degree({})", v);
        for (u, e) in l {
            ensure!((e as usize) < seen.len() && !seen[e as usize], "arc id {} twice or out of range", e);
            seen[e as usize] = true;
            ensure_eq!((g.arcs[e as usize].0, g.arcs[e as usize].1), (u, v), "reversed arc {} -> {} names arc {}", v, u, e);
        }
    }
    ensure!(seen.iter().all(|s| *s), "an arc is missing in the reversed graph with ids");
    Ok(())
}

fn main() {
    vp_harness::main("c06", |ctx| {
        // every arc subset on three nodes with loops, one parallel arc
        let mut uni: Vec<(u32, u32, u32)> = vec![];
        for u in 0..3u32 {
            for v in 0..3u32 {
                uni.push((u, v, 1 + u * 3 + v));
            }
        }
        uni.push((1, 2, 77));
        for n in [3usize, 4] {
            for pat in 0..1u64 << uni.len() {
                let g = subset_graph(n, &uni, pat);
                ctx.case("all arc subsets on three nodes", || g.desc(), || check(&g));
            }
        }
        ctx.case("no nodes", || "n=0".into(), || check(&G::new(0, vec![])));
        for _ in 0..ctx.n(1500, 20) {
            let mut g = random_graph(&mut ctx.rng, 25);
            for a in g.arcs.iter_mut() {
                if ctx.rng.gen_bool(0.1) {
                    a.2 = *[INFINITY, INFINITY - 1, u32::MAX].choose(&mut ctx.rng).unwrap();
                }
            }
            ctx.case("random multigraphs", || g.desc(), || check(&g));
        }
    });
}
