//! brute-force oracles for contraction and customization
use crate::oracle::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use std::collections::{BTreeMap, BTreeSet};

/// the elimination game in rank space: upper neighbours of every rank, ascending
pub fn fill_in(g: &G, rank: &[u32]) -> Vec<Vec<u32>> {
    let mut up: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); g.n];
    for &(u, v, _) in &g.arcs {
        let (a, b) = (rank[u as usize], rank[v as usize]);
        if a != b {
            up[a.min(b) as usize].insert(a.max(b));
        }
    }
    for v in 0..g.n {
        let ns: Vec<u32> = up[v].iter().copied().collect();
        for (i, &a) in ns.iter().enumerate() {
            for &b in &ns[i + 1..] {
                up[a as usize].insert(b);
            }
        }
    }
    up.into_iter().map(|s| s.into_iter().collect()).collect()
}

/// rank space: shortest path lengths u -> v all of whose inner nodes are lower than both ends, and plain distances
pub fn restricted(g: &G, rank: &[u32]) -> (Vec<Vec<u32>>, Vec<Vec<u32>>) {
    let n = g.n;
    let big = u64::MAX / 4;
    let mut d = vec![vec![big; n]; n];
    for &(u, v, w) in &g.arcs {
        let (a, b) = (rank[u as usize] as usize, rank[v as usize] as usize);
        if w < INF {
            d[a][b] = d[a][b].min(w as u64);
        }
    }
    let mut low = vec![vec![INF; n]; n];
    let cut = |x: u64| if x < INF as u64 { x as u32 } else { INF };
    for k in 0..n {
        for v in k..n {
            low[k][v] = cut(d[k][v]);
            low[v][k] = cut(d[v][k]);
        }
        for i in 0..n {
            for j in 0..n {
                if i != j && i != k && j != k {
                    d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
                }
            }
        }
    }
    for i in 0..n {
        d[i][i] = 0;
    }
    (low, d.into_iter().map(|r| r.into_iter().map(cut).collect()).collect())
}

/// arcs of one direction of a CCH: (tail, head) in ranks
pub fn arc_list(first_out: &[u32], head: &[u32]) -> Vec<(u32, u32)> {
    (0..first_out.len() - 1).flat_map(|v| (first_out[v]..first_out[v + 1]).map(move |e| (v as u32, head[e as usize]))).collect()
}

/// offset arrays, tails, arc mapping, reversed graph of one direction agree with each other
pub fn check_direction(
    what: &str, g: &G, order: &NodeOrder, n: usize, first_out: &[u32], head: &[u32], tail: &[u32], inverted: &ReversedGraphWithEdgeIds, orig: Vec<Vec<EdgeIdT>>, backward: bool,
) -> Result<(), String> {
    crate::ensure_eq!(first_out.len(), n + 1, "{}: length of the offset array", what);
    crate::ensure!(first_out[0] == 0 && *first_out.last().unwrap() as usize == head.len() && first_out.windows(2).all(|w| w[0] <= w[1]), "{}: bad offsets {:?}", what, first_out);
    let arcs = arc_list(first_out, head);
    crate::ensure_eq!(tail.len(), arcs.len(), "{}: number of tails", what);
    let mut inv: Vec<Vec<(u32, u32)>> = vec![vec![]; n];
    crate::ensure_eq!(orig.len(), arcs.len(), "{}: number of arc mappings", what);
    for (e, &(u, v)) in arcs.iter().enumerate() {
        crate::ensure!(u < v && (v as usize) < n, "{}: arc {} leads from rank {} to {}", what, e, u, v);
        if e > 0 && arcs[e - 1].0 == u {
            crate::ensure!(arcs[e - 1].1 < v, "{}: heads of node {} not strictly ascending", what, u);
        }
        crate::ensure_eq!(tail[e], u, "{}: tail of arc {}", what, e);
        inv[v as usize].push((u, e as u32));
        let (a, b) = if backward { (v, u) } else { (u, v) };
        let (a, b) = (order.node(a), order.node(b));
        let mut got: Vec<u32> = orig[e].iter().map(|x| x.0).collect();
        got.sort();
        let want: Vec<u32> = (0..g.arcs.len() as u32).filter(|&i| g.arcs[i as usize].0 == a && g.arcs[i as usize].1 == b).collect();
        crate::ensure_eq!(got, want, "{}: original arcs of arc {} (nodes {} -> {})", what, e, a, b);
    }
    for v in 0..n as u32 {
        let mut got: Vec<(u32, u32)> = inverted.link_iter(v).map(|(NodeIdT(x), Reversed(EdgeIdT(e)))| (x, e)).collect();
        got.sort();
        crate::ensure_eq!(got, inv[v as usize], "{}: lower neighbours of {}", what, v);
    }
    Ok(())
}

/// everything the rest of the system assumes about a freshly contracted CCH
pub fn check_cch(g: &G, cch: &CCH) -> Result<(), String> {
    let n = g.n;
    let order = cch.node_order();
    crate::ensure_eq!(order.len(), n, "length of the order");
    let mut ranks: Vec<u32> = (0..n as u32).map(|v| order.rank(v)).collect();
    let up = fill_in(g, &ranks);
    check_direction("forward", g, order, n, cch.first_out(), cch.head(), cch.forward_tail(), cch.forward_inverted(), cch.forward_cch_edge_to_orig_arc().iter().map(|s| s.to_vec()).collect(), false)?;
    check_direction("backward", g, order, n, cch.backward_first_out(), cch.backward_head(), cch.backward_tail(), cch.backward_inverted(), cch.backward_cch_edge_to_orig_arc().iter().map(|s| s.to_vec()).collect(), true)?;
    for v in 0..n as u32 {
        let got: Vec<u32> = cch.neighbor_iter(v).collect();
        crate::ensure_eq!(got, up[v as usize], "upper neighbours of rank {} (order {:?})", v, order.order());
        crate::ensure_eq!(cch.elimination_tree()[v as usize].value(), up[v as usize].first().copied(), "elimination tree parent of {}", v);
        for e in cch.neighbor_edge_indices(v) {
            crate::ensure_eq!(cch.edge_id_to_tail(e), v, "tail of arc {}", e);
        }
        crate::ensure_eq!(cch.degree(v), up[v as usize].len(), "degree of {}", v);
    }
    crate::ensure_eq!(cch.num_nodes(), n, "number of nodes");
    crate::ensure_eq!(cch.num_arcs(), up.iter().map(|x| x.len()).sum::<usize>(), "number of arcs");
    ranks.sort();
    crate::ensure!(ranks.iter().enumerate().all(|(i, &r)| i == r as usize), "the order is not a permutation");
    Ok(())
}

/// weights of one customized graph, per arc (tail, head)
pub fn weights(g: &BorrowedGraph) -> Vec<((u32, u32), u32)> {
    arc_list(g.first_out(), g.head()).into_iter().zip(g.weight().iter().copied()).collect()
}

/// every customized arc carries the value `want(a,b)` for the path a -> b, and unpacks into a lower triangle of that weight
/// or is realised by an original arc
pub fn check_customized<C: Customized>(what: &str, g: &G, c: &C, rank: &[u32], want: impl Fn(u32, u32) -> u32) -> Result<(), String> {
    check_customized_if(what, g, c, rank, |a, b, w| w == want(a, b), |a, b, _| format!("expected {}", want(a, b)), |_, _, _| true)
}

/// perfect customization of a hierarchy without the always infinite arcs: not every arc gets the exact distance,
/// but it stays between the distance and the basic weight, and the arcs that are exact unpack
pub fn check_pruned<C: Customized>(what: &str, g: &G, c: &C, rank: &[u32], low: &[Vec<u32>], d: &[Vec<u32>]) -> Result<(), String> {
    let at = |m: &[Vec<u32>], a: u32, b: u32| m[a as usize][b as usize];
    check_customized_if(
        what,
        g,
        c,
        rank,
        |a, b, w| w == at(d, a, b) || w == at(low, a, b),
        |a, b, _| format!("distance {}, basic weight {}", at(d, a, b), at(low, a, b)),
        |a, b, w| w == at(d, a, b),
    )
}

fn check_customized_if<C: Customized>(
    what: &str, g: &G, c: &C, rank: &[u32], ok: impl Fn(u32, u32, u32) -> bool, msg: impl Fn(u32, u32, u32) -> String, unpacks: impl Fn(u32, u32, u32) -> bool,
) -> Result<(), String> {
    let fw = weights(&c.forward_graph());
    let bw = weights(&c.backward_graph());
    let mut cheapest: BTreeMap<(u32, u32), u32> = BTreeMap::new();
    for &(u, v, w) in &g.arcs {
        let e = cheapest.entry((rank[u as usize], rank[v as usize])).or_insert(INF);
        *e = (*e).min(w);
    }
    crate::ensure_eq!(c.forward_tail(), &fw.iter().map(|x| x.0 .0).collect::<Vec<_>>()[..], "{}: forward tails", what);
    crate::ensure_eq!(c.backward_tail(), &bw.iter().map(|x| x.0 .0).collect::<Vec<_>>()[..], "{}: backward tails", what);
    for up in [true, false] {
        for (e, &((t, h), w)) in (if up { &fw } else { &bw }).iter().enumerate() {
            let (a, b) = if up { (t, h) } else { (h, t) };
            crate::ensure!(ok(a, b, w), "{}: weight of {} arc {} ({} -> {} in ranks): got {}, {}", what, if up { "upward" } else { "downward" }, e, a, b, w, msg(a, b, w));
            if !unpacks(a, b, w) {
                continue;
            }
            let un = if up { c.unpack_outgoing(EdgeIdT(e as u32)) } else { c.unpack_incoming(EdgeIdT(e as u32)) };
            match un {
                None => {
                    if w < INF {
                        crate::ensure_eq!(cheapest.get(&(a, b)).copied(), Some(w), "{}: {} -> {} does not unpack, cheapest original arc", what, a, b);
                    }
                }
                Some((EdgeIdT(d), EdgeIdT(u), NodeIdT(m))) => {
                    crate::ensure!((d as usize) < bw.len() && (u as usize) < fw.len(), "{}: {} -> {} unpacks to arcs {} and {} which do not exist", what, a, b, d, u);
                    let ((dt, dh), dw) = bw[d as usize];
                    let ((ut, uh), uw) = fw[u as usize];
                    crate::ensure!(dt == m && ut == m && dh == a && uh == b && m < a && m < b, "{}: {} -> {} unpacks to {} -> {} -> {} via {}", what, a, b, dh, m, uh, m);
                    crate::ensure_eq!(dw as u64 + uw as u64, w as u64, "{}: {} -> {} via {}: weight of the two parts", what, a, b, m);
                }
            }
        }
    }
    Ok(())
}

/// kept arcs of a perfect customization: exactly those whose basic weight is a shortest distance
pub fn check_kept<C: Customized>(what: &str, basic: &[((u32, u32), u32)], kept: &[((u32, u32), u32)], up: bool, d: &[Vec<u32>], _c: &C) -> Result<(), String> {
    let dist = |(t, h): (u32, u32)| if up { d[t as usize][h as usize] } else { d[h as usize][t as usize] };
    let want: Vec<_> = basic.iter().filter(|(a, w)| *w < INF && *w == dist(*a)).copied().collect();
    let got: Vec<_> = kept.iter().filter(|(a, w)| *w < INF && *w == dist(*a)).copied().collect();
    crate::ensure_eq!(got, want, "{}: {} arcs kept by the perfect customization", what, if up { "upward" } else { "downward" });
    Ok(())
}
