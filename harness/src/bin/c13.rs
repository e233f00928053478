//! plain Dijkstra servers: exact distances, one-to-all, ranks, no memory between queries
use rand::prelude::*;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use vp_harness::oracle::*;
use vp_harness::*;

fn check(g: &G, seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = g.all_dists();
    let qs = queries(&mut rng, g.n, 40);
    let mut a = Server::<OwnedGraph, DefaultOps>::new(g.owned());
    let mut b = Server::<OwnedGraph, DefaultOpsByEdgeId>::new(g.owned());
    let mut c = Server::<OwnedGraph, DefaultOpsWithLinkPath>::new(g.owned());
    let og = g.owned();
    let mut e = Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::new(&og);
    check_dists!("DefaultOps", a, d, qs);
    check_dists!("DefaultOpsByEdgeId", b, d, qs);
    check_dists!("DefaultOpsWithLinkPath", c, d, qs);
    // mixed use of one server
    for i in 0..12 {
        let s = rng.gen_range(0..g.n as u32);
        let t = rng.gen_range(0..g.n as u32);
        match rng.gen_range(0..4) {
            0 => {
                let r = e.one_to_all(s);
                for v in 0..g.n as u32 {
                    ensure_eq!(r.distance(v), d[s as usize][v as usize], "one_to_all from {} to {} (use {})", s, v, i);
                }
            }
            1 => ensure_eq!(e.query(Query { from: s, to: t }).distance(), opt(d[s as usize][t as usize]), "query {} -> {} (use {})", s, t, i),
            2 => {
                let reach = d[s as usize].iter().filter(|&&x| x < INF).count();
                let mut sorted = d[s as usize].clone();
                sorted.sort();
                let mut next = 1usize;
                let mut bad = None;
                e.ranks(s, |v, dist, rank| {
                    if dist != d[s as usize][v as usize] || rank != next.trailing_zeros() as usize || sorted[next - 1] != dist {
                        bad.get_or_insert(format!("ranks from {}: callback ({}, {}, {}) at settled node number {}", s, v, dist, rank, next));
                    }
                    next *= 2;
                });
                if let Some(b) = bad {
                    return Err(b);
                }
                ensure!(next > reach && next / 2 <= reach, "ranks from {} stopped after {} of {} nodes", s, next / 2, reach);
            }
            _ => {
                let dep = rng.gen_range(0..1000u32);
                let r = e.td_query(TDQuery { from: s, to: t, departure: dep }).distance();
                let x = d[s as usize][t as usize] as u64 + dep as u64;
                ensure_eq!(r, opt(x.min(INF as u64) as u32), "td_query {} -> {} departing at {}", s, t, dep);
            }
        }
    }
    // the run itself: every reachable node settled once, in order of distance
    let mut data = DijkstraData::new(g.n);
    for _ in 0..4 {
        let s = rng.gen_range(0..g.n as u32);
        let mut ops = DefaultOps();
        let mut run = DijkstraRun::query(&og, &mut data, &mut ops, DijkstraInit::from(s));
        let mut seen = vec![false; g.n];
        let mut last = 0;
        while let Some(v) = run.next() {
            ensure!(!seen[v as usize], "node {} settled twice from {}", v, s);
            seen[v as usize] = true;
            let x = *run.tentative_distance(v);
            ensure_eq!(x, d[s as usize][v as usize], "distance of the settled node {} from {}", v, s);
            ensure!(x >= last, "settled out of order from {}", s);
            last = x;
        }
        for v in 0..g.n {
            ensure_eq!(seen[v], d[s as usize][v] < INF, "node {} settled from {}", v, s);
        }
        // several start nodes with offsets
        let k = rng.gen_range(0..g.n as u32);
        let off = rng.gen_range(0..20u32);
        if k != s && off <= d[s as usize][k as usize] {
            run.initialize(DijkstraInit::from(s));
            run.add_start_node(DijkstraInit { source: NodeIdT(k), initial_state: off });
            while run.next().is_some() {}
            for v in 0..g.n {
                let w = (d[s as usize][v] as u64).min(d[k as usize][v] as u64 + off as u64).min(INF as u64) as u32;
                ensure_eq!(*run.tentative_distance(v as u32), w, "two start nodes {} and {} (+{}): distance of {}", s, k, off, v);
            }
        }
        // only some arcs allowed
        let forbidden = rng.gen_range(0..g.n as u32);
        run.initialize(DijkstraInit::from(s));
        while run.next_filtered_edges(|l: &Link| l.node != forbidden).is_some() {}
        let h = G::new(g.n, g.arcs.iter().copied().filter(|a| a.1 != forbidden).collect());
        let hd = h.dist_from(s);
        for v in 0..g.n {
            ensure_eq!(*run.tentative_distance(v as u32), hd[v], "filtered run from {} without arcs into {}: distance of {}", s, forbidden, v);
        }
    }
    Ok(())
}

fn main() {
    vp_harness::main("c13", |ctx| {
        // every graph on three nodes out of 9 possible arcs, with tie-prone weights
        let uni: Vec<(u32, u32, u32)> = (0..3u32).flat_map(|u| (0..3u32).map(move |v| (u, v, (u * 2 + v * 3) % 4))).collect();
        for pat in 0..512u64 {
            let g = subset_graph(3, &uni, pat);
            ctx.case("all arc subsets on three nodes", || g.desc(), || check(&g, pat));
        }
        let mut rng = ctx.rng();
        for i in 0..ctx.n(1500, 8) {
            let mut g = random_graph(&mut rng, 14);
            if i % 4 == 0 {
                g = with_extremes(&mut rng, &g);
            }
            let s = rng.gen();
            ctx.case("random multigraphs", || format!("{} seed={}", g.desc(), s), || check(&g, s));
        }
        for _ in 0..ctx.n(20, 8) {
            let n = 60 + rng.gen_range(0..60);
            let g = random_graph_n(&mut rng, n);
            let s = rng.gen();
            ctx.case("larger random multigraphs", || format!("{} seed={}", g.desc(), s), || check(&g, s));
        }
    });
}
