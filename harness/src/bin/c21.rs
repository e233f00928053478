//! one-to-many and nearest-neighbour queries
use rand::prelude::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::contraction_hierarchy::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::nearest_neighbor::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::nearest_neighbor::*;
use rust_road_router::algo::rphast::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vp_harness::oracle::*;
use vp_harness::*;

/// k >= 1 of the targets, none omitted closer than a returned one
fn nearest(name: &str, got: Vec<(u32, u32)>, s: u32, ts: &[u32], k: usize, d: &[Vec<u32>]) -> Result<(), String> {
    let d = &d[s as usize];
    let mut seen = std::collections::BTreeSet::new();
    for &(x, t) in &got {
        ensure!(ts.contains(&t), "{}: from {}: {} is not a target of {:?}", name, s, t, ts);
        ensure!(seen.insert(t), "{}: from {}: target {} twice in {:?}", name, s, t, got);
        ensure!(x == d[t as usize], "{}: from {}: distance {} of target {}, exact is {}", name, s, x, t, d[t as usize]);
    }
    let mut best: Vec<u32> = ts.iter().map(|&t| d[t as usize]).filter(|&x| x < INF).collect();
    best.sort();
    best.truncate(k);
    let mut have: Vec<u32> = got.iter().map(|x| x.0).collect();
    have.sort();
    ensure_eq!(have, best, "{}: the {} nearest of {:?} from {}", name, k, ts, s);
    Ok(())
}

fn targets(rng: &mut StdRng, n: usize) -> Vec<u32> {
    let mut ts = permutation(rng, n);
    let k = match rng.gen_range(0..4) {
        0 => n,
        1 => rng.gen_range(0..=n.min(3)),
        _ => rng.gen_range(0..=n),
    };
    ts.truncate(k);
    ts
}

fn many<GF: LinkIterGraph + Clone, GB: LinkIterGraph + Clone>(name: &str, rng: &mut StdRng, g: &G, d: &[Vec<u32>], fw: GF, bw: GB, ord: &NodeOrder) -> Result<(), String> {
    let n = g.n as u32;
    let mut r = RPHAST::new(fw, bw, ord.clone());
    let mut q = RPHASTQuery::new(&r);
    let mut m = SSERPHASTQuery::new(&r);
    for round in 0..4 {
        let mut ts = targets(rng, g.n);
        if rng.gen_bool(0.2) && !ts.is_empty() {
            ts.push(ts[0]);
        }
        r.select(&ts);
        for _ in 0..3 {
            let s = rng.gen_range(0..n);
            let res = q.query(s, &r);
            for &t in &ts {
                ensure_eq!(res.distance(t).min(INF), d[s as usize][t as usize], "{}: one to many from {} to {} among {:?} (selection {})", name, s, t, ts, round);
            }
        }
        for _ in 0..3 {
            let mut ss = permutation(rng, g.n);
            ss.truncate(rng.gen_range(1..6));
            let res = m.query(&ss, &r);
            for &t in &ts {
                let got: Vec<u32> = res.distances(t).iter().map(|&x| x.min(INF)).collect();
                let want: Vec<u32> = ss.iter().map(|&s| d[s as usize][t as usize]).collect();
                ensure_eq!(got, want, "{}: many to many from {:?} to {} among {:?} (selection {})", name, ss, t, ts, round);
            }
        }
    }
    Ok(())
}

fn check(g: &G, order: &[u32], seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = g.all_dists();
    let o = g.owned();
    let n = g.n;
    let ord = NodeOrder::from_node_order(order.to_vec());
    let (fw, bw) = overlay(&o, ord.clone(), n);
    many("contraction hierarchy", &mut rng, g, &d, fw, bw, &ord)?;
    let cch = CCH::fix_order_and_build(&o, ord);
    let c = customize(&cch, &o);
    many("customizable hierarchy", &mut rng, g, &d, c.forward_graph(), c.backward_graph(), cch.node_order())?;
    let p = customize_perfect(c);
    many("perfect customizable hierarchy", &mut rng, g, &d, p.forward_graph(), p.backward_graph(), cch.node_order())?;

    let data = CCHPotData::new(&cch, &o);
    let mut plain = DijkstraNearestNeighbor::new(g.owned());
    let mut sep = SeparatorBasedNearestNeighbor::new(&cch, data.backward_potential());
    let mut lazy = LazyRphastNearestNeighbor::new(data.backward_potential());
    let mut bucket = BCCHNearestNeighbor::new(data.customized());
    for _ in 0..6 {
        let ts = targets(&mut rng, n);
        let mut a = plain.select_targets(&ts);
        let mut b = sep.select_targets(&ts);
        let mut c = bucket.select_targets(&ts);
        for _ in 0..6 {
            let s = rng.gen_range(0..n as u32);
            let k = if rng.gen_bool(0.7) { rng.gen_range(1..=4) } else { rng.gen_range(1..=n + 1) };
            nearest("plain search", a.query(s, k), s, &ts, k, &d)?;
            nearest("separator based", b.query(s, k), s, &ts, k, &d)?;
            nearest("restricted search", lazy.query(s, &ts, k), s, &ts, k, &d)?;
            nearest("bucket based", c.query(s, k), s, &ts, k, &d)?;
        }
    }
    Ok(())
}

fn main() {
    vp_harness::main("c21", |ctx| {
        threads(2);
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let p = permutation(&mut rng, n);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
            }
        }
        for i in 0..ctx.n(1500, 20) {
            let g = if i % 10 == 0 { random_graph(&mut rng, 120) } else if i % 3 == 0 { random_graph(&mut rng, 40) } else { random_graph(&mut rng, 12) };
            let p = permutation(&mut rng, g.n);
            let seed = rng.gen();
            ctx.case("random graphs and orders", || format!("{} order {:?} seed {}", g.desc(), p, seed), || check(&g, &p, seed));
        }
    });
}
