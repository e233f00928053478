//! NodeOrder: rank and node are inverse bijections, for every small permutation and random large ones.
use rand::prelude::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;
use vp_harness::*;

fn check(o: &NodeOrder, order: &[u32], ranks: &[u32]) -> Result<(), String> {
    ensure_eq!(o.len(), order.len(), "len");
    ensure_eq!(o.is_empty(), order.is_empty(), "is_empty");
    ensure_eq!(o.order(), order, "order()");
    ensure_eq!(o.ranks(), ranks, "ranks()");
    for i in 0..order.len() as u32 {
        ensure_eq!(o.node(i), order[i as usize], "node({})", i);
        ensure_eq!(o.rank(i), ranks[i as usize], "rank({})", i);
        ensure_eq!(o.node(o.rank(i)), i, "node(rank({}))", i);
        ensure_eq!(o.rank(o.node(i)), i, "rank(node({}))", i);
    }
    Ok(())
}

fn both(p: &[u32]) -> Result<(), String> {
    let mut inv = vec![0; p.len()];
    for (i, &x) in p.iter().enumerate() {
        inv[x as usize] = i as u32;
    }
    let a = NodeOrder::from_node_order(p.to_vec());
    check(&a, p, &inv).map_err(|e| format!("from_node_order: {}", e))?;
    let b = NodeOrder::from_ranks(p.to_vec());
    check(&b, &inv, p).map_err(|e| format!("from_ranks: {}", e))?;
    let c = NodeOrder::from_ranks(a.ranks().to_vec());
    check(&c, p, &inv).map_err(|e| format!("from_ranks(from_node_order(..).ranks()): {}", e))?;
    check(&a.clone(), p, &inv).map_err(|e| format!("clone: {}", e))?;
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u32 - 1);
            r.push(q);
        }
    }
    r
}

fn main() {
    let dir = std::env::temp_dir().join(format!("vp_c04_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    let max = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { 9 } else { 7 };
    vp_harness::main("c04", |ctx| {
        for n in 0..=max {
            for p in perms(n) {
                ctx.case("all permutations of small length", || format!("{:?}", p), || both(&p));
            }
        }
        for n in [0usize, 1, 2, 3, 63, 64, 65, 1000, 100000] {
            ctx.case("identity", || format!("n = {}", n), || {
                let v: Vec<u32> = (0..n as u32).collect();
                check(&NodeOrder::identity(n), &v, &v)
            });
        }
        for i in 0..ctx.n(300, 20) {
            let n = if i % 50 == 49 { 70000 } else { ctx.rng.gen_range(1..500) };
            let mut p: Vec<u32> = (0..n).collect();
            p.shuffle(&mut ctx.rng);
            ctx.case("random permutations", || format!("{:?}", p), || {
                both(&p)?;
                let o = NodeOrder::from_node_order(p.clone());
                let f = d2.join("o");
                let _ = std::fs::remove_dir_all(&f);
                std::fs::create_dir_all(&f).map_err(|e| e.to_string())?;
                o.deconstruct_to(&f).map_err(|e| e.to_string())?;
                let l = NodeOrder::reconstruct_from(&f).map_err(|e| e.to_string())?;
                check(&l, o.order(), o.ranks()).map_err(|e| format!("stored and loaded: {}", e))
            });
        }
        let _ = std::fs::remove_dir_all(&d2);
    });
}
