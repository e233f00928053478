//! merging metrics partitions them
use rand::prelude::*;
use rust_road_router::algo::metric_merging::merge;
use vp_harness::oracle::sorted;
use vp_harness::*;

fn check(metrics: &[Vec<u32>], target: usize) -> Result<(), String> {
    let refs: Vec<&[u32]> = metrics.iter().map(|m| &m[..]).collect();
    let r = merge(&refs, target);
    ensure!(r.iter().all(|g| !g.is_empty()), "an empty group in {:?}", r);
    ensure_eq!(sorted(r.concat()), (0..metrics.len()).collect::<Vec<_>>(), "members of the groups {:?}", r);
    ensure_eq!(r.len(), target.max(1).min(metrics.len()), "number of groups {:?}", r);
    Ok(())
}

fn main() {
    vp_harness::main("c25", |ctx| {
        threads(4);
        let mut rng = ctx.rng();
        for i in 0..ctx.n(3000, 10) {
            threads(1 + i % 4);
            let n = rng.gen_range(1..=if i % 10 == 0 { 30 } else { 8 });
            let m = rng.gen_range(0..=12);
            let kinds = rng.gen_range(1..=n);
            let top = *[1u32, 3, 100, 1 << 20].choose(&mut rng).unwrap();
            let pool: Vec<Vec<u32>> = (0..kinds).map(|_| (0..m).map(|_| rng.gen_range(0..top)).collect()).collect();
            let metrics: Vec<Vec<u32>> = (0..n).map(|_| pool.choose(&mut rng).unwrap().clone()).collect();
            let target = rng.gen_range(0..=n + 2);
            ctx.case("random metrics", || format!("{:?} target {}", metrics, target), || check(&metrics, target));
        }
    });
}
