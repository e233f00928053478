//! Evaluation of travel time functions against direct interpolation of the point list.
use rand::prelude::*;
use rust_road_router::datastr::graph::time_dependent::*;
use vp_harness::td::*;
use vp_harness::*;

fn main() {
    vp_harness::main("c09", |ctx| {
        let mut rng = ctx.rng();
        for _ in 0..ctx.n(1500, 20) {
            let fs: Vec<F> = (0..rng.gen_range(1..6)).map(|_| random_f(&mut rng)).collect();
            let mut rng = StdRng::seed_from_u64(rng.gen());
            ctx.case("evaluation", || format!("{:?}", fs), || {
                let g = graph_of(&fs);
                for (e, f) in fs.iter().enumerate() {
                    let ttf = g.travel_time_function(e as u32);
                    let c = f.closed();
                    let (mut lo, mut hi) = (i64::MAX, 0);
                    for t in f.times(&mut rng, &[], u32::MAX as i64 / 2) {
                        let v = ttf.eval(t as u32) as i64;
                        ensure_eq!(v, f.at(t), "arc {} at {}", e, t);
                        ensure_eq!(v, ttf.eval((t + P) as u32) as i64, "arc {} at {} and one period later", e, t);
                        lo = lo.min(v);
                        hi = hi.max(v);
                    }
                    for &(d, v) in &c {
                        ensure_eq!(ttf.eval(d as u32) as i64, v, "arc {} at breakpoint {}", e, d);
                    }
                    ensure!(lo >= ttf.lower_bound() as i64, "arc {}: value {} below the lower bound", e, lo);
                    ensure!(hi <= ttf.upper_bound() as i64, "arc {}: value {} above the upper bound", e, hi);
                    // the same function built from borrowed slices
                    let dt: Vec<u32> = c.iter().map(|x| x.0 as u32).collect();
                    let tt: Vec<u32> = c.iter().map(|x| x.1 as u32).collect();
                    let own = PiecewiseLinearFunction::new(&dt, &tt);
                    for t in f.times(&mut rng, &[], 3 * P) {
                        ensure_eq!(own.eval(t as u32) as i64, f.at(t), "slices of arc {} at {}", e, t);
                    }
                }
                Ok(())
            });
        }
    })
}
