//! Bounds against evaluations.
use rand::prelude::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::util::in_range_option::InRangeOption;
use vp_harness::td::*;
use vp_harness::*;

/// the extreme values over a closed range: at the ends or at a breakpoint
fn extremes(f: &F, a: i64, b: i64) -> (i64, i64) {
    let mut v = vec![f.at(a), f.at(b)];
    for x in f.breaks() {
        for k in 0..=(b / P) {
            if a <= x + k * P && x + k * P <= b {
                v.push(f.at(x));
            }
        }
    }
    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
}

fn main() {
    vp_harness::main("c11", |ctx| {
        let mut rng = ctx.rng();
        for _ in 0..ctx.n(1200, 20) {
            let fs: Vec<F> = (0..rng.gen_range(1..4)).map(|_| random_f(&mut rng)).collect();
            let lives: Vec<Option<(i64, i64)>> = fs
                .iter()
                .map(|f| {
                    if rng.gen_bool(0.2) {
                        return None;
                    }
                    let s = if rng.gen() { *f.breaks().choose(&mut rng).unwrap() } else { rng.gen_range(0..2 * P) };
                    let l = match rng.gen_range(0..4) {
                        0 => f.at(s) + rng.gen_range(0..4),
                        1 => (f.at(s) - rng.gen_range(0..4)).max(0),
                        2 => INF,
                        _ => rng.gen_range(0..1000),
                    };
                    Some((l.min(INF), s))
                })
                .collect();
            let mut rng = StdRng::seed_from_u64(rng.gen());
            ctx.case("bounds", || format!("{:?} live {:?}", fs, lives), || {
                let g = graph_of(&fs);
                let pess = PessimisticLiveTDGraph::new(g.clone(), lives.iter().map(|l| InRangeOption::new(l.map(|l| (l.0 as u32, l.1 as u32)))).collect());
                for (e, f) in fs.iter().enumerate() {
                    let e32 = e as u32;
                    let ttf = g.travel_time_function(e32);
                    let (lo, hi) = extremes(f, 0, P);
                    ensure_eq!(ttf.lower_bound() as i64, lo, "lower bound of arc {}", e);
                    ensure_eq!(ttf.upper_bound() as i64, hi, "upper bound of arc {}", e);
                    ensure_eq!(pess.predicted_upper_bound(e32) as i64, hi, "predicted upper bound of arc {}", e);
                    let extra: Vec<i64> = lives[e].iter().map(|l| l.1).collect();
                    let ts = f.times(&mut rng, &extra, 4 * P);
                    for _ in 0..30 {
                        let (mut a, mut b) = (*ts.choose(&mut rng).unwrap(), *ts.choose(&mut rng).unwrap());
                        if a > b {
                            std::mem::swap(&mut a, &mut b);
                        }
                        if a == b {
                            continue;
                        }
                        let r = a as u32..b as u32;
                        let (lo, hi) = extremes(f, a, b);
                        ensure_eq!(ttf.lower_bound_in_range(r.clone()) as i64, lo, "lower bound of arc {} in {:?}", e, r);
                        ensure_eq!(ttf.upper_bound_in_range(r.clone()) as i64, hi, "upper bound of arc {} in {:?}", e, r);
                        // live bounds: for the times of the range (lower), from now on (upper)
                        let l = pess.live_lower_bound(e32, a as u32, b as u32);
                        let u = pess.upper_bound(e32, a as u32);
                        let t3 = f.times(&mut rng, &[a, b, (a + b) / 2, extra.first().copied().unwrap_or(a)], INF);
                        for &t in t3.iter().filter(|t| **t >= a) {
                            let v = pess.eval(e32, t as u32);
                            ensure!(v <= u, "arc {}: travel time {} at {} above the upper bound {} from {}", e, v, t, u, a);
                            if t < b {
                                ensure!(v >= l, "arc {}: travel time {} at {} below the live lower bound {} in {:?}", e, v, t, l, r);
                            }
                        }
                        // wrapping averages
                        let w = ((a % P) as u32)..((b % P) as u32);
                        let avg = ttf.average(WrappingRange::new(w.clone())) as i64;
                        ensure!(ttf.lower_bound() as i64 <= avg && avg <= ttf.upper_bound() as i64, "arc {}: average {} over {:?}", e, avg, w);
                    }
                }
                Ok(())
            });
        }
    })
}
