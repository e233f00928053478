//! Time ranges against sets of times.
use rand::prelude::*;
use rust_road_router::datastr::graph::time_dependent::math::*;
use rust_road_router::datastr::graph::time_dependent::*;
use std::ops::Range;
use vp_harness::td::P;
use vp_harness::*;

fn set(r: &Range<u32>, max: u32) -> Vec<u32> {
    (0..max).filter(|t| r.start <= *t && *t < r.end).collect()
}

fn main() {
    vp_harness::main("c12", |ctx| {
        let m = if ctx.thorough { 10 } else { 7 };
        ctx.case("all small ranges", || format!("bounds below {}", m), || {
            for a in 0..m {
                for b in 0..m {
                    let x = a..b;
                    for s in 0..m {
                        let (l, r) = x.clone().split(s);
                        ensure_eq!(set(&l, m + 1), set(&x, m + 1).into_iter().filter(|t| *t < s).collect::<Vec<_>>(), "first part of {:?} split at {}", x, s);
                        ensure_eq!(set(&r, m + 1), set(&x, m + 1).into_iter().filter(|t| *t >= s).collect::<Vec<_>>(), "second part of {:?} split at {}", x, s);
                    }
                    for c in 0..m {
                        for d in 0..m {
                            let y = c..d;
                            let both: Vec<u32> = set(&x, m).into_iter().filter(|t| set(&y, m).contains(t)).collect();
                            ensure_eq!(set(&x.intersection(&y), m), both, "{:?} intersected with {:?}", x, y);
                            ensure_eq!(x.is_intersection_empty(&y), both.is_empty(), "{:?} and {:?} disjoint", x, y);
                        }
                    }
                }
            }
            Ok(())
        });
        let mut rng = ctx.rng();
        for _ in 0..ctx.n(3000, 20) {
            let mut pick = || -> u32 {
                match rng.gen_range(0..4) {
                    0 => rng.gen_range(0..4),
                    1 => P as u32 - rng.gen_range(1..4),
                    2 => P as u32 / 2 + rng.gen_range(0..4),
                    _ => rng.gen_range(0..P as u32),
                }
            };
            let (a, b, c, d, s) = (pick(), pick(), pick(), pick(), pick());
            let others: Vec<u32> = (0..6).map(|_| pick()).collect();
            ctx.case("ranges", || format!("{}..{} {}..{} split {}", a, b, c, d, s), || {
                let x = a..b;
                let y = c..d;
                let mut ts: Vec<u32> = vec![];
                for t in [a, b, c, d, s, 0, P as u32 - 1].into_iter().chain(others) {
                    for k in [-1i64, 0, 1] {
                        let v = t as i64 + k;
                        if 0 <= v && v < P {
                            ts.push(v as u32);
                        }
                    }
                }
                let i = x.intersection(&y);
                let (l, r) = x.clone().split(s);
                let mut any = false;
                for &t in &ts {
                    let (inx, iny) = (a <= t && t < b, c <= t && t < d);
                    any |= inx && iny;
                    ensure_eq!(i.start <= t && t < i.end, inx && iny, "{} in the intersection", t);
                    ensure_eq!(l.start <= t && t < l.end, inx && t < s, "{} in the first part", t);
                    ensure_eq!(r.start <= t && t < r.end, inx && t >= s, "{} in the second part", t);
                    // wrap-around
                    let w = WrappingRange::new(x.clone());
                    let want = if a < b { inx } else { t >= a || t < b };
                    ensure_eq!(w.contains(t), want, "{} in the wrapping range", t);
                    ensure_eq!((w.start(), w.end()), (a, b), "ends of the wrapping range");
                    let mr = w.monotonize();
                    ensure!(mr.start == a && mr.start < mr.end && mr.end - mr.start <= P as u32, "monotonize: {:?}", mr);
                    ensure_eq!((mr.start <= t && t < mr.end) || (mr.start <= t + P as u32 && t + (P as u32) < mr.end), want, "{} in the monotone range {:?}", t, mr);
                }
                // the intersection starts at one of the ends if there is any common time
                ensure_eq!(x.is_intersection_empty(&y), !any, "disjoint");
                Ok(())
            });
        }
    })
}
