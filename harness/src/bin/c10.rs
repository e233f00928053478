//! FIFO of predicted, live and pessimistic live travel times.
use rand::prelude::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::util::in_range_option::InRangeOption;
use vp_harness::td::*;
use vp_harness::*;

fn fifo_ok(name: &str, pts: &[(i64, i64)]) -> Result<(), String> {
    for w in pts.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0 + w[1].1, "{}: departing at {} arrives at {}, departing at {} arrives at {}", name, w[0].0, w[0].0 + w[0].1, w[1].0, w[1].0 + w[1].1);
    }
    Ok(())
}

fn main() {
    vp_harness::main("c10", |ctx| {
        let mut rng = ctx.rng();
        for _ in 0..ctx.n(1200, 20) {
            let fs: Vec<F> = (0..rng.gen_range(1..5)).map(|_| random_f(&mut rng)).collect();
            let soon: i64 = if rng.gen() { *fs[0].breaks().choose(&mut rng).unwrap() + rng.gen_range(0..3) } else { rng.gen_range(0..3 * P) };
            let lives: Vec<Option<(i64, i64)>> = fs
                .iter()
                .map(|f| {
                    if rng.gen_bool(0.2) {
                        return None;
                    }
                    let s = if rng.gen() { soon } else { rng.gen_range(0..2 * P) };
                    let v = f.at(s);
                    let l = match rng.gen_range(0..5) {
                        0 => v + rng.gen_range(0..4),
                        1 => (v - rng.gen_range(0..4)).max(0),
                        2 => rng.gen_range(0..100_000_000),
                        3 => INF,
                        _ => rng.gen_range(0..10),
                    };
                    Some((l.min(INF), s))
                })
                .collect();
            let mut rng = StdRng::seed_from_u64(rng.gen());
            ctx.case("fifo", || format!("{:?} soon {} live {:?}", fs, soon, lives), || {
                let g = graph_of(&fs);
                let live = LiveTDGraph::new(g.clone(), soon as u32, lives.iter().map(|l| InRangeOption::new(l.map(|l| l.0 as u32))).collect());
                let pess = PessimisticLiveTDGraph::new(g.clone(), lives.iter().map(|l| InRangeOption::new(l.map(|l| (l.0 as u32, l.1 as u32)))).collect());
                for (e, f) in fs.iter().enumerate() {
                    let mut extra = vec![soon, soon + P];
                    if let Some((l, s)) = lives[e] {
                        extra.extend([s, s - l, s - l + f.at(s), s + f.at(s) - l, soon + l, soon + l - f.at(soon), soon + (f.at(soon) - l)]);
                    }
                    let ts = f.times(&mut rng, &extra, INF);
                    let e32 = e as u32;
                    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
                    for &t in &ts {
                        let p = f.at(t);
                        let v = g.travel_time_function(e32).eval(t as u32) as i64;
                        ensure_eq!(v, p, "predicted, arc {} at {}", e, t);
                        a.push((t, v));
                        let v = live.eval(e32, t as u32) as i64;
                        let want = match lives[e] {
                            None => p,
                            Some((l, _)) => {
                                if t < soon {
                                    l
                                } else if f.at(soon) < l {
                                    (l + soon - t).max(p)
                                } else {
                                    (l + t - soon).min(p)
                                }
                            }
                        };
                        ensure_eq!(v, want, "live, arc {} at {}", e, t);
                        b.push((t, v));
                        let v = pess.eval(e32, t as u32) as i64;
                        let want = match lives[e] {
                            Some((l, s)) if t < s => p.max(l.min(f.at(s) + s - t)),
                            _ => p,
                        };
                        ensure_eq!(v, want, "pessimistic live, arc {} at {}", e, t);
                        c.push((t, v));
                    }
                    fifo_ok("predicted", &a)?;
                    fifo_ok("live", &b)?;
                    fifo_ok("pessimistic live", &c)?;
                }
                Ok(())
            });
        }
    })
}
