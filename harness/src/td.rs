//! Travel time functions as plain point lists, evaluated directly.
use rand::prelude::*;
use rust_road_router::datastr::graph::time_dependent::*;

pub const P: i64 = 86_400_000;
pub const INF: i64 = (u32::MAX / 2) as i64;

#[derive(Clone, Debug)]
pub struct F {
    pub raw: Vec<(u32, u32)>,
}

impl F {
    /// the points over one period, as the data set means them
    pub fn closed(&self) -> Vec<(i64, i64)> {
        if self.raw.len() == 1 {
            return vec![(0, self.raw[0].1 as i64), (P, self.raw[0].1 as i64)];
        }
        let mut p: Vec<(i64, i64)> = Vec::new();
        if self.raw[0].0 != 0 {
            p.push((0, self.raw[0].1 as i64));
        }
        p.extend(self.raw.iter().map(|x| (x.0 as i64, x.1 as i64)));
        if p.last().unwrap().0 != P {
            p.push((P, self.raw[0].1 as i64));
        }
        p
    }
    pub fn at(&self, t: i64) -> i64 {
        let p = self.closed();
        let x = t.rem_euclid(P);
        for w in p.windows(2) {
            if w[0].0 <= x && x <= w[1].0 {
                return w[0].1 + (((x - w[0].0) as i128 * (w[1].1 - w[0].1) as i128).div_euclid((w[1].0 - w[0].0) as i128)) as i64;
            }
        }
        unreachable!()
    }
    pub fn breaks(&self) -> Vec<i64> {
        self.closed().iter().map(|x| x.0).collect()
    }
    /// times around everything that matters, below `limit`
    pub fn times(&self, rng: &mut StdRng, extra: &[i64], limit: i64) -> Vec<i64> {
        let mut ts: Vec<i64> = Vec::new();
        let mut base = self.breaks();
        base.extend(extra.iter().map(|x| x.rem_euclid(P)));
        for b in base {
            for d in [-2, -1, 0, 1, 2] {
                for k in [0, P, 2 * P, 20 * P] {
                    ts.push(b + d + k);
                }
            }
        }
        for e in extra {
            for d in [-2, -1, 0, 1, 2] {
                ts.push(e + d);
            }
        }
        for w in self.closed().windows(2) {
            ts.push((w[0].0 + w[1].0) / 2);
            for _ in 0..3 {
                ts.push(rng.gen_range(w[0].0..=w[1].0));
            }
        }
        for _ in 0..5 {
            ts.push(rng.gen_range(0..3 * P));
        }
        ts.retain(|t| *t >= 0 && *t < limit);
        ts.sort();
        ts.dedup();
        ts
    }
}

/// a FIFO function: no segment, also not the one across the end of the period, has a slope below -1
pub fn fifo(rng: &mut StdRng, mut raw: Vec<(u32, u32)>) -> F {
    raw.sort();
    raw.dedup_by_key(|x| x.0);
    if raw.len() > 1 {
        for _ in 0..3 {
            for i in 1..raw.len() {
                let dx = raw[i].0 - raw[i - 1].0;
                raw[i].1 = raw[i].1.max(raw[i - 1].1.saturating_sub(dx));
            }
            let l = raw.len() - 1;
            if raw[l].0 as i64 == P {
                let m = raw[l].1.max(raw[0].1);
                raw[l].1 = m;
                raw[0].1 = m;
            } else {
                let dx = P as u32 - raw[l].0;
                raw[0].1 = raw[0].1.max(raw[l].1.saturating_sub(dx));
            }
        }
    }
    if raw.len() == 1 && rng.gen_bool(0.7) {
        raw[0].0 = 0;
    }
    F { raw }
}

pub fn random_f(rng: &mut StdRng) -> F {
    let k = match rng.gen_range(0..6) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => rng.gen_range(2..9),
    };
    let vmax: u32 = *[1, 3, 10, 1000, 40_000_000, 2_000_000_000].choose(rng).unwrap();
    let spread = rng.gen_range(0..4);
    let mut raw: Vec<(u32, u32)> = Vec::new();
    let base: u32 = rng.gen_range(0..P as u32 - 50);
    while raw.len() < k {
        let d = match spread {
            0 => base + rng.gen_range(0..40),
            1 => *[0u32, 1, 2, 3, 5, P as u32 - 2, P as u32 - 1, P as u32, P as u32 / 2, P as u32 / 2 + 1].choose(rng).unwrap(),
            2 => rng.gen_range(0..=P as u32),
            _ => rng.gen_range(0..24u32) * 3_600_000,
        };
        raw.push((d, rng.gen_range(0..=vmax)));
    }
    fifo(rng, raw)
}

/// a graph of one node with one loop per function
pub fn graph_of(fs: &[F]) -> TDGraph {
    let mut first = vec![0u32];
    let (mut dt, mut tt) = (vec![], vec![]);
    for f in fs {
        for p in &f.raw {
            dt.push(p.0);
            tt.push(p.1);
        }
        first.push(dt.len() as u32);
    }
    TDGraph::new(vec![0, fs.len() as u32], vec![0; fs.len()], first, dt, tt)
}
