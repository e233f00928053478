//! BitVec / RankSelectMap / InvertableRankSelectMap against a list of bools.
use rand::prelude::*;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::*;
use vp_harness::*;

fn fill(n: usize, set: &[usize]) -> (BitVec, Vec<bool>) {
    let mut b = BitVec::new(n);
    let mut m = vec![false; n];
    for &i in set {
        b.set(i);
        m[i] = true;
    }
    (b, m)
}

fn same(b: &BitVec, m: &[bool], full: bool) -> Result<(), String> {
    ensure_eq!(b.len(), m.len(), "BitVec::len");
    ensure_eq!(b.is_empty(), m.is_empty(), "BitVec::is_empty");
    ensure_eq!(b.count_ones(), m.iter().filter(|x| **x).count(), "count_ones");
    if full {
        for i in 0..m.len() {
            ensure_eq!(b.get(i), m[i], "bit {}", i);
        }
    }
    Ok(())
}

/// rank/select on a pattern
fn rank(n: usize, set: &[usize]) -> Result<(), String> {
    let (b, m) = fill(n, set);
    same(&b, &m, true)?;
    let map = RankSelectMap::new(b);
    let total = m.iter().filter(|x| **x).count();
    let probe = |map: &RankSelectMap| -> Result<(), String> {
        ensure_eq!(map.len(), total, "len");
        ensure_eq!(map.is_empty(), total == 0, "is_empty");
        let mut local = 0;
        for i in 0..n {
            if m[i] {
                ensure_eq!(map.at(i), local, "at({})", i);
                ensure_eq!(map.get(i), Some(local), "get({})", i);
                ensure_eq!(map.at_or_next_lower(i), local, "at_or_next_lower({})", i);
                local += 1;
            } else {
                ensure_eq!(map.get(i), None, "get({})", i);
                if local > 0 {
                    ensure_eq!(map.at_or_next_lower(i), local - 1, "at_or_next_lower({})", i);
                }
            }
        }
        for i in [n, n + 1, n + 63, n + 64, n + 1000, usize::MAX / 2] {
            ensure_eq!(map.get(i), None, "get({}) beyond the size", i);
        }
        Ok(())
    };
    probe(&map)?;
    let inv = InvertableRankSelectMap::new(map);
    probe(&inv)?;
    let mut local = 0;
    for i in 0..n {
        if m[i] {
            ensure_eq!(inv.inverse(local), i, "inverse({})", local);
            local += 1;
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Set(usize),
    Unset(usize),
    Around(usize),
    Clear,
    SetAll,
}
fn history(n: usize, ops: &[Op]) -> Result<(), String> {
    let mut b = BitVec::new(n);
    let mut m = vec![false; n];
    same(&b, &m, true)?;
    for (t, &op) in ops.iter().enumerate() {
        match op {
            Op::Set(i) => {
                b.set(i);
                m[i] = true
            }
            Op::Unset(i) => {
                b.unset(i);
                m[i] = false
            }
            Op::Around(i) => {
                b.unset_all_around(i);
                for j in (i / 64 * 64)..(i / 64 * 64 + 64).min(n) {
                    m[j] = false
                }
            }
            Op::Clear => {
                b.clear();
                m.iter_mut().for_each(|x| *x = false)
            }
            Op::SetAll => {
                b.set_all();
                m.iter_mut().for_each(|x| *x = true)
            }
        }
        same(&b, &m, true).map_err(|e| format!("after step {} ({:?}): {}", t, op, e))?;
    }
    let map = RankSelectMap::new(b);
    ensure_eq!(map.len(), m.iter().filter(|x| **x).count(), "len of the rank map after the history");
    let inv = InvertableRankSelectMap::new(map);
    let mut local = 0;
    for i in 0..n {
        ensure_eq!(inv.get(i), if m[i] { Some(local) } else { None }, "get({}) after the history", i);
        if m[i] {
            ensure_eq!(inv.inverse(local), i, "inverse({}) after the history", local);
            local += 1;
        }
    }
    Ok(())
}

fn main() {
    vp_harness::main("c03", |ctx| {
        for n in 0..=10usize {
            for pat in 0..1usize << n {
                let set: Vec<usize> = (0..n).filter(|i| pat >> i & 1 == 1).collect();
                ctx.case("all patterns of small size", || format!("size {}, set {:?}", n, set), || rank(n, &set));
            }
        }
        // every pattern of up to three set bits at word, cache line and group boundaries
        let edges: Vec<usize> = [0, 1, 31, 32, 47, 48, 55, 56, 62, 63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024, 1535, 1536, 2047, 2048, 2559, 2560].to_vec();
        for n in [2561usize, 2600, 3072, 3073] {
            for a in 0..edges.len() {
                for b in a..edges.len() {
                    let mut set = vec![edges[a], edges[b]];
                    set.dedup();
                    ctx.case("sparse patterns at boundaries", || format!("size {}, set {:?}", n, set), || rank(n, &set));
                }
            }
        }
        for n in [1usize, 63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024, 1025, 5000, 8192] {
            let all: Vec<usize> = (0..n).collect();
            ctx.case("full and last", || format!("size {}, all set", n), || rank(n, &all));
            ctx.case("full and last", || format!("size {}, only last set", n), || rank(n, &[n - 1]));
            ctx.case("full and last", || format!("size {}, set_all", n), || history(n, &[Op::SetAll]));
        }
        for i in 0..ctx.n(600, 20) {
            let n = match i % 6 {
                0 => ctx.rng.gen_range(1..200),
                1 => 64 * ctx.rng.gen_range(1..40usize),
                2 => 512 * ctx.rng.gen_range(1..12usize),
                3 => ctx.rng.gen_range(1..20000),
                _ => ctx.rng.gen_range(1..5000),
            };
            let mut set = vec![];
            // runs of different density, so that empty blocks and full blocks both occur
            let mut p = 0;
            while p < n {
                let run = *[1usize, 17, 64, 100, 512, 1300].choose(&mut ctx.rng).unwrap();
                let dens = *[0.0, 0.0, 0.002, 0.05, 0.5, 0.95, 1.0].choose(&mut ctx.rng).unwrap();
                for q in p..(p + run).min(n) {
                    if ctx.rng.gen_bool(dens) {
                        set.push(q);
                    }
                }
                p += run;
            }
            ctx.case("random patterns with runs", || format!("size {}, set {:?}", n, set), || rank(n, &set));
        }
        for _ in 0..ctx.n(500, 20) {
            let n = *[1usize, 2, 63, 64, 65, 100, 128, 200, 513, 1100].choose(&mut ctx.rng).unwrap();
            let ops: Vec<Op> = (0..ctx.rng.gen_range(1..60))
                .map(|_| {
                    let i = ctx.rng.gen_range(0..n);
                    match ctx.rng.gen_range(0..30) {
                        0 => Op::Clear,
                        1 => Op::SetAll,
                        2..=3 => Op::Around(i),
                        4..=9 => Op::Unset(i),
                        _ => Op::Set(i),
                    }
                })
                .collect();
            ctx.case("random bit histories", || format!("size {}, {:?}", n, ops), || history(n, &ops));
        }
        let _ = &<BitVec as Load>::new_with_bytes(8);
    });
}
