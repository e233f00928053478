//! label heap against a sorted model
use rand::prelude::*;
use rust_road_router::datastr::heap::Heap;
use std::cell::Cell;
use vp_harness::oracle::sorted;
use vp_harness::*;

/// ordered by the first component only: ties keep their identity
#[derive(Clone, Debug, PartialEq, Eq)]
struct L(u32, usize);
impl PartialOrd for L {
    fn partial_cmp(&self, o: &L) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for L {
    fn cmp(&self, o: &L) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push(u32),
    Pop,
    Retain(u64, u32),
    Clear,
    Clone,
}

fn run(ops: &[Op]) -> Result<(), String> {
    let mut h: Heap<L> = Heap::new();
    let mut rest: Vec<L> = vec![];
    let mut settled: Vec<L> = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Push(x) => {
                h.push(L(*x, i));
                rest.push(L(*x, i));
            }
            Op::Pop => {
                let got = h.pop().cloned();
                match got {
                    None => ensure!(rest.is_empty(), "operation {}: pop returns nothing, {:?} remain", i, rest),
                    Some(l) => {
                        let top = rest.iter().map(|l| l.0).max();
                        ensure!(top == Some(l.0) && rest.contains(&l), "operation {}: pop returns {:?} of {:?}", i, l, rest);
                        rest.retain(|x| *x != l);
                        ensure!(h.popped().first() == Some(&l), "operation {}: the popped element {:?} is not the first settled one: {:?}", i, l, h.popped());
                        settled.push(l);
                    }
                }
            }
            Op::Retain(mask, limit) => {
                let seen = Cell::new(vec![]);
                let keep = |l: &L| (mask >> (l.1 % 64) & 1 == 1) && l.0 != *limit;
                h.retain(|l| {
                    let mut s = seen.take();
                    s.push(l.clone());
                    seen.set(s);
                    keep(l)
                });
                let key = |l: &L| (l.0, l.1);
                let want = sorted(rest.iter().chain(&settled).map(key).collect::<Vec<_>>());
                ensure_eq!(sorted(seen.take().iter().map(key).collect::<Vec<_>>()), want, "operation {}: elements shown to the filter", i);
                rest.retain(|l| keep(l));
                settled.retain(|l| keep(l));
            }
            Op::Clear => {
                h.clear();
                rest.clear();
                settled.clear();
            }
            Op::Clone => h = h.clone(),
        }
        let key = |l: &L| (l.0, l.1);
        ensure_eq!(sorted(h.popped().iter().map(key).collect::<Vec<_>>()), sorted(settled.iter().map(key).collect::<Vec<_>>()), "settled elements after operation {} ({:?})", i, op);
        match h.peek() {
            None => ensure!(rest.is_empty(), "peek after operation {}: nothing, {:?} remain", i, rest),
            Some(l) => ensure!(rest.contains(l) && rest.iter().all(|x| x.0 <= l.0), "peek after operation {} ({:?}): {:?} of {:?}", i, op, l, rest),
        }
    }
    // drain
    let mut got = vec![];
    while let Some(l) = h.pop() {
        got.push(l.clone());
    }
    ensure!(got.windows(2).all(|w| w[0].0 >= w[1].0), "final elements come out unordered: {:?}", got);
    let key = |l: &L| (l.0, l.1);
    ensure_eq!(sorted(got.iter().map(key).collect::<Vec<_>>()), sorted(rest.iter().map(key).collect::<Vec<_>>()), "final elements");
    Ok(())
}

fn main() {
    vp_harness::main("c26", |ctx| {
        // every short history
        let menu = [Op::Push(0), Op::Push(1), Op::Push(2), Op::Pop, Op::Retain(0x5555555555555555, 9), Op::Retain(u64::MAX, 1)];
        let len = if ctx.n(0, 1) == 0 && std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough") { 6 } else { 7 };
        let mut idx = vec![0usize; len];
        loop {
            let ops: Vec<Op> = idx.iter().map(|&i| menu[i].clone()).collect();
            ctx.case("every short history", || format!("{:?}", ops), || run(&ops));
            let mut p = 0;
            while p < len {
                idx[p] += 1;
                if idx[p] < menu.len() {
                    break;
                }
                idx[p] = 0;
                p += 1;
            }
            if p == len {
                break;
            }
        }
        // a filled heap loses one or few elements: the tail that has to be repaired is short
        let mut rng = ctx.rng();
        for _ in 0..ctx.n(20000, 20) {
            let n = rng.gen_range(1..18);
            let top = *[3u32, 20, 1000].choose(&mut rng).unwrap();
            let mut ops: Vec<Op> = (0..n).map(|_| Op::Push(rng.gen_range(0..top))).collect();
            let pops = if rng.gen_bool(0.3) { rng.gen_range(0..=n / 2) } else { 0 };
            for _ in 0..pops {
                ops.push(Op::Pop);
            }
            let mut mask = u64::MAX;
            for _ in 0..*[1, 1, 2, 3].choose(&mut rng).unwrap() {
                mask &= !(1u64 << rng.gen_range(0..n));
            }
            ops.push(Op::Retain(mask, u32::MAX));
            if rng.gen_bool(0.3) {
                ops.push(Op::Push(rng.gen_range(0..top)));
            }
            ctx.case("few removed", || format!("{:?}", ops), || run(&ops));
        }
        let mut rng = ctx.rng();
        for i in 0..ctx.n(3000, 20) {
            let top = *[2u32, 5, 100].choose(&mut rng).unwrap();
            let n = if i % 50 == 0 { 3000 } else { rng.gen_range(1..80) };
            let filters = if rng.gen_bool(0.5) { 0.1 } else { 0.01 };
            let pops = rng.gen_range(0.05..0.6);
            let ops: Vec<Op> = (0..n)
                .map(|_| {
                    if rng.gen_bool(filters) {
                        // mostly filters that remove few elements
                        let mask = match rng.gen_range(0..3) { 0 => rng.gen(), 1 => !(1u64 << rng.gen_range(0..64)), _ => u64::MAX };
                        Op::Retain(mask, rng.gen_range(0..2 * top))
                    } else if rng.gen_bool(pops) {
                        Op::Pop
                    } else if rng.gen_bool(0.005) {
                        Op::Clear
                    } else if rng.gen_bool(0.02) {
                        Op::Clone
                    } else {
                        Op::Push(rng.gen_range(0..top))
                    }
                })
                .collect();
            ctx.case("random histories", || format!("{:?}", ops), || run(&ops));
        }
    });
}
