//! Resettable containers against plain vectors: values read after any mix of writes and resets.
use rand::prelude::*;
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::graph::{Weight, INFINITY};
use rust_road_router::datastr::rank_select_map::FastClearBitVec;
use rust_road_router::datastr::timestamped_vector::*;
use rust_road_router::util::in_range_option::InRangeOption;
use std::fmt::Debug;
use vp_harness::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, u32),
    IdxMut(usize, u32),
    Touch(usize), // take the mutable reference, write nothing
    UncheckedMut(usize, u32),
    Reset,
}

/// everything the vector offers, with values made by `mk` and a default that is `dflt`
fn timestamped<T: Reset + PartialEq + Debug>(n: usize, ops: &[Op], mk: impl Fn(u32) -> T, dflt: T) -> Result<(), String> {
    let mut v: TimestampedVector<T> = TimestampedVector::new(n);
    let mut m: Vec<T> = vec![dflt.clone(); n];
    ensure_eq!(v.len(), n, "len");
    ensure_eq!(v.is_empty(), n == 0, "is_empty");
    for (t, &op) in ops.iter().enumerate() {
        match op {
            Op::Set(i, x) => {
                v.set(i, mk(x));
                m[i] = mk(x);
            }
            Op::IdxMut(i, x) => {
                let r = &mut v[i];
                ensure_eq!(*r, m[i], "value behind index_mut({}) at step {}", i, t);
                *r = mk(x);
                m[i] = mk(x);
            }
            Op::UncheckedMut(i, x) => {
                let r = unsafe { v.get_unchecked_mut(i) };
                ensure_eq!(*r, m[i], "value behind get_unchecked_mut({}) at step {}", i, t);
                *r = mk(x);
                m[i] = mk(x);
            }
            Op::Touch(i) => {
                let r = &mut v[i];
                ensure_eq!(*r, m[i], "value behind index_mut({}) at step {}", i, t);
            }
            Op::Reset => {
                v.reset();
                m.iter_mut().for_each(|x| *x = dflt.clone());
            }
        }
        for i in 0..n {
            ensure_eq!(v[i], m[i], "[{}] after step {} ({:?})", i, t, op);
            ensure_eq!(*unsafe { v.get_unchecked(i) }, m[i], "get_unchecked({}) after step {}", i, t);
        }
        if t % 7 == 3 {
            v = v.clone();
        }
    }
    Ok(())
}

fn atomics(n: usize, ops: &[Op]) -> Result<(), String> {
    let mut v = AtomicDists::new(n);
    let mut m = vec![INFINITY; n];
    ensure_eq!(v.len(), n, "len");
    ensure_eq!(v.is_empty(), n == 0, "is_empty");
    for (t, &op) in ops.iter().enumerate() {
        match op {
            Op::Set(i, x) | Op::IdxMut(i, x) | Op::UncheckedMut(i, x) => {
                v.set(i, x);
                m[i] = x;
            }
            Op::Touch(_) => (),
            Op::Reset => {
                v.reset();
                m.iter_mut().for_each(|x| *x = INFINITY);
            }
        }
        for i in 0..n {
            ensure_eq!(v.get(i), m[i], "get({}) after step {} ({:?})", i, t, op);
        }
    }
    Ok(())
}

fn clearlist<T: Clone + PartialEq + Debug>(n: usize, ops: &[Op], mk: impl Fn(u32) -> T, dflt: T) -> Result<(), String> {
    let mut v = ClearlistVector::new(n, dflt.clone());
    let mut m = vec![dflt.clone(); n];
    for (t, &op) in ops.iter().enumerate() {
        match op {
            Op::Set(i, x) | Op::IdxMut(i, x) | Op::UncheckedMut(i, x) => {
                let r = &mut v[i];
                ensure_eq!(*r, m[i], "value behind index_mut({}) at step {}", i, t);
                // a multiple of 5 writes the default itself
                let val = if x % 5 == 0 { dflt.clone() } else { mk(x) };
                *r = val.clone();
                m[i] = val;
            }
            Op::Touch(i) => {
                ensure_eq!(*(&mut v[i]), m[i], "value behind index_mut({}) at step {}", i, t);
            }
            Op::Reset => {
                v.reset();
                m.iter_mut().for_each(|x| *x = dflt.clone());
            }
        }
        for i in 0..n {
            ensure_eq!(v[i], m[i], "[{}] after step {} ({:?})", i, t, op);
        }
    }
    Ok(())
}

fn bits(n: usize, ops: &[Op]) -> Result<(), String> {
    let mut v = FastClearBitVec::new(n);
    let mut m = vec![false; n];
    for (t, &op) in ops.iter().enumerate() {
        match op {
            Op::Set(i, _) | Op::IdxMut(i, _) | Op::UncheckedMut(i, _) => {
                v.set(i);
                m[i] = true;
            }
            Op::Touch(_) => v = v.clone(),
            Op::Reset => {
                v.clear();
                m.iter_mut().for_each(|x| *x = false);
            }
        }
        for i in 0..n {
            ensure_eq!(v.get(i), m[i], "get({}) after step {} ({:?})", i, t, op);
        }
        let mut l: Vec<usize> = v.set_bits_iter().collect();
        l.sort();
        let e: Vec<usize> = (0..n).filter(|&i| m[i]).collect();
        ensure_eq!(l, e, "set_bits_iter after step {} ({:?})", t, op);
    }
    Ok(())
}

fn all(n: usize, ops: &[Op]) -> Result<(), String> {
    let w = |e: String| move |x: String| format!("{}: {}", e, x);
    timestamped::<Weight>(n, ops, |x| x, INFINITY).map_err(w("TimestampedVector<Weight>".into()))?;
    timestamped::<(Weight, Weight)>(n, ops, |x| (x, x / 2), (INFINITY, INFINITY)).map_err(w("TimestampedVector<(Weight, Weight)>".into()))?;
    timestamped::<(Weight, Weight, Weight)>(n, ops, |x| (x, x / 2, 1), (INFINITY, INFINITY, INFINITY)).map_err(w("TimestampedVector<triple>".into()))?;
    timestamped::<InRangeOption<u32>>(n, ops, |x| InRangeOption::some(x), InRangeOption::NONE).map_err(w("TimestampedVector<InRangeOption>".into()))?;
    timestamped::<bool>(n, ops, |x| x % 3 != 0, false).map_err(w("TimestampedVector<bool>".into()))?;
    timestamped::<Vec<u32>>(n, ops, |x| vec![x; (x % 4) as usize], vec![]).map_err(w("TimestampedVector<Vec>".into()))?;
    atomics(n, ops).map_err(w("AtomicDists".into()))?;
    clearlist::<u32>(n, ops, |x| x, 7).map_err(w("ClearlistVector<u32>".into()))?;
    clearlist::<String>(n, ops, |x| x.to_string(), String::new()).map_err(w("ClearlistVector<String>".into()))?;
    bits(n, ops).map_err(w("FastClearBitVec".into()))?;
    Ok(())
}

fn main() {
    vp_harness::main("c02", |ctx| {
        let mut alpha = vec![Op::Reset];
        for i in 0..2 {
            alpha.extend([Op::Set(i, 3), Op::IdxMut(i, 4), Op::Touch(i), Op::UncheckedMut(i, 5)]);
        }
        let a = alpha.len();
        let len = if ctx.thorough { 6 } else { 4 };
        for code in 0..a.pow(len) {
            let mut c = code;
            let ops: Vec<Op> = (0..len)
                .map(|_| {
                    let o = alpha[c % a];
                    c /= a;
                    o
                })
                .collect();
            ctx.case("exhaustive histories, 2 positions", || format!("size 2, {:?}", ops), || all(2, &ops));
        }
        for _ in 0..ctx.n(600, 20) {
            let n = *[1usize, 2, 5, 63, 64, 65, 127, 128, 129, 200].choose(&mut ctx.rng).unwrap();
            let reset = ctx.rng.gen_range(0.02..0.3);
            let ops: Vec<Op> = (0..ctx.rng.gen_range(1..80))
                .map(|_| {
                    let i = ctx.rng.gen_range(0..n);
                    let x = ctx.rng.gen_range(0..100);
                    if ctx.rng.gen_bool(reset) {
                        Op::Reset
                    } else {
                        match ctx.rng.gen_range(0..8) {
                            0 => Op::Touch(i),
                            1..=2 => Op::IdxMut(i, x),
                            3..=4 => Op::UncheckedMut(i, x),
                            _ => Op::Set(i, x),
                        }
                    }
                })
                .collect();
            ctx.case("random histories", || format!("size {}, {:?}", n, ops), || all(n, &ops));
        }
        // the 32 bit reset counter wraps around: written values, also from just before the wrap, must not resurface
        ctx.case(
            "counter wrap-around",
            || "TimestampedVector<u32> of size 4: [0]=5 at reset 0, [1]=6 at reset 1, [2]=7 at reset 2^32-1, reset until 2^32+2, checking all entries around the wrap".into(),
            || {
                let mut v: TimestampedVector<u32> = TimestampedVector::new(4);
                v[0] = 5;
                v.reset();
                v.set(1, 6);
                for _ in 1..u32::MAX {
                    v.reset();
                }
                ensure_eq!(v[0], INFINITY, "[0] after 2^32-1 resets");
                ensure_eq!(v[1], INFINITY, "[1] after 2^32-1 resets");
                v[2] = 7;
                v.reset();
                for k in 0..3 {
                    for i in 0..4 {
                        ensure_eq!(v[i], INFINITY, "[{}] {} resets after the counter wrapped", i, k);
                        let x = *unsafe { v.get_unchecked_mut(3) };
                        ensure_eq!(x, INFINITY, "get_unchecked_mut(3) {} resets after the counter wrapped", k);
                    }
                    v.set(3, 9);
                    ensure_eq!(v[3], 9, "[3] right after being set");
                    v.reset();
                }
                Ok(())
            },
        );
        ctx.case(
            "counter wrap-around",
            || "AtomicDists of size 4: [0]=5 at reset 0, [1]=6 at reset 1, [2]=7 at reset 2^32-1, reset until 2^32+2".into(),
            || {
                let mut v = AtomicDists::new(4);
                v.set(0, 5);
                v.reset();
                v.set(1, 6);
                for _ in 1..u32::MAX {
                    v.reset();
                }
                ensure_eq!(v.get(0), INFINITY, "[0] after 2^32-1 resets");
                v.set(2, 7);
                v.reset();
                for k in 0..3 {
                    for i in 0..4 {
                        ensure_eq!(v.get(i), INFINITY, "[{}] {} resets after the counter wrapped", i, k);
                    }
                    v.reset();
                }
                Ok(())
            },
        );
    });
}
