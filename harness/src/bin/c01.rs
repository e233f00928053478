//! IndexdMinHeap against a map from id to key: every operation, all observable results.
use rand::prelude::*;
use rust_road_router::datastr::index_heap::{IndexdMinHeap, Indexing};
use std::collections::BTreeMap;
use vp_harness::*;

#[derive(Clone, Debug)]
struct E {
    key: u32,
    id: usize,
    tag: u32,
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.key == o.key
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl Indexing for E {
    fn as_index(&self) -> usize {
        self.id
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Push(usize, u32),
    PushUnless(usize, u32),
    Update(usize, u32),
    Dec(usize, u32),
    Inc(usize, u32),
    Pop,
    Clear,
    Drain(usize),
}

fn check(h: &IndexdMinHeap<E>, m: &BTreeMap<usize, (u32, u32)>, cap: usize) -> Result<(), String> {
    ensure_eq!(h.len(), m.len(), "len");
    ensure_eq!(h.is_empty(), m.is_empty(), "is_empty");
    for id in 0..cap {
        ensure_eq!(h.contains_index(id), m.contains_key(&id), "contains_index({})", id);
        ensure_eq!(h.get(id).map(|e| (e.key, e.tag)), m.get(&id).copied(), "get({})", id);
        if let Some(e) = h.get(id) {
            ensure_eq!(e.id, id, "id stored under {}", id);
        }
    }
    let min = m.values().map(|v| v.0).min();
    ensure_eq!(h.peek().map(|e| e.key), min, "peek");
    let mut els: Vec<_> = h.elements().iter().map(|e| (e.id, (e.key, e.tag))).collect();
    els.sort();
    let exp: Vec<_> = m.iter().map(|(a, b)| (*a, *b)).collect();
    ensure_eq!(els, exp, "elements");
    Ok(())
}

fn run(ops: &[Op], cap: usize) -> Result<(), String> {
    let mut h = IndexdMinHeap::new(cap);
    let mut m: BTreeMap<usize, (u32, u32)> = BTreeMap::new();
    check(&h, &m, cap)?;
    for (t, op) in ops.iter().enumerate() {
        let tag = t as u32;
        match *op {
            Op::Push(id, key) => {
                if m.contains_key(&id) {
                    continue;
                }
                h.push(E { key, id, tag });
                m.insert(id, (key, tag));
            }
            Op::PushUnless(id, key) => {
                h.push_unless_contained(E { key, id, tag });
                m.entry(id).or_insert((key, tag));
            }
            Op::Update(id, key) => {
                if !m.contains_key(&id) {
                    continue;
                }
                h.update_key(E { key, id, tag });
                // an update to an equal key may keep the old entry: the two are interchangeable
                if m[&id].0 != key || h.get(id).map(|e| e.tag) == Some(tag) {
                    m.insert(id, (key, tag));
                }
            }
            Op::Dec(id, key) => {
                let k = match m.get(&id) {
                    Some(v) => v.0.min(key),
                    None => continue,
                };
                h.decrease_key(E { key: k, id, tag });
                m.insert(id, (k, tag));
            }
            Op::Inc(id, key) => {
                let k = match m.get(&id) {
                    Some(v) => v.0.max(key),
                    None => continue,
                };
                h.increase_key(E { key: k, id, tag });
                m.insert(id, (k, tag));
            }
            Op::Pop => {
                let e = h.pop();
                match e {
                    None => ensure!(m.is_empty(), "pop returned nothing, {} entries are held", m.len()),
                    Some(e) => {
                        let min = m.values().map(|v| v.0).min();
                        ensure_eq!(Some(e.key), min, "popped key");
                        ensure_eq!(m.remove(&e.id), Some((e.key, e.tag)), "popped entry");
                    }
                }
            }
            Op::Clear => {
                h.clear();
                m.clear();
            }
            Op::Drain(n) => {
                for e in h.drain().take(n) {
                    ensure_eq!(m.remove(&e.id), Some((e.key, e.tag)), "drained entry");
                }
                ensure!(n < usize::MAX || m.is_empty(), "a complete drain left entries out");
                m.clear();
            }
        }
        check(&h, &m, cap).map_err(|e| format!("after step {} ({:?}): {}", t, op, e))?;
    }
    // drain to the end
    let mut last = 0;
    while let Some(e) = h.pop() {
        ensure!(e.key >= last, "drain not sorted");
        last = e.key;
        ensure_eq!(m.remove(&e.id), Some((e.key, e.tag)), "drained entry");
    }
    ensure!(m.is_empty(), "entries lost: {:?}", m);
    Ok(())
}

fn main() {
    vp_harness::main("c01", |ctx| {
        // all histories of length <= 5 over 2 ids and 2 keys
        let mut alphabet = vec![Op::Pop, Op::Clear, Op::Drain(1), Op::Drain(usize::MAX)];
        for id in 0..2 {
            for k in 0..2 {
                alphabet.extend([Op::Push(id, k), Op::PushUnless(id, k), Op::Update(id, k), Op::Dec(id, k), Op::Inc(id, k)]);
            }
        }
        let a = alphabet.len();
        let len = if ctx.thorough { 5 } else { 4 };
        for code in 0..a.pow(len) {
            let mut c = code;
            let ops: Vec<Op> = (0..len)
                .map(|_| {
                    let o = alphabet[c % a];
                    c /= a;
                    o
                })
                .collect();
            ctx.case("exhaustive histories, 2 ids, 2 keys", || format!("capacity 2, {:?}", ops), || run(&ops, 2));
        }
        for i in 0..ctx.n(3000, 20) {
            let cap = if i % 10 == 9 { ctx.rng.gen_range(1..400) } else { ctx.rng.gen_range(1..40) };
            let steps = ctx.rng.gen_range(1..(6 * cap + 10).min(500));
            let keys = *[2u32, 5, 50, u32::MAX].choose(&mut ctx.rng).unwrap();
            let pop = ctx.rng.gen_range(0.05..0.5);
            let mut ops = vec![];
            for _ in 0..steps {
                let id = ctx.rng.gen_range(0..cap);
                let k = ctx.rng.gen_range(0..keys);
                ops.push(if ctx.rng.gen_bool(pop) {
                    Op::Pop
                } else {
                    match ctx.rng.gen_range(0..40) {
                        0..=17 => Op::Push(id, k),
                        18..=22 => Op::PushUnless(id, k),
                        23..=27 => Op::Update(id, k),
                        28..=33 => Op::Dec(id, k),
                        34..=38 => Op::Inc(id, k),
                        _ => {
                            if ctx.rng.gen_bool(0.3) {
                                if ctx.rng.gen_bool(0.5) {
                                    Op::Drain(*[0, 1, 3, usize::MAX].choose(&mut ctx.rng).unwrap())
                                } else {
                                    Op::Clear
                                }
                            } else {
                                Op::Pop
                            }
                        }
                    }
                });
            }
            ctx.case("random histories", || format!("capacity {}, {:?}", cap, ops), || run(&ops, cap));
        }
    });
}
