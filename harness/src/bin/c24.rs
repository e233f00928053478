//! stored data loads back bit for bit; everything stays in one scratch directory
use rand::prelude::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::*;
use std::path::Path;
use vp_harness::oracle::*;
use vp_harness::*;

fn bytes<T: Copy>(v: &[T]) -> Vec<u8> {
    let p = v.as_ptr() as *const u8;
    (0..std::mem::size_of_val(v)).map(|i| unsafe { *p.add(i) }).collect()
}

fn round<T: Copy + Default + std::fmt::Debug>(what: &str, dir: &Path, v: Vec<T>, old: &Vec<T>) -> Result<(), String> {
    let e = |e: std::io::Error| format!("{} of length {}: {}", what, v.len(), e);
    let f = dir.join("data");
    // an earlier, possibly longer, file is replaced
    old.write_to(&f).map_err(e)?;
    v.write_to(&f).map_err(e)?;
    ensure_eq!(std::fs::read(&f).map_err(e)?, bytes(&v), "{}: file written for {:?}", what, v);
    let b: Vec<T> = Vec::load_from(&f).map_err(e)?;
    ensure!(b.len() == v.len() && bytes(&b) == bytes(&v), "{}: stored {:?}, loaded {:?}", what, v, b);
    let c: Box<[T]> = Box::load_from(&f).map_err(e)?;
    ensure!(c.len() == v.len() && bytes(&c) == bytes(&v), "{}: stored {:?}, loaded as a box {:?}", what, v, c);
    c.write_to(&f).map_err(e)?;
    ensure_eq!(std::fs::read(&f).map_err(e)?, bytes(&v), "{}: file written from the box {:?}", what, c);
    v[..].write_to(&f).map_err(e)?;
    ensure_eq!(std::fs::read(&f).map_err(e)?, bytes(&v), "{}: file written from the slice {:?}", what, v);
    (&v[..]).write_to(&f).map_err(e)?;
    ensure_eq!(std::fs::read(&f).map_err(e)?, bytes(&v), "{}: file written from the slice reference {:?}", what, v);
    (&mut v.clone()[..]).data_bytes_mut().iter().zip(bytes(&v)).try_for_each(|(a, b)| if *a == b { Ok(()) } else { Err(format!("{}: mutable bytes of {:?}", what, v)) })
}

fn vectors(rng: &mut StdRng, dir: &Path, n: usize, m: usize) -> Result<(), String> {
    macro_rules! go {
        ($t:ty) => {{
            let v: Vec<$t> = (0..n).map(|_| rng.gen()).collect();
            let o: Vec<$t> = (0..m).map(|_| rng.gen()).collect();
            round(stringify!($t), dir, v, &o)?;
        }};
    }
    go!(u8);
    go!(u16);
    go!(u32);
    go!(u64);
    go!(i32);
    go!(i64);
    go!((u32, u32));
    go!((u64, u64));
    go!([u32; 3]);
    let v: Vec<f32> = (0..n).map(|_| f32::from_bits(rng.gen())).collect();
    round("f32", dir, v, &vec![0.5; m])?;
    let v: Vec<f64> = (0..n).map(|_| f64::from_bits(rng.gen())).collect();
    round("f64", dir, v, &vec![0.5; m])?;
    let v: Vec<EdgeIdT> = (0..n).map(|_| EdgeIdT(rng.gen())).collect();
    round("EdgeIdT", dir, v, &vec![EdgeIdT(1); m])
}

fn bits(rng: &mut StdRng, dir: &Path, n: usize) -> Result<(), String> {
    let mut b = BitVec::new(n);
    for i in 0..n {
        if rng.gen_bool(0.5) {
            b.set(i);
        }
    }
    let f = dir.join("bits");
    b.write_to(&f).map_err(|e| e.to_string())?;
    let c = BitVec::load_from(&f).map_err(|e| e.to_string())?;
    ensure!(c.len() >= n && c.len() < n + 8 * 64, "a bit vector of {} bits loads with {}", n, c.len());
    for i in 0..c.len() {
        ensure_eq!(c.get(i), i < n && b.get(i), "bit {} of {} after loading", i, n);
    }
    ensure_eq!(c.count_ones(), b.count_ones(), "ones of {} bits after loading", n);
    Ok(())
}

struct Nest {
    a: Vec<u32>,
    g: OwnedGraph,
}
impl Deconstruct for Nest {
    fn save_each(&self, store: &dyn Fn(&str, &dyn Save) -> std::io::Result<()>) -> std::io::Result<()> {
        store("a", &self.a)?;
        store("g", &Sub(&self.g))
    }
}
impl Reconstruct for Nest {
    fn reconstruct_with(loader: Loader) -> std::io::Result<Self> {
        Ok(Nest { a: loader.load("a")?, g: loader.reconstruct("g")? })
    }
}

fn objects(rng: &mut StdRng, dir: &Path, g: &G) -> Result<(), String> {
    let e = |e: std::io::Error| e.to_string();
    let same = |a: &OwnedGraph, b: &OwnedGraph| a.first_out() == b.first_out() && a.head() == b.head() && a.weight() == b.weight();
    let o = g.owned();
    let d = dir.join("graph");
    o.deconstruct_to(&d).map_err(e)?;
    let b = OwnedGraph::reconstruct_from(&d).map_err(e)?;
    ensure!(same(&o, &b), "loaded graph {:?}", arcs_of(&b));
    let w = WeightedGraphReconstructor("weights").reconstruct_from(&d).map_err(e)?;
    ensure!(same(&o, &w), "graph loaded with named weights {:?}", arcs_of(&w));
    let u = g.unweighted();
    let d = dir.join("unweighted");
    u.deconstruct_to(&d).map_err(e)?;
    let b = UnweightedOwnedGraph::reconstruct_from(&d).map_err(e)?;
    ensure!(u.first_out() == b.first_out() && u.head() == b.head(), "loaded unweighted graph {:?} {:?}", b.first_out(), b.head());
    let nest = Nest { a: g.head(), g: g.owned() };
    let d = dir.join("nest");
    nest.deconstruct_to(&d).map_err(e)?;
    let b = Nest::reconstruct_from(&d).map_err(e)?;
    ensure!(b.a == nest.a && same(&b.g, &nest.g), "loaded nested object");
    let b: OwnedGraph = Reconstruct::reconstruct_from(&d.join("g")).map_err(e)?;
    ensure!(same(&b, &nest.g), "loaded part of the nested object");

    let order = random_order(rng, g.n);
    let cch = CCH::fix_order_and_build(&o, order);
    let d = dir.join("cch");
    cch.deconstruct_to(&d).map_err(e)?;
    cch.node_order().deconstruct_to(&d).map_err(e)?;
    let order = NodeOrder::reconstruct_from(&d).map_err(e)?;
    ensure_eq!(order.order(), cch.node_order().order(), "loaded order");
    ensure_eq!(order.ranks(), cch.node_order().ranks(), "ranks of the loaded order");
    let b: CCH = CCHReconstrctor(&o).reconstruct_from(&d).map_err(e)?;
    ensure!(b.first_out() == cch.first_out() && b.head() == cch.head() && b.node_order().order() == cch.node_order().order(), "loaded hierarchy");
    for x in 0..g.n {
        ensure_eq!(b.elimination_tree()[x].value(), cch.elimination_tree()[x].value(), "elimination tree of the loaded hierarchy at {}", x);
    }
    let p = customize_perfect(customize(&cch, &o));
    let d = dir.join("perfect");
    p.deconstruct_to(&d).map_err(e)?;
    let q: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&d).map_err(e)?;
    ensure_eq!(arcs_of(&q.forward_graph()), arcs_of(&p.forward_graph()), "loaded upward graph");
    ensure_eq!(arcs_of(&q.backward_graph()), arcs_of(&p.backward_graph()), "loaded downward graph");
    ensure_eq!(q.forward_tail(), p.forward_tail(), "tails of the loaded upward graph");
    ensure_eq!(q.backward_tail(), p.backward_tail(), "tails of the loaded downward graph");
    let v = |x: &[(rust_road_router::util::in_range_option::InRangeOption<EdgeId>, rust_road_router::util::in_range_option::InRangeOption<EdgeId>)]| x.iter().map(|a| (a.0.value(), a.1.value())).collect::<Vec<_>>();
    ensure_eq!(v(q.forward_unpacking()), v(p.forward_unpacking()), "loaded upward shortcuts");
    ensure_eq!(v(q.backward_unpacking()), v(p.backward_unpacking()), "loaded downward shortcuts");
    Ok(())
}

fn main() {
    let base = std::env::temp_dir().join(format!("vp_c24_{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let dir = base.clone();
    vp_harness::main("c24", |ctx| {
        threads(1);
        let mut rng = ctx.rng();
        for n in (0..70).chain([127, 128, 129, 500, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 20_000]) {
            let seed = rng.gen();
            let m = rng.gen_range(0..=2 * n.min(200));
            ctx.case("vectors of every element type", || format!("length {} over an older file of length {} seed {}", n, m, seed), || vectors(&mut StdRng::seed_from_u64(seed), &dir, n, m));
            ctx.case("bit vectors", || format!("{} bits seed {}", n, seed), || bits(&mut StdRng::seed_from_u64(seed), &dir, n));
        }
        for i in 0..ctx.n(60, 10) {
            let seed = rng.gen();
            let n = if i % 4 == 0 { rng.gen_range(0..5000) } else { rng.gen_range(0..600) };
            ctx.case("bit vectors", || format!("{} bits seed {}", n, seed), || bits(&mut StdRng::seed_from_u64(seed), &dir, n));
        }
        for _ in 0..ctx.n(150, 10) {
            let g = random_graph(&mut rng, 20);
            let seed = rng.gen();
            ctx.case("graphs, orders and hierarchies", || format!("{} seed {}", g.desc(), seed), || objects(&mut StdRng::seed_from_u64(seed), &dir, &g));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let _ = std::fs::remove_dir_all(&base);
}
