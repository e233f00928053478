//! arc id -> tail
use rand::prelude::*;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::graph::*;
use vp_harness::oracle::*;
use vp_harness::*;

fn check(g: &G) -> Result<(), String> {
    let og = g.owned();
    let mapper = LinkIdToTailMapper::new(&og);
    for (e, a) in g.arcs.iter().enumerate() {
        ensure_eq!(mapper.link_id_to_tail(e as u32), a.0, "mapper tail of arc {}", e);
        ensure_eq!(link_id_to_tail(og.first_out(), e as u32), a.0, "offset array tail of arc {}", e);
    }
    Ok(())
}
fn from_degrees(d: &[usize]) -> G {
    let mut arcs = vec![];
    for (u, &k) in d.iter().enumerate() {
        for _ in 0..k {
            arcs.push((u as u32, 0, 1));
        }
    }
    G::new(d.len(), arcs)
}
fn main() {
    vp_harness::main("c08", |ctx| {
        for len in 0..=6usize {
            for pat in 0..4usize.pow(len as u32) {
                let d: Vec<usize> = (0..len).map(|i| [0, 1, 2, 3][pat / 4usize.pow(i as u32) % 4]).collect();
                let g = from_degrees(&d);
                ctx.case("all degree sequences", || format!("degrees {:?}", d), || check(&g));
            }
        }
        for _ in 0..ctx.n(500, 20) {
            let len = ctx.rng.gen_range(1..300);
            let p0 = *[0.0, 0.1, 0.5, 0.9, 0.98].choose(&mut ctx.rng).unwrap();
            let big = *[1usize, 3, 70, 600].choose(&mut ctx.rng).unwrap();
            let d: Vec<usize> = (0..len).map(|_| if ctx.rng.gen_bool(p0) { 0 } else { ctx.rng.gen_range(1..=big) }).collect();
            let g = from_degrees(&d);
            ctx.case("random degree sequences", || format!("degrees {:?}", d), || check(&g));
        }
        // runs of nodes whose arcs end exactly at word and cache line boundaries
        for k in [1usize, 62, 63, 64, 65, 511, 512, 513, 1023, 1024] {
            for z in [0usize, 1, 2, 64] {
                for tail in [0usize, 1, 3] {
                    let mut d = vec![0; z];
                    d.push(k);
                    d.extend(vec![0; z]);
                    d.extend(vec![1; 70]);
                    d.extend(vec![0; tail]);
                    let g = from_degrees(&d);
                    ctx.case("boundaries", || format!("degrees {:?}", d), || check(&g));
                }
            }
        }
        let _: Option<OwnedGraph> = None;
    });
}
