//! bidirectional and goal-directed searches return Dijkstra's distances
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use vp_harness::oracle::*;
use vp_harness::pots::*;
use vp_harness::*;

fn plain(g: &G, d: &[Vec<u32>], qs: &[(u32, u32)], seed: u64) -> Result<(), String> {
    let mut a = bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, ChooseMinKeyDir>::new(g.owned());
    check_dists!("bidirectional, min key", a, d, qs);
    let mut b = bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, AlternatingDirs>::new(g.owned());
    check_dists!("bidirectional, alternating", b, d, qs);
    bidir::<_, ChooseMinKeyDir>("zero potential", g, d, qs, seed, BiDirZeroPot)?;
    bidir::<_, AlternatingDirs>("zero potential", g, d, qs, seed, BiDirZeroPot)?;
    forward("zero potential", g, d, qs, ZeroPotential())
}

fn both<P: Potential + Clone, Q: Potential + Clone>(name: &str, g: &G, d: &[Vec<u32>], qs: &[(u32, u32)], seed: u64, f: P, b: Q) -> Result<(), String> {
    bidir::<_, ChooseMinKeyDir>(&format!("symmetric {}", name), g, d, qs, seed, SymmetricBiDirPotential::<_, _, true>::new(f.clone(), b.clone()))?;
    bidir::<_, AlternatingDirs>(&format!("symmetric {}", name), g, d, qs, seed, SymmetricBiDirPotential::<_, _, true>::new(f.clone(), b.clone()))?;
    bidir::<_, ChooseMinKeyDir>(&format!("symmetric (simple pruning) {}", name), g, d, qs, seed, SymmetricBiDirPotential::<_, _, false>::new(f.clone(), b.clone()))?;
    bidir::<_, AlternatingDirs>(&format!("symmetric (simple pruning) {}", name), g, d, qs, seed, SymmetricBiDirPotential::<_, _, false>::new(f.clone(), b.clone()))?;
    bidir::<_, ChooseMinKeyDir>(&format!("average {}", name), g, d, qs, seed, AveragePotential::<_, _, false>::new(f.clone(), b.clone()))?;
    bidir::<_, AlternatingDirs>(&format!("average {}", name), g, d, qs, seed, AveragePotential::<_, _, false>::new(f.clone(), b.clone()))?;
    bidir::<_, ChooseMinKeyDir>(&format!("average (improved pruning) {}", name), g, d, qs, seed, AveragePotential::<_, _, true>::new(f.clone(), b.clone()))?;
    bidir::<_, AlternatingDirs>(&format!("average (improved pruning) {}", name), g, d, qs, seed, AveragePotential::<_, _, true>::new(f, b))
}

#[derive(Clone)]
struct Alt<'a>(&'a ALTPotData, bool, u32);
impl Potential for Alt<'_> {
    fn init(&mut self, t: NodeId) {
        self.2 = t;
    }
    fn potential(&mut self, v: NodeId) -> Option<Weight> {
        let mut p = if self.1 { self.0.forward_potential() } else { self.0.backward_potential() };
        p.init(self.2);
        p.potential(v)
    }
}

fn strongly_connected(d: &[Vec<u32>]) -> bool {
    d.iter().all(|r| r.iter().all(|&x| x < INF))
}

fn check(g: &G, seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = g.all_dists();
    let qs = queries(&mut rng, g.n, 30);
    plain(g, &d, &qs, seed)?;
    let rev = g.rev();
    // exact
    forward("exact potential", g, &d, &qs, BaselinePotential::new(&g.owned()))?;
    forward("reused exact potential", g, &d, &qs, RecyclingPotential::new(BaselinePotential::new(&g.owned())))?;
    // feasible
    let (f, b) = (Feasible::new(&mut rng, g), Feasible::new(&mut rng, &rev));
    forward("feasible potential", g, &d, &qs, f.clone())?;
    both("feasible potential", g, &d, &qs, seed, f.clone(), b.clone())?;
    both("reused feasible potential", g, &d, &qs, seed, RecyclingPotential::new(f.clone()), RecyclingPotential::new(b.clone()))?;
    both("no forward potential", g, &d, &qs, seed, ZeroPotential(), b.clone())?;
    both("no backward potential", g, &d, &qs, seed, f.clone(), ZeroPotential())?;
    // potential of a relabelled graph
    let order = random_order(&mut rng, g.n);
    let p = G::new(g.n, g.arcs.iter().map(|&(u, v, w)| (order.rank(u), order.rank(v), w)).collect());
    let pd = p.all_dists();
    forward("permuted potential", &p, &pd, &qs, PotentialForPermutated { potential: f.clone(), order: order.clone() })?;
    bidir::<_, AlternatingDirs>("permuted symmetric", &p, &pd, &qs, seed, PotentialForPermutated { potential: SymmetricBiDirPotential::<_, _, true>::new(f.clone(), b.clone()), order: order.clone() })?;
    bidir::<_, ChooseMinKeyDir>("permuted average", &p, &pd, &qs, seed, PotentialForPermutated { potential: AveragePotential::<_, _, false>::new(f.clone(), b.clone()), order: order.clone() })?;
    // landmarks
    let k = rng.gen_range(1..4);
    let o = g.owned();
    // landmark selection needs nodes left to select: strongly connected, positive weights, fewer landmarks than nodes
    let marks: Vec<u32> = if rng.gen_bool(0.5) && strongly_connected(&d) && k <= g.n && g.arcs.iter().all(|a| a.2 > 0) {
        ALTPotData::farthest_landmarks(&o, k, rng.gen_range(0..g.n as u32))
    } else {
        (0..k).map(|_| rng.gen_range(0..g.n as u32)).collect()
    };
    let alt = ALTPotData::new(&o, marks);
    forward("landmarks", g, &d, &qs, alt.forward_potential())?;
    both("landmarks", g, &d, &qs, seed, Alt(&alt, true, 0), Alt(&alt, false, 0))?;
    if strongly_connected(&d) {
        let alt = ALTPotData::new_with_avoid(&o, k, &mut rng);
        forward("avoid landmarks", g, &d, &qs, alt.forward_potential())?;
    }
    Ok(())
}

// sums of weights and potentials beyond INFINITY
fn huge(g: &G, d: &[Vec<u32>], qs: &[(u32, u32)], seed: u64) -> Result<(), String> {
    let o = g.owned();
    let r = g.rev().owned();
    let (f, b) = (BaselinePotential::new(&o), BaselinePotential::new(&r));
    plain(g, d, qs, seed)?;
    forward("exact potential", g, d, qs, BaselinePotential::new(&o))?;
    bidir::<_, ChooseMinKeyDir>("symmetric", g, d, qs, seed, SymmetricBiDirPotential::<_, _, true>::new(f, b))?;
    bidir::<_, AlternatingDirs>("symmetric, no forward potential", g, d, qs, seed, SymmetricBiDirPotential::<_, _, true>::new(ZeroPotential(), BaselinePotential::new(&r)))?;
    bidir::<_, AlternatingDirs>("symmetric, no backward potential", g, d, qs, seed, SymmetricBiDirPotential::<_, _, true>::new(BaselinePotential::new(&o), ZeroPotential()))?;
    bidir::<_, ChooseMinKeyDir>("average", g, d, qs, seed, AveragePotential::<_, _, true>::new(BaselinePotential::new(&o), BaselinePotential::new(&r)))?;
    bidir::<_, AlternatingDirs>("average, no forward potential", g, d, qs, seed, AveragePotential::<_, _, true>::new(ZeroPotential(), BaselinePotential::new(&r)))
}

// line graph: potential of the tails
fn turns(g: &G, seed: u64) -> Result<(), String> {
    let mut rng = StdRng::seed_from_u64(seed);
    if g.arcs.is_empty() {
        return Ok(());
    }
    let o = g.owned();
    let costs: Vec<Option<u32>> = (0..g.arcs.len() * g.arcs.len()).map(|_| if rng.gen_bool(0.2) { None } else { Some(rng.gen_range(0..5)) }).collect();
    let lg = line_graph(&o, |a, b| costs[a as usize * g.arcs.len() + b as usize]);
    let l = G::new(g.arcs.len(), arcs_of(&lg));
    let d = l.all_dists();
    let qs = queries(&mut rng, l.n, 30);
    let f = Feasible::new(&mut rng, g);
    forward("turn expanded potential", &l, &d, &qs, TurnExpandedPotential::new(&o, f))?;
    forward("turn expanded exact potential", &l, &d, &qs, TurnExpandedPotential::new(&o, BaselinePotential::new(&o)))
}

fn main() {
    vp_harness::main("c15", |ctx| {
        let mut rng = ctx.rng();
        for n in 1..=3usize {
            let pairs: Vec<(u32, u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).filter(move |&b| b != a).map(move |b| (b, a, (a + 2 * b) % 3))).collect();
            for pat in 0..(1u64 << pairs.len()) {
                let g = subset_graph(n, &pairs, pat);
                let seed = rng.gen();
                ctx.case("every directed graph up to 3 nodes", || format!("{} seed {}", g.desc(), seed), || check(&g, seed));
            }
        }
        for i in 0..ctx.n(1500, 20) {
            let g = if i % 3 == 0 { random_graph(&mut rng, 30) } else { random_graph(&mut rng, 10) };
            let seed = rng.gen();
            ctx.case("random graphs", || format!("{} seed {}", g.desc(), seed), || check(&g, seed));
            if i % 5 == 0 {
                let h = with_extremes(&mut rng, &g);
                let d = h.all_dists();
                let qs = queries(&mut rng, h.n, 30);
                ctx.case("near-infinite weights", || h.desc(), || plain(&h, &d, &qs, seed));
                let mut h = g.clone();
                for a in h.arcs.iter_mut() {
                    if rng.gen_bool(0.4) {
                        a.2 = rng.gen_range(300_000_000..INF);
                    }
                }
                let d = h.all_dists();
                ctx.case("huge weights", || format!("{} seed {}", h.desc(), seed), || huge(&h, &d, &qs, seed));
                let t = random_graph(&mut rng, 8);
                ctx.case("turn expanded", || format!("{} seed {}", t.desc(), seed), || turns(&t, seed));
            }
        }
    });
}
