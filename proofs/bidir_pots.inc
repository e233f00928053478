// ---------------------------------------------------------------- bidirectional potentials
/// what a bidirectional potential answers between two inits: potentials, lower bounds for pruning, the sum of both potentials (if constant), the largest potential, nodes it may be asked about, graphs it was made for
struct BiV { fp: Pot, bp: Pot, fr: Pot, br: Pot, mu: Option<int>, pmax: int, may: spec_fn(int) -> bool, made: ISet<(Ag<()>, Ag<()>)> }
spec fn raw_ok(c: Side, r: Pot) -> bool { forall|v: int, b: Seq<int>| 0 <= v < c.g.len() && #[trigger] walk(c.h, c.t, v, b) && wlen(c.h, c.t, b) < CAP ==> (r(v) matches Some(x) && x <= wlen(c.h, c.t, b)) }
spec fn sum_ok(c: Side, o: Pot, m: int) -> bool { forall|x: int, a: Seq<int>, b: Seq<int>| #[trigger] via(c, x, a, b) ==> (c.p)(x).unwrap() + o(x).unwrap() <= m }
spec fn below(p: Pot, n: int, m: int) -> bool { forall|x: int| 0 <= x < n && #[trigger] p(x) is Some ==> p(x).unwrap() <= m }
spec fn bi_ok(v: BiV, c: Side) -> bool {
    &&& c.p == v.fp && side_ok(c) && side_ok(flip(c, v.bp)) && raw_ok(c, v.fr) && raw_ok(flip(c, v.bp), v.br)
    &&& v.mu matches Some(m) ==> 0 <= m && sum_ok(c, v.bp, m)
    &&& v.mu is None ==> raw_ok(c, v.fp)
    &&& 0 <= v.pmax && below(v.fp, c.g.len() as int, v.pmax) && below(v.bp, c.g.len() as int, v.pmax)
    &&& forall|x: int| 0 <= x < c.g.len() ==> #[trigger] (v.may)(x)
}
spec fn stop_ok(v: BiV, fw: Option<Weight>, bw: Option<Weight>, lim: int) -> bool {
    fw is None || bw is None || (v.mu matches Some(m) && fw.unwrap() + bw.unwrap() >= lim + m) || (v.mu is None && fw.unwrap() >= lim)
}
spec fn key_in(v: BiV, k: Option<Weight>) -> bool { k matches Some(x) ==> x < CAP + v.pmax }
spec fn or_cap(x: Option<u32>) -> int { match x { Some(x) => x as int, None => CAP } }
spec fn prune_ok(raw: Pot, other: Pot, h: int, dist: int, top: int, lim: int) -> bool {
    dist + or_cap(raw(h)) >= lim || (top <= or_cap(other(h)) && dist >= lim) || dist + top - or_cap(other(h)) >= lim
}
proof fn lemma_raw(c: Side, f: Pot)
    requires graphs_ok(c), feasible(c.g, c.t, f)
    ensures raw_ok(c, f)
{
    assert forall|v: int, b: Seq<int>| 0 <= v < c.g.len() && #[trigger] walk(c.h, c.t, v, b) && wlen(c.h, c.t, b) < CAP implies (f(v) matches Some(x) && x <= wlen(c.h, c.t, b)) by {
        let c2 = Side { g: c.g, h: c.h, s: v, t: c.t, p: c.p };
        let e: Seq<int> = Seq::empty();
        assert(walk(c.g, v, v, e)); assert(wlen(c.g, v, e) == 0);
        let r = lemma_join(c2, v, e, b);
        lemma_pot(c.g, c.t, f, v, r, 0);
        assert(r.take(0) =~= e);
    }
}
proof fn lemma_feasible_cons(c: Side, f: Pot)
    requires graphs_ok(c), feasible(c.g, c.t, f), c.p == f
    ensures cons(c), present(c), pot_ok(f, c.g.len() as int), side_ok(c)
{
    assert forall|u: int, k: int| 0 <= u < c.g.len() && 0 <= k < c.g[u].len() implies arc_cons(f, u, #[trigger] c.g[u][k]) by {
        assert(arc_feasible(f, u, c.g[u][k])); assert(0 <= c.g[u][k].0 < c.g.len());
        if f(u) is Some && f(c.g[u][k].0) is Some { assert(f(u).unwrap() <= CAP); }
    }
    lemma_raw(c, f);
    assert forall|v: int, a: Seq<int>, b: Seq<int>| #[trigger] via(c, v, a, b) implies f(v) is Some by { lemma_walk_range(c.g, c.s, a); lemma_walk_range(c.h, c.t, b); }
}
trait BiDirPotential: Sized {
    spec fn v(&self) -> BiV;
    spec fn accepts(&self, source: NodeId, target: NodeId) -> bool;
    fn init(&mut self, source: NodeId, target: NodeId)
        requires old(self).accepts(source, target)
        ensures final(self).v().made == old(self).v().made,
            forall|c: Side| old(self).v().made.contains((c.g, c.h)) && graphs_ok(c) && c.s == source && c.t == target && c.p == final(self).v().fp ==> #[trigger] bi_ok(final(self).v(), c);
    fn forward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
        requires (old(self).v().may)(node as int)
        ensures r == (old(self).v().fp)(node as int), final(self).v() == old(self).v(), r matches Some(x) ==> x <= CAP;
    fn backward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
        requires (old(self).v().may)(node as int)
        ensures r == (old(self).v().bp)(node as int), final(self).v() == old(self).v(), r matches Some(x) ==> x <= CAP;
    fn forward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
        requires (old(self).v().may)(node as int)
        ensures r == (old(self).v().fr)(node as int), final(self).v() == old(self).v(), r matches Some(x) ==> x <= CAP;
    fn backward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
        requires (old(self).v().may)(node as int)
        ensures r == (old(self).v().br)(node as int), final(self).v() == old(self).v(), r matches Some(x) ==> x <= CAP;
    fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
        requires key_in(old(self).v(), fw_min_queue), key_in(old(self).v(), bw_min_queue), stop_dist <= CAP
        ensures final(self).v() == old(self).v(), r ==> stop_ok(old(self).v(), fw_min_queue, bw_min_queue, stop_dist as int);
    fn prune_forward(&mut self, vf_head: NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
        requires (old(self).v().may)(vf_head.0 as int), fw_dist_head < CAP
        ensures final(self).v() == old(self).v(), r ==> prune_ok(old(self).v().fr, old(self).v().bp, vf_head.0 as int, fw_dist_head as int, reverse_min_queue as int, max_dist as int);
    fn prune_backward(&mut self, vf_head: NodeIdT, bw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
        requires (old(self).v().may)(vf_head.0 as int), bw_dist_head < CAP
        ensures final(self).v() == old(self).v(), r ==> prune_ok(old(self).v().br, old(self).v().fp, vf_head.0 as int, bw_dist_head as int, reverse_min_queue as int, max_dist as int);
//@fn engine/src/algo/a_star.rs trait BiDirPotential::prune_forward_internal
//@sig fn prune_forward_internal<const IMPROVED: bool>(&mut self, vf_head: NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@spec
        requires (old(self).v().may)(vf_head.0 as int), fw_dist_head < CAP
        ensures final(self).v() == old(self).v(), r ==> prune_ok(old(self).v().fr, old(self).v().bp, vf_head.0 as int, fw_dist_head as int, reverse_min_queue as int, max_dist as int)
//@at start
    let head = vf_head.0;
//@endfn
//@fn engine/src/algo/a_star.rs trait BiDirPotential::prune_backward_internal
//@sig fn prune_backward_internal<const IMPROVED: bool>(&mut self, vf_head: NodeIdT, bw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@spec
        requires (old(self).v().may)(vf_head.0 as int), bw_dist_head < CAP
        ensures final(self).v() == old(self).v(), r ==> prune_ok(old(self).v().br, old(self).v().fp, vf_head.0 as int, bw_dist_head as int, reverse_min_queue as int, max_dist as int)
//@at start
    let head = vf_head.0;
//@endfn
}
//@item engine/src/algo/a_star.rs struct BiDirZeroPot
proof fn lemma_zero(c: Side, v: BiV)
    requires graphs_ok(c), c.p == v.fp, v.fp == zero_pot(), v.bp == zero_pot(), v.fr == zero_pot(), v.br == zero_pot(), v.mu == Some(0int), v.pmax == 0, forall|x: int| #[trigger] (v.may)(x)
    ensures bi_ok(v, c)
{
    assert forall|x: int, b: Seq<int>| 0 <= x < c.g.len() && #[trigger] walk(c.h, c.t, x, b) implies wlen(c.h, c.t, b) >= 0 by { lemma_walk_range(c.h, c.t, b); }
    let f = flip(c, v.bp);
    assert forall|x: int, b: Seq<int>| 0 <= x < f.g.len() && #[trigger] walk(f.h, f.t, x, b) implies wlen(f.h, f.t, b) >= 0 by { lemma_walk_range(f.h, f.t, b); }
    assert forall|u: int, k: int| 0 <= u < c.g.len() && 0 <= k < c.g[u].len() implies arc_cons(c.p, u, #[trigger] c.g[u][k]) by { assert(0 <= c.g[u][k].1); }
    assert forall|u: int, k: int| 0 <= u < f.g.len() && 0 <= k < f.g[u].len() implies arc_cons(f.p, u, #[trigger] f.g[u][k]) by { assert(0 <= f.g[u][k].1); }
}
spec fn all_graphs() -> ISet<(Ag<()>, Ag<()>)> { ISet::new(|x: (Ag<()>, Ag<()>)| true) }
spec fn any_node() -> spec_fn(int) -> bool { |x: int| true }
impl BiDirPotential for BiDirZeroPot {
    spec fn v(&self) -> BiV { BiV { fp: zero_pot(), bp: zero_pot(), fr: zero_pot(), br: zero_pot(), mu: Some(0), pmax: 0, may: any_node(), made: all_graphs() } }
    spec fn accepts(&self, source: NodeId, target: NodeId) -> bool { true }
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::init
//@sig fn init(&mut self, _source: NodeId, _target: NodeId)
//@at start
    proof { assert forall|c: Side| self.v().made.contains((c.g, c.h)) && graphs_ok(c) && c.s == _source && c.t == _target && c.p == self.v().fp implies #[trigger] bi_ok(self.v(), c) by { lemma_zero(c, self.v()); } }
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::stop
//@sig fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::forward_potential
//@sig fn forward_potential(&mut self, _node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::backward_potential
//@sig fn backward_potential(&mut self, _node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs trait BiDirPotential::forward_potential_raw tag=zero
//@sig fn forward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs trait BiDirPotential::backward_potential_raw tag=zero
//@sig fn backward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::prune_forward
//@sig fn prune_forward(&mut self, _head: NodeIdT, _fw_dist_head: Weight, _reverse_min_queue: Weight, _max_dist: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for BiDirZeroPot::prune_backward
//@sig fn prune_backward(&mut self, _head: NodeIdT, _bw_dist_head: Weight, _reverse_min_queue: Weight, _max_dist: Weight) -> (r: bool)
//@endfn
}
// ---- average of a forward and a backward potential
/// signed division truncates towards zero
spec fn half(a: int) -> int { if a >= 0 { a / 2 } else { -((-a) / 2) } }
#[verifier::external_body]
fn vf_half(a: i32) -> (r: i32) ensures r == half(a as int) { a / 2 }
spec fn avg_at(x: Option<u32>, y: Option<u32>) -> Option<int> { match (x, y) { (Some(x), Some(y)) => Some(half(x - y)), _ => None } }
spec fn clampi(a: int, m: int) -> int { if a < 0 { if m < 0 { m } else { 0 } } else if a > m { m } else { a } }
spec fn avg_f(f: Pot, b: Pot, fa: int, mu: int) -> Pot { |v: int| match avg_at(f(v), b(v)) { Some(p) => Some(clampi(p + fa, mu) as u32), None => None::<u32> } }
spec fn avg_b(f: Pot, b: Pot, ba: int, mu: int) -> Pot { |v: int| match avg_at(f(v), b(v)) { Some(p) => Some(clampi(ba - p, mu) as u32), None => None::<u32> } }
spec fn adds_ok(fa: int, ba: int, mu: int) -> bool { 0 <= fa <= 0x3fff_ffff && 0 <= ba <= 0x3fff_ffff && mu == fa + ba }
spec fn small(x: Option<u32>) -> bool { x matches Some(y) ==> y <= CAP }
spec fn avg_may(f: Pot, b: Pot, fa: int, ba: int, mu: int) -> spec_fn(int) -> bool { |x: int| adds_ok(fa, ba, mu) && small(f(x)) && small(b(x)) }
spec fn pair_made(f: ISet<Ag<()>>, b: ISet<Ag<()>>) -> ISet<(Ag<()>, Ag<()>)> { ISet::new(|x: (Ag<()>, Ag<()>)| f.contains(x.0) && b.contains(x.1)) }
spec fn avg_pre(c: Side, f: Pot, b: Pot, fa: int, ba: int, mu: int) -> bool { graphs_ok(c) && feasible(c.g, c.t, f) && feasible(c.h, c.s, b) && adds_ok(fa, ba, mu) && c.p == avg_f(f, b, fa, mu) }
proof fn lemma_half(a: int, b: int, w: int) requires a <= b + 2 * w, w >= 0 ensures half(a) <= half(b) + w { }
proof fn lemma_avg_step(x1: Option<u32>, y1: Option<u32>, x2: Option<u32>, y2: Option<u32>, w: int, fa: int, ba: int, mu: int)
    requires w >= 0, adds_ok(fa, ba, mu), small(x1), small(y1), small(x2), small(y2), x1 is Some && x2 is Some ==> x1.unwrap() <= w + x2.unwrap(), y1 is Some && y2 is Some ==> y2.unwrap() <= w + y1.unwrap(),
    ensures avg_at(x1, y1) is Some && avg_at(x2, y2) is Some ==> clampi(avg_at(x1, y1).unwrap() + fa, mu) <= w + clampi(avg_at(x2, y2).unwrap() + fa, mu) && clampi(ba - avg_at(x2, y2).unwrap(), mu) <= w + clampi(ba - avg_at(x1, y1).unwrap(), mu)
{ if avg_at(x1, y1) is Some && avg_at(x2, y2) is Some { lemma_half(x1.unwrap() - y1.unwrap(), x2.unwrap() - y2.unwrap(), w); } }
proof fn lemma_avg_arcs(c: Side, f: Pot, b: Pot, fa: int, ba: int, mu: int)
    requires avg_pre(c, f, b, fa, ba, mu)
    ensures cons(c), cons(flip(c, avg_b(f, b, ba, mu)))
{
    let bp = avg_b(f, b, ba, mu); let o = flip(c, bp); let cf = Side { p: f, ..c }; let cb = flip(c, b);
    lemma_feasible_cons(cf, f); lemma_feasible_cons(cb, b);
    assert forall|u: int, k: int| 0 <= u < c.g.len() && 0 <= k < c.g[u].len() implies arc_cons(c.p, u, #[trigger] c.g[u][k]) && arc_cons(bp, c.g[u][k].0, (u, c.g[u][k].1, ())) by {
        let h = c.g[u][k].0; let w = c.g[u][k].1;
        let j = lemma_arc_back(c, u, k);
        assert(arc_cons(f, u, cf.g[u][k])); assert(arc_cons(b, h, cb.g[h][j]));
        assert(small(f(u)) && small(f(h)) && small(b(u)) && small(b(h)));
        lemma_avg_step(f(u), b(u), f(h), b(h), w, fa, ba, mu);
        if avg_at(f(u), b(u)) is Some && avg_at(f(h), b(h)) is Some {
            assert((c.p)(u).unwrap() == clampi(avg_at(f(u), b(u)).unwrap() + fa, mu)); assert((c.p)(h).unwrap() == clampi(avg_at(f(h), b(h)).unwrap() + fa, mu));
        }
    }
    assert forall|u: int, k: int| 0 <= u < o.g.len() && 0 <= k < o.g[u].len() implies arc_cons(o.p, u, #[trigger] o.g[u][k]) by {
        let h = o.g[u][k].0; lemma_flip_ok(c, bp);
        let j = lemma_arc_back(o, u, k);
        assert(arc_cons(bp, c.g[h][j].0, (h, c.g[h][j].1, ())));
    }
}
proof fn lemma_avg_present(c: Side, f: Pot, b: Pot, fa: int, ba: int, mu: int)
    requires avg_pre(c, f, b, fa, ba, mu)
    ensures present(c), present(flip(c, avg_b(f, b, ba, mu))), sum_ok(c, avg_b(f, b, ba, mu), mu)
{
    let bp = avg_b(f, b, ba, mu); let o = flip(c, bp); let cf = Side { p: f, ..c }; let cb = flip(c, b);
    lemma_feasible_cons(cf, f); lemma_feasible_cons(cb, b);
    assert forall|x: int, p: Seq<int>, q: Seq<int>| #[trigger] via(c, x, p, q) implies (c.p)(x) is Some && bp(x) is Some && (c.p)(x).unwrap() + bp(x).unwrap() <= mu by {
        assert(via(cf, x, p, q)); assert(via(cb, x, q, p));
    }
    assert forall|x: int, p: Seq<int>, q: Seq<int>| #[trigger] via(o, x, p, q) implies (o.p)(x) is Some by { assert(via(c, x, q, p)); }
}
proof fn lemma_avg_raw(c: Side, f: Pot, b: Pot, fa: int, ba: int, mu: int)
    requires avg_pre(c, f, b, fa, ba, mu)
    ensures raw_ok(c, f), raw_ok(flip(c, avg_b(f, b, ba, mu)), b)
{
    let bp = avg_b(f, b, ba, mu); let o = flip(c, bp); let cf = Side { p: f, ..c }; let cb = flip(c, b);
    lemma_raw(cf, f); lemma_flip_ok(c, b); lemma_raw(cb, b);
    assert forall|v: int, b: Seq<int>| 0 <= v < c.g.len() && #[trigger] walk(c.h, c.t, v, b) && wlen(c.h, c.t, b) < CAP implies (f(v) matches Some(x) && x <= wlen(c.h, c.t, b)) by { assert(walk(cf.h, cf.t, v, b)); }
    assert forall|v: int, a: Seq<int>| 0 <= v < o.g.len() && #[trigger] walk(o.h, o.t, v, a) && wlen(o.h, o.t, a) < CAP implies (b(v) matches Some(x) && x <= wlen(o.h, o.t, a)) by { assert(walk(cb.h, cb.t, v, a)); }
}
proof fn lemma_avg_range(c: Side, f: Pot, b: Pot, fa: int, ba: int, mu: int)
    requires avg_pre(c, f, b, fa, ba, mu)
    ensures below(c.p, c.g.len() as int, CAP), below(avg_b(f, b, ba, mu), c.g.len() as int, CAP), pot_ok(c.p, c.g.len() as int), pot_ok(avg_b(f, b, ba, mu), c.g.len() as int), forall|x: int| 0 <= x < c.g.len() ==> #[trigger] avg_may(f, b, fa, ba, mu)(x)
{
    assert forall|x: int| 0 <= x < c.g.len() implies #[trigger] avg_may(f, b, fa, ba, mu)(x) by { if f(x) is Some { assert(f(x).unwrap() <= CAP); } if b(x) is Some { assert(b(x).unwrap() <= CAP); } }
}
proof fn lemma_avg(c: Side, v: BiV, f: Pot, b: Pot, fa: int, ba: int, mu: int)
    requires graphs_ok(c), feasible(c.g, c.t, f), feasible(c.h, c.s, b), adds_ok(fa, ba, mu), c.p == v.fp, v.fp == avg_f(f, b, fa, mu), v.bp == avg_b(f, b, ba, mu), v.fr == f, v.br == b, v.mu == Some(mu), v.pmax == CAP, v.may == avg_may(f, b, fa, ba, mu)
    ensures bi_ok(v, c)
{
    hide(cons); hide(present); hide(raw_ok); hide(sum_ok); hide(below); hide(feasible); hide(pot_ok); hide(ag_ok); hide(avg_f); hide(avg_b); hide(avg_may); hide(adds_ok);
    lemma_flip_ok(c, v.bp);
    assert(adds_ok(fa, ba, mu) ==> mu >= 0) by { reveal(adds_ok); }
    assert(c.h.len() == c.g.len());
    lemma_avg_arcs(c, f, b, fa, ba, mu); lemma_avg_present(c, f, b, fa, ba, mu); lemma_avg_raw(c, f, b, fa, ba, mu); lemma_avg_range(c, f, b, fa, ba, mu);
}
//@item engine/src/algo/a_star.rs struct AveragePotential :~bool~=~false=>:~bool
impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP> {
//@fn engine/src/algo/a_star.rs AveragePotential::new
//@sig fn new(forward_potential: PF, backward_potential: PB) -> (r: Self)
//@spec
    ensures r.forward_potential == forward_potential, r.backward_potential == backward_potential
//@endfn
//@fn engine/src/algo/a_star.rs AveragePotential::potential
//@sig fn potential(&mut self, node: NodeId) -> (r: Option<i32>)
//@rw sub self.forward_potential.potential($n).and_then(|$t:id| self.backward_potential.potential($m).map(|$s:id| $x)) ===> (match self.forward_potential.potential($n) { Some($t) => (match self.backward_potential.potential($m) { Some($s) => Some($x), None => None }), None => None })
//@rw subopt ($a) / 2 ===> vf_half($a)
//@spec
    requires small(Potential::pot(&old(self).forward_potential)(node as int)), small(Potential::pot(&old(self).backward_potential)(node as int))
    ensures r matches Some(p) ==> avg_at(Potential::pot(&old(self).forward_potential)(node as int), Potential::pot(&old(self).backward_potential)(node as int)) == Some(p as int),
        r is None ==> avg_at(Potential::pot(&old(self).forward_potential)(node as int), Potential::pot(&old(self).backward_potential)(node as int)) is None,
        Potential::pot(&final(self).forward_potential) == Potential::pot(&old(self).forward_potential), Potential::pot(&final(self).backward_potential) == Potential::pot(&old(self).backward_potential),
        Potential::made_for(&final(self).forward_potential) == Potential::made_for(&old(self).forward_potential), Potential::made_for(&final(self).backward_potential) == Potential::made_for(&old(self).backward_potential),
        final(self).fw_add == old(self).fw_add, final(self).bw_add == old(self).bw_add, final(self).mu_add == old(self).mu_add
//@endfn
}
impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
    spec fn v(&self) -> BiV {
        let f = Potential::pot(&self.forward_potential); let b = Potential::pot(&self.backward_potential);
        BiV { fp: avg_f(f, b, self.fw_add as int, self.mu_add as int), bp: avg_b(f, b, self.bw_add as int, self.mu_add as int), fr: f, br: b, mu: Some(self.mu_add as int), pmax: CAP,
            may: avg_may(f, b, self.fw_add as int, self.bw_add as int, self.mu_add as int), made: pair_made(Potential::made_for(&self.forward_potential), Potential::made_for(&self.backward_potential)) }
    }
    spec fn accepts(&self, source: NodeId, target: NodeId) -> bool { Potential::accepts(&self.forward_potential, target) && Potential::accepts(&self.backward_potential, source) 
        && exists|c: Side| pair_made(Potential::made_for(&self.forward_potential), Potential::made_for(&self.backward_potential)).contains((c.g, c.h)) && #[trigger] graphs_ok(c) && c.s == source && c.t == target }
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::init
//@sig fn init(&mut self, source: NodeId, target: NodeId)
//@at before self.fw_add
    let ghost f = Potential::pot(&self.forward_potential); let ghost b = Potential::pot(&self.backward_potential);
    proof { let c = choose|c: Side| pair_made(Potential::made_for(&self.forward_potential), Potential::made_for(&self.backward_potential)).contains((c.g, c.h)) && #[trigger] graphs_ok(c) && c.s == source && c.t == target;
        assert(feasible(c.g, target as int, f)); assert(feasible(c.h, source as int, b));
        assert(small(f(source as int)) && small(b(target as int))); }
//@at end
    proof { assert forall|c: Side| old(self).v().made.contains((c.g, c.h)) && graphs_ok(c) && c.s == source && c.t == target && c.p == self.v().fp implies #[trigger] bi_ok(self.v(), c) by {
        lemma_avg(c, self.v(), f, b, self.fw_add as int, self.bw_add as int, self.mu_add as int); } }
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::stop
//@sig fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::forward_potential
//@sig fn forward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@rw sub self.potential(node).map(|$p:id| $x) ===> (match self.potential(node) { Some($p) => Some($x), None => None })
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::backward_potential
//@sig fn backward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@rw sub self.potential(node).map(|$p:id| $x) ===> (match self.potential(node) { Some($p) => Some($x), None => None })
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::forward_potential_raw
//@sig fn forward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::backward_potential_raw
//@sig fn backward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::prune_forward
//@sig fn prune_forward(&mut self, vf_head: NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@at start
    let head = vf_head.0;
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for AveragePotential::prune_backward
//@sig fn prune_backward(&mut self, vf_head: NodeIdT, bw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@at start
    let head = vf_head.0;
//@endfn
}
// ---- both potentials as they are
//@item engine/src/algo/a_star.rs struct SymmetricBiDirPotential :~bool~=~true=>:~bool
proof fn lemma_symmetric(c: Side, v: BiV)
    requires graphs_ok(c), feasible(c.g, c.t, v.fp), feasible(c.h, c.s, v.bp), c.p == v.fp, v.fr == v.fp, v.br == v.bp, v.mu is None, v.pmax == CAP, v.may == avg_may(v.fp, v.bp, 0, 0, 0)
    ensures bi_ok(v, c)
{
    let o = flip(c, v.bp);
    lemma_feasible_cons(c, v.fp); lemma_feasible_cons(o, v.bp); lemma_raw(c, v.fp); lemma_raw(o, v.bp);
    assert forall|x: int| 0 <= x < c.g.len() implies #[trigger] (v.may)(x) by { if (v.fp)(x) is Some { assert((v.fp)(x).unwrap() <= CAP); } if (v.bp)(x) is Some { assert((v.bp)(x).unwrap() <= CAP); } }
    assert(below(v.fp, c.g.len() as int, CAP)); assert(below(v.bp, c.g.len() as int, CAP));
}
impl<PF: Potential, PB: Potential, const IP: bool> SymmetricBiDirPotential<PF, PB, IP> {
//@fn engine/src/algo/a_star.rs SymmetricBiDirPotential::new
//@sig fn new(forward_potential: PF, backward_potential: PB) -> (r: Self)
//@spec
    ensures r.forward_potential == forward_potential, r.backward_potential == backward_potential
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::stop_forward
//@sig fn stop_forward(&mut self, fw_min_queue: Option<Weight>, _bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
//@rw sub fw_min_queue.map(|$k:id| $x).unwrap_or($d) ===> (match fw_min_queue { Some($k) => $x, None => $d })
//@spec
    ensures *final(self) == *old(self), r ==> (fw_min_queue matches Some(k) ==> k >= stop_dist)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::stop_backward
//@sig fn stop_backward(&mut self, _fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
//@rw sub bw_min_queue.map(|$k:id| $x).unwrap_or($d) ===> (match bw_min_queue { Some($k) => $x, None => $d })
//@spec
    ensures *final(self) == *old(self), r ==> (bw_min_queue matches Some(k) ==> k >= stop_dist)
//@endfn
}
impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for SymmetricBiDirPotential<PF, PB, IP> {
    spec fn v(&self) -> BiV {
        let f = Potential::pot(&self.forward_potential); let b = Potential::pot(&self.backward_potential);
        BiV { fp: f, bp: b, fr: f, br: b, mu: None, pmax: CAP, may: avg_may(f, b, 0, 0, 0), made: pair_made(Potential::made_for(&self.forward_potential), Potential::made_for(&self.backward_potential)) }
    }
    spec fn accepts(&self, source: NodeId, target: NodeId) -> bool { Potential::accepts(&self.forward_potential, target) && Potential::accepts(&self.backward_potential, source) }
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::init
//@sig fn init(&mut self, source: NodeId, target: NodeId)
//@at end
    proof { assert forall|c: Side| old(self).v().made.contains((c.g, c.h)) && graphs_ok(c) && c.s == source && c.t == target && c.p == self.v().fp implies #[trigger] bi_ok(self.v(), c) by {
        assert(Potential::made_for(&old(self).forward_potential).contains(c.g)); assert(Potential::made_for(&old(self).backward_potential).contains(c.h));
        lemma_symmetric(c, self.v()); } }
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::stop
//@sig fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::forward_potential
//@sig fn forward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::backward_potential
//@sig fn backward_potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs trait BiDirPotential::forward_potential_raw tag=symmetric
//@sig fn forward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs trait BiDirPotential::backward_potential_raw tag=symmetric
//@sig fn backward_potential_raw(&mut self, node: NodeId) -> (r: Option<Weight>)
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::prune_forward
//@sig fn prune_forward(&mut self, vf_head: NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@at start
    let head = vf_head.0;
//@endfn
//@fn engine/src/algo/a_star.rs BiDirPotential for SymmetricBiDirPotential::prune_backward
//@sig fn prune_backward(&mut self, vf_head: NodeIdT, bw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> (r: bool)
//@at start
    let head = vf_head.0;
//@endfn
}
