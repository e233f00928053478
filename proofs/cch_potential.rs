//@include prelude.inc
//@include arcs.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include_contracts timestamped.inc containers
impl Reset for Weight { spec fn dflt() -> u32 { INFINITY } fn vf_default() -> (r: u32) { INFINITY } fn reset(&mut self) { *self = INFINITY; } }
impl Clone for InRangeOption<u32> { fn clone(&self) -> (r: Self) { InRangeOption(self.0) } }
impl Reset for InRangeOption<u32> { spec fn dflt() -> Self { InRangeOption(u32::MAX) } fn vf_default() -> (r: Self) { InRangeOption(u32::MAX) } fn reset(&mut self) { *self = InRangeOption(u32::MAX); } }
//@include etree.inc
//@include_contracts ewalk.inc elimination_walk
//@include walk.inc
//@include cch_thm.inc
// ---------------------------------------------------------------- the walk that keeps its labels
impl VfCont for TimestampedVector<Weight> { spec fn seq(&self) -> Seq<u32> { if self.wf() { self@ } else { Seq::empty() } }
    fn at(&self, i: usize) -> (r: u32) { *self.index(i) }
    fn put(&mut self, i: usize, x: u32) { *self.index_mut(i) = x; } }
/// finite labels are lengths of walks; passed nodes have exact labels, the others are minimal with respect to the nodes passed
spec fn keep_inv(ls: Ls, et: Et, s: u32, dist: Seq<u32>, nxt: Option<u32>) -> bool {
    &&& up_ok(ls, et) && s < ls.len() && dist.len() == ls.len()
    &&& nxt matches Some(x) ==> anc(et, s, x) && x < ls.len()
    &&& forall|v: int| 0 <= v < dist.len() ==> (#[trigger] dist[v]) <= INFINITY && (dist[v] < INFINITY ==> uw(ls, s as int, v, dist[v] as int))
    &&& forall|v: u32, d: int| v < dist.len() && !pend(et, nxt, v) && #[trigger] uw(ls, s as int, v as int, d) ==> dist[v as int] <= d
    &&& forall|v: u32, d: int| pend(et, nxt, v) && #[trigger] passed(ls, et, nxt, s, v, d) ==> dist[v as int] <= d
}
proof fn lemma_keep_start(ls: Ls, et: Et, s: u32, dist: Seq<u32>)
    requires up_ok(ls, et), s < ls.len(), dist.len() == ls.len(), dist[s as int] == 0, forall|v: int| 0 <= v < dist.len() && v != s ==> #[trigger] dist[v] == INFINITY
    ensures keep_inv(ls, et, s, dist, Some(s))
{
    assert(anc(et, s, s));
    assert forall|v: u32, d: int| v < dist.len() && !pend(et, Some(s), v) && #[trigger] uw(ls, s as int, v as int, d) implies dist[v as int] <= d by { lemma_uw_anc(ls, et, s, v, d); }
    assert forall|v: u32, d: int| pend(et, Some(s), v) && #[trigger] passed(ls, et, Some(s), s, v, d) implies dist[v as int] <= d by {
        if !(v == s && d == 0) {
            let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && !pend(et, Some(s), u as u32) && uw(ls, s as int, u, d - ls[u][i].1);
            lemma_uw_anc(ls, et, s, u as u32, d - ls[u][i].1);
        }
    }
}
proof fn lemma_keep(ls: Ls, et: Et, s: u32, d0: Seq<u32>, x: u32, d1: Seq<u32>)
    requires keep_inv(ls, et, s, d0, Some(x)), relaxed(ls, x as int, ls[x as int].len() as int, d0, d1)
    ensures keep_inv(ls, et, s, d1, et[x as int]@)
{
    let nxt = et[x as int]@;
    lemma_anc_le(et, s, x);
    if let Some(p) = nxt { assert(x < et.len() && x < p < et.len()); assert(anc(et, p, p)); assert(anc(et, x, p)); lemma_anc_trans(et, s, x, p); }
    // the label of x is exact
    assert forall|d: int| uw(ls, s as int, x as int, d) implies d0[x as int] <= d by {
        if !(x == s && d == 0) {
            let (u, i) = choose|u: int, i: int| 0 <= u < x && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == x && uw(ls, s as int, u, d - ls[u][i].1);
            if pend(et, Some(x), u as u32) { lemma_anc_le(et, x, u as u32); }
        }
        assert(anc(et, x, x));
        assert(passed(ls, et, Some(x), s, x, d));
    }
    assert forall|v: int| 0 <= v < d1.len() implies (#[trigger] d1[v]) <= INFINITY && (d1[v] < INFINITY ==> uw(ls, s as int, v, d1[v] as int)) by {
        assert(d0[v] <= INFINITY);
        if d1[v] < INFINITY && d1[v] != d0[v] {
            let i = choose|i: int| 0 <= i < ls[x as int].len() && (#[trigger] ls[x as int][i]).0.0 == v && d1[v] == d0[x as int] + ls[x as int][i].1;
            assert(uw(ls, s as int, x as int, d0[x as int] as int));
            assert(d1[v] - ls[x as int][i].1 == d0[x as int]);
        }
    }
    assert forall|v: u32, d: int| v < d1.len() && !pend(et, nxt, v) && #[trigger] uw(ls, s as int, v as int, d) implies d1[v as int] <= d by {
        assert(d1[v as int] <= d0[v as int]);
        if v != x { assert(!pend(et, Some(x), v)); }
    }
    assert forall|v: u32, d: int| pend(et, nxt, v) && #[trigger] passed(ls, et, nxt, s, v, d) implies d1[v as int] <= d by {
        let p = nxt->0;
        lemma_anc_le(et, p, v);
        assert(pend(et, Some(x), v)) by { assert(anc(et, x, p)); lemma_anc_trans(et, x, p, v); }
        if !(v == s && d == 0) {
            let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && !pend(et, nxt, u as u32) && uw(ls, s as int, u, d - ls[u][i].1);
            if u != x {
                assert(!pend(et, Some(x), u as u32)) by { if anc(et, x, u as u32) { assert(anc(et, p, u as u32)); } }
                assert(passed(ls, et, Some(x), s, v, d));
                assert(d0[v as int] <= d);
            }
        } else { assert(passed(ls, et, Some(x), s, v, d)); }
    }
}
/// the shortest upward walks from s, INFINITY where there is none below
spec fn up_exact(ls: Ls, s: int, dist: Seq<u32>) -> bool {
    dist.len() == ls.len() && forall|v: int| 0 <= v < dist.len() ==> (#[trigger] dist[v]) <= INFINITY && (dist[v] < INFINITY ==> uw(ls, s, v, dist[v] as int)) && forall|d: int| #[trigger] uw(ls, s, v, d) ==> dist[v] <= d
}
proof fn lemma_keep_done(ls: Ls, et: Et, s: u32, dist: Seq<u32>) requires keep_inv(ls, et, s, dist, None) ensures up_exact(ls, s as int, dist)
{
    assert forall|v: int| 0 <= v < dist.len() implies (#[trigger] dist[v]) <= INFINITY && (dist[v] < INFINITY ==> uw(ls, s as int, v, dist[v] as int)) && forall|d: int| #[trigger] uw(ls, s as int, v, d) ==> dist[v] <= d by {
        assert forall|d: int| #[trigger] uw(ls, s as int, v, d) implies dist[v] <= d by { let w = v as u32; assert(!pend(et, None, w)); assert(uw(ls, s as int, w as int, d)); }
    }
}
impl<'a, Graph: VfLinks<(NodeIdT, Weight, EdgeIdT)>, ParentCont: StoreParentInfo> EliminationTreeWalk<'a, Graph, TimestampedVector<Weight>, ParentCont> {
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::query
//@spec
    requires up_ok(graph.lists(), elimination_tree@), from < graph.lists().len(), old(distances).wf(), old(distances)@.len() == graph.lists().len(), old(predecessors).keeps() ==> old(predecessors).room() == graph.lists().len(),
    ensures r.wf(), r.graph == graph, r.elimination_tree == elimination_tree, r.next == Some(from), *final(distances) == *final(r.distances), *final(predecessors) == *final(r.predecessors), r.keeps() == old(predecessors).keeps(), r.room() == old(predecessors).room(),
        r.d() =~= Seq::new(graph.lists().len(), |i: int| INFINITY).update(from as int, 0)
//@endfn
}
// ---------------------------------------------------------------- the potential
spec fn as_ls(l: Seq<Seq<Link>>) -> Ls { Seq::new(l.len(), |u: int| Seq::new(l[u].len(), |k: int| (NodeIdT(l[u][k].node), l[u][k].weight, EdgeIdT(0)))) }
/// the smallest length of an upward and a downward walk from v to t, INFINITY if there is none below
spec fn pot_ok(f: Ls, b: Ls, v: int, t: int, d: u32) -> bool {
    &&& d <= INFINITY
    &&& forall|m: int, x: int, y: int| #[trigger] meets(f, b, v, t, m, x, y) ==> d <= x + y
    &&& d < INFINITY ==> exists|m: int, x: int, y: int| 0 <= m < f.len() && #[trigger] meets(f, b, v, t, m, x, y) && d == x + y
}
/// prepending an arc to an upward walk
proof fn lemma_uw_cons(f: Ls, et: Et, v: int, i: int, m: int, d: int)
    requires up_ok(f, et), 0 <= v < f.len(), 0 <= i < f[v].len(), uw(f, f[v][i].0.0 as int, m, d), 0 <= m
    ensures uw(f, v, m, d + f[v][i].1)
    decreases m
{
    let h = f[v][i].0.0 as int; let w = f[v][i].1;
    assert(v < h);
    if m == h && d == 0 { assert(uw(f, v, v, 0)); assert(f[v][i].0.0 == m); assert(d + w - f[v][i].1 == 0); }
    else {
        let (u, j) = choose|u: int, j: int| 0 <= u < m && u < f.len() && 0 <= j < f[u].len() && (#[trigger] f[u][j]).0.0 == m && uw(f, h, u, d - f[u][j].1);
        lemma_uw_cons(f, et, v, i, u, d - f[u][j].1);
        assert(f[u][j].0.0 == m);
        assert(d - f[u][j].1 + w == d + w - f[u][j].1);
    }
}
/// the first arc of an upward walk
proof fn lemma_uw_uncons(f: Ls, et: Et, v: int, m: int, d: int) -> (i: int)
    requires up_ok(f, et), 0 <= v < f.len(), 0 <= m, uw(f, v, m, d), !(m == v && d == 0)
    ensures 0 <= i < f[v].len(), uw(f, f[v][i].0.0 as int, m, d - f[v][i].1)
    decreases m
{
    let (u, j) = choose|u: int, j: int| 0 <= u < m && u < f.len() && 0 <= j < f[u].len() && (#[trigger] f[u][j]).0.0 == m && uw(f, v, u, d - f[u][j].1);
    if u == v && d - f[u][j].1 == 0 { assert(uw(f, m, m, 0)); j }
    else {
        let i = lemma_uw_uncons(f, et, v, u, d - f[u][j].1);
        assert(f[u][j].0.0 == m);
        assert(d - f[u][j].1 - f[v][i].1 == d - f[v][i].1 - f[u][j].1);
        i
    }
}
/// d is what v knows after looking at its first k upward links: heads carry the values r
spec fn swept(f: Ls, b: Ls, t: int, v: int, k: int, db: u32, d: u32, r: spec_fn(int) -> int) -> bool {
    &&& d <= db && d <= INFINITY
    &&& forall|j: int| 0 <= j < k ==> d <= r((#[trigger] f[v][j]).0.0 as int) + f[v][j].1
    &&& d < INFINITY ==> exists|m: int, x: int, y: int| 0 <= m < f.len() && #[trigger] meets(f, b, v, t, m, x, y) && d == x + y
}
proof fn lemma_swept_start(f: Ls, b: Ls, t: int, v: int, db: Seq<u32>, r: spec_fn(int) -> int)
    requires up_exact(b, t, db), 0 <= v < b.len(), f.len() == b.len()
    ensures swept(f, b, t, v, 0, db[v], db[v], r)
{ if db[v] < INFINITY { assert(uw(f, v, v, 0)); assert(meets(f, b, v, t, v, 0, db[v] as int)); } }
proof fn lemma_swept_step(f: Ls, b: Ls, et: Et, t: int, v: int, k: int, db: u32, d: u32, r: spec_fn(int) -> int, rh: u32, d2: u32)
    requires up_ok(f, et), swept(f, b, t, v, k, db, d, r), 0 <= v < f.len(), 0 <= k < f[v].len(), r(f[v][k].0.0 as int) == rh, pot_ok(f, b, f[v][k].0.0 as int, t, rh), d2 == (if rh + f[v][k].1 < d { rh + f[v][k].1 } else { d as int })
    ensures swept(f, b, t, v, k + 1, db, d2, r)
{
    let h = f[v][k].0.0 as int; let w = f[v][k].1;
    if d2 < INFINITY && d2 != d {
        let (m, x, y) = choose|m: int, x: int, y: int| 0 <= m < f.len() && #[trigger] meets(f, b, h, t, m, x, y) && rh == x + y;
        lemma_uw_cons(f, et, v, k, m, x);
        assert(meets(f, b, v, t, m, x + w, y));
    }
}
proof fn lemma_swept_done(f: Ls, b: Ls, et: Et, t: int, v: int, db: Seq<u32>, d: u32, r: spec_fn(int) -> int)
    requires up_ok(f, et), up_ok(b, et), 0 <= v < f.len(), f.len() == b.len(), up_exact(b, t, db), swept(f, b, t, v, f[v].len() as int, db[v], d, r), 0 <= t < b.len(),
        forall|j: int| 0 <= j < f[v].len() ==> r((#[trigger] f[v][j]).0.0 as int) <= INFINITY && pot_ok(f, b, f[v][j].0.0 as int, t, r(f[v][j].0.0 as int) as u32) && r(f[v][j].0.0 as int) >= 0
    ensures pot_ok(f, b, v, t, d)
{
    assert forall|m: int, x: int, y: int| #[trigger] meets(f, b, v, t, m, x, y) implies d <= x + y by {
        lemma_uw_nn(f, et, v, m, x); lemma_uw_nn(b, et, t, m, y);
        if m == v && x == 0 { assert(uw(b, t, v, y)); assert(db[v] <= y); }
        else {
            let i = lemma_uw_uncons(f, et, v, m, x);
            let h = f[v][i].0.0 as int;
            assert(meets(f, b, h, t, m, x - f[v][i].1, y));
            assert(r(h) <= x - f[v][i].1 + y);
        }
    }
}
proof fn lemma_uw_nn(f: Ls, et: Et, v: int, m: int, d: int) requires up_ok(f, et), 0 <= v < f.len(), uw(f, v, m, d) ensures 0 <= m < f.len(), d >= 0
    decreases m
{ if !(m == v && d == 0) {
    let (u, j) = choose|u: int, j: int| 0 <= u < m && u < f.len() && 0 <= j < f[u].len() && (#[trigger] f[u][j]).0.0 == m && uw(f, v, u, d - f[u][j].1);
    lemma_uw_nn(f, et, v, u, d - f[u][j].1); assert(f[u][j].0.0 < f.len()); } }
/// known values are right and known upwards
spec fn known_ok(f: Ls, b: Ls, et: Et, t: int, p: Seq<InRangeOption<u32>>) -> bool {
    p.len() == f.len() && forall|v: int| 0 <= v < p.len() && (#[trigger] p[v])@ is Some ==> pot_ok(f, b, v, t, p[v]@->0) && (et[v]@ matches Some(q) ==> p[q as int]@ is Some)
}
proof fn lemma_known_anc(f: Ls, b: Ls, et: Et, t: int, p: Seq<InRangeOption<u32>>, v: u32, a: u32)
    requires known_ok(f, b, et, t, p), up_ok(f, et), v < p.len(), p[v as int]@ is Some, anc(et, v, a)
    ensures a < p.len(), p[a as int]@ is Some
    decreases et.len() - v
{ if v != a { lemma_known_anc(f, b, et, t, p, et[v as int]@->0, a); } }
/// the heads of the links of v, whose parent is known
proof fn lemma_heads_known(f: Ls, b: Ls, et: Et, t: int, p: Seq<InRangeOption<u32>>, v: u32)
    requires known_ok(f, b, et, t, p), up_ok(f, et), v < p.len(), et[v as int]@ matches Some(q) ==> p[q as int]@ is Some
    ensures forall|j: int| 0 <= j < f[v as int].len() ==> (#[trigger] f[v as int][j]).0.0 < p.len() && p[f[v as int][j].0.0 as int]@ is Some && pot_ok(f, b, f[v as int][j].0.0 as int, t, p[f[v as int][j].0.0 as int]@->0)
{
    assert forall|j: int| 0 <= j < f[v as int].len() implies (#[trigger] f[v as int][j]).0.0 < p.len() && p[f[v as int][j].0.0 as int]@ is Some && pot_ok(f, b, f[v as int][j].0.0 as int, t, p[f[v as int][j].0.0 as int]@->0) by {
        let h = f[v as int][j].0.0;
        assert(anc(et, v, h) && v < h);
        lemma_known_anc(f, b, et, t, p, et[v as int]@->0, h);
    }
}
/// the nodes on the stack form a chain of parents; the last one is next
spec fn chain(et: Et, st: Seq<u32>, v: u32, p: Seq<InRangeOption<u32>>) -> bool {
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) < et.len()
    &&& forall|i: int| 0 <= i < st.len() - 1 ==> et[(#[trigger] st[i]) as int]@ == Some(st[i + 1])
    &&& st.len() > 0 ==> st[0] == v
    &&& st.len() == 0 ==> p[v as int]@ is Some
    &&& st.len() > 0 ==> (et[st.last() as int]@ matches Some(q) ==> p[q as int]@ is Some)
}
struct VfCch { node_order: NodeOrder, elimination_tree: Vec<InRangeOption<u32>> }
impl VfCch {
    fn node_order(&self) -> (r: &NodeOrder) ensures *r == self.node_order { &self.node_order }
    fn elimination_tree(&self) -> (r: &[InRangeOption<u32>]) ensures r@ == self.elimination_tree@ { self.elimination_tree.as_slice() }
}
//@item engine/src/algo/ch_potentials.rs struct CCHPotential CCH=>VfCch
spec fn at(p: Seq<InRangeOption<u32>>) -> spec_fn(int) -> int { |v: int| if 0 <= v < p.len() && p[v]@ is Some { p[v]@->0 as int } else { INFINITY as int } }
impl<'a, GF: VfLinks<Link>, GB: VfLinks<(NodeIdT, Weight, EdgeIdT)>> CCHPotential<'a, GF, GB> {
    spec fn f(&self) -> Ls { as_ls(self.forward_cch_graph.lists()) }
    spec fn b(&self) -> Ls { self.backward_cch_graph.lists() }
    spec fn et(&self) -> Et { self.cch.elimination_tree@ }
    spec fn n(&self) -> int { self.f().len() as int }
    spec fn wf(&self) -> bool { up_ok(self.f(), self.et()) && up_ok(self.b(), self.et()) && self.potentials.wf() && self.potentials@.len() == self.n() && self.backward_distances.wf() && self.backward_distances@.len() == self.n() && self.stack@.len() == 0 }
    /// answers are towards t
    spec fn ready(&self, t: int) -> bool { self.wf() && 0 <= t < self.n() && up_exact(self.b(), t, self.backward_distances@) && known_ok(self.f(), self.b(), self.et(), t, self.potentials@) }
    spec fn same(&self, o: &Self) -> bool { self.cch == o.cch && self.forward_cch_graph == o.forward_cch_graph && self.backward_cch_graph == o.backward_cch_graph }
//@fn engine/src/algo/ch_potentials.rs CCHPotential::num_pot_computations
//@endfn
//@fn engine/src/algo/ch_potentials.rs CCHPotential::init_with_cch_rank
//@rw sub customizable_contraction_hierarchy::query::stepped_elimination_tree::ForgetParentInfo() => ForgetParentInfo()
//@rw sub for _ in EliminationTreeWalk::query($a) {} ===> let mut vf_walk = EliminationTreeWalk::query($a); loop { if vf_walk.next().is_none() { break; } }
//@spec
    requires old(self).wf(), target < old(self).n()
    ensures final(self).same(old(self)), final(self).ready(target as int)
//@at start
    let ghost (b, et) = (self.b(), self.et());
//@at before_loop 0
    let ghost w0 = vf_walk;
    proof { lemma_keep_start(vf_walk.ls(), vf_walk.et(), target, vf_walk.d()); }
//@loop 0
    invariant vf_walk.wf(), vf_walk.same_ctx(&w0), vf_walk.ls() == b, vf_walk.et() == et, keep_inv(vf_walk.ls(), vf_walk.et(), target, vf_walk.d(), vf_walk.next), *final(vf_walk.distances) == *final(w0.distances), *final(vf_walk.predecessors) == *final(w0.predecessors),
    ensures vf_walk.next is None, keep_inv(vf_walk.ls(), vf_walk.et(), target, vf_walk.d(), None)
    decreases (if vf_walk.next is Some { vf_walk.d().len() - vf_walk.next->0 } else { 0int })
//@at loop_begin 0
    let ghost pre = vf_walk;
//@at loop_end 0
    proof { let x = pre.next->0; assert(et[x as int]@ matches Some(p) ==> x < p < et.len()); lemma_keep(pre.ls(), pre.et(), target, pre.d(), x, vf_walk.d()); }
//@at past_loop 0
    proof { lemma_keep_done(vf_walk.ls(), vf_walk.et(), target, vf_walk.d()); }
//@at finish
    proof { assert(self.backward_distances.seq().len() == self.n()); }
//@endfn
fn vf_potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
    requires old(self).ready(t), node < old(self).n()
    ensures final(self).same(old(self)), final(self).ready(t), answers(old(self).f(), old(self).b(), node, t as u32, r)
{
    let r = self.potential_with_cch_rank(node, Ghost(t));
    proof {
        let d = if r is Some { r->0 } else { INFINITY };
        let (f, b) = (self.f(), self.b());
        assert(pot_ok(f, b, node as int, t, d));
        let tt = t as u32;
        assert(tt as int == t);
        if r is Some { let (m, x, y) = choose|m: int, x: int, y: int| 0 <= m < f.len() && #[trigger] meets(f, b, node as int, t, m, x, y) && d == x + y; let mm = m as u32; assert(meets(f, b, node as int, tt as int, mm as int, x, y)); }
    }
    r
}
//@fn engine/src/algo/ch_potentials.rs CCHPotential::potential_with_cch_rank
//@sig fn potential_with_cch_rank(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw sub LinkIterable::<Link>::link_iter($g, $u) => vf_seq_links($g, $u)
//@rw sub self.num_pot_computations += $e; => self.num_pot_computations = vf_add(self.num_pot_computations, $e);
//@rw sub self.potentials[$e] = $v; ===> *self.potentials.index_mut($e) = $v;
//@rw sub self.potentials[$e] ===> self.potentials.index($e)
//@rw sub self.backward_distances[$e] ===> *self.backward_distances.index($e)
//@rw for
//@rw whilelet
//@spec
    requires old(self).ready(t), node < old(self).n()
    ensures final(self).same(old(self)), final(self).ready(t), r matches Some(d) ==> d < INFINITY, pot_ok(old(self).f(), old(self).b(), node as int, t, if r is Some { r->0 } else { INFINITY })
//@at start
    let ghost (f, b, et) = (self.f(), self.b(), self.et());
    let ghost me = *self;
//@loop 0
    invariant_except_break
        self.stack@.len() == 0 ==> cur_node == node,
        self.stack@.len() > 0 ==> et[self.stack@.last() as int]@ == Some(cur_node),
    invariant
        self.same(&me), f == self.f(), b == self.b(), et == self.et(), up_ok(f, et), up_ok(b, et), self.backward_distances == me.backward_distances, self.potentials == me.potentials, self.potentials.wf(), known_ok(f, b, et, t, self.potentials@), eq_ok::<u32>(),
        node < et.len(), cur_node < et.len(), f.len() == et.len(),
        self.stack@.len() > 0 ==> self.stack@[0] == node,
        forall|i: int| 0 <= i < self.stack@.len() ==> (#[trigger] self.stack@[i]) < et.len(),
        forall|i: int| 0 <= i < self.stack@.len() - 1 ==> et[(#[trigger] self.stack@[i]) as int]@ == Some(self.stack@[i + 1]),
    ensures chain(et, self.stack@, node, self.potentials@)
    decreases et.len() - cur_node
//@loop 1
    invariant
        self.same(&me), f == self.f(), b == self.b(), et == self.et(), up_ok(f, et), up_ok(b, et), self.backward_distances == me.backward_distances, self.backward_distances.wf(), up_exact(b, t, self.backward_distances@), 0 <= t < b.len(), self.potentials.wf(), known_ok(f, b, et, t, self.potentials@), eq_ok::<u32>(),
        node < et.len(), f.len() == et.len(), chain(et, self.stack@, node, self.potentials@),
    ensures self.stack@.len() == 0
    decreases self.stack@.len()
//@at loop_begin 1
    let ghost p0 = self.potentials@;
    let ghost st0 = self.stack@;
//@at before 0 let mut dist
    let ghost db = self.backward_distances@;
    let ghost r = at(p0);
    proof { lemma_heads_known(f, b, et, t, p0, node); lemma_swept_start(f, b, t, node as int, db, r); assert(self.forward_cch_graph.lists().len() == f.len()); }
//@loop 2
    invariant
        vf_i2 <= vf_it2@.len(), node < et.len(), vf_it2@ == self.forward_cch_graph.lists()[node as int], f == self.f(), up_ok(f, et), self.potentials.wf(), self.potentials@ == p0, r == at(p0), p0.len() == f.len(), eq_ok::<u32>(), db == self.backward_distances@, db.len() == f.len(), db[node as int] <= INFINITY, f.len() == et.len(),
        forall|j: int| 0 <= j < f[node as int].len() ==> (#[trigger] f[node as int][j]).0.0 < p0.len() && p0[f[node as int][j].0.0 as int]@ is Some && pot_ok(f, b, f[node as int][j].0.0 as int, t, p0[f[node as int][j].0.0 as int]@->0),
        swept(f, b, t, node as int, vf_i2 as int, db[node as int], dist, r),
    decreases vf_it2@.len() - vf_i2
//@at loop_begin 2
    let ghost d0 = dist;
    proof { let j = vf_i2 as int; assert(f[node as int][j].0.0 == vf_it2@[j].node && f[node as int][j].1 == vf_it2@[j].weight); assert(f[node as int][j].1 <= INFINITY); }
//@at loop_end 2
    ; proof { let j = vf_i2 - 1; let h = f[node as int][j].0.0 as int; lemma_swept_step(f, b, et, t, node as int, j, db[node as int], d0, r, p0[h]@->0, dist); }
//@at past_loop 2
    proof { lemma_swept_done(f, b, et, t, node as int, db, dist, r); }
//@at loop_end 1
    proof {
        let p1 = self.potentials@;
        assert(p1[st0.last() as int]@ is Some);
        assert forall|v: int| 0 <= v < p0.len() && p0[v]@ is Some implies (#[trigger] p1[v])@ is Some by { }
    }
//@endfn
}
/// a customized hierarchy: two upward graphs over one elimination tree
trait Customized { type G: VfLinks<(NodeIdT, Weight, EdgeIdT)> + VfLinks<Link>;
    spec fn fg(&self) -> Self::G; spec fn bg(&self) -> Self::G; spec fn c(&self) -> VfCch;
    fn forward_graph(&self) -> (r: Self::G) ensures r == self.fg();
    fn backward_graph(&self) -> (r: Self::G) ensures r == self.bg();
    fn cch(&self) -> (r: &VfCch) ensures *r == self.c(); }
spec fn lk<G: VfLinks<Link>>(g: G) -> Ls { as_ls(<G as VfLinks<Link>>::lists(&g)) }
spec fn lt<G: VfLinks<(NodeIdT, Weight, EdgeIdT)>>(g: G) -> Ls { <G as VfLinks<(NodeIdT, Weight, EdgeIdT)>>::lists(&g) }
spec fn graphs_ok<C: Customized>(c: C) -> bool { let et = c.c().elimination_tree@; up_ok(lk(c.fg()), et) && up_ok(lt(c.fg()), et) && up_ok(lk(c.bg()), et) && up_ok(lt(c.bg()), et) }
fn vf_num_nodes<G: VfLinks<Link>>(g: G) -> (r: usize) ensures r == lk(g).len() { g.num_nodes() }
impl<'a, G: VfLinks<(NodeIdT, Weight, EdgeIdT)> + VfLinks<Link>> CCHPotential<'a, G, G> {
//@fn engine/src/algo/ch_potentials.rs BorrowedCCHPot::new_from_customized
//@sig fn new_from_customized<C: Customized<G = G>>(customized: &'a C) -> (r: Self)
//@rw subopt customized.forward_graph().num_nodes() ===> vf_num_nodes(customized.forward_graph())
//@spec
    requires graphs_ok(*customized)
    ensures r.wf(), r.f() == lk(customized.fg()), r.b() == lt(customized.bg()), r.cch == customized.c()
//@endfn
}
//@item engine/src/algo/ch_potentials.rs struct CCHPotData 'a=>C CustomizedPerfect<C,CCH>=>C CustomizedPerfect<'a,~CCH>=>C
impl<C: Customized> CCHPotData<C> {
//@fn engine/src/algo/ch_potentials.rs CCHPotData::num_nodes
//@rw subopt self.customized.forward_graph().num_nodes() ===> vf_num_nodes(self.customized.forward_graph())
//@spec
    ensures r == lk(self.customized.fg()).len()
//@endfn
//@fn engine/src/algo/ch_potentials.rs CCHPotData::forward_potential
//@sig fn forward_potential(&self) -> (r: CCHPotential<C::G, C::G>)
//@rw subopt BorrowedCCHPot::new_from_customized ===> CCHPotential::new_from_customized
//@spec
    requires graphs_ok(self.customized)
    ensures r.wf(), r.f() == lk(self.customized.fg()), r.b() == lt(self.customized.bg()), r.cch == self.customized.c()
//@endfn
//@fn engine/src/algo/ch_potentials.rs CCHPotData::backward_potential
//@sig fn backward_potential(&self) -> (r: CCHPotential<C::G, C::G>)
//@rw subopt self.customized.forward_graph().num_nodes() ===> vf_num_nodes(self.customized.forward_graph())
//@spec
    requires graphs_ok(self.customized)
    ensures r.wf(), r.f() == lk(self.customized.bg()), r.b() == lt(self.customized.fg()), r.cch == self.customized.c()
//@endfn
}
//@include potential.inc
impl<'a, GF: VfLinks<Link>, GB: VfLinks<(NodeIdT, Weight, EdgeIdT)>> Potential for CCHPotential<'a, GF, GB> {
    spec fn pre(&self) -> bool { self.wf() && self.cch.node_order.wf() && self.cch.node_order.n() == self.n() }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.n() }
    spec fn after(&self, target: int) -> bool { self.ready(self.cch.node_order.ranks@[target] as int) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { answers(self.f(), self.b(), self.cch.node_order.ranks@[node], self.cch.node_order.ranks@[target], r) }
//@fn engine/src/algo/ch_potentials.rs Potential for CCHPotential::init
//@endfn
//@fn engine/src/algo/ch_potentials.rs Potential for CCHPotential::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw subopt self.potential_with_cch_rank($e) ===> self.vf_potential($e, Ghost(self.cch.node_order.ranks@[t] as int))
//@endfn
}
/// which paths were unpacked already: nothing here depends on it
struct FastClearBitVec();
impl FastClearBitVec { fn clear(&mut self) { } }
//@item engine/src/algo/ch_potentials.rs struct CCHPotentialWithPathUnpacking CCH=>VfCch const~FLIP_UNPACKING:~bool=>GF,~GB forward_cch_graph:~FirstOutGraph<&'a~[EdgeId],~&'a~[NodeId],~&'a~[Weight]>=>forward_cch_graph:~GF backward_cch_graph:~FirstOutGraph<&'a~[EdgeId],~&'a~[NodeId],~&'a~[Weight]>=>backward_cch_graph:~GB
impl<'a, GF: VfLinks<(NodeIdT, Weight, EdgeIdT)>, GB: VfLinks<(NodeIdT, Weight, EdgeIdT)>> CCHPotentialWithPathUnpacking<'a, GF, GB> {
    spec fn f(&self) -> Ls { self.forward_cch_graph.lists() }
    spec fn b(&self) -> Ls { self.backward_cch_graph.lists() }
    spec fn et(&self) -> Et { self.cch.elimination_tree@ }
    spec fn n(&self) -> int { self.f().len() as int }
    spec fn wf(&self) -> bool { up_ok(self.f(), self.et()) && up_ok(self.b(), self.et()) && self.potentials.wf() && self.potentials@.len() == self.n() && self.backward_distances.wf() && self.backward_distances@.len() == self.n() && self.stack@.len() == 0 && self.backward_parents@.len() == self.n() }
    spec fn ready(&self, t: int) -> bool { self.wf() && 0 <= t < self.n() && up_exact(self.b(), t, self.backward_distances@) && known_ok(self.f(), self.b(), self.et(), t, self.potentials@) }
    spec fn same(&self, o: &Self) -> bool { self.cch == o.cch && self.forward_cch_graph == o.forward_cch_graph && self.backward_cch_graph == o.backward_cch_graph }
}
impl<'a, GF: VfLinks<(NodeIdT, Weight, EdgeIdT)>, GB: VfLinks<(NodeIdT, Weight, EdgeIdT)>> Potential for CCHPotentialWithPathUnpacking<'a, GF, GB> {
    spec fn pre(&self) -> bool { self.wf() }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.n() }
    spec fn after(&self, target: int) -> bool { self.ready(target) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { pot_ok(self.f(), self.b(), node, target, if r is Some { r->0 } else { INFINITY }) && (r matches Some(d) ==> d < INFINITY) }
//@fn engine/src/algo/ch_potentials.rs Potential for CCHPotentialWithPathUnpacking::init
//@rw sub for _ in EliminationTreeWalk::query($a) {} ===> let mut vf_walk = EliminationTreeWalk::query($a); loop { if vf_walk.next().is_none() { break; } }
//@at start
    let ghost (b, et) = (self.b(), self.et());
//@at before_loop 0
    let ghost w0 = vf_walk;
    proof { lemma_keep_start(vf_walk.ls(), vf_walk.et(), target, vf_walk.d()); }
//@loop 0
    invariant vf_walk.wf(), vf_walk.same_ctx(&w0), vf_walk.ls() == b, vf_walk.et() == et, keep_inv(vf_walk.ls(), vf_walk.et(), target, vf_walk.d(), vf_walk.next), *final(vf_walk.distances) == *final(w0.distances), *final(vf_walk.predecessors) == *final(w0.predecessors),
    ensures vf_walk.next is None, keep_inv(vf_walk.ls(), vf_walk.et(), target, vf_walk.d(), None)
    decreases (if vf_walk.next is Some { vf_walk.d().len() - vf_walk.next->0 } else { 0int })
//@at loop_begin 0
    let ghost pre = vf_walk;
//@at loop_end 0
    proof { let x = pre.next->0; assert(et[x as int]@ matches Some(p) ==> x < p < et.len()); lemma_keep(pre.ls(), pre.et(), target, pre.d(), x, vf_walk.d()); }
//@at past_loop 0
    proof { lemma_keep_done(vf_walk.ls(), vf_walk.et(), target, vf_walk.d()); }
//@at finish
    proof { assert(self.backward_distances.seq().len() == self.n()); }
//@endfn
//@fn engine/src/algo/ch_potentials.rs Potential for CCHPotentialWithPathUnpacking::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw sub LinkIterable::<(NodeIdT, Weight, EdgeIdT)>::link_iter($g, $u) => vf_seq_links($g, $u)
//@rw sub self.num_pot_computations += $e; => self.num_pot_computations = vf_add(self.num_pot_computations, $e);
//@rw sub self.potentials[$e] = $v; ===> *self.potentials.index_mut($e) = $v;
//@rw sub self.potentials[$e] ===> self.potentials.index($e)
//@rw sub self.backward_distances[$e] ===> *self.backward_distances.index($e)
//@rw for
//@rw whilelet
//@at start
    let ghost (f, b, et) = (self.f(), self.b(), self.et());
    let ghost me = *self;
//@loop 0
    invariant_except_break
        self.stack@.len() == 0 ==> cur_node == node,
        self.stack@.len() > 0 ==> et[self.stack@.last() as int]@ == Some(cur_node),
    invariant
        self.same(&me), self.backward_parents@.len() == f.len(), f == self.f(), b == self.b(), et == self.et(), up_ok(f, et), up_ok(b, et), self.backward_distances == me.backward_distances, self.potentials == me.potentials, self.potentials.wf(), known_ok(f, b, et, t, self.potentials@), eq_ok::<u32>(),
        node < et.len(), cur_node < et.len(), f.len() == et.len(),
        self.stack@.len() > 0 ==> self.stack@[0] == node,
        forall|i: int| 0 <= i < self.stack@.len() ==> (#[trigger] self.stack@[i]) < et.len(),
        forall|i: int| 0 <= i < self.stack@.len() - 1 ==> et[(#[trigger] self.stack@[i]) as int]@ == Some(self.stack@[i + 1]),
    ensures chain(et, self.stack@, node, self.potentials@)
    decreases et.len() - cur_node
//@loop 1
    invariant
        self.same(&me), self.backward_parents@.len() == f.len(), f == self.f(), b == self.b(), et == self.et(), up_ok(f, et), up_ok(b, et), self.backward_distances == me.backward_distances, self.backward_distances.wf(), up_exact(b, t, self.backward_distances@), 0 <= t < b.len(), self.potentials.wf(), known_ok(f, b, et, t, self.potentials@), eq_ok::<u32>(),
        node < et.len(), f.len() == et.len(), chain(et, self.stack@, node, self.potentials@),
    ensures self.stack@.len() == 0
    decreases self.stack@.len()
//@at loop_begin 1
    let ghost p0 = self.potentials@;
    let ghost st0 = self.stack@;
//@at before 0 let mut dist
    let ghost db = self.backward_distances@;
    let ghost r = at(p0);
    proof { lemma_heads_known(f, b, et, t, p0, node); lemma_swept_start(f, b, t, node as int, db, r); assert(self.forward_cch_graph.lists().len() == f.len() && self.backward_parents@.len() == f.len()); }
//@loop 2
    invariant
        vf_i2 <= vf_it2@.len(), node < et.len(), vf_it2@ == f[node as int], self.backward_parents@.len() == f.len(), f == self.f(), up_ok(f, et), self.potentials.wf(), self.potentials@ == p0, r == at(p0), p0.len() == f.len(), eq_ok::<u32>(), db == self.backward_distances@, db.len() == f.len(), db[node as int] <= INFINITY, f.len() == et.len(),
        forall|j: int| 0 <= j < f[node as int].len() ==> (#[trigger] f[node as int][j]).0.0 < p0.len() && p0[f[node as int][j].0.0 as int]@ is Some && pot_ok(f, b, f[node as int][j].0.0 as int, t, p0[f[node as int][j].0.0 as int]@->0),
        swept(f, b, t, node as int, vf_i2 as int, db[node as int], dist, r),
    decreases vf_it2@.len() - vf_i2
//@at loop_begin 2
    let ghost d0 = dist;
    proof { let j = vf_i2 as int; assert(f[node as int][j].1 <= INFINITY); assert(f[node as int][j].0.0 < f.len()); }
//@at loop_end 2
    proof { let j = vf_i2 - 1; let h = f[node as int][j].0.0 as int; lemma_swept_step(f, b, et, t, node as int, j, db[node as int], d0, r, p0[h]@->0, dist); }
//@at past_loop 2
    proof { lemma_swept_done(f, b, et, t, node as int, db, dist, r); }
//@at loop_end 1
    proof {
        let p1 = self.potentials@;
        assert(p1[st0.last() as int]@ is Some);
        assert forall|v: int| 0 <= v < p0.len() && p0[v]@ is Some implies (#[trigger] p1[v])@ is Some by { }
    }
//@endfn
}
/// ... and towards that target means the shortest distance of the graph on a customized hierarchy: exactly the distance, nothing exactly when unreachable
proof fn prop_potential<'a, L, GF: VfLinks<Link>, GB: VfLinks<(NodeIdT, Weight, EdgeIdT)>>(p: CCHPotential<'a, GF, GB>, g: Ag<L>, t: int, v: int, r: Option<u32>)
    requires customized(g, p.cch.node_order, p.et(), p.f(), p.b()), 0 <= t < g.len(), 0 <= v < g.len(), p.says(t, v, r)
    ensures is_dist(g, v, 0, t, match r { None => CAP, Some(d) => d as int })
{ prop_exact(g, p.cch.node_order, p.et(), p.f(), p.b(), v, t, r); }
} // verus!
fn main() {}
