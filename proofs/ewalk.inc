type Ls = Seq<Seq<(NodeIdT, Weight, EdgeIdT)>>;
type Et = Seq<InRangeOption<u32>>;
/// upward graph whose heads are ancestors in the elimination tree, weights up to infinity
spec fn up_ok(ls: Ls, et: Et) -> bool {
    &&& parents_ok(et) && ls.len() == et.len()
    &&& forall|u: int, i: int| 0 <= u < ls.len() && 0 <= i < ls[u].len() ==> u < (#[trigger] ls[u][i]).0.0 < ls.len() && anc(et, u as u32, ls[u][i].0.0) && ls[u][i].1 <= INFINITY
}
/// there is an upward walk of length d from s to v
spec fn uw(ls: Ls, s: int, v: int, d: int) -> bool decreases v
{ v == s && d == 0 || exists|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && uw(ls, s, u, d - ls[u][i].1) }
proof fn lemma_uw_anc(ls: Ls, et: Et, s: u32, v: u32, d: int)
    requires up_ok(ls, et), s < ls.len(), uw(ls, s as int, v as int, d)
    ensures anc(et, s, v), v < ls.len(), d >= 0
    decreases v
{
    if !(v == s && d == 0) {
        let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && uw(ls, s as int, u, d - ls[u][i].1);
        lemma_uw_anc(ls, et, s, u as u32, d - ls[u][i].1);
        lemma_anc_trans(et, s, u as u32, v);
    }
}
/// v is still ahead of a walk that goes to nxt next
spec fn pend(et: Et, nxt: Option<u32>, v: u32) -> bool { nxt matches Some(x) && anc(et, x, v) }
/// a walk to v whose last arc leaves a node that was passed already (or the trivial one)
spec fn passed(ls: Ls, et: Et, nxt: Option<u32>, s: u32, v: u32, d: int) -> bool
{ v == s && d == 0 || exists|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && !pend(et, nxt, u as u32) && uw(ls, s as int, u, d - ls[u][i].1) }
/// labels are lengths of walks, finite only ahead, and minimal with respect to the nodes passed (up to lengths of t and more)
spec fn walk_inv(ls: Ls, et: Et, s: u32, dist: Seq<u32>, nxt: Option<u32>, t: int) -> bool {
    &&& up_ok(ls, et) && s < ls.len() && dist.len() == ls.len()
    &&& nxt matches Some(x) ==> anc(et, s, x) && x < ls.len()
    &&& forall|v: int| 0 <= v < dist.len() ==> (#[trigger] dist[v]) <= INFINITY && (dist[v] < INFINITY ==> uw(ls, s as int, v, dist[v] as int) && pend(et, nxt, v as u32))
    &&& forall|v: u32, d: int| pend(et, nxt, v) && #[trigger] passed(ls, et, nxt, s, v, d) ==> dist[v as int] <= d || d >= t
}
/// the label of the next node is exact
proof fn lemma_exact(ls: Ls, et: Et, s: u32, dist: Seq<u32>, x: u32, t: int, d: int)
    requires walk_inv(ls, et, s, dist, Some(x), t), uw(ls, s as int, x as int, d)
    ensures dist[x as int] <= d || d >= t
{
    if !(x == s && d == 0) {
        let (u, i) = choose|u: int, i: int| 0 <= u < x && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == x && uw(ls, s as int, u, d - ls[u][i].1);
        if pend(et, Some(x), u as u32) { lemma_anc_le(et, x, u as u32); }
    }
    assert(passed(ls, et, Some(x), s, x, d));
}
/// what relaxing the upward links of x does to the labels and the predecessors
spec fn relaxed(ls: Ls, x: int, k: int, d0: Seq<u32>, d1: Seq<u32>) -> bool {
    &&& d0.len() == d1.len() && d1[x] == d0[x]
    &&& forall|v: int| 0 <= v < d0.len() ==> (#[trigger] d1[v]) <= d0[v]
    &&& forall|v: int| 0 <= v < d0.len() && (#[trigger] d1[v]) != d0[v] ==> exists|i: int| 0 <= i < k && (#[trigger] ls[x][i]).0.0 == v && d1[v] == d0[x] + ls[x][i].1
    &&& forall|i: int| 0 <= i < k ==> d1[(#[trigger] ls[x][i]).0.0 as int] <= d0[x] + ls[x][i].1
}
spec fn linked(ls: Ls, x: int, k: int, v: int, d: int, p: (u32, u32)) -> bool { exists|i: int| 0 <= i < k && (#[trigger] ls[x][i]).0.0 == v && ls[x][i].1 == d && p == (x as u32, ls[x][i].2.0) }
/// passing x, with its links relaxed or - if no shorter walk is of interest - without
proof fn lemma_pass(ls: Ls, et: Et, s: u32, d0: Seq<u32>, x: u32, t: int, d1: Seq<u32>, d2: Seq<u32>, t1: int)
    requires walk_inv(ls, et, s, d0, Some(x), t), t1 <= t, d2 == d1.update(x as int, INFINITY), relaxed(ls, x as int, ls[x as int].len() as int, d0, d1) || d1 == d0 && d0[x as int] >= t1
    ensures walk_inv(ls, et, s, d2, et[x as int]@, t1)
{
    let nxt = et[x as int]@;
    if let Some(p) = nxt { lemma_anc_le(et, s, x); assert(x < et.len() && x < p < et.len()); assert(anc(et, p, p)); assert(anc(et, x, p)); lemma_anc_trans(et, s, x, p); }
    assert forall|v: int| 0 <= v < d2.len() implies (#[trigger] d2[v]) <= INFINITY && (d2[v] < INFINITY ==> uw(ls, s as int, v, d2[v] as int) && pend(et, nxt, v as u32)) by {
        assert(d0[v] <= INFINITY);
        if v != x && d2[v] < INFINITY {
            if d1[v] != d0[v] {
                let i = choose|i: int| 0 <= i < ls[x as int].len() && (#[trigger] ls[x as int][i]).0.0 == v && d1[v] == d0[x as int] + ls[x as int][i].1;
                assert(d0[x as int] < INFINITY);
                assert(uw(ls, s as int, x as int, d0[x as int] as int));
                assert(d1[v] - ls[x as int][i].1 == d0[x as int]);
                assert(uw(ls, s as int, v, d1[v] as int));
                assert(anc(et, x, v as u32));
            }
        }
    }
    assert forall|v: u32, d: int| pend(et, nxt, v) && #[trigger] passed(ls, et, nxt, s, v, d) implies d2[v as int] <= d || d >= t1 by {
        let p = nxt->0;
        lemma_anc_le(et, p, v);
        lemma_anc_le(et, s, x);
        assert(pend(et, Some(x), v)) by { assert(anc(et, x, p)); lemma_anc_trans(et, x, p, v); }
        if !(v == s && d == 0) {
            let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && !pend(et, nxt, u as u32) && uw(ls, s as int, u, d - ls[u][i].1);
            if u == x { lemma_exact(ls, et, s, d0, x, t, d - ls[u][i].1); }
            else {
                assert(!pend(et, Some(x), u as u32)) by { if anc(et, x, u as u32) { assert(anc(et, p, u as u32)); } }
                assert(passed(ls, et, Some(x), s, v, d));
                assert(d0[v as int] <= d || d >= t);
            }
        }
    }
}
/// the start: only s has a label
proof fn lemma_start(ls: Ls, et: Et, s: u32, dist: Seq<u32>, t: int)
    requires up_ok(ls, et), s < ls.len(), dist.len() == ls.len(), dist[s as int] == 0, forall|v: int| 0 <= v < dist.len() && v != s ==> #[trigger] dist[v] == INFINITY
    ensures walk_inv(ls, et, s, dist, Some(s), t)
{
    assert forall|v: u32, d: int| pend(et, Some(s), v) && #[trigger] passed(ls, et, Some(s), s, v, d) implies dist[v as int] <= d || d >= t by {
        if !(v == s && d == 0) {
            let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && !pend(et, Some(s), u as u32) && uw(ls, s as int, u, d - ls[u][i].1);
            lemma_uw_anc(ls, et, s, u as u32, d - ls[u][i].1);
        }
    }
    assert(anc(et, s, s));
}

/// IndexMut<usize, Output = Weight>
trait VfCont { spec fn seq(&self) -> Seq<u32>;
    fn at(&self, i: usize) -> (r: u32) requires i < self.seq().len() ensures r == self.seq()[i as int];
    fn put(&mut self, i: usize, x: u32) requires i < old(self).seq().len() ensures final(self).seq() == old(self).seq().update(i as int, x); }
impl VfCont for Vec<Weight> { spec fn seq(&self) -> Seq<u32> { self@ }
    fn at(&self, i: usize) -> (r: u32) { self[i] }
    fn put(&mut self, i: usize, x: u32) { self[i] = x; } }
trait StoreParentInfo { spec fn room(&self) -> nat; spec fn keeps(&self) -> bool; spec fn pred(&self, v: int) -> (u32, u32);
    fn store(&mut self, node_idx: usize, parent_node: NodeId, parent_edge: EdgeId)
        requires old(self).keeps() ==> node_idx < old(self).room()
        ensures final(self).room() == old(self).room(), final(self).keeps() == old(self).keeps(),
            old(self).keeps() ==> forall|v: int| 0 <= v < old(self).room() ==> #[trigger] final(self).pred(v) == if v == node_idx { (parent_node, parent_edge) } else { old(self).pred(v) };
}
//@item engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs struct ForgetParentInfo
impl StoreParentInfo for ForgetParentInfo { spec fn room(&self) -> nat { 0 } spec fn keeps(&self) -> bool { false } spec fn pred(&self, v: int) -> (u32, u32) { (0, 0) }
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs StoreParentInfo for ForgetParentInfo::store
//@endfn
}
impl StoreParentInfo for Vec<(NodeId, EdgeId)> { spec fn room(&self) -> nat { self@.len() } spec fn keeps(&self) -> bool { true } spec fn pred(&self, v: int) -> (u32, u32) { self@[v] }
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs StoreParentInfo for T::store
//@endfn
}
//@item engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs struct EliminationTreeWalk
#[verifier::external_body]
fn vf_add(a: usize, b: usize) -> usize { a + b }

impl<'a, Graph: VfLinks<(NodeIdT, Weight, EdgeIdT)>, DistCont: VfCont, ParentCont: StoreParentInfo> EliminationTreeWalk<'a, Graph, DistCont, ParentCont> {
    spec fn ls(&self) -> Ls { self.graph.lists() }
    spec fn et(&self) -> Et { self.elimination_tree@ }
    spec fn d(&self) -> Seq<u32> { self.distances.seq() }
    spec fn room(&self) -> nat { self.predecessors.room() }
    spec fn keeps(&self) -> bool { self.predecessors.keeps() }
    spec fn pr(&self, v: int) -> (u32, u32) { self.predecessors.pred(v) }
    spec fn wf(&self) -> bool { up_ok(self.ls(), self.et()) && self.d().len() == self.ls().len() && (self.keeps() ==> self.room() == self.ls().len()) && (self.next matches Some(x) ==> x < self.ls().len()) }
    spec fn same_ctx(&self, o: &Self) -> bool { self.graph == o.graph && self.elimination_tree == o.elimination_tree && self.keeps() == o.keeps() && self.room() == o.room() }

//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::query_with_resetted
//@rw sub if cfg!(debug_assertions) { $b } => { $b }
//@rw sub distances[$e] = $v; => distances.put($e, $v);
//@rw sub distances[$e] => distances.at($e)
//@spec
    requires up_ok(graph.lists(), elimination_tree@), from < graph.lists().len(), old(distances).seq().len() == graph.lists().len(), old(predecessors).keeps() ==> old(predecessors).room() == graph.lists().len(),
        forall|v: int| 0 <= v < old(distances).seq().len() ==> #[trigger] old(distances).seq()[v] == INFINITY,
    ensures r.wf(), r.graph == graph, r.elimination_tree == elimination_tree, r.next == Some(from), r.d() == old(distances).seq().update(from as int, 0),
        *final(distances) == *final(r.distances), *final(predecessors) == *final(r.predecessors), r.keeps() == old(predecessors).keeps(), r.room() == old(predecessors).room(),
        forall|t: int| #[trigger] walk_inv(graph.lists(), elimination_tree@, from, r.d(), Some(from), t)
//@at start
    let ghost d0 = distances.seq();
//@loop 0
    invariant up_ok(graph.lists(), elimination_tree@), distances.seq() == d0, d0.len() == graph.lists().len(), cur_node matches Some(x) ==> x < d0.len(), forall|v: int| 0 <= v < d0.len() ==> #[trigger] d0[v] == INFINITY
    decreases (if cur_node is Some { d0.len() - cur_node->0 } else { 0int })
//@at end
    proof {
        assert forall|t: int| #[trigger] walk_inv(graph.lists(), elimination_tree@, from, distances.seq(), Some(from), t) by { lemma_start(graph.lists(), elimination_tree@, from, distances.seq(), t); }
    }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::settle_next_node
//@rw sub LinkIterable::<(NodeIdT, Weight, EdgeIdT)>::link_iter($g, $u) => vf_seq_links($g, $u)
//@rw for
//@rw sub self.distances[$e] = $v; => self.distances.put($e, $v);
//@rw sub self.distances[$e] => self.distances.at($e)
//@rw sub self.relaxed_edges += $e; => self.relaxed_edges = vf_add(self.relaxed_edges, $e);
//@spec
    requires old(self).wf(), forall|v: int| 0 <= v < old(self).d().len() ==> #[trigger] old(self).d()[v] <= INFINITY
    ensures final(self).wf(), final(self).same_ctx(old(self)), *final(final(self).distances) == *final(old(self).distances), *final(final(self).predecessors) == *final(old(self).predecessors), r == old(self).next,
        old(self).next is None ==> final(self).next is None && final(self).d() == old(self).d() && forall|v: int| final(self).pr(v) == #[trigger] old(self).pr(v),
        old(self).next matches Some(x) ==> final(self).next == old(self).et()[x as int]@ && relaxed(old(self).ls(), x as int, old(self).ls()[x as int].len() as int, old(self).d(), final(self).d())
            && (old(self).keeps() ==> forall|v: int| 0 <= v < old(self).d().len() ==> (#[trigger] final(self).pr(v)) == old(self).pr(v) && final(self).d()[v] == old(self).d()[v] || linked(old(self).ls(), x as int, old(self).ls()[x as int].len() as int, v, final(self).d()[v] - old(self).d()[x as int], final(self).pr(v)))
//@at start
    let ghost s0 = *self;
    let ghost d0 = self.d();
    let ghost ls = self.ls();
//@loop 0
    invariant self.wf(), self.same_ctx(&s0), self.ls() == ls, self.next == s0.et()[node as int]@, vf_it0@ == ls[node as int], vf_i0 <= vf_it0@.len(), node < ls.len(), d0 == s0.d(), distance == d0[node as int], s0.next == Some(node), ls == s0.ls(),
        *final(self.distances) == *final(s0.distances), *final(self.predecessors) == *final(s0.predecessors),
        forall|v: int| 0 <= v < d0.len() ==> #[trigger] d0[v] <= INFINITY,
        relaxed(ls, node as int, vf_i0 as int, d0, self.d()),
        s0.keeps() ==> forall|v: int| 0 <= v < d0.len() ==> (#[trigger] self.pr(v)) == s0.pr(v) && self.d()[v] == d0[v] || linked(ls, node as int, vf_i0 as int, v, self.d()[v] - d0[node as int], self.pr(v)),
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    let ghost d1 = self.d();
    let ghost s1 = *self;
    proof { assert(ls[node as int][vf_i0 - 1].1 <= INFINITY); }
//@at loop_end 0
    proof {
        let i = vf_i0 - 1; let d2 = self.d(); let l = ls[node as int][i];
        assert(l.0.0 > node);
        assert forall|v: int| 0 <= v < d0.len() && (#[trigger] d2[v]) != d0[v] implies exists|i: int| 0 <= i < vf_i0 && (#[trigger] ls[node as int][i]).0.0 == v && d2[v] == d0[node as int] + ls[node as int][i].1 by {
            if d2[v] == d1[v] { let k = choose|k: int| 0 <= k < vf_i0 - 1 && (#[trigger] ls[node as int][k]).0.0 == v && d1[v] == d0[node as int] + ls[node as int][k].1; assert(ls[node as int][k].0.0 == v); }
            else { assert(ls[node as int][i].0.0 == v); }
        }
        assert forall|k: int| 0 <= k < vf_i0 implies d2[(#[trigger] ls[node as int][k]).0.0 as int] <= d0[node as int] + ls[node as int][k].1 by { if k < i { assert(d1[ls[node as int][k].0.0 as int] <= d0[node as int] + ls[node as int][k].1); assert(d2[ls[node as int][k].0.0 as int] <= d1[ls[node as int][k].0.0 as int]); } }
        if s0.keeps() {
            assert forall|v: int| 0 <= v < d0.len() implies (#[trigger] self.pr(v)) == s0.pr(v) && self.d()[v] == d0[v] || linked(ls, node as int, vf_i0 as int, v, self.d()[v] - d0[node as int], self.pr(v)) by {
                assert(s1.pr(v) == s0.pr(v) && d1[v] == d0[v] || linked(ls, node as int, i, v, d1[v] - d0[node as int], s1.pr(v)));
                if v == l.0.0 && d2[v] != d1[v] { assert(ls[node as int][i].0.0 == v); assert(linked(ls, node as int, vf_i0 as int, v, l.1 as int, (node, l.2.0))); }
                else {
                    assert(self.pr(v) == s1.pr(v));
                    if linked(ls, node as int, i, v, d1[v] - d0[node as int], s1.pr(v)) { let k = choose|k: int| 0 <= k < i && (#[trigger] ls[node as int][k]).0.0 == v && ls[node as int][k].1 == d1[v] - d0[node as int] && s1.pr(v) == (node, ls[node as int][k].2.0); assert(ls[node as int][k].0.0 == v); }
                }
            }
        }
    }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::peek
//@spec
    ensures r == self.next
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::skip_next
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_ctx(old(self)), *final(final(self).distances) == *final(old(self).distances), *final(final(self).predecessors) == *final(old(self).predecessors), final(self).d() == old(self).d(), forall|v: int| final(self).pr(v) == #[trigger] old(self).pr(v),
        final(self).next == (if old(self).next is Some { old(self).et()[old(self).next->0 as int]@ } else { None })
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::tentative_distance
//@rw sub self.distances[$e] => self.distances.at($e)
//@spec
    requires node < self.d().len()
    ensures r == self.d()[node as int]
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::reset_distance
//@rw sub self.distances[$e] = $v; => self.distances.put($e, $v);
//@spec
    requires old(self).wf(), node < old(self).d().len()
    ensures final(self).wf(), final(self).same_ctx(old(self)), *final(final(self).distances) == *final(old(self).distances), *final(final(self).predecessors) == *final(old(self).predecessors), final(self).next == old(self).next, forall|v: int| final(self).pr(v) == #[trigger] old(self).pr(v), final(self).d() == old(self).d().update(node as int, INFINITY)
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs EliminationTreeWalk::num_relaxed_edges
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs Iterator for EliminationTreeWalk::next
//@sig fn next(&mut self) -> (r: Option<NodeId>)
//@spec
    requires old(self).wf(), forall|v: int| 0 <= v < old(self).d().len() ==> #[trigger] old(self).d()[v] <= INFINITY
    ensures final(self).wf(), final(self).same_ctx(old(self)), *final(final(self).distances) == *final(old(self).distances), *final(final(self).predecessors) == *final(old(self).predecessors), r == old(self).next,
        old(self).next is None ==> final(self).next is None && final(self).d() == old(self).d() && forall|v: int| final(self).pr(v) == #[trigger] old(self).pr(v),
        old(self).next matches Some(x) ==> final(self).next == old(self).et()[x as int]@ && relaxed(old(self).ls(), x as int, old(self).ls()[x as int].len() as int, old(self).d(), final(self).d())
            && (old(self).keeps() ==> forall|v: int| 0 <= v < old(self).d().len() ==> (#[trigger] final(self).pr(v)) == old(self).pr(v) && final(self).d()[v] == old(self).d()[v] || linked(old(self).ls(), x as int, old(self).ls()[x as int].len() as int, v, final(self).d()[v] - old(self).d()[x as int], final(self).pr(v)))
//@endfn
}
