//@include prelude.inc
//@include arcs.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include etree.inc
//@include_contracts ewalk.inc elimination_walk
//@include walk.inc
//@include cch_thm.inc

struct VfCch { node_order: NodeOrder, elimination_tree: Vec<InRangeOption<u32>> }
impl VfCch {
    fn node_order(&self) -> (r: &NodeOrder) ensures *r == self.node_order { &self.node_order }
    fn elimination_tree(&self) -> (r: &[InRangeOption<u32>]) ensures r@ == self.elimination_tree@ { self.elimination_tree.as_slice() }
}
/// Customized: two upward graphs over one elimination tree
trait VfCustomized { type G: VfLinks<(NodeIdT, Weight, EdgeIdT)>;
    spec fn fl(&self) -> Ls; spec fn bl(&self) -> Ls; spec fn c(&self) -> VfCch;
    fn forward_graph(&self) -> (r: Self::G) ensures r.lists() == self.fl();
    fn backward_graph(&self) -> (r: Self::G) ensures r.lists() == self.bl();
    fn cch(&self) -> (r: &VfCch) ensures *r == self.c(); }
spec fn cust_ok<C: VfCustomized>(c: C) -> bool { c.c().node_order.wf() && c.c().node_order.n() == c.fl().len() && up_ok(c.fl(), c.c().elimination_tree@) && up_ok(c.bl(), c.c().elimination_tree@) && fits2(c.fl()) }
spec fn fits2(ls: Ls) -> bool { offset(ls, ls.len() as int) < u32::MAX }
spec fn clear(d: Seq<u32>, n: nat) -> bool { d.len() == n && forall|v: int| 0 <= v < d.len() ==> #[trigger] d[v] == INFINITY }

/// the state of the query between two steps
spec fn q_inv(f: Ls, b: Ls, et: Et, s: u32, t: u32, df: Seq<u32>, db: Seq<u32>, fnx: Option<u32>, bnx: Option<u32>, best: u32, m: u32) -> bool {
    &&& walk_inv(f, et, s, df, fnx, best as int) && walk_inv(b, et, t, db, bnx, best as int) && best <= INFINITY
    &&& forall|v: u32| anc(et, s, v) && anc(et, t, v) ==> #[trigger] pend(et, fnx, v) == pend(et, bnx, v)
    &&& forall|v: u32, x: int, y: int| !pend(et, fnx, v) && #[trigger] meets(f, b, s as int, t as int, v as int, x, y) ==> best <= x + y
    &&& best < INFINITY ==> exists|x: int, y: int| #[trigger] meets(f, b, s as int, t as int, m as int, x, y) && x + y == best
}
proof fn lemma_pend_next(et: Et, x: u32, v: u32) requires parents_ok(et), x < et.len() ensures pend(et, Some(x), v) <==> v == x || pend(et, et[x as int]@, v) { }
proof fn lemma_start_q(f: Ls, b: Ls, et: Et, s: u32, t: u32, df: Seq<u32>, db: Seq<u32>)
    requires walk_inv(f, et, s, df, Some(s), INFINITY as int), walk_inv(b, et, t, db, Some(t), INFINITY as int)
    ensures q_inv(f, b, et, s, t, df, db, Some(s), Some(t), INFINITY, 0)
{ assert forall|v: u32, x: int, y: int| !pend(et, Some(s), v) && #[trigger] meets(f, b, s as int, t as int, v as int, x, y) implies INFINITY <= x + y by { lemma_uw_anc(f, et, s, v, x); } }
/// a node only the forward walk passes
proof fn lemma_fw(f: Ls, b: Ls, et: Et, s: u32, t: u32, d0: Seq<u32>, db: Seq<u32>, x: u32, bnx: Option<u32>, best: u32, m: u32, d1: Seq<u32>, d2: Seq<u32>)
    requires q_inv(f, b, et, s, t, d0, db, Some(x), bnx, best, m), d2 == d1.update(x as int, INFINITY), relaxed(f, x as int, f[x as int].len() as int, d0, d1), bnx matches Some(y) ==> x < y
    ensures q_inv(f, b, et, s, t, d2, db, et[x as int]@, bnx, best, m)
{
    let nxt = et[x as int]@;
    lemma_pass(f, et, s, d0, x, best as int, d1, d2, best as int);
    assert(!pend(et, bnx, x)) by { if let Some(y) = bnx { if anc(et, y, x) { lemma_anc_le(et, y, x); } } }
    assert(anc(et, x, x));
    assert(pend(et, Some(x), x));
    assert(anc(et, s, x));
    assert(!anc(et, t, x));
    assert forall|v: u32| anc(et, s, v) && anc(et, t, v) implies #[trigger] pend(et, nxt, v) == pend(et, bnx, v) by { lemma_pend_next(et, x, v); assert(pend(et, Some(x), v) == pend(et, bnx, v)); if nxt is Some && pend(et, nxt, v) { lemma_anc_le(et, nxt->0, v); } }
    assert forall|v: u32, p: int, q: int| !pend(et, nxt, v) && #[trigger] meets(f, b, s as int, t as int, v as int, p, q) implies best <= p + q by {
        lemma_uw_anc(f, et, s, v, p); lemma_uw_anc(b, et, t, v, q); lemma_pend_next(et, x, v);
    }
}
proof fn lemma_swap(f: Ls, b: Ls, et: Et, s: u32, t: u32, df: Seq<u32>, db: Seq<u32>, fnx: Option<u32>, bnx: Option<u32>, best: u32, m: u32)
    requires q_inv(f, b, et, s, t, df, db, fnx, bnx, best, m)
    ensures q_inv(b, f, et, t, s, db, df, bnx, fnx, best, m)
{
    assert forall|v: u32| anc(et, s, v) && anc(et, t, v) implies #[trigger] pend(et, bnx, v) == pend(et, fnx, v) by { assert(pend(et, fnx, v) == pend(et, bnx, v)); }
    assert forall|v: u32, x: int, y: int| !pend(et, bnx, v) && #[trigger] meets(b, f, t as int, s as int, v as int, x, y) implies best <= x + y by {
        lemma_uw_anc(f, et, s, v, y); lemma_uw_anc(b, et, t, v, x); assert(pend(et, fnx, v) == pend(et, bnx, v)); assert(meets(f, b, s as int, t as int, v as int, y, x)); }
    if best < INFINITY { let (x, y) = choose|x: int, y: int| #[trigger] meets(f, b, s as int, t as int, m as int, x, y) && x + y == best; assert(meets(b, f, t as int, s as int, m as int, y, x)); }
}
/// a node both walks pass
proof fn lemma_both(f: Ls, b: Ls, et: Et, s: u32, t: u32, f0: Seq<u32>, b0: Seq<u32>, x: u32, best: u32, m: u32, f1: Seq<u32>, b1: Seq<u32>, best1: u32, m1: u32)
    requires q_inv(f, b, et, s, t, f0, b0, Some(x), Some(x), best, m),
        relaxed(f, x as int, f[x as int].len() as int, f0, f1) || f1 == f0 && f0[x as int] >= best1,
        relaxed(b, x as int, b[x as int].len() as int, b0, b1) || b1 == b0 && b0[x as int] >= best1,
        f0[x as int] + b0[x as int] < best ==> best1 == f0[x as int] + b0[x as int] && m1 == x,
        f0[x as int] + b0[x as int] >= best ==> best1 == best && m1 == m,
    ensures q_inv(f, b, et, s, t, f1.update(x as int, INFINITY), b1.update(x as int, INFINITY), et[x as int]@, et[x as int]@, best1, m1)
{
    let nxt = et[x as int]@;
    lemma_pass(f, et, s, f0, x, best as int, f1, f1.update(x as int, INFINITY), best1 as int);
    lemma_pass(b, et, t, b0, x, best as int, b1, b1.update(x as int, INFINITY), best1 as int);
    let (df, db) = (f0[x as int], b0[x as int]);
    assert forall|v: u32, p: int, q: int| !pend(et, nxt, v) && #[trigger] meets(f, b, s as int, t as int, v as int, p, q) implies best1 <= p + q by {
        lemma_pend_next(et, x, v); lemma_uw_anc(f, et, s, v, p); lemma_uw_anc(b, et, t, v, q);
        if v == x { lemma_exact(f, et, s, f0, x, best as int, p); lemma_exact(b, et, t, b0, x, best as int, q); }
    }
    if best1 < INFINITY && best1 != best { assert(meets(f, b, s as int, t as int, x as int, df as int, db as int)); }
}
//@item engine/src/algo/customizable_contraction_hierarchy/query.rs struct Server
impl<C: VfCustomized> Server<C> {
    spec fn wf(&self) -> bool { cust_ok(self.customized) && clear(self.fw_distances@, self.customized.fl().len()) && clear(self.bw_distances@, self.customized.fl().len())
        && self.fw_parents@.len() == self.customized.fl().len() && self.bw_parents@.len() == self.customized.fl().len() }
//@fn engine/src/algo/customizable_contraction_hierarchy/query.rs Server::new
//@spec
    requires cust_ok(customized)
    ensures r.wf(), r.customized == customized
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query.rs Server::update
//@rw sub std::mem::swap(&mut self.customized, &mut customized) => { self.customized = customized }
//@spec
    requires old(self).wf(), cust_ok(customized), customized.fl().len() == old(self).customized.fl().len()
    ensures final(self).wf(), final(self).customized == customized
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/query.rs Server::distance
//@rw sub self.walked_nodes += 1; => self.walked_nodes = vf_add(self.walked_nodes, 1);
//@rw sub $a:id.num_relaxed_edges() + $b:id.num_relaxed_edges() => vf_add($a.num_relaxed_edges(), $b.num_relaxed_edges())
//@rw sub match tentative_distance { INFINITY => None, $d:id => Some($e:id), } ===> if tentative_distance == INFINITY { None } else { Some(tentative_distance) }
//@spec
    requires old(self).wf(), from < old(self).customized.fl().len(), to < old(self).customized.fl().len()
    ensures final(self).wf(), final(self).customized == old(self).customized,
        answers(final(self).customized.fl(), final(self).customized.bl(), final(self).customized.c().node_order.ranks@[from as int], final(self).customized.c().node_order.ranks@[to as int], r)
//@at before let mut tentative_distance
    let ghost c = self.customized;
    let ghost et = c.c().elimination_tree@;
    let ghost fl = c.fl();
    let ghost bl = c.bl();
//@at before loop {
    proof { assert(walk_inv(fl, et, from, fw_walk.d(), Some(from), INFINITY as int)); assert(walk_inv(bl, et, to, bw_walk.d(), Some(to), INFINITY as int)); lemma_start_q(fl, bl, et, from, to, fw_walk.d(), bw_walk.d()); }
    let ghost fw0 = fw_walk;
    let ghost bw0 = bw_walk;
//@loop 0
    invariant fw_walk.keeps(), bw_walk.keeps(), *final(fw_walk.distances) == *final(fw0.distances), *final(bw_walk.distances) == *final(bw0.distances), *final(fw_walk.predecessors) == *final(fw0.predecessors), *final(bw_walk.predecessors) == *final(bw0.predecessors),
        fw_walk.wf(), bw_walk.wf(), fw_walk.ls() == fl, bw_walk.ls() == bl, fw_walk.et() == et, bw_walk.et() == et, self.customized == c,
        q_inv(fl, bl, et, from, to, fw_walk.d(), bw_walk.d(), fw_walk.next, bw_walk.next, tentative_distance, self.meeting_node),
    ensures fw_walk.next is None, bw_walk.next is None
    decreases (if fw_walk.next is Some { fl.len() - fw_walk.next->0 } else { 0int }) + (if bw_walk.next is Some { fl.len() - bw_walk.next->0 } else { 0int })
//@at loop_start 0
    let ghost f0 = fw_walk.d();
    let ghost b0 = bw_walk.d();
    let ghost x = fw_walk.next;
    let ghost y = bw_walk.next;
    let ghost best = tentative_distance;
    let ghost m0 = self.meeting_node;
    let ghost mut f1 = f0;
    let ghost mut b1 = b0;
    proof { if x == y && x is Some { assert(f0[x->0 as int] <= INFINITY); assert(b0[x->0 as int] <= INFINITY); } }
//@at after 0 fw_walk.next();
    proof { f1 = fw_walk.d(); }
//@at after 1 fw_walk.next();
    proof { f1 = fw_walk.d(); }
//@at after 2 fw_walk.next();
    proof { f1 = fw_walk.d(); }
//@at after 0 bw_walk.next();
    proof { b1 = bw_walk.d(); }
//@at after 1 bw_walk.next();
    proof { b1 = bw_walk.d(); }
//@at after 2 bw_walk.next();
    proof { b1 = bw_walk.d(); }
//@at loop_end 0
    proof {
        if x is Some && (y is None || x->0 < y->0) {
            lemma_fw(fl, bl, et, from, to, f0, b0, x->0, y, best, m0, f1, fw_walk.d());
        } else if y is Some && (x is None || y->0 < x->0) {
            lemma_swap(fl, bl, et, from, to, f0, b0, x, y, best, m0);
            lemma_fw(bl, fl, et, to, from, b0, f0, y->0, x, best, m0, b1, bw_walk.d());
            lemma_swap(bl, fl, et, to, from, bw_walk.d(), f0, et[y->0 as int]@, x, best, m0);
        } else {
            lemma_both(fl, bl, et, from, to, f0, b0, x->0, best, m0, f1, b1, tentative_distance, self.meeting_node);
        }
    }
//@at after_loop 0
    proof {
        assert(clear(fw_walk.d(), fl.len())); assert(clear(bw_walk.d(), fl.len()));
        assert forall|v: u32, x: int, y: int| #[trigger] meets(fl, bl, from as int, to as int, v as int, x, y) implies x + y >= tentative_distance by { assert(!pend(et, None, v)); }
        if tentative_distance < INFINITY { assert(exists|x: int, y: int| #[trigger] meets(fl, bl, from as int, to as int, self.meeting_node as int, x, y) && x + y == tentative_distance); }
    }
//@endfn
}
} // verus!
fn main() {}
