//@include prelude.inc
//@include arcs.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
impl Clone for InRangeOption<u32> { fn clone(&self) -> (r: Self) ensures r == *self { InRangeOption(self.0) } }
impl Copy for InRangeOption<u32> {}
//@include etree.inc
//@include_contracts ewalk.inc elimination_walk
//@include walk.inc
//@include cch_thm.inc
//@include cch.inc
use core::ops::Range;
/// CCHT: the original arcs of every hierarchy arc (Vecs as a vector of vectors)
struct VfMaps { fw: Vec<Vec<EdgeIdT>>, bw: Vec<Vec<EdgeIdT>> }
impl VfMaps {
    fn forward_cch_edge_to_orig_arc(&self) -> (r: &Vec<Vec<EdgeIdT>>) ensures *r == self.fw { &self.fw }
    fn backward_cch_edge_to_orig_arc(&self) -> (r: &Vec<Vec<EdgeIdT>>) ensures *r == self.bw { &self.bw }
}
/// EdgeRandomAccessGraph<Link>
trait VfMetric { spec fn arcs(&self) -> Seq<Link>; fn link(&self, e: EdgeId) -> (r: Link) requires e < self.arcs().len() ensures r == self.arcs()[e as int]; }
spec fn maps_ok(m: Seq<Vec<EdgeIdT>>, arcs: Seq<Link>) -> bool { forall|e: int, i: int| 0 <= e < m.len() && 0 <= i < m[e]@.len() ==> (#[trigger] m[e]@[i]).0 < arcs.len() }
/// w is the smallest of w0 and the weights of the arcs
spec fn respects(l: Seq<EdgeIdT>, j: int, arcs: Seq<Link>, w0: u32, w: u32) -> bool {
    &&& w <= w0 && (w == w0 || exists|i: int| 0 <= i < j && w == arcs[(#[trigger] l[i]).0 as int].weight)
    &&& forall|i: int| 0 <= i < j ==> w <= arcs[(#[trigger] l[i]).0 as int].weight
}
spec fn respected(m: Seq<Vec<EdgeIdT>>, j: int, arcs: Seq<Link>, w0: Seq<u32>, w: Seq<u32>) -> bool {
    &&& w.len() == w0.len()
    &&& forall|e: int| 0 <= e < j ==> respects(m[e]@, m[e]@.len() as int, arcs, w0[e], #[trigger] w[e])
    &&& forall|e: int| j <= e < w.len() ==> #[trigger] w[e] == w0[e]
}
spec fn zeroed(m: Seq<Vec<EdgeIdT>>, j: int, w0: Seq<u32>, w: Seq<u32>) -> bool {
    w.len() == w0.len() && forall|e: int| 0 <= e < w.len() ==> #[trigger] w[e] == if e < j && m[e]@.len() > 0 { 0 } else { w0[e] }
}
//@fn engine/src/algo/customizable_contraction_hierarchy/customization.rs -::prepare_weights
//@sig fn prepare_weights<Graph: VfMetric>(cch: &VfMaps, upward_weights: &mut Vec<Weight>, downward_weights: &mut Vec<Weight>, metric: &Graph)
//@rw sub report_time_with_key($a, $b, || { $c }); ===> { $c }
//@rw sub #[cfg(not(feature = "cch-disable-par"))] let iter = $w:id.par_iter_mut().zip(cch.$m:id().par_iter()); #[cfg(feature = "cch-disable-par")] let iter = $v:id.iter_mut().zip(cch.$n:id().iter()); iter.for_each(|($x:id, $y:id)| { $b }); ===> let mut vf_e: usize = 0; while vf_e < $w.len() { let $x = &mut $w[vf_e]; let $y = &cch.$m()[vf_e]; vf_e += 1; $b }
//@rw sub for &EdgeIdT($x:id) in $y:id { $b } ===> let mut vf_i: usize = 0; while vf_i < $y.len() { let $x = $y[vf_i].0; vf_i += 1; $b }
//@spec
    requires cch.fw@.len() == old(upward_weights)@.len(), cch.bw@.len() == old(downward_weights)@.len(), maps_ok(cch.fw@, metric.arcs()), maps_ok(cch.bw@, metric.arcs()), old(upward_weights)@.len() < usize::MAX, old(downward_weights)@.len() < usize::MAX,
    ensures respected(cch.fw@, cch.fw@.len() as int, metric.arcs(), old(upward_weights)@, final(upward_weights)@), respected(cch.bw@, cch.bw@.len() as int, metric.arcs(), old(downward_weights)@, final(downward_weights)@)
//@at start
    let ghost (u0, d0) = (upward_weights@, downward_weights@);
//@loop 0
    invariant cch.fw@.len() == u0.len(), maps_ok(cch.fw@, metric.arcs()), vf_e <= upward_weights@.len(), respected(cch.fw@, vf_e as int, metric.arcs(), u0, upward_weights@)
    decreases upward_weights@.len() - vf_e
//@at before_loop 1
    let ghost w0 = *up_weight;
//@loop 1
    invariant 0 < vf_e <= cch.fw@.len(), *up_arcs == cch.fw@[vf_e - 1], maps_ok(cch.fw@, metric.arcs()), vf_i <= up_arcs@.len(), respects(up_arcs@, vf_i as int, metric.arcs(), w0, *up_weight)
    decreases up_arcs@.len() - vf_i
//@at loop_start 1
    proof { assert(cch.fw@[vf_e - 1]@[vf_i as int].0 < metric.arcs().len()); }
//@loop 2
    invariant cch.bw@.len() == d0.len(), maps_ok(cch.bw@, metric.arcs()), vf_e <= downward_weights@.len(), respected(cch.bw@, vf_e as int, metric.arcs(), d0, downward_weights@)
    decreases downward_weights@.len() - vf_e
//@at before_loop 3
    let ghost w0 = *down_weight;
//@loop 3
    invariant 0 < vf_e <= cch.bw@.len(), *down_arcs == cch.bw@[vf_e - 1], maps_ok(cch.bw@, metric.arcs()), vf_i <= down_arcs@.len(), respects(down_arcs@, vf_i as int, metric.arcs(), w0, *down_weight)
    decreases down_arcs@.len() - vf_i
//@at loop_start 3
    proof { assert(cch.bw@[vf_e - 1]@[vf_i as int].0 < metric.arcs().len()); }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/customization.rs -::prepare_zero_weights
//@sig fn prepare_zero_weights(cch: &VfMaps, upward_weights: &mut Vec<Weight>, downward_weights: &mut Vec<Weight>)
//@rw sub report_time_with_key($a, $b, || { $c }); ===> { $c }
//@rw sub #[cfg(not(feature = "cch-disable-par"))] let iter = $w:id.par_iter_mut().zip(cch.$m:id().par_iter()); #[cfg(feature = "cch-disable-par")] let iter = $v:id.iter_mut().zip(cch.$n:id().iter()); iter.for_each(|($x:id, $y:id)| { $b }); ===> let mut vf_e: usize = 0; while vf_e < $w.len() { let $x = &mut $w[vf_e]; let $y = &cch.$m()[vf_e]; vf_e += 1; $b }
//@rw sub $x:id.is_empty() ===> ($x.len() == 0)
//@spec
    requires cch.fw@.len() == old(upward_weights)@.len(), cch.bw@.len() == old(downward_weights)@.len(), old(upward_weights)@.len() < usize::MAX, old(downward_weights)@.len() < usize::MAX,
    ensures zeroed(cch.fw@, cch.fw@.len() as int, old(upward_weights)@, final(upward_weights)@), zeroed(cch.bw@, cch.bw@.len() as int, old(downward_weights)@, final(downward_weights)@)
//@at start
    let ghost (u0, d0) = (upward_weights@, downward_weights@);
//@loop 0
    invariant cch.fw@.len() == u0.len(), vf_e <= upward_weights@.len(), zeroed(cch.fw@, vf_e as int, u0, upward_weights@)
    decreases upward_weights@.len() - vf_e
//@loop 1
    invariant cch.bw@.len() == d0.len(), vf_e <= downward_weights@.len(), zeroed(cch.bw@, vf_e as int, d0, downward_weights@)
    decreases downward_weights@.len() - vf_e
//@endfn
type Opt = InRangeOption<EdgeId>;
type Wk = (Weight, InRangeOption<EdgeId>, InRangeOption<EdgeId>);
/// the triangle of v, its k-th lower neighbour and the head y of the arc e2 of that neighbour
spec fn tri(c: CCH, v: int, k: int, e2: int, y: int) -> bool { c.down(v, k) && c.up(c.low(k), e2) && c.hd(e2) == y }
/// positions before k0, and for k0 the arcs from j0 on
spec fn seen(k: int, e2: int, k0: int, j0: int) -> bool { k < k0 || k == k0 && e2 >= j0 }
/// w is the smallest of w0 and the seen triangles' sums p[e1] + q[e2], with the arcs it comes from
spec fn best(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, v: int, y: int, k0: int, j0: int, w0: u32, w: Wk, inc: bool) -> bool {
    &&& w.0 <= w0
    &&& forall|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && seen(k, e2, k0, j0) ==> w.0 <= p[c.le(k) - off] + q[e2 - off]
    &&& w.0 == w0 && w.1@ is None && w.2@ is None || exists|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && from_tri(c, off, p, q, k, e2, w, inc)
}
spec fn from_tri(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, k: int, e2: int, w: Wk, inc: bool) -> bool {
    w.0 == p[c.le(k) - off] + q[e2 - off] && (if inc { w.1@ == Some(e2 as u32) && w.2@ == Some(c.le(k) as u32) } else { w.1@ == Some(c.le(k) as u32) && w.2@ == Some(e2 as u32) })
}
spec fn capped(s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= INFINITY }
/// the arc e of v has its final weights
spec fn fixed(c: CCH, off: int, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>, v: int, e: int) -> bool {
    let y = c.hd(e); let i = e - off;
    &&& best(c, off, d, u, v, y, c.is(v + 1), c.m(), u0[i], (u[i], uu[i].0, uu[i].1), false)
    &&& best(c, off, u, d, v, y, c.is(v + 1), c.m(), d0[i], (d[i], du[i].0, du[i].1), true)
}
/// the slices hold all arcs of the nodes and of their lower neighbours
spec fn holds(c: CCH, lo: int, hi: int, off: int, len: int) -> bool {
    &&& 0 <= lo && hi <= c.n() && off >= 0
    &&& forall|v: int| lo <= v < hi ==> off <= #[trigger] c.fo(v) && c.fo(v + 1) <= off + len
    &&& forall|v: int, k: int| lo <= v < hi && #[trigger] c.down(v, k) ==> off <= c.fo(c.low(k))
}

/// the workspaces hold the best values of the arcs of v
spec fn ws(c: CCH, off: int, u: Seq<u32>, d: Seq<u32>, v: int, k0: int, j0: int, wo: Seq<Wk>, wi: Seq<Wk>) -> bool {
    &&& wo.len() == c.n() && wi.len() == c.n()
    &&& forall|e: int| #[trigger] c.up(v, e) ==> best(c, off, d, u, v, c.hd(e), k0, j0, u[e - off], wo[c.hd(e)], false) && best(c, off, u, d, v, c.hd(e), k0, j0, d[e - off], wi[c.hd(e)], true)
}
/// looking at one more arc of the lower node
proof fn lemma_look(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, v: int, y: int, k: int, g: int, w0: u32, w: Wk, w1: Wk, inc: bool)
    requires best(c, off, p, q, v, y, k, g + 1, w0, w, inc), c.down(v, k), c.up(c.low(k), g),
        c.hd(g) != y ==> w1 == w,
        c.hd(g) == y ==> if p[c.le(k) - off] + q[g - off] < w.0 { from_tri(c, off, p, q, k, g, w1, inc) } else { w1 == w }
    ensures best(c, off, p, q, v, y, k, g, w0, w1, inc)
{
    assert forall|k2: int, e2: int| #[trigger] tri(c, v, k2, e2, y) && seen(k2, e2, k, g) implies w1.0 <= p[c.le(k2) - off] + q[e2 - off] by { if !(k2 == k && e2 == g) { assert(seen(k2, e2, k, g + 1)); } }
    if c.hd(g) == y { assert(tri(c, v, k, g, y)); }
}
/// the remaining arcs of the lower node lead to v or lower
proof fn lemma_done(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, v: int, y: int, k: int, g: int, w0: u32, w: Wk, inc: bool)
    requires c.wf(), 0 <= v < c.n(), best(c, off, p, q, v, y, k, g, w0, w, inc), c.down(v, k), y > v, g == c.fo(c.low(k)) || c.up(c.low(k), g - 1) && c.hd(g - 1) <= v
    ensures best(c, off, p, q, v, y, k + 1, c.m(), w0, w, inc)
{
    assert forall|k2: int, e2: int| #[trigger] tri(c, v, k2, e2, y) && seen(k2, e2, k + 1, c.m()) implies w.0 <= p[c.le(k2) - off] + q[e2 - off] by {
        assert(c.up(c.low(k2), e2) && 0 <= c.low(k2) < c.n());
        assert(c.first_out@[c.low(k2) + 1] <= c.first_out@[c.n()]);
        assert(k2 <= k);
        if k2 == k && e2 < g { assert(c.up(c.low(k), g - 1)); if e2 < g - 1 { assert(c.hd(e2) < c.hd(g - 1)); } }
        assert(seen(k2, e2, k, g));
    }
}
proof fn lemma_begin(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, v: int, y: int, k: int, w0: u32, w: Wk, inc: bool)
    requires c.wf(), 0 <= v < c.n(), best(c, off, p, q, v, y, k, c.m(), w0, w, inc), c.down(v, k)
    ensures best(c, off, p, q, v, y, k, c.fo(c.low(k) + 1), w0, w, inc)
{
    assert forall|k2: int, e2: int| #[trigger] tri(c, v, k2, e2, y) && seen(k2, e2, k, c.fo(c.low(k) + 1)) implies w.0 <= p[c.le(k2) - off] + q[e2 - off] by { assert(k2 < k); assert(seen(k2, e2, k, c.m())); }
}
/// the best values of v only depend on arcs of lower nodes
proof fn lemma_best_frame(c: CCH, off: int, p: Seq<u32>, q: Seq<u32>, p2: Seq<u32>, q2: Seq<u32>, v: int, y: int, k0: int, j0: int, w0: u32, w: Wk, inc: bool)
    requires c.wf(), 0 <= v < c.n(), best(c, off, p, q, v, y, k0, j0, w0, w, inc), p.len() == q.len() == p2.len() == q2.len(), forall|k: int| #[trigger] c.down(v, k) ==> off <= c.fo(c.low(k)), c.fo(v) - off <= p.len(),
        forall|i: int| 0 <= i < p.len() && i + off < c.fo(v) ==> #[trigger] p[i] == p2[i] && q[i] == q2[i]
    ensures best(c, off, p2, q2, v, y, k0, j0, w0, w, inc)
{
    assert forall|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) implies p[c.le(k) - off] == p2[c.le(k) - off] && q[e2 - off] == q2[e2 - off] by {
        let l = c.low(k);
        assert(c.down(v, k) && c.up(l, e2) && c.up(l, c.le(k)));
        assert(c.first_out@[l + 1] <= c.first_out@[v]);
        let (a, b) = (c.le(k) - off, e2 - off);
        assert(p[a] == p2[a] && q[a] == q2[a] && p[b] == p2[b]);
    }
    if exists|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && from_tri(c, off, p, q, k, e2, w, inc) {
        let (k, e2) = choose|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && from_tri(c, off, p, q, k, e2, w, inc);
        assert(tri(c, v, k, e2, y) && from_tri(c, off, p2, q2, k, e2, w, inc));
    }
}
proof fn lemma_fo(c: CCH, a: int, b: int) requires c.wf(), 0 <= a <= b <= c.n() ensures 0 <= c.fo(a) <= c.fo(b) <= c.m() { assert(c.first_out@[0] <= c.first_out@[a]); assert(c.first_out@[a] <= c.first_out@[b]); assert(c.first_out@[b] <= c.first_out@[c.n()]); }
spec fn same_at<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int, off: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() && !(lo <= i + off < hi) ==> #[trigger] a[i] == b[i] }

//@fn engine/src/algo/customizable_contraction_hierarchy/customization.rs nested -::customize_basic::customize
//@sig fn customize(cch: &CCH, nodes: Range<usize>, offset: usize, _offset_down: usize, upward_weights: &mut [Weight], downward_weights: &mut [Weight], upward_unpack: &mut [(Opt, Opt)], downward_unpack: &mut [(Opt, Opt)], node_outgoing_weights: &mut Vec<Wk>, node_incoming_weights: &mut Vec<Wk>)
//@rw sub UPWARD_WORKSPACE.with(|$w:id| { let mut $x:id = $y:id.borrow_mut(); $b }); ===> { $b }
//@rw sub DOWNWARD_WORKSPACE.with(|$w:id| { let mut $x:id = $y:id.borrow_mut(); $b }); ===> { $b }
//@rw sub for current_node in nodes { $b } ===> let mut vf_n = nodes.start; while vf_n < nodes.end { let current_node = vf_n; vf_n += 1; $b }
//@rw sub for ((node, &down_weight), &up_weight) in cch.neighbor_iter(current_node).zip(&downward_weights[edges.clone()]).zip(&upward_weights[edges.clone()]) { $b } ===> let vf_hs = vf_neighbors(cch, current_node); let mut vf_k: usize = 0; while vf_k < vf_hs.len() { let node = vf_hs[vf_k]; let down_weight = downward_weights[edges.start + vf_k]; let up_weight = upward_weights[edges.start + vf_k]; vf_k += 1; $b }
//@rw sub for (NodeIdT(low_node), Reversed(EdgeIdT(first_edge_id))) in cch.inverted.link_iter(current_node) { $b } ===> let vf_ds = vf_down(cch, current_node); let mut vf_d: usize = 0; while vf_d < vf_ds.len() { let low_node = vf_ds[vf_d].0.0; let first_edge_id = vf_ds[vf_d].1.0.0; vf_d += 1; $b }
//@rw sub for (((node, upward_weight), downward_weight), second_edge_id) in cch.neighbor_iter(low_node).rev().zip(upward_weights[low_up_edges.clone()].iter().rev()).zip(downward_weights[low_up_edges].iter().rev()).zip(low_up_edges_orig.rev()) { $b } ===> let vf_ls = vf_neighbors(cch, low_node); let mut vf_j: usize = vf_ls.len(); while vf_j > 0 { vf_j -= 1; let node = vf_ls[vf_j]; let upward_weight = upward_weights[low_up_edges.start + vf_j]; let downward_weight = downward_weights[low_up_edges.start + vf_j]; let second_edge_id = low_up_edges_orig.start + vf_j; $b }
//@rw sub for ((((node, downward_weight), upward_weight), downward_unpack), upward_unpack) in cch.neighbor_iter(current_node).zip(&mut downward_weights[edges.clone()]).zip(&mut upward_weights[edges.clone()]).zip(&mut downward_unpack[edges.clone()]).zip(&mut upward_unpack[edges]) { $b } ===> let vf_hs = vf_neighbors(cch, current_node); let mut vf_k: usize = 0; while vf_k < vf_hs.len() { let node = vf_hs[vf_k]; let vf_e = edges.start + vf_k; vf_k += 1; let downward_weight = &mut downward_weights[vf_e]; let upward_weight = &mut upward_weights[vf_e]; let downward_unpack = &mut downward_unpack[vf_e]; let upward_unpack = &mut upward_unpack[vf_e]; $b }
//@rw sub unsafe { $w:id.get_unchecked_mut($e) } ===> $w.vf_get_mut($e)
//@rw sub $x:id.clone() ===> vf_rc(&$x)
//@rw sub InRangeOption::NONE ===> InRangeOption::new(None)
//@spec
    requires cch.wf(), holds(*cch, nodes.start as int, nodes.end as int, offset as int, old(upward_weights)@.len() as int), nodes.start <= nodes.end,
        old(downward_weights)@.len() == old(upward_weights)@.len(), old(upward_unpack)@.len() == old(upward_weights)@.len(), old(downward_unpack)@.len() == old(upward_weights)@.len(),
        capped(old(upward_weights)@), capped(old(downward_weights)@), old(node_outgoing_weights)@.len() == cch.n(), old(node_incoming_weights)@.len() == cch.n(),
    ensures final(upward_weights)@.len() == old(upward_weights)@.len(), final(downward_weights)@.len() == old(upward_weights)@.len(), final(upward_unpack)@.len() == old(upward_weights)@.len(), final(downward_unpack)@.len() == old(upward_weights)@.len(),
        forall|v: int, e: int| nodes.start <= v < nodes.end && #[trigger] cch.up(v, e) ==> fixed(*cch, offset as int, old(upward_weights)@, old(downward_weights)@, final(upward_weights)@, final(downward_weights)@, final(upward_unpack)@, final(downward_unpack)@, v, e),
        same_at(final(upward_weights)@, old(upward_weights)@, cch.fo(nodes.start as int), cch.fo(nodes.end as int), offset as int), same_at(final(downward_weights)@, old(downward_weights)@, cch.fo(nodes.start as int), cch.fo(nodes.end as int), offset as int),
        same_at(final(upward_unpack)@, old(upward_unpack)@, cch.fo(nodes.start as int), cch.fo(nodes.end as int), offset as int), same_at(final(downward_unpack)@, old(downward_unpack)@, cch.fo(nodes.start as int), cch.fo(nodes.end as int), offset as int),
        capped(final(upward_weights)@), capped(final(downward_weights)@),
        final(node_outgoing_weights)@.len() == cch.n(), final(node_incoming_weights)@.len() == cch.n(),
//@at start
    let ghost (u0, d0, uu0, du0, off) = (upward_weights@, downward_weights@, upward_unpack@, downward_unpack@, offset as int);
    assert(eq_ok::<u32>());
//@loop 0
    invariant cch.wf(), eq_ok::<u32>(), holds(*cch, nodes.start as int, nodes.end as int, off, u0.len() as int), off == offset, u0.len() == d0.len() == uu0.len() == du0.len(), upward_weights@.len() == u0.len(), downward_weights@.len() == u0.len(), upward_unpack@.len() == u0.len(), downward_unpack@.len() == u0.len(), node_outgoing_weights@.len() == cch.n(), node_incoming_weights@.len() == cch.n(), nodes.start <= vf_n <= nodes.end, capped(upward_weights@), capped(downward_weights@),
        forall|x: int, e: int| nodes.start <= x < vf_n && #[trigger] cch.up(x, e) ==> fixed(*cch, off, u0, d0, upward_weights@, downward_weights@, upward_unpack@, downward_unpack@, x, e),
        same_at(upward_weights@, u0, cch.fo(nodes.start as int), cch.fo(vf_n as int), off), same_at(downward_weights@, d0, cch.fo(nodes.start as int), cch.fo(vf_n as int), off),
        same_at(upward_unpack@, uu0, cch.fo(nodes.start as int), cch.fo(vf_n as int), off), same_at(downward_unpack@, du0, cch.fo(nodes.start as int), cch.fo(vf_n as int), off),
    decreases nodes.end - vf_n
//@at loop_begin 0
    let ghost (ua, da, uua, dua, v) = (upward_weights@, downward_weights@, upward_unpack@, downward_unpack@, vf_n as int);
    proof { lemma_fo(*cch, v, v + 1); lemma_fo(*cch, nodes.start as int, v); assert(off <= cch.fo(v) && cch.fo(v + 1) <= off + u0.len()); }
//@loop 1
    invariant cch.wf(), eq_ok::<u32>(), holds(*cch, nodes.start as int, nodes.end as int, off, u0.len() as int), off == offset, u0.len() == d0.len() == uu0.len() == du0.len(), upward_weights@.len() == u0.len(), downward_weights@.len() == u0.len(), upward_unpack@.len() == u0.len(), downward_unpack@.len() == u0.len(), node_outgoing_weights@.len() == cch.n(), node_incoming_weights@.len() == cch.n(), nodes.start <= v < nodes.end, v == current_node, v + 1 == vf_n, edges.start == cch.fo(v) - off, edges.end == cch.fo(v + 1) - off, off <= cch.fo(v) <= cch.fo(v + 1) <= cch.m(), cch.fo(v + 1) - off <= u0.len(), ua.len() == u0.len(), da.len() == u0.len(), uua.len() == u0.len(), dua.len() == u0.len(), capped(ua), capped(da), upward_weights@ == ua, downward_weights@ == da, upward_unpack@ == uua, downward_unpack@ == dua, vf_hs@ == cch.head@.subrange(cch.fo(v), cch.fo(v + 1)), vf_k <= vf_hs@.len(),
        forall|e: int| #[trigger] cch.up(v, e) && e < cch.fo(v) + vf_k ==> node_outgoing_weights@[cch.hd(e)].0 == ua[e - off] && node_outgoing_weights@[cch.hd(e)].1@ is None && node_outgoing_weights@[cch.hd(e)].2@ is None,
        forall|e: int| #[trigger] cch.up(v, e) && e < cch.fo(v) + vf_k ==> node_incoming_weights@[cch.hd(e)].0 == da[e - off] && node_incoming_weights@[cch.hd(e)].1@ is None && node_incoming_weights@[cch.hd(e)].2@ is None,
    decreases vf_hs@.len() - vf_k
//@at loop_start 1
    proof { assert(cch.up(v, cch.fo(v) + vf_k)); assert(vf_hs@[vf_k as int] == cch.hd(cch.fo(v) + vf_k)); }
//@at after_loop 1
    proof {
        assert(ws(*cch, off, ua, da, v, cch.is(v), cch.m(), node_outgoing_weights@, node_incoming_weights@)) by {
            assert forall|e: int| #[trigger] cch.up(v, e) implies best(*cch, off, da, ua, v, cch.hd(e), cch.is(v), cch.m(), ua[e - off], node_outgoing_weights@[cch.hd(e)], false) && best(*cch, off, ua, da, v, cch.hd(e), cch.is(v), cch.m(), da[e - off], node_incoming_weights@[cch.hd(e)], true) by {
                assert forall|k: int, e2: int| #[trigger] tri(*cch, v, k, e2, cch.hd(e)) && seen(k, e2, cch.is(v), cch.m()) implies false by { assert(cch.up(cch.low(k), e2)); lemma_fo(*cch, cch.low(k) + 1, cch.n()); }
            }
        }
    }
//@loop 2
    invariant cch.wf(), eq_ok::<u32>(), holds(*cch, nodes.start as int, nodes.end as int, off, u0.len() as int), off == offset, u0.len() == d0.len() == uu0.len() == du0.len(), upward_weights@.len() == u0.len(), downward_weights@.len() == u0.len(), upward_unpack@.len() == u0.len(), downward_unpack@.len() == u0.len(), node_outgoing_weights@.len() == cch.n(), node_incoming_weights@.len() == cch.n(), nodes.start <= v < nodes.end, v == current_node, v + 1 == vf_n, edges.start == cch.fo(v) - off, edges.end == cch.fo(v + 1) - off, off <= cch.fo(v) <= cch.fo(v + 1) <= cch.m(), cch.fo(v + 1) - off <= u0.len(), ua.len() == u0.len(), da.len() == u0.len(), uua.len() == u0.len(), dua.len() == u0.len(), capped(ua), capped(da), upward_weights@ == ua, downward_weights@ == da, upward_unpack@ == uua, downward_unpack@ == dua, vf_ds@.len() == cch.is(v + 1) - cch.is(v), forall|i: int| 0 <= i < vf_ds@.len() ==> (#[trigger] vf_ds@[i]).0.0 == cch.low(cch.is(v) + i) && vf_ds@[i].1.0.0 == cch.le(cch.is(v) + i), vf_d <= vf_ds@.len(),
        ws(*cch, off, ua, da, v, cch.is(v) + vf_d, cch.m(), node_outgoing_weights@, node_incoming_weights@),
    decreases vf_ds@.len() - vf_d
//@at loop_begin 2
    let ghost k = cch.is(v) + vf_d;
    proof {
        assert(cch.down(v, k)); assert(vf_ds@[vf_d as int].0.0 == cch.low(k));
        assert(cch.up(cch.low(k), cch.le(k)));
        lemma_fo(*cch, cch.low(k), cch.low(k) + 1); lemma_fo(*cch, cch.low(k) + 1, v);
        assert(off <= cch.fo(cch.low(k)));
        assert(ws(*cch, off, ua, da, v, k, cch.fo(cch.low(k) + 1), node_outgoing_weights@, node_incoming_weights@)) by {
            assert forall|e: int| #[trigger] cch.up(v, e) implies best(*cch, off, da, ua, v, cch.hd(e), k, cch.fo(cch.low(k) + 1), ua[e - off], node_outgoing_weights@[cch.hd(e)], false) && best(*cch, off, ua, da, v, cch.hd(e), k, cch.fo(cch.low(k) + 1), da[e - off], node_incoming_weights@[cch.hd(e)], true) by {
                lemma_begin(*cch, off, da, ua, v, cch.hd(e), k, ua[e - off], node_outgoing_weights@[cch.hd(e)], false);
                lemma_begin(*cch, off, ua, da, v, cch.hd(e), k, da[e - off], node_incoming_weights@[cch.hd(e)], true);
            }
        }
    }
//@at before_loop 3
    let ghost mut g = cch.fo(cch.low(k) + 1);
//@loop 3
    invariant_except_break g == cch.fo(low_node as int) + vf_j,
    invariant cch.wf(), eq_ok::<u32>(), holds(*cch, nodes.start as int, nodes.end as int, off, u0.len() as int), off == offset, u0.len() == d0.len() == uu0.len() == du0.len(), upward_weights@.len() == u0.len(), downward_weights@.len() == u0.len(), upward_unpack@.len() == u0.len(), downward_unpack@.len() == u0.len(), node_outgoing_weights@.len() == cch.n(), node_incoming_weights@.len() == cch.n(), nodes.start <= v < nodes.end, v == current_node, v + 1 == vf_n, edges.start == cch.fo(v) - off, edges.end == cch.fo(v + 1) - off, off <= cch.fo(v) <= cch.fo(v + 1) <= cch.m(), cch.fo(v + 1) - off <= u0.len(), ua.len() == u0.len(), da.len() == u0.len(), uua.len() == u0.len(), dua.len() == u0.len(), capped(ua), capped(da), upward_weights@ == ua, downward_weights@ == da, upward_unpack@ == uua, downward_unpack@ == dua, cch.down(v, k), low_node == cch.low(k), low_node < v, first_edge_id == cch.le(k), cch.up(cch.low(k), cch.le(k)), first_down_weight == da[first_edge_id - off], first_up_weight == ua[first_edge_id - off], off <= cch.fo(low_node as int) <= cch.fo(low_node + 1) <= cch.fo(v),
        vf_ls@ == cch.head@.subrange(cch.fo(low_node as int), cch.fo(low_node + 1)), vf_ls@.len() == cch.fo(low_node + 1) - cch.fo(low_node as int), vf_j <= vf_ls@.len(), low_up_edges.start == cch.fo(low_node as int) - off, low_up_edges_orig.start == cch.fo(low_node as int),
        ws(*cch, off, ua, da, v, k, g, node_outgoing_weights@, node_incoming_weights@),
    ensures g == cch.fo(low_node as int) || cch.up(low_node as int, g - 1) && cch.hd(g - 1) <= v
    decreases vf_j
//@at loop_begin 3
    let ghost (wo, wi) = (node_outgoing_weights@, node_incoming_weights@);
    proof {
        assert(cch.up(low_node as int, g - 1)); assert(vf_ls@[vf_j - 1] == cch.hd(g - 1));
        assert(da[first_edge_id - off] <= INFINITY && ua[first_edge_id - off] <= INFINITY && ua[g - 1 - off] <= INFINITY && da[g - 1 - off] <= INFINITY);
    }
//@at loop_end 3
    proof {
        g = g - 1;
        assert forall|e: int| #[trigger] cch.up(v, e) implies best(*cch, off, da, ua, v, cch.hd(e), k, g, ua[e - off], node_outgoing_weights@[cch.hd(e)], false) && best(*cch, off, ua, da, v, cch.hd(e), k, g, da[e - off], node_incoming_weights@[cch.hd(e)], true) by {
            lemma_look(*cch, off, da, ua, v, cch.hd(e), k, g, ua[e - off], wo[cch.hd(e)], node_outgoing_weights@[cch.hd(e)], false);
            lemma_look(*cch, off, ua, da, v, cch.hd(e), k, g, da[e - off], wi[cch.hd(e)], node_incoming_weights@[cch.hd(e)], true);
        }
    }
//@at loop_end 2
    proof {
        assert forall|e: int| #[trigger] cch.up(v, e) implies best(*cch, off, da, ua, v, cch.hd(e), k + 1, cch.m(), ua[e - off], node_outgoing_weights@[cch.hd(e)], false) && best(*cch, off, ua, da, v, cch.hd(e), k + 1, cch.m(), da[e - off], node_incoming_weights@[cch.hd(e)], true) by {
            lemma_done(*cch, off, da, ua, v, cch.hd(e), k, g, ua[e - off], node_outgoing_weights@[cch.hd(e)], false);
            lemma_done(*cch, off, ua, da, v, cch.hd(e), k, g, da[e - off], node_incoming_weights@[cch.hd(e)], true);
        }
    }
//@loop 4
    invariant cch.wf(), eq_ok::<u32>(), holds(*cch, nodes.start as int, nodes.end as int, off, u0.len() as int), off == offset, u0.len() == d0.len() == uu0.len() == du0.len(), upward_weights@.len() == u0.len(), downward_weights@.len() == u0.len(), upward_unpack@.len() == u0.len(), downward_unpack@.len() == u0.len(), node_outgoing_weights@.len() == cch.n(), node_incoming_weights@.len() == cch.n(), nodes.start <= v < nodes.end, v == current_node, v + 1 == vf_n, edges.start == cch.fo(v) - off, edges.end == cch.fo(v + 1) - off, off <= cch.fo(v) <= cch.fo(v + 1) <= cch.m(), cch.fo(v + 1) - off <= u0.len(), ua.len() == u0.len(), da.len() == u0.len(), uua.len() == u0.len(), dua.len() == u0.len(), capped(ua), capped(da), vf_hs@ == cch.head@.subrange(cch.fo(v), cch.fo(v + 1)), vf_k <= vf_hs@.len(), ws(*cch, off, ua, da, v, cch.is(v + 1), cch.m(), node_outgoing_weights@, node_incoming_weights@), capped(upward_weights@), capped(downward_weights@),
        same_at(upward_weights@, ua, cch.fo(v), cch.fo(v) + vf_k, off), same_at(downward_weights@, da, cch.fo(v), cch.fo(v) + vf_k, off), same_at(upward_unpack@, uua, cch.fo(v), cch.fo(v) + vf_k, off), same_at(downward_unpack@, dua, cch.fo(v), cch.fo(v) + vf_k, off),
        forall|e: int| #[trigger] cch.up(v, e) && e < cch.fo(v) + vf_k ==> node_outgoing_weights@[cch.hd(e)] == (upward_weights@[e - off], upward_unpack@[e - off].0, upward_unpack@[e - off].1) && node_incoming_weights@[cch.hd(e)] == (downward_weights@[e - off], downward_unpack@[e - off].0, downward_unpack@[e - off].1),
    decreases vf_hs@.len() - vf_k
//@at loop_start 4
    proof { assert(cch.up(v, cch.fo(v) + vf_k)); assert(vf_hs@[vf_k as int] == cch.hd(cch.fo(v) + vf_k)); assert(ua[cch.fo(v) + vf_k - off] <= INFINITY && da[cch.fo(v) + vf_k - off] <= INFINITY); }
//@at after_loop 4
    proof {
        let (u, d, uu, du) = (upward_weights@, downward_weights@, upward_unpack@, downward_unpack@);
        assert forall|x: int, e: int| nodes.start <= x < vf_n && #[trigger] cch.up(x, e) implies fixed(*cch, off, u0, d0, u, d, uu, du, x, e) by {
            lemma_fo(*cch, x + 1, if x < v { v } else { x + 1 }); lemma_fo(*cch, x, x + 1); lemma_fo(*cch, nodes.start as int, x);
            assert(off <= cch.fo(x));
            let (y, i) = (cch.hd(e), e - off);
            if x == v {
                assert(best(*cch, off, da, ua, v, y, cch.is(v + 1), cch.m(), ua[i], node_outgoing_weights@[y], false));
                assert(ua[i] == u0[i] && da[i] == d0[i]);
                lemma_best_frame(*cch, off, da, ua, d, u, v, y, cch.is(v + 1), cch.m(), u0[i], (u[i], uu[i].0, uu[i].1), false);
                lemma_best_frame(*cch, off, ua, da, u, d, v, y, cch.is(v + 1), cch.m(), d0[i], (d[i], du[i].0, du[i].1), true);
            } else {
                assert(fixed(*cch, off, u0, d0, ua, da, uua, dua, x, e));
                assert(u[i] == ua[i] && d[i] == da[i] && uu[i] == uua[i] && du[i] == dua[i]);
                lemma_best_frame(*cch, off, da, ua, d, u, x, y, cch.is(x + 1), cch.m(), u0[i], (u[i], uu[i].0, uu[i].1), false);
                lemma_best_frame(*cch, off, ua, da, u, d, x, y, cch.is(x + 1), cch.m(), d0[i], (d[i], du[i].0, du[i].1), true);
            }
        }
    }
//@endfn

// ---- what customization of all nodes means for the hierarchy
/// the links of the upward (downward) graph: CCH arcs with the given weights
spec fn links(c: CCH, w: Seq<u32>) -> Ls { Seq::new(c.n() as nat, |u: int| Seq::new((c.fo(u + 1) - c.fo(u)) as nat, |i: int| (NodeIdT(c.hd(c.fo(u) + i) as u32), w[c.fo(u) + i], EdgeIdT((c.fo(u) + i) as u32)))) }
/// any two upper neighbours are connected
spec fn chordal(c: CCH) -> bool { forall|u: int, e: int, e2: int| 0 <= u < c.n() && #[trigger] c.up(u, e) && #[trigger] c.up(u, e2) && e < e2 ==> exists|s: int| #[trigger] c.up(c.hd(e), s) && c.hd(s) == c.hd(e2) }
spec fn tree_of(c: CCH, et: Et) -> bool { parents_ok(et) && et.len() == c.n() && forall|u: int| 0 <= u < c.n() && c.fo(u) < c.fo(u + 1) ==> (#[trigger] et[u])@ == Some(c.hd(c.fo(u)) as u32) }
proof fn lemma_heads_anc(c: CCH, et: Et, u: int, e: int)
    requires c.wf(), chordal(c), tree_of(c, et), 0 <= u < c.n(), c.up(u, e)
    ensures anc(et, u as u32, c.hd(e) as u32)
    decreases c.n() - u
{
    let f = c.fo(u);
    assert(c.up(u, f)); assert(u < c.hd(f) < c.n());
    let p = c.hd(f) as u32;
    assert(et[u]@ == Some(p));
    if e > f {
        let s = choose|s: int| #[trigger] c.up(c.hd(f), s) && c.hd(s) == c.hd(e);
        lemma_heads_anc(c, et, p as int, s);
    } else { assert(anc(et, p, p)); }
}
spec fn all_fixed(c: CCH, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>) -> bool {
    &&& u0.len() == c.m() && d0.len() == c.m() && u.len() == c.m() && d.len() == c.m() && uu.len() == c.m() && du.len() == c.m() && capped(u) && capped(d)
    &&& forall|v: int, e: int| 0 <= v < c.n() && #[trigger] c.up(v, e) ==> fixed(c, 0, u0, d0, u, d, uu, du, v, e)
}
/// the weights before customization: every arc of the graph is represented, every finite weight is the length of a walk
spec fn prepared<L>(g: Ag<L>, o: NodeOrder, c: CCH, u0: Seq<u32>, d0: Seq<u32>) -> bool {
    &&& forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> prep_arc(c, u0, d0, o.ranks@[u] as int, o.ranks@[(#[trigger] g[u][k]).0] as int, g[u][k].1)
    &&& forall|v: int, e: int| 0 <= v < c.n() && #[trigger] c.up(v, e) ==> (u0[e] < INFINITY ==> realised(g, o.node_order@[v] as int, 0, o.node_order@[c.hd(e)] as int, u0[e] as int)) && (d0[e] < INFINITY ==> realised(g, o.node_order@[c.hd(e)] as int, 0, o.node_order@[v] as int, d0[e] as int))
}
spec fn prep_arc(c: CCH, u0: Seq<u32>, d0: Seq<u32>, x: int, y: int, w: int) -> bool {
    &&& x < y ==> w >= INFINITY || exists|e: int| #[trigger] c.up(x, e) && c.hd(e) == y && u0[e] <= w
    &&& y < x ==> w >= INFINITY || exists|e: int| #[trigger] c.up(y, e) && c.hd(e) == x && d0[e] <= w
}
proof fn lemma_link(c: CCH, w: Seq<u32>, x: int, e: int, d: int)
    requires c.wf(), 0 <= x < c.n(), c.up(x, e), w[e] <= d
    ensures le_link(links(c, w), x, c.hd(e), d)
{ assert(x < c.hd(e) < c.n()); let l = links(c, w)[x][e - c.fo(x)]; assert(l.0.0 == c.hd(e) && l.1 <= d); }
proof fn lemma_lens(c: CCH) requires c.wf() ensures forall|u: int| 0 <= u < c.n() ==> 0 <= #[trigger] c.fo(u) <= c.fo(u + 1) <= c.m()
{ assert forall|u: int| 0 <= u < c.n() implies 0 <= #[trigger] c.fo(u) <= c.fo(u + 1) <= c.m() by { lemma_fo(c, u, u + 1); } }
/// finite weights stay lengths of walks
proof fn lemma_honest<L>(g: Ag<L>, o: NodeOrder, c: CCH, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>, v: int, e: int)
    requires c.wf(), all_fixed(c, u0, d0, u, d, uu, du), prepared(g, o, c, u0, d0), 0 <= v < c.n(), c.up(v, e)
    ensures u[e] < INFINITY ==> realised(g, o.node_order@[v] as int, 0, o.node_order@[c.hd(e)] as int, u[e] as int), d[e] < INFINITY ==> realised(g, o.node_order@[c.hd(e)] as int, 0, o.node_order@[v] as int, d[e] as int)
    decreases v
{
    let y = c.hd(e);
    let (wu, wd) = ((u[e], uu[e].0, uu[e].1), (d[e], du[e].0, du[e].1));
    assert(fixed(c, 0, u0, d0, u, d, uu, du, v, e));
    if u[e] < INFINITY && !(u[e] == u0[e]) {
        let (k, e2) = choose|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && from_tri(c, 0, d, u, k, e2, wu, false);
        let (l, e1) = (c.low(k), c.le(k));
        assert(c.down(v, k) && c.up(l, e1) && c.up(l, e2));
        lemma_honest(g, o, c, u0, d0, u, d, uu, du, l, e1); lemma_honest(g, o, c, u0, d0, u, d, uu, du, l, e2);
        lemma_realised_cat(g, o.node_order@[v] as int, o.node_order@[l] as int, o.node_order@[y] as int, d[e1] as int, u[e2] as int);
    }
    if d[e] < INFINITY && !(d[e] == d0[e]) {
        let (k, e2) = choose|k: int, e2: int| #[trigger] tri(c, v, k, e2, y) && from_tri(c, 0, u, d, k, e2, wd, true);
        let (l, e1) = (c.low(k), c.le(k));
        assert(c.down(v, k) && c.up(l, e1) && c.up(l, e2));
        lemma_honest(g, o, c, u0, d0, u, d, uu, du, l, e1); lemma_honest(g, o, c, u0, d0, u, d, uu, du, l, e2);
        lemma_realised_cat(g, o.node_order@[y] as int, o.node_order@[l] as int, o.node_order@[v] as int, d[e2] as int, u[e1] as int);
    }
}
proof fn lemma_up(c: CCH, et: Et, w: Seq<u32>)
    requires c.wf(), chordal(c), tree_of(c, et), capped(w), w.len() == c.m()
    ensures up_ok(links(c, w), et)
{
    let f = links(c, w);
    lemma_lens(c);
    assert forall|x: int, i: int| 0 <= x < f.len() && 0 <= i < f[x].len() implies x < (#[trigger] f[x][i]).0.0 < f.len() && anc(et, x as u32, f[x][i].0.0) && f[x][i].1 <= INFINITY by { let e = c.fo(x) + i; assert(c.up(x, e)); lemma_heads_anc(c, et, x, e); assert(w[e] <= INFINITY); }
}
proof fn lemma_links_honest<L>(g: Ag<L>, o: NodeOrder, c: CCH, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>)
    requires c.wf(), all_fixed(c, u0, d0, u, d, uu, du), prepared(g, o, c, u0, d0)
    ensures honest(g, o, links(c, u), links(c, d))
{
    let (f, b) = (links(c, u), links(c, d));
    lemma_lens(c);
    assert forall|x: int, i: int| 0 <= x < f.len() && 0 <= i < f[x].len() && (#[trigger] f[x][i]).1 < INFINITY implies realised(g, o.node_order@[x] as int, 0, o.node_order@[f[x][i].0.0 as int] as int, f[x][i].1 as int) by { let e = c.fo(x) + i; assert(c.up(x, e)); lemma_honest(g, o, c, u0, d0, u, d, uu, du, x, e); }
    assert forall|x: int, i: int| 0 <= x < b.len() && 0 <= i < b[x].len() && (#[trigger] b[x][i]).1 < INFINITY implies realised(g, o.node_order@[b[x][i].0.0 as int] as int, 0, o.node_order@[x] as int, b[x][i].1 as int) by { let e = c.fo(x) + i; assert(c.up(x, e)); lemma_honest(g, o, c, u0, d0, u, d, uu, du, x, e); }
}
proof fn lemma_links_arc(c: CCH, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>, p: int, q: int, w: int)
    requires c.wf(), all_fixed(c, u0, d0, u, d, uu, du), prep_arc(c, u0, d0, p, q, w), 0 <= p < c.n(), 0 <= q < c.n(), w >= 0
    ensures le_arc(links(c, u), links(c, d), p, q, w)
{
    if p < q && w < INFINITY { let e = choose|e: int| #[trigger] c.up(p, e) && c.hd(e) == q && u0[e] <= w; assert(fixed(c, 0, u0, d0, u, d, uu, du, p, e)); lemma_link(c, u, p, e, w); }
    if q < p && w < INFINITY { let e = choose|e: int| #[trigger] c.up(q, e) && c.hd(e) == p && d0[e] <= w; assert(fixed(c, 0, u0, d0, u, d, uu, du, q, e)); lemma_link(c, d, q, e, w); }
}
proof fn lemma_links_tri(c: CCH, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>, x: int, e1: int, e2: int)
    requires c.wf(), chordal(c), all_fixed(c, u0, d0, u, d, uu, du), 0 <= x < c.n(), c.up(x, e1), c.up(x, e2)
    ensures le_arc(links(c, u), links(c, d), c.hd(e1), c.hd(e2), d[e1] + u[e2])
{
    let (p, y, s) = (c.hd(e1), c.hd(e2), d[e1] + u[e2]);
    if e1 < e2 {
        let e = choose|e: int| #[trigger] c.up(c.hd(e1), e) && c.hd(e) == c.hd(e2);
        let k = choose|k: int| #[trigger] c.down(c.hd(e1), k) && c.low(k) == x && c.le(k) == e1;
        assert(fixed(c, 0, u0, d0, u, d, uu, du, p, e));
        assert(best(c, 0, d, u, p, y, c.is(p + 1), c.m(), u0[e], (u[e], uu[e].0, uu[e].1), false));
        assert(tri(c, p, k, e2, y) && seen(k, e2, c.is(p + 1), c.m()));
        lemma_link(c, u, p, e, s);
    } else if e2 < e1 {
        let e = choose|e: int| #[trigger] c.up(c.hd(e2), e) && c.hd(e) == c.hd(e1);
        let k = choose|k: int| #[trigger] c.down(c.hd(e2), k) && c.low(k) == x && c.le(k) == e2;
        assert(fixed(c, 0, u0, d0, u, d, uu, du, y, e));
        assert(best(c, 0, u, d, y, p, c.is(y + 1), c.m(), d0[e], (d[e], du[e].0, du[e].1), true));
        assert(tri(c, y, k, e1, p) && seen(k, e1, c.is(y + 1), c.m()));
        lemma_link(c, d, y, e, s);
    }
}
/// the customized weights represent shortest paths through lower nodes: the hierarchy answers queries exactly (prop_exact)
proof fn prop_customized<L>(g: Ag<L>, o: NodeOrder, c: CCH, et: Et, u0: Seq<u32>, d0: Seq<u32>, u: Seq<u32>, d: Seq<u32>, uu: Seq<(Opt, Opt)>, du: Seq<(Opt, Opt)>)
    requires ag_ok(g), o.wf(), o.n() == g.len(), c.n() == g.len(), c.wf(), chordal(c), tree_of(c, et), all_fixed(c, u0, d0, u, d, uu, du), prepared(g, o, c, u0, d0)
    ensures customized(g, o, et, links(c, u), links(c, d))
{
    let (f, b) = (links(c, u), links(c, d));
    lemma_lens(c);
    lemma_up(c, et, u); lemma_up(c, et, d);
    lemma_links_honest(g, o, c, u0, d0, u, d, uu, du);
    assert(arcs_ok(g, o, f, b)) by {
        assert forall|x: int, k: int| 0 <= x < g.len() && 0 <= k < g[x].len() implies le_arc(f, b, o.ranks@[x] as int, o.ranks@[(#[trigger] g[x][k]).0] as int, g[x][k].1) by {
            let y = g[x][k].0;
            assert(0 <= y < g.len());
            assert(prep_arc(c, u0, d0, o.ranks@[x] as int, o.ranks@[y] as int, g[x][k].1));
            lemma_links_arc(c, u0, d0, u, d, uu, du, o.ranks@[x] as int, o.ranks@[y] as int, g[x][k].1);
        }
    }
    assert(triangles_ok(f, b)) by {
        assert forall|x: int, i: int, j: int| 0 <= x < f.len() && 0 <= i < b[x].len() && 0 <= j < f[x].len() implies le_arc(f, b, (#[trigger] b[x][i]).0.0 as int, (#[trigger] f[x][j]).0.0 as int, b[x][i].1 + f[x][j].1) by {
            let (e1, e2) = (c.fo(x) + i, c.fo(x) + j);
            assert(c.up(x, e1) && c.up(x, e2));
            lemma_links_tri(c, u0, d0, u, d, uu, du, x, e1, e2);
        }
    }
}
} // verus!
fn main() {}
