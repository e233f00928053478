/// offsets 0 = fo[0] <= fo[1] <= ... <= fo[n] = m
spec fn offsets(fo: Seq<u32>, m: int) -> bool {
    &&& fo.len() >= 1 && fo.len() < u32::MAX && fo[0] == 0 && fo[fo.len() - 1] == m
    &&& forall|i: int, j: int| 0 <= i <= j < fo.len() ==> #[trigger] fo[i] <= #[trigger] fo[j]
}
// ---- the hierarchy: upward graph and, per node, the arcs from lower nodes
//@item engine/src/datastr/graph.rs struct Reversed
//@item engine/src/datastr/graph/first_out_graph.rs struct ReversedGraphWithEdgeIds
//@item engine/src/algo/customizable_contraction_hierarchy/mod.rs struct CCH Vecs<EdgeIdT>=>() SeparatorTree=>() NodeOrder=>()
impl CCH {
    spec fn n(&self) -> int { self.first_out@.len() - 1 }
    spec fn m(&self) -> int { self.head@.len() as int }
    spec fn fo(&self, u: int) -> int { self.first_out@[u] as int }
    spec fn hd(&self, e: int) -> int { self.head@[e] as int }
    /// positions of the arcs from lower nodes, their tail and their arc
    spec fn is(&self, v: int) -> int { self.inverted.first_out@[v] as int }
    spec fn low(&self, k: int) -> int { self.inverted.head@[k] as int }
    spec fn le(&self, k: int) -> int { self.inverted.edge_ids@[k] as int }
    spec fn up(&self, u: int, e: int) -> bool { self.fo(u) <= e < self.fo(u + 1) }
    spec fn down(&self, v: int, k: int) -> bool { self.is(v) <= k < self.is(v + 1) }
    spec fn wf(&self) -> bool {
        &&& offsets(self.first_out@, self.m()) && self.m() < u32::MAX - 1
        &&& forall|u: int, e: int| 0 <= u < self.n() && #[trigger] self.up(u, e) ==> u < self.hd(e) < self.n()
        &&& forall|u: int, e: int, e2: int| 0 <= u < self.n() && #[trigger] self.up(u, e) && #[trigger] self.up(u, e2) && e < e2 ==> self.hd(e) < self.hd(e2)
        &&& offsets(self.inverted.first_out@, self.m()) && self.inverted.first_out@.len() == self.first_out@.len() && self.inverted.head@.len() == self.m() && self.inverted.edge_ids@.len() == self.m()
        &&& forall|v: int, k: int| 0 <= v < self.n() && #[trigger] self.down(v, k) ==> 0 <= self.low(k) < v && self.up(self.low(k), self.le(k)) && self.hd(self.le(k)) == v
        &&& forall|u: int, e: int| 0 <= u < self.n() && #[trigger] self.up(u, e) ==> exists|k: int| #[trigger] self.down(self.hd(e), k) && self.low(k) == u && self.le(k) == e
    }
//@fn engine/src/algo/customizable_contraction_hierarchy/mod.rs CCH::neighbor_edge_indices
//@spec
    requires self.wf(), node < self.n()
    ensures r.start == self.fo(node as int), r.end == self.fo(node + 1), r.start <= r.end <= self.m()
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/mod.rs CCH::neighbor_edge_indices_usize
//@spec
    requires self.wf(), node < self.n()
    ensures r.start == self.fo(node as int), r.end == self.fo(node + 1), r.start <= r.end <= self.m()
//@endfn
}
/// CCH::neighbor_iter as the list it yields
fn vf_neighbors(c: &CCH, node: NodeId) -> (r: &[NodeId]) requires c.wf(), node < c.n() ensures r@ == c.head@.subrange(c.fo(node as int), c.fo(node + 1)), r@.len() == c.fo(node + 1) - c.fo(node as int)
{ let range = c.neighbor_edge_indices_usize(node); vstd::slice::slice_subrange(c.head.as_slice(), range.start, range.end) }
/// ReversedGraphWithEdgeIds::link_iter as the list it yields
fn vf_down(c: &CCH, node: NodeId) -> (r: Vec<(NodeIdT, Reversed)>) requires c.wf(), node < c.n()
    ensures r@.len() == c.is(node + 1) - c.is(node as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.0 == c.low(c.is(node as int) + i) && r@[i].1.0.0 == c.le(c.is(node as int) + i)
{
    let mut r: Vec<(NodeIdT, Reversed)> = Vec::new();
    let mut k = c.inverted.first_out[node as usize] as usize;
    let end = c.inverted.first_out[node as usize + 1] as usize;
    while k < end
        invariant c.wf(), node < c.n(), end == c.is(node + 1), end <= c.m(), c.is(node as int) <= k <= end, r@.len() == k - c.is(node as int),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.0 == c.low(c.is(node as int) + i) && r@[i].1.0.0 == c.le(c.is(node as int) + i)
        decreases end - k
    { r.push((NodeIdT(c.inverted.head[k]), Reversed(EdgeIdT(c.inverted.edge_ids[k])))); k += 1; }
    r
}
fn vf_rc(r: &core::ops::Range<usize>) -> (q: core::ops::Range<usize>) ensures q.start == r.start, q.end == r.end { core::ops::Range { start: r.start, end: r.end } }
