//@include prelude.inc
type NodeId = u32;
type Weight = u32;
//@item engine/src/algo/hl.rs struct HubLabels
/// labels: hubs strictly increasing
spec fn label_ok(l: Seq<(u32, u32)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 < (#[trigger] l[j]).0 }
/// distances whose sums fit (INFINITY itself is u32::MAX / 2)
spec fn sums_fit(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> (#[trigger] a[i]).1 + (#[trigger] b[j]).1 <= u32::MAX }
spec fn common(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>, i: int, j: int) -> bool { 0 <= i < a.len() && 0 <= j < b.len() && a[i].0 == b[j].0 }
/// the pairs with i < p or j < q are accounted for
spec fn seen(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>, p: int, q: int, r: Option<(u32, u32)>) -> bool {
    match r {
        None => forall|i: int, j: int| #[trigger] common(a, b, i, j) ==> i >= p && j >= q,
        Some(x) => (exists|i: int, j: int| #[trigger] common(a, b, i, j) && a[i].0 == x.0 && a[i].1 + b[j].1 == x.1)
            && forall|i: int, j: int| #[trigger] common(a, b, i, j) ==> (i >= p && j >= q) || a[i].1 + b[j].1 >= x.1,
    }
}
/// the least sum over the hubs present in both, with such a hub
spec fn is_best(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>, r: Option<(u32, u32)>) -> bool {
    match r {
        None => forall|i: int, j: int| !#[trigger] common(a, b, i, j),
        Some(x) => (exists|i: int, j: int| #[trigger] common(a, b, i, j) && a[i].0 == x.0 && a[i].1 + b[j].1 == x.1)
            && forall|i: int, j: int| #[trigger] common(a, b, i, j) ==> a[i].1 + b[j].1 >= x.1,
    }
}
/// Peekable::peek of a slice iterator
fn vf_peek<'a, T: Copy>(c: &VfCur<'a, T>) -> (r: Option<T>) requires c.wf() ensures r == (if c.pos < c.s@.len() { Some(c.s@[c.pos as int]) } else { None })
{ if c.pos < c.s.len() { Some(c.s[c.pos]) } else { None } }
impl HubLabels {
    spec fn fits(&self) -> bool {
        &&& forall|u: int, v: int| 0 <= u < self.outgoing@.len() && 0 <= v < self.incoming@.len() ==> sums_fit(#[trigger] self.outgoing@[u]@, #[trigger] self.incoming@[v]@)
        &&& forall|u: int| 0 <= u < self.outgoing@.len() ==> label_ok(#[trigger] self.outgoing@[u]@)
        &&& forall|v: int| 0 <= v < self.incoming@.len() ==> label_ok(#[trigger] self.incoming@[v]@)
    }
//@fn engine/src/algo/hl.rs HubLabels::best_hub
//@rw subopt $x:id.iter().peekable() => vf_cur($x)
//@rw subopt (Some(&&($a:id, $b:id)), Some(&&($c:id, $d:id))) = ($x:id.peek(), $y:id.peek()) => (Some(($a, $b)), Some(($c, $d))) = (vf_peek(&$x), vf_peek(&$y))
//@rw subopt let mut result = None => let mut result: Option<(NodeId, Weight)> = None
//@spec
    requires label_ok(from_out_labels@), label_ok(to_in_labels@), sums_fit(from_out_labels@, to_in_labels@)
    ensures is_best(from_out_labels@, to_in_labels@, r)
//@loop 0
    invariant label_ok(from_out_labels@), label_ok(to_in_labels@), sums_fit(from_out_labels@, to_in_labels@),
        from_iter.wf(), to_iter.wf(), from_iter.s@ == from_out_labels@, to_iter.s@ == to_in_labels@,
        seen(from_out_labels@, to_in_labels@, from_iter.pos as int, to_iter.pos as int, result),
    ensures from_iter.pos >= from_out_labels@.len() || to_iter.pos >= to_in_labels@.len()
    decreases from_out_labels@.len() - from_iter.pos + to_in_labels@.len() - to_iter.pos
//@at loop_start 0
    let ghost p = from_iter.pos as int;
    let ghost q = to_iter.pos as int;
    let ghost r0 = result;
//@at loop_end 0
    proof {
        let a = from_out_labels@; let b = to_in_labels@;
        assert forall|i: int, j: int| #[trigger] common(a, b, i, j) && i >= p && j >= q implies
            (i >= from_iter.pos && j >= to_iter.pos) || (a[p].0 == b[q].0 && i == p && j == q) by {
            if p < i { assert(a[p].0 < a[i].0); } if q < j { assert(b[q].0 < b[j].0); }
        }
        if a[p].0 == b[q].0 { assert(common(a, b, p, q)); }
    }
//@endfn
//@fn engine/src/algo/hl.rs HubLabels::dist
//@rw optmap
//@spec
    requires self.fits(), from < self.outgoing@.len(), to < self.incoming@.len()
    ensures ({
        let a = self.outgoing@[from as int]@; let b = self.incoming@[to as int]@;
        &&& r is None <==> forall|i: int, j: int| !#[trigger] common(a, b, i, j)
        &&& r matches Some(d) ==> (exists|i: int, j: int| #[trigger] common(a, b, i, j) && a[i].1 + b[j].1 == d) && forall|i: int, j: int| #[trigger] common(a, b, i, j) ==> a[i].1 + b[j].1 >= d
    })
//@endfn
//@fn engine/src/algo/hl.rs HubLabels::hub_and_dist
//@spec
    requires self.fits(), from < self.outgoing@.len(), to < self.incoming@.len()
    ensures is_best(self.outgoing@[from as int]@, self.incoming@[to as int]@, r)
//@endfn
}
} // verus!
fn main() {}
