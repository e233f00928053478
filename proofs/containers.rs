//@include prelude.inc

//@include timestamped.inc
// ---------------------------------------------------------------- ClearlistVector
//@item engine/src/datastr/clearlist_vector.rs struct ClearlistVector
/// PartialEq of the element type is equality
spec fn eq_ok<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b }

impl<T> ClearlistVector<T> {
    spec fn view(&self) -> Seq<T> { self.data@ }
    /// everything that differs from the default is on the clear list
    spec fn wf(&self) -> bool { cl_ok(self.data@, self.clearlist@, self.default) }
}
spec fn listed(cl: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < cl.len() && #[trigger] cl[k] == i }
spec fn cl_ok<T>(data: Seq<T>, cl: Seq<usize>, d: T) -> bool {
    &&& forall|i: int| 0 <= i < data.len() && #[trigger] data[i] != d ==> listed(cl, i)
    &&& forall|k: int| 0 <= k < cl.len() ==> #[trigger] cl[k] < data.len()
}
proof fn cl_update<T>(data: Seq<T>, cl: Seq<usize>, d: T, at: int)
    requires cl_ok(data, cl, d), listed(cl, at), 0 <= at < data.len()
    ensures forall|v: T| cl_ok(#[trigger] data.update(at, v), cl, d)
{
    assert forall|v: T| cl_ok(#[trigger] data.update(at, v), cl, d) by {
        let nd = data.update(at, v);
        assert forall|i: int| 0 <= i < nd.len() && #[trigger] nd[i] != d implies listed(cl, i) by { if i != at { assert(data[i] != d); } }
    }
}
impl<T: Clone + PartialEq> ClearlistVector<T> {
//@fn engine/src/datastr/clearlist_vector.rs ClearlistVector::new
//@rw sub vec![$x; $n] => vf_fill($x, $n)
//@rw subopt $x:chain.clone() => vf_clone(&$x)
//@spec
    ensures r.wf(), r.default == default, r@ =~= Seq::new(size as nat, |i: int| default)
//@endfn

//@fn engine/src/datastr/clearlist_vector.rs ClearlistVector::reset
//@rw for
//@rw subopt $x:chain.clone() => vf_clone(&$x)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).default == old(self).default, final(self)@ =~= Seq::new(old(self)@.len(), |i: int| old(self).default)
//@loop 0
    invariant self.clearlist@ == old(self).clearlist@, self.default == old(self).default, self.data@.len() == old(self).data@.len(), vf_i0 <= self.clearlist@.len(),
        vf_it0@ == self.clearlist@, old(self).wf(),
        forall|k: int| 0 <= k < self.clearlist@.len() ==> #[trigger] self.clearlist@[k] < self.data@.len(),
        forall|i: int| 0 <= i < self.data@.len() && #[trigger] self.data@[i] != self.default ==> exists|k: int| vf_i0 <= k < self.clearlist@.len() && #[trigger] self.clearlist@[k] == i,
    decreases self.clearlist@.len() - vf_i0
//@at before_loop 0
    assert forall|i: int| 0 <= i < self.data@.len() && #[trigger] self.data@[i] != self.default implies exists|k: int| 0 <= k < self.clearlist@.len() && #[trigger] self.clearlist@[k] == i by { assert(listed(self.clearlist@, i)); }
//@endfn

//@fn engine/src/datastr/clearlist_vector.rs Index for ClearlistVector::index
//@spec
    requires self.wf(), index < self@.len()
    ensures *r == self@[index as int]
//@endfn

//@fn engine/src/datastr/clearlist_vector.rs IndexMut for ClearlistVector::index_mut
//@spec
    requires old(self).wf(), index < old(self)@.len(), eq_ok::<T>()
    ensures *r == old(self)@[index as int], final(self).wf(), final(self).default == old(self).default, final(self)@ =~= old(self)@.update(index as int, *final(r))
//@at end
    proof {
        let cl = self.clearlist@; let ocl = old(self).clearlist@;
        assert forall|i: int| listed(ocl, i) implies listed(cl, i) by {
            let k = choose|k: int| 0 <= k < ocl.len() && #[trigger] ocl[k] == i;
            assert(cl[k] == i);
        }
        if old(self).data@[index as int] == self.default { assert(cl[cl.len() - 1] == index); }
        assert forall|k: int| 0 <= k < cl.len() implies #[trigger] cl[k] < self.data@.len() by { if k < ocl.len() { assert(cl[k] == ocl[k]); } }
        cl_update(self.data@, cl, self.default, index as int);
    }
//@endfn
}
} // verus!
fn main() {}
