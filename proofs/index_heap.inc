// ---- interface the heap is generic over
trait Indexing { spec fn idx(&self) -> usize; fn as_index(&self) -> (r: usize) ensures r == self.idx(); }

spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == core::cmp::Ordering::Less }
/// the Ord implementation of the element type is a total order and its operators agree with it
spec fn ord_ok<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec() && T::obeys_partial_cmp_spec() && T::obeys_eq_spec()
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == core::cmp::Ordering::Less) <==> (b.cmp_spec(&a) == core::cmp::Ordering::Greater)
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == core::cmp::Ordering::Equal) <==> (b.cmp_spec(&a) == core::cmp::Ordering::Equal)
    &&& forall|a: T, b: T, c: T| !#[trigger] lt(b, a) && !#[trigger] lt(c, b) ==> !lt(c, a)
    &&& forall|a: T| !#[trigger] lt(a, a)
}

//@item engine/src/datastr/index_heap.rs struct IndexdMinHeap
//@item engine/src/datastr/index_heap.rs const TREE_ARITY
const INVALID_POSITION: usize = usize::MAX;

// ---- Hole: the unsafe helper (raw pointer reads/writes) is replaced by its contract.  The hole at
// `pos` holding element `elt` stands for the array with `elt` at `pos`; move_to swaps in that view and
// drop writes the element back.  Contract checked on the real code by the Kani harness kani/hole.rs.
struct VfHole { pos: usize }
impl VfHole {
    fn new<T>(data: &Vec<T>, pos: usize) -> (r: VfHole) requires pos < data@.len() ensures r.pos == pos { VfHole { pos } }
    fn element<'a, T>(&self, data: &'a Vec<T>) -> (r: &'a T) requires self.pos < data@.len() ensures *r == data@[self.pos as int] { &data[self.pos] }
    fn get<'a, T>(&self, data: &'a Vec<T>, index: usize) -> (r: &'a T) requires index < data@.len(), index != self.pos ensures *r == data@[index as int] { &data[index] }
    fn move_to<T>(&mut self, data: &mut Vec<T>, index: usize)
        requires old(self).pos < old(data)@.len(), index < old(data)@.len(), index != old(self).pos
        ensures final(self).pos == index, final(data)@ == old(data)@.update(old(self).pos as int, old(data)@[index as int]).update(index as int, old(data)@[old(self).pos as int])
    { let p = self.pos; data.swap(p, index); self.pos = index; }
}
// ---- Range::min_by_key (std): first position of a minimal key, None iff the range is empty
#[verifier::external_body]
fn vf_min_by_key<T: Ord>(range: std::ops::Range<usize>, hole: &VfHole, data: &Vec<T>) -> (r: Option<usize>)
    requires ord_ok::<T>(), range.start < range.end ==> range.end <= data@.len(), !(range.start <= hole.pos < range.end)
    ensures
        r is None <==> range.start >= range.end,
        r matches Some(k) ==> range.start <= k < range.end && forall|i: int| range.start <= i < range.end ==> !lt(#[trigger] data@[i], data@[k as int]),
{ range.min_by_key(|&i| hole.get(data, i)) }

impl<T: Ord + Indexing> IndexdMinHeap<T> {
    /// the abstract content: id -> element
    spec fn view(&self) -> IMap<usize, T> {
        IMap::new(|id: usize| id < self.positions@.len() && self.positions@[id as int] != INVALID_POSITION, |id: usize| self.data@[self.positions@[id as int] as int])
    }
    spec fn maps_ok(&self) -> bool {
        &&& self.data@.len() <= self.positions@.len() < 0x1000_0000_0000_0000
        &&& forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i]).idx() < self.positions@.len() && self.positions@[self.data@[i].idx() as int] == i
        &&& forall|id: int| 0 <= id < self.positions@.len() && self.positions@[id] != INVALID_POSITION ==>
              (#[trigger] self.positions@[id]) < self.data@.len() && self.data@[self.positions@[id] as int].idx() == id
    }
    spec fn edge_ok(&self, c: int) -> bool { !lt(self.data@[c], self.data@[(c - 1) / 4]) }
    spec fn heap_ok(&self) -> bool { forall|c: int| 0 < c < self.data@.len() ==> #[trigger] self.edge_ok(c) }
    spec fn wf(&self) -> bool { ord_ok::<T>() && self.maps_ok() && self.heap_ok() }

    proof fn lemma_len(&self)
        requires self.maps_ok()
        ensures self.data@.len() <= self.positions@.len()
    {
        let ids = Seq::new(self.data@.len(), |i: int| self.data@[i].idx() as int);
        assert(ids.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by {
                assert(self.positions@[self.data@[i].idx() as int] == i);
                assert(self.positions@[self.data@[j].idx() as int] == j);
            }
        }
        ids.unique_seq_to_set();
        let n = self.positions@.len() as int;
        assert(ids.to_set().subset_of(set_int_range(0, n)));
        lemma_int_range(0, n);
        lemma_len_subset(ids.to_set(), set_int_range(0, n));
    }
    spec fn ids(&self) -> Set<usize> { Seq::new(self.data@.len(), |i: int| self.data@[i].idx()).to_set() }
    /// the ids of the elements are exactly the domain of the content, one element each
    proof fn lemma_ids(&self)
        requires self.maps_ok()
        ensures self.ids().len() == self.data@.len(), forall|id: usize| self.ids().contains(id) <==> self@.dom().contains(id)
    {
        let uids = Seq::new(self.data@.len(), |i: int| self.data@[i].idx());
        assert(uids.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < uids.len() && 0 <= j < uids.len() && i != j implies uids[i] != uids[j] by {
                assert(self.positions@[self.data@[i].idx() as int] == i);
                assert(self.positions@[self.data@[j].idx() as int] == j);
            }
        }
        uids.unique_seq_to_set();
        assert forall|id: usize| self@.dom().contains(id) implies uids.to_set().contains(id) by {
            assert(uids[self.positions@[id as int] as int] == id);
        }
        assert forall|id: usize| uids.to_set().contains(id) implies self@.dom().contains(id) by {
            let k = choose|k: int| 0 <= k < uids.len() && uids[k] == id;
            assert(self.data@[k].idx() == id);
        }
    }
    /// an id that is not contained leaves room for one more element
    proof fn lemma_room(&self, id: usize)
        requires self.maps_ok(), id < self.positions@.len(), self.positions@[id as int] == INVALID_POSITION
        ensures self.data@.len() < self.positions@.len()
    {
        let ids = Seq::new(self.data@.len(), |i: int| self.data@[i].idx() as int);
        assert(ids.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by {
                assert(self.positions@[self.data@[i].idx() as int] == i);
                assert(self.positions@[self.data@[j].idx() as int] == j);
            }
        }
        ids.unique_seq_to_set();
        let n = self.positions@.len() as int;
        self.lemma_len();
        lemma_int_range(0, n);
        let rest = set_int_range(0, n).remove(id as int);
        assert(ids.to_set().subset_of(rest));
        lemma_len_subset(ids.to_set(), rest);
    }
    /// heap order makes the root minimal
    proof fn lemma_root_min(&self, i: int)
        requires self.heap_ok(), ord_ok::<T>(), 0 <= i < self.data@.len()
        ensures !lt(self.data@[i], self.data@[0])
        decreases i
    {
        if i > 0 {
            assert(self.edge_ok(i));
            self.lemma_root_min((i - 1) / 4);
        }
    }

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::new
//@spec
    requires ord_ok::<T>(), max_id < 0x1000_0000_0000_0000
    ensures r.wf(), r@ =~= IMap::<usize, T>::empty(), r.positions@.len() == max_id
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::len
//@spec
    ensures r == self.data@.len(), self.maps_ok() ==> r == self.ids().len()
//@at start
    proof { if self.maps_ok() { self.lemma_ids(); } }
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::is_empty
//@spec
    ensures r == (self.data@.len() == 0), self.maps_ok() ==> r == (self@ =~= IMap::<usize, T>::empty())
//@at start
    proof { if self.maps_ok() { self.lemma_len();
        if self.data@.len() > 0 { assert(self@.dom().contains(self.data@[0].idx())); }
        else { assert forall|id: usize| !self@.dom().contains(id) by {} } } }
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::contains_index
//@spec
    requires id < self.positions@.len()
    ensures r == self@.dom().contains(id)
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::get
//@spec
    requires id < self.positions@.len(), self.maps_ok()
    ensures r matches Some(x) ==> self@.dom().contains(id) && *x == self@[id], r is None ==> !self@.dom().contains(id)
//@at start
    proof { self.lemma_len(); }
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::peek
//@spec
    requires self.wf()
    ensures
        r is None <==> self@ =~= IMap::<usize, T>::empty(),
        r matches Some(x) ==> self@.dom().contains(x.idx()) && self@[x.idx()] == *x && forall|id: usize| self@.dom().contains(id) ==> !lt(#[trigger] self@[id], *x)
//@at start
    proof {
        if self.data@.len() > 0 {
            assert(self@.dom().contains(self.data@[0].idx()));
            assert forall|id: usize| self@.dom().contains(id) implies !lt(#[trigger] self@[id], self.data@[0]) by { self.lemma_root_min(self.positions@[id as int] as int); }
        } else { assert forall|id: usize| !self@.dom().contains(id) by {} }
    }
//@endfn
//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::clear
//@rw for
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= IMap::<usize, T>::empty(), final(self).positions@.len() == old(self).positions@.len()
//@loop 0
    invariant
        self.data == old(self).data, *vf_it0 == self.data, self.positions@.len() == old(self).positions@.len(), vf_i0 <= self.data@.len(),
        old(self).wf(),
        forall|id: int| 0 <= id < self.positions@.len() ==> #[trigger] self.positions@[id] == INVALID_POSITION || (self.positions@[id] == old(self).positions@[id] && self.positions@[id] >= vf_i0),
    decreases self.data@.len() - vf_i0
//@at loop_start 0
    proof { assert(self.positions@.len() == old(self).positions@.len()); assert(old(self).data@[vf_i0 - 1].idx() < old(self).positions@.len()); }
//@at loop_end 0
    proof {
        assert forall|id: int| 0 <= id < self.positions@.len() implies #[trigger] self.positions@[id] == INVALID_POSITION || (self.positions@[id] == old(self).positions@[id] && self.positions@[id] >= vf_i0) by {
            if old(self).positions@[id] == vf_i0 - 1 { assert(old(self).data@[vf_i0 - 1].idx() == id); }
        }
    }
//@at end
    proof { assert(old(self).data@.len() <= old(self).positions@.len()) by { old(self).lemma_len(); }
      assert forall|id: int| 0 <= id < self.positions@.len() implies #[trigger] self.positions@[id] == INVALID_POSITION by {
         if self.positions@[id] != INVALID_POSITION { assert(old(self).positions@[id] < old(self).data@.len()); }
      }
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::pop
//@rw optmap
//@rw sub Some(mut $i:id) => Some(vf_item)
//@rw sub Some({ $b }) => Some({ let mut item = vf_item; $b })
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).positions@.len() == old(self).positions@.len(),
        r is None ==> old(self)@ =~= IMap::<usize, T>::empty() && final(self)@ =~= old(self)@,
        r matches Some(x) ==> {
            &&& old(self)@.dom().contains(x.idx()) && old(self)@[x.idx()] == x
            &&& forall|id: usize| old(self)@.dom().contains(id) ==> !lt(#[trigger] old(self)@[id], x)
            &&& final(self)@ =~= old(self)@.remove(x.idx())
        }
//@at start
    proof {
        if old(self).data@.len() > 0 {
            assert(old(self)@.dom().contains(old(self).data@[0].idx()));
            assert forall|id: usize| old(self)@.dom().contains(id) implies !lt(#[trigger] old(self)@[id], old(self).data@[0]) by { old(self).lemma_root_min(old(self).positions@[id as int] as int); }
            old(self).lemma_len();
        } else { assert forall|id: usize| !old(self)@.dom().contains(id) by {} }
    }
//@at before self.move_down_in_tree(0)
    let ghost mid = *self;
    proof {
        let l = old(self).data@.len() - 1;
        assert(mid.data@ =~= old(self).data@.update(0, old(self).data@[l]).take(l));
        assert(mid.maps_ok());
        assert forall|c: int| 0 < c < mid.data@.len() && (c - 1) / 4 != 0 implies #[trigger] mid.edge_ok(c) by { assert(old(self).edge_ok(c)); }
        assert(mid@ =~= old(self)@.remove(old(self).data@[0].idx()));
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::push_unless_contained
//@spec
    requires old(self).wf(), element.idx() < old(self).positions@.len()
    ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(),
        final(self)@ =~= (if old(self)@.dom().contains(element.idx()) { old(self)@ } else { old(self)@.insert(element.idx(), element) })
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::push
//@spec
    requires old(self).wf(), element.idx() < old(self).positions@.len(), !old(self)@.dom().contains(element.idx())
    ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(),
        final(self)@ =~= old(self)@.insert(element.idx(), element)
//@at start
    proof { old(self).lemma_len(); old(self).lemma_room(element.idx()); }
//@at before self.move_up_in_tree
    proof {
        assert(self.maps_ok());
        assert forall|c: int| 0 < c < self.data@.len() - 1 implies #[trigger] self.edge_ok(c) by { assert(old(self).edge_ok(c)); }
        assert(self@ =~= old(self)@.insert(element.idx(), element));
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::update_key
//@spec
    requires old(self).wf(), element.idx() < old(self).positions@.len(), old(self)@.dom().contains(element.idx())
    ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(),
        final(self)@ =~= (if element.cmp_spec(&old(self)@[element.idx()]) == core::cmp::Ordering::Equal { old(self)@ } else { old(self)@.insert(element.idx(), element) })
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::decrease_key
//@spec
    requires old(self).wf(), element.idx() < old(self).positions@.len(), old(self)@.dom().contains(element.idx()),
        !lt(old(self)@[element.idx()], element)
    ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(), final(self)@ =~= old(self)@.insert(element.idx(), element)
//@at before self.move_up_in_tree
    proof {
        let p = position as int;
        assert(self.data@ =~= old(self).data@.update(p, element));
        assert(self.maps_ok());
        assert forall|c: int| 0 < c < self.data@.len() && c != p implies #[trigger] self.edge_ok(c) by { assert(old(self).edge_ok(c)); }
        assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == p && p > 0 implies !lt(#[trigger] self.data@[c], self.data@[(p - 1) / 4]) by {
            assert(old(self).edge_ok(c)); assert(old(self).edge_ok(p));
            assert(!lt(old(self).data@[c], old(self).data@[p]));
            assert(!lt(old(self).data@[p], old(self).data@[(p - 1) / 4]));
        }
        assert(self@ =~= old(self)@.insert(element.idx(), element));
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::increase_key
//@spec
    requires old(self).wf(), element.idx() < old(self).positions@.len(), old(self)@.dom().contains(element.idx()),
        !lt(element, old(self)@[element.idx()])
    ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(), final(self)@ =~= old(self)@.insert(element.idx(), element)
//@at before self.move_down_in_tree
    proof {
        let p = position as int;
        assert(self.data@ =~= old(self).data@.update(p, element));
        assert(self.maps_ok());
        assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 != p implies #[trigger] self.edge_ok(c) by { assert(old(self).edge_ok(c)); if c == p { assert(!lt(old(self).data@[p], old(self).data@[(p-1)/4])); } }
        assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == p && p > 0 implies !lt(#[trigger] self.data@[c], self.data@[(p - 1) / 4]) by {
            assert(old(self).edge_ok(c)); assert(old(self).edge_ok(p));
            assert(!lt(old(self).data@[c], old(self).data@[p]));
            assert(!lt(old(self).data@[p], old(self).data@[(p - 1) / 4]));
        }
        assert(self@ =~= old(self)@.insert(element.idx(), element));
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::move_up_in_tree
//@rw subopt .get_unchecked( => .vf_get(
//@spec
    requires
        ord_ok::<T>(), old(self).maps_ok(), position < old(self).data@.len(),
        forall|c: int| 0 < c < old(self).data@.len() && c != position ==> #[trigger] old(self).edge_ok(c),
        position > 0 ==> forall|c: int| 0 < c < old(self).data@.len() && (c - 1) / 4 == position ==> !lt(#[trigger] old(self).data@[c], old(self).data@[(position - 1) / 4]),
    ensures final(self).wf(), final(self)@ =~= old(self)@, final(self).positions@.len() == old(self).positions@.len(), final(self).data@.len() == old(self).data@.len()
//@loop 0
    invariant_except_break
        forall|c: int| 0 < c < self.data@.len() && c != position ==> #[trigger] self.edge_ok(c),
        position > 0 ==> forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == position ==> !lt(#[trigger] self.data@[c], self.data@[(position - 1) / 4]),
    invariant
        ord_ok::<T>(), self.maps_ok(), position < self.data@.len(),
        self@ =~= old(self)@, self.positions@.len() == old(self).positions@.len(), self.data@.len() == old(self).data@.len(),
    ensures self.heap_ok()
    decreases position
//@at loop_begin 0
    let ghost pre = *self;
    let ghost p0 = position as int;
//@at loop_end 0
    proof {
        let q = (p0 - 1) / 4;
        assert(q == position as int);
        assert(self.data@ =~= pre.data@.update(q, pre.data@[p0]).update(p0, pre.data@[q]));
        let a = pre.data@[q].idx() as int; let b = pre.data@[p0].idx() as int;
        assert(pre.positions@[a] == q && pre.positions@[b] == p0);
        assert(self.positions@ =~= pre.positions@.update(a, p0 as usize).update(b, q as usize));
        assert forall|i: int| 0 <= i < self.data@.len() implies (#[trigger] self.data@[i]).idx() < self.positions@.len() && self.positions@[self.data@[i].idx() as int] == i by {
            if i == p0 { assert(self.data@[i] == pre.data@[q]); } else if i == q { assert(self.data@[i] == pre.data@[p0]); }
            else { assert(self.data@[i] == pre.data@[i]); assert(pre.positions@[pre.data@[i].idx() as int] == i); }
        }
        assert forall|id: int| 0 <= id < self.positions@.len() && self.positions@[id] != INVALID_POSITION implies
              (#[trigger] self.positions@[id]) < self.data@.len() && self.data@[self.positions@[id] as int].idx() == id by {
            if id != a && id != b { assert(self.positions@[id] == pre.positions@[id]); }
        }
        assert(self@ =~= pre@) by {
            assert forall|id: usize| pre@.dom().contains(id) implies #[trigger] self@[id] == pre@[id] && self@.dom().contains(id) by {
                 if id != a && id != b { assert(self.positions@[id as int] == pre.positions@[id as int]); let k = pre.positions@[id as int] as int; assert(pre.data@[k].idx() == id); assert(k != q && k != p0); assert(self.data@[k] == pre.data@[k]); }
                 else if id == a { assert(self.positions@[id as int] == p0); assert(self.data@[p0] == pre.data@[q]); }
                 else { assert(self.positions@[id as int] == q); assert(self.data@[q] == pre.data@[p0]); }
            }
            assert forall|id: usize| self@.dom().contains(id) implies #[trigger] pre@.dom().contains(id) by { if id != a && id != b { assert(self.positions@[id as int] == pre.positions@[id as int]); } }
        }
        assert(!lt(pre.data@[q], pre.data@[p0]));
        assert forall|c: int| 0 < c < self.data@.len() && c != q implies #[trigger] self.edge_ok(c) by {
            assert(c != p0 ==> pre.edge_ok(c));
            if c == p0 { } else if (c - 1) / 4 == p0 { assert(!lt(pre.data@[c], pre.data@[(p0 - 1) / 4])); }
            else if (c - 1) / 4 == q { assert(!lt(pre.data@[c], pre.data@[q])); }
        }
        if q > 0 {
            assert(pre.edge_ok(q));
            assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == q implies !lt(#[trigger] self.data@[c], self.data@[(q - 1) / 4]) by {
                if c == p0 { } else { assert(pre.edge_ok(c)); assert(!lt(pre.data@[c], pre.data@[q])); assert(!lt(pre.data@[q], pre.data@[(q-1)/4])); }
            }
        }
    }
//@at before break
    proof { assert forall|c: int| 0 < c < self.data@.len() implies #[trigger] self.edge_ok(c) by { if c == position as int { assert(lt(self.data@[(c-1)/4], self.data@[c])); } } }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::move_down_in_tree
//@attr
#[verifier::rlimit(60)]
#[verifier::exec_allows_no_decreases_clause]
//@rw sub $r:chain.min_by_key(|&$c:id| hole.get($c:id)) => vf_min_by_key($r, &hole, &self.data)
//@rw sub Hole::new(&mut self.data, $p) => VfHole::new(&self.data, $p)
//@rw subopt hole.get($a) => hole.get(&self.data, $a)
//@rw subopt hole.element() => hole.element(&self.data)
//@rw subopt hole.move_to($a) => hole.move_to(&mut self.data, $a)
//@rw subopt .get_unchecked_mut( => .vf_get_mut(
//@spec
    requires
        ord_ok::<T>(), old(self).maps_ok(), position < old(self).data@.len(),
        forall|c: int| 0 < c < old(self).data@.len() && (c - 1) / 4 != position ==> #[trigger] old(self).edge_ok(c),
        position > 0 ==> forall|c: int| 0 < c < old(self).data@.len() && (c - 1) / 4 == position ==> !lt(#[trigger] old(self).data@[c], old(self).data@[(position - 1) / 4]),
    ensures final(self).wf(), final(self)@ =~= old(self)@, final(self).positions@.len() == old(self).positions@.len(), final(self).data@.len() == old(self).data@.len()
//@loop 0
    invariant
        ord_ok::<T>(), old(self).maps_ok(), heap_size == self.data@.len(), self.data@.len() == old(self).data@.len(), self.data@.len() < 0x1000_0000_0000_0000, hole.pos < self.data@.len(),
        self.positions@.len() == old(self).positions@.len(),
        // position map right everywhere except for the element in the hole
        vf_hole_ok(*self, *old(self), hole.pos as int),
        forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 != hole.pos ==> #[trigger] self.edge_ok(c),
        hole.pos > 0 ==> forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == hole.pos ==> !lt(#[trigger] self.data@[c], self.data@[(hole.pos - 1) / 4]),
//@at start
    proof { old(self).lemma_len(); }
//@at loop_begin 0
    let ghost pre = *self;
    let ghost p0 = hole.pos as int;
//@at before 0 return
    proof { vf_hole_close(pre, *self, *old(self), p0);
        assert(self.heap_ok()) by { assert forall|c: int| 0 < c < self.data@.len() implies #[trigger] self.edge_ok(c) by {
            if (c - 1) / 4 == p0 { assert(!lt(self.data@[c], self.data@[smallest_child as int])); assert(!lt(self.data@[smallest_child as int], self.data@[p0])); }
            else { assert(pre.edge_ok(c)); } } } }
//@at before 1 return
    proof { vf_hole_close(pre, *self, *old(self), p0);
        assert(self.heap_ok()) by { assert forall|c: int| 0 < c < self.data@.len() implies #[trigger] self.edge_ok(c) by { assert((c - 1) / 4 != p0); assert(pre.edge_ok(c)); } } }
//@at after hole.move_to($z)
    proof {
        let s = hole.pos as int;
        assert((s - 1) / 4 == p0);
        vf_hole_step(pre, *self, *old(self), p0, s);
        assert(self.data@ =~= pre.data@.update(p0, pre.data@[s]).update(s, pre.data@[p0]));
        assert(lt(pre.data@[s], pre.data@[p0]));
        assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 != s implies #[trigger] self.edge_ok(c) by {
            if (c - 1) / 4 == p0 {
                assert(!lt(pre.data@[c], pre.data@[s]));
            } else {
                assert(pre.edge_ok(c));
                if c == p0 { assert((s - 1) / 4 == p0); assert(!lt(pre.data@[s], pre.data@[(p0 - 1) / 4])); }
            }
        }
        assert forall|c: int| 0 < c < self.data@.len() && (c - 1) / 4 == s implies !lt(#[trigger] self.data@[c], self.data@[(s - 1) / 4]) by { assert(pre.edge_ok(c)); }
    }
//@endfn

//@fn engine/src/datastr/index_heap.rs IndexdMinHeap::children_index_range
//@spec
    requires parent_index < 0x1000_0000_0000_0000
    ensures r.start == 4 * parent_index + 1, r.end == vf_min_s(4 * parent_index + 5, heap_size as int)
//@endfn
}

/// the position map while an element is in the hole at p: right for all others; ids keep their elements
spec fn vf_hole_ok<T: Ord + Indexing>(s: IndexdMinHeap<T>, o: IndexdMinHeap<T>, p: int) -> bool {
    &&& s.positions@.len() == o.positions@.len() && s.data@.len() == o.data@.len()
    &&& forall|i: int| 0 <= i < s.data@.len() ==> (#[trigger] s.data@[i]).idx() < s.positions@.len()
    &&& forall|i: int| 0 <= i < s.data@.len() && i != p ==> s.positions@[(#[trigger] s.data@[i]).idx() as int] == i
    &&& forall|id: int| 0 <= id < s.positions@.len() ==> ((#[trigger] s.positions@[id]) == INVALID_POSITION <==> o.positions@[id] == INVALID_POSITION)
    &&& forall|id: int| 0 <= id < s.positions@.len() && o.positions@[id] != INVALID_POSITION && id != s.data@[p].idx() ==>
          (#[trigger] s.positions@[id]) < s.data@.len() && s.positions@[id] != p && s.data@[s.positions@[id] as int] == o.data@[o.positions@[id] as int]
    &&& o.positions@[s.data@[p].idx() as int] != INVALID_POSITION && s.data@[p] == o.data@[o.positions@[s.data@[p].idx() as int] as int]
}
proof fn vf_hole_close<T: Ord + Indexing>(pre: IndexdMinHeap<T>, s: IndexdMinHeap<T>, o: IndexdMinHeap<T>, p: int)
    requires o.maps_ok(), vf_hole_ok(pre, o, p), 0 <= p < pre.data@.len(), s.data@ == pre.data@, s.positions@ == pre.positions@.update(pre.data@[p].idx() as int, p as usize), p < usize::MAX
    ensures s.maps_ok(), s@ =~= o@
{
    let e = pre.data@[p].idx() as int;
    assert forall|i: int| 0 <= i < s.data@.len() implies (#[trigger] s.data@[i]).idx() < s.positions@.len() && s.positions@[s.data@[i].idx() as int] == i by {
        assert(s.data@[i] == pre.data@[i]);
        if i != p {
            assert(pre.positions@[pre.data@[i].idx() as int] == i);
            if s.data@[i].idx() == e {
                // two entries with the same id: excluded, o maps the id to one place
                let k = pre.data@[i].idx() as int;
                assert(false) by { vf_hole_distinct(pre, o, p, i); }
            }
        }
    }
    assert forall|id: int| 0 <= id < s.positions@.len() && s.positions@[id] != INVALID_POSITION implies
        (#[trigger] s.positions@[id]) < s.data@.len() && s.data@[s.positions@[id] as int].idx() == id by {
        if id != e { assert(s.positions@[id] == pre.positions@[id]); assert(o.positions@[id] != INVALID_POSITION); assert(o.data@[o.positions@[id] as int].idx() == id); }
    }
    assert forall|id: usize| o@.dom().contains(id) implies s@.dom().contains(id) && #[trigger] s@[id] == o@[id] by {
        if id != e { assert(s.positions@[id as int] == pre.positions@[id as int]); }
    }
    assert forall|id: usize| s@.dom().contains(id) implies o@.dom().contains(id) by {
        if id != e { assert(s.positions@[id as int] == pre.positions@[id as int]); }
    }
}
/// counting argument: s.data holds each id of o exactly once
proof fn vf_hole_distinct<T: Ord + Indexing>(s: IndexdMinHeap<T>, o: IndexdMinHeap<T>, p: int, i: int)
    requires o.maps_ok(), vf_hole_ok(s, o, p), 0 <= p < s.data@.len(), 0 <= i < s.data@.len(), i != p, s.data@[i].idx() == s.data@[p].idx()
    ensures false
{
    // the ids other than e each occupy their own slot different from p and i: too many for the slots
    let e = s.data@[p].idx();
    let n = s.data@.len() as int;
    o.lemma_ids();
    let f = |id: usize| s.positions@[id as int] as int;
    let others = o.ids().remove(e);
    assert(o@.dom().contains(e));
    let img = others.map(f);
    assert(img.subset_of(set_int_range(0, n).remove(p).remove(i))) by {
        assert forall|k: int| img.contains(k) implies set_int_range(0, n).remove(p).remove(i).contains(k) by {
            let id = choose|id: usize| others.contains(id) && f(id) == k;
            assert(s.positions@[id as int] != INVALID_POSITION);
            if k == i {
                assert(s.data@[i] == o.data@[o.positions@[id as int] as int]);
                assert(o.data@[o.positions@[id as int] as int].idx() == id);
            }
        }
    }
    lemma_int_range(0, n);
    lemma_len_subset(img, set_int_range(0, n).remove(p).remove(i));
    assert(others.injective_on(f)) by {
        assert forall|a: usize, b: usize| others.contains(a) && others.contains(b) && #[trigger] f(a) == #[trigger] f(b) implies a == b by {
            assert(s.data@[f(a)] == o.data@[o.positions@[a as int] as int]);
            assert(s.data@[f(b)] == o.data@[o.positions@[b as int] as int]);
            assert(o.data@[o.positions@[a as int] as int].idx() == a);
            assert(o.data@[o.positions@[b as int] as int].idx() == b);
        }
    }
    lemma_map_size(others, img, f);
    assert(img.len() == n - 1);
    assert(set_int_range(0, n).remove(p).remove(i).len() == n - 2);
}
proof fn vf_hole_step<T: Ord + Indexing>(pre: IndexdMinHeap<T>, s: IndexdMinHeap<T>, o: IndexdMinHeap<T>, p: int, c: int)
    requires o.maps_ok(), vf_hole_ok(pre, o, p), 0 <= p < pre.data@.len(), 0 <= c < pre.data@.len(), c != p, p < usize::MAX,
        s.positions@ == pre.positions@.update(pre.data@[c].idx() as int, p as usize),
        s.data@ == pre.data@.update(p, pre.data@[c]).update(c, pre.data@[p])
    ensures vf_hole_ok(s, o, c)
{
    let a = pre.data@[c].idx() as int; let e = pre.data@[p].idx() as int;
    assert forall|i: int| 0 <= i < s.data@.len() implies (#[trigger] s.data@[i]).idx() < s.positions@.len() by {
        if i != p && i != c { assert(s.data@[i] == pre.data@[i]); } }
    if a == e { vf_hole_distinct(pre, o, p, c); }
    assert(pre.positions@[a] == c);
    assert forall|id: int| 0 <= id < s.positions@.len() implies ((#[trigger] s.positions@[id]) == INVALID_POSITION <==> o.positions@[id] == INVALID_POSITION) by {
        if id == a { assert(pre.positions@[id] == c); } else { assert(s.positions@[id] == pre.positions@[id]); } }
    assert(s.data@[c] == pre.data@[p]);
    assert forall|i: int| 0 <= i < s.data@.len() && i != c implies s.positions@[(#[trigger] s.data@[i]).idx() as int] == i by {
        if i != p { assert(s.data@[i] == pre.data@[i]); assert(pre.positions@[pre.data@[i].idx() as int] == i); }
    }
    assert forall|id: int| 0 <= id < s.positions@.len() && o.positions@[id] != INVALID_POSITION && id != s.data@[c].idx() implies
          (#[trigger] s.positions@[id]) < s.data@.len() && s.positions@[id] != c && s.data@[s.positions@[id] as int] == o.data@[o.positions@[id] as int] by {
        if id == a { assert(pre.positions@[a] == c); assert(pre.data@[pre.positions@[a] as int] == o.data@[o.positions@[a] as int]); }
        else { assert(s.positions@[id] == pre.positions@[id]); let k = pre.positions@[id] as int; assert(k != p);
               if k == c { assert(o.data@[o.positions@[id] as int].idx() == id); assert(false); } }
    }
}
