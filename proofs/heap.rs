//@include prelude.inc

spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == core::cmp::Ordering::Less }
/// the Ord implementation of the element type is a total preorder and its operators agree with it
spec fn ord_ok<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec() && T::obeys_partial_cmp_spec() && T::obeys_eq_spec()
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == core::cmp::Ordering::Less) <==> (b.cmp_spec(&a) == core::cmp::Ordering::Greater)
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == core::cmp::Ordering::Equal) <==> (b.cmp_spec(&a) == core::cmp::Ordering::Equal)
    &&& forall|a: T, b: T, c: T| !#[trigger] lt(b, a) && !#[trigger] lt(c, b) ==> !lt(c, a)
    &&& forall|a: T| !#[trigger] lt(a, a)
}

//@item engine/src/datastr/heap.rs struct Heap

// ---- Hole: the unsafe helper (raw pointer reads/writes) is replaced by its contract.  The hole at
// `pos` holding element `elt` stands for the array with `elt` at `pos`; move_to swaps in that view and
// drop writes the element back.  Contract checked on the real code by the Kani harness kani/heap_hole.
struct VfHole { pos: usize }
impl VfHole {
    fn new<T>(data: &Vec<T>, pos: usize) -> (r: VfHole) requires pos < data@.len() ensures r.pos == pos { VfHole { pos } }
    fn pos(&self) -> (r: usize) ensures r == self.pos { self.pos }
    fn element<'a, T>(&self, data: &'a Vec<T>) -> (r: &'a T) requires self.pos < data@.len() ensures *r == data@[self.pos as int] { &data[self.pos] }
    fn get<'a, T>(&self, data: &'a Vec<T>, index: usize) -> (r: &'a T) requires index < data@.len(), index != self.pos ensures *r == data@[index as int] { &data[index] }
    fn move_to<T>(&mut self, data: &mut Vec<T>, index: usize)
        requires old(self).pos < old(data)@.len(), index < old(data)@.len(), index != old(self).pos
        ensures final(self).pos == index, final(data)@ == old(data)@.update(old(self).pos as int, old(data)@[index as int]).update(index as int, old(data)@[old(self).pos as int])
    { let p = self.pos; data.swap(p, index); self.pos = index; }
}
/// bool as usize
fn vf_b2u(b: bool) -> (r: usize) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }

/// a filter that answers consistently (FnMut in the real signature)
trait VfPred<T> {
    spec fn ok(&self, a: T) -> bool;
    fn call(&mut self, a: &T) -> (r: bool) ensures r == old(self).ok(*a), forall|x: T| #[trigger] final(self).ok(x) == old(self).ok(x);
}
/// std: Vec::retain keeps exactly the elements the closure accepted, in order
#[verifier::external_body]
fn vf_retain<T>(data: &mut Vec<T>, keep: &Vec<bool>, Ghost(ok): Ghost<spec_fn(T) -> bool>)
    requires keep@.len() == old(data)@.len(), forall|i: int| 0 <= i < keep@.len() ==> #[trigger] keep@[i] == ok(old(data)@[i])
    ensures final(data)@ == old(data)@.filter(ok)
{ let mut i = 0; data.retain(|_| { i += 1; keep[i - 1] }) }

spec fn edge<T: Ord>(d: Seq<T>, c: int) -> bool { !lt(d[(c - 1) / 2], d[c]) }
/// the first n entries are a heap: no entry is smaller than one of its children
spec fn hok<T: Ord>(d: Seq<T>, n: int) -> bool { forall|c: int| 0 < c < n ==> #[trigger] edge(d, c) }
spec fn limit() -> int { 0x0800_0000_0000_0000 }
/// the same elements in the first n places, everything else unchanged
spec fn shuffled<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& a.take(n).to_multiset() == b.take(n).to_multiset()
}
proof fn lemma_swap<T>(a: Seq<T>, n: int, i: int, j: int)
    requires 0 <= i < n <= a.len(), 0 <= j < n
    ensures shuffled(a, a.update(i, a[j]).update(j, a[i]), n)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = a.take(n);
    let b = a.update(i, a[j]).update(j, a[i]);
    assert(b.take(n) =~= s.update(i, s[j]).update(j, s[i]));
    let s1 = s.update(i, s[j]);
    assert(s1.to_multiset() =~= s.to_multiset().insert(s[j]).remove(s[i]));
    assert(s1.update(j, s[i]).to_multiset() =~= s1.to_multiset().insert(s[i]).remove(s1[j]));
    assert(s.to_multiset().contains(s[i]));
    assert(b.take(n).to_multiset() =~= s.to_multiset());
}
/// heap order makes the root a greatest entry
proof fn lemma_root_max<T: Ord>(d: Seq<T>, n: int, i: int)
    requires hok(d, n), ord_ok::<T>(), 0 <= i < n <= d.len()
    ensures !lt(d[0], d[i])
    decreases i
{
    if i > 0 {
        assert(edge(d, i));
        lemma_root_max(d, n, (i - 1) / 2);
    }
}
proof fn lemma_take_mset<T>(d: Seq<T>, k: int)
    requires 0 <= k < d.len()
    ensures d.take(k + 1).to_multiset() == d.take(k).to_multiset().insert(d[k])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(d.take(k + 1) =~= d.take(k).push(d[k]));
}
proof fn lemma_skip_mset<T>(d: Seq<T>, k: int)
    requires 0 <= k < d.len()
    ensures d.skip(k).to_multiset() == d.skip(k + 1).to_multiset().insert(d[k])
{
    assert(d.skip(k) =~= seq![d[k]] + d.skip(k + 1));
    vstd::seq_lib::lemma_multiset_commutative(seq![d[k]], d.skip(k + 1));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(seq![d[k]] =~= Seq::<T>::empty().push(d[k]));
    assert(seq![d[k]].to_multiset() =~= Multiset::<T>::empty().insert(d[k]));
    assert(d.skip(k).to_multiset() =~= d.skip(k + 1).to_multiset().insert(d[k]));
}
proof fn lemma_mset_contains<T>(d: Seq<T>, x: T)
    requires d.to_multiset().count(x) > 0
    ensures d.contains(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(d.to_multiset().contains(x)); }
proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_all(s.drop_last(), p); assert(s =~= s.drop_last().push(s.last())); }
    else { assert(s.filter(p) =~= s); }
}

impl<T: Ord> Heap<T> {
    /// the elements not popped yet
    spec fn live(&self) -> Multiset<T> { self.data@.take(self.split as int).to_multiset() }
    /// the popped (settled) elements, in the order popped() lists them
    spec fn settled(&self) -> Seq<T> { self.data@.skip(self.split as int) }
    spec fn wf(&self) -> bool { ord_ok::<T>() && self.split <= self.data@.len() && self.data@.len() < limit() && hok(self.data@, self.split as int) }

//@fn engine/src/datastr/heap.rs Heap::new
//@sig fn new() -> (r: Self)
//@spec
    requires ord_ok::<T>()
    ensures r.wf(), r.live() =~= Multiset::<T>::empty(), r.settled() =~= Seq::<T>::empty()
//@at start
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(Seq::<T>::empty().take(0) =~= Seq::<T>::empty()); assert(Seq::<T>::empty().to_multiset().len() == 0); }
//@endfn

//@fn engine/src/datastr/heap.rs Heap::pop
//@spec
    requires old(self).wf()
    ensures final(self).wf(),
        r is None ==> final(self).live() == old(self).live() && old(self).live() =~= Multiset::<T>::empty() && final(self).settled() == old(self).settled(),
        r matches Some(x) ==> {
            &&& old(self).live().count(*x) > 0
            &&& forall|y: T| #[trigger] old(self).live().count(y) > 0 ==> !lt(*x, y)
            &&& final(self).live() =~= old(self).live().remove(*x)
            &&& final(self).settled() =~= seq![*x] + old(self).settled()
        }
//@at start
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let d = old(self).data@; let n = old(self).split as int;
        if n > 0 {
            let m = d.take(n);
            assert(m[0] == d[0]); assert(m.to_multiset().contains(d[0]));
            assert forall|y: T| #[trigger] old(self).live().count(y) > 0 implies !lt(d[0], y) by {
                lemma_mset_contains(m, y); let i = choose|i: int| 0 <= i < m.len() && m[i] == y; lemma_root_max(d, n, i);
            }
            lemma_take_mset(d, n - 1);
            let sw = d.update(0, d[n - 1]).update(n - 1, d[0]);
            lemma_swap(d, n, 0, n - 1);
            lemma_take_mset(sw, n - 1);
            assert(sw.take(n).to_multiset() == m.to_multiset());
            assert(sw.take(n - 1).to_multiset() =~= m.to_multiset().remove(d[0]));
            if n == 1 { assert(sw =~= d); }
            assert(sw.skip(n - 1) =~= seq![d[0]] + d.skip(n));
            if n >= 2 { assert forall|c: int| 0 < c < n - 1 && (c - 1) / 2 != 0 implies #[trigger] edge(sw, c) by { assert(edge(d, c)); } }
        } else { assert(d.take(0) =~= Seq::<T>::empty()); assert(Seq::<T>::empty().to_multiset().len() == 0); }
    }
//@at end
    proof { if old(self).split > 1 { assert(self.data@.skip(self.split as int) =~= old(self).data@.update(0, old(self).data@[old(self).split - 1]).update(old(self).split - 1, old(self).data@[0]).skip(old(self).split - 1)); } }
//@endfn

//@fn engine/src/datastr/heap.rs Heap::push
//@rw sub self.sift_up($a, $b) => self.sift_up($a, $b, Ghost($b + 1))
//@spec
    requires old(self).wf(), old(self).data@.len() + 1 < limit()
    ensures final(self).wf(), final(self).live() =~= old(self).live().insert(item), final(self).settled().to_multiset() == old(self).settled().to_multiset()
//@at start
    let ghost mut mid = self.data@;
//@at before self.sift_up
    proof {
        mid = self.data@;
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let d = old(self).data@; let n = old(self).split as int; let p = d.push(item); let m = self.data@; let l = d.len() as int;
        assert(m =~= p.update(n, item).update(l, p[n]));
        assert(m.take(n + 1) =~= d.take(n).push(item));
        if n < l {
            assert(m.skip(n + 1) =~= d.skip(n).drop_first().push(d[n]));
            lemma_skip_mset(d, n);
            assert(d.skip(n).drop_first() =~= d.skip(n + 1));
            assert(m.skip(n + 1).to_multiset() =~= d.skip(n).to_multiset());
        } else { assert(m.skip(n + 1) =~= d.skip(n)); }
        assert forall|c: int| 0 < c < n + 1 && c != n implies #[trigger] edge(m, c) by { assert(edge(d, c)); }
    }
//@at end
    proof { assert(self.data@.skip(self.split as int) =~= mid.skip(self.split as int)); }
//@endfn

//@fn engine/src/datastr/heap.rs Heap::sift_up
//@sig fn sift_up(&mut self, start: usize, pos: usize, Ghost(n): Ghost<int>) -> (r: usize)
//@rw sub Hole::new(&mut self.data, $p) => VfHole::new(&self.data, $p)
//@rw subopt hole.get($a) => hole.get(&self.data, $a)
//@rw subopt hole.element() => hole.element(&self.data)
//@rw subopt hole.move_to($a) => hole.move_to(&mut self.data, $a)
//@spec
    requires ord_ok::<T>(), start == 0, pos < n <= old(self).data@.len() < limit(),
        forall|c: int| 0 < c < n && c != pos ==> #[trigger] edge(old(self).data@, c),
        pos > 0 ==> forall|c: int| 0 < c < n && (c - 1) / 2 == pos ==> !lt(old(self).data@[(pos - 1) / 2], #[trigger] old(self).data@[c]),
    ensures hok(final(self).data@, n), shuffled(old(self).data@, final(self).data@, n), final(self).split == old(self).split
//@loop 0
    invariant_except_break
        forall|c: int| 0 < c < n && c != hole.pos ==> #[trigger] edge(self.data@, c),
        hole.pos > 0 ==> forall|c: int| 0 < c < n && (c - 1) / 2 == hole.pos ==> !lt(self.data@[(hole.pos - 1) / 2], #[trigger] self.data@[c]),
    invariant
        ord_ok::<T>(), start == 0, hole.pos < n <= self.data@.len() < limit(), shuffled(old(self).data@, self.data@, n), self.split == old(self).split,
    ensures hok(self.data@, n)
    decreases hole.pos
//@at before break
    proof { assert forall|c: int| 0 < c < n implies #[trigger] edge(self.data@, c) by { if c == hole.pos { assert((c - 1) / 2 == parent); } } }
//@at loop_begin 0
    let ghost pre = self.data@;
    let ghost p0 = hole.pos as int;
//@at loop_end 0
    proof {
        let q = (p0 - 1) / 2;
        assert(hole.pos == q);
        lemma_swap(pre, n, p0, q);
        assert(self.data@ =~= pre.update(p0, pre[q]).update(q, pre[p0]));
        assert(pre[q].cmp_spec(&pre[p0]) == core::cmp::Ordering::Less); assert(pre[p0].cmp_spec(&pre[q]) == core::cmp::Ordering::Greater); assert(!lt(pre[p0], pre[q]));
        assert forall|c: int| 0 < c < n && c != q implies #[trigger] edge(self.data@, c) by {
            if c == p0 { assert(pre[q].cmp_spec(&pre[p0]) == core::cmp::Ordering::Less); assert(pre[p0].cmp_spec(&pre[q]) == core::cmp::Ordering::Greater); }
            else if (c - 1) / 2 == p0 { assert(!lt(pre[(p0 - 1) / 2], pre[c])); }
            else if (c - 1) / 2 == q { assert(edge(pre, c)); assert(!lt(pre[q], pre[c])); }
            else { assert(edge(pre, c)); }
        }
        if q > 0 {
            assert(edge(pre, q));
            assert forall|c: int| 0 < c < n && (c - 1) / 2 == q implies !lt(self.data@[(q - 1) / 2], #[trigger] self.data@[c]) by {
                if c == p0 { } else { assert(edge(pre, c)); assert(!lt(pre[q], pre[c])); assert(!lt(pre[(q - 1) / 2], pre[q])); }
            }
        }
    }
//@endfn

//@fn engine/src/datastr/heap.rs Heap::sift_down_range
//@rw sub Hole::new(&mut self.data, $p) => VfHole::new(&self.data, $p)
//@rw subopt hole.get($a) => hole.get(&self.data, $a)
//@rw subopt hole.element() => hole.element(&self.data)
//@rw subopt hole.move_to($a) => hole.move_to(&mut self.data, $a)
//@rw subopt child += $a as usize; => child += vf_b2u($a);
//@spec
    requires ord_ok::<T>(), pos < end <= old(self).data@.len() < limit(),
        forall|c: int| 0 < c < end && (c - 1) / 2 > pos ==> #[trigger] edge(old(self).data@, c),
    ensures forall|c: int| 0 < c < end && (c - 1) / 2 >= pos ==> #[trigger] edge(final(self).data@, c),
        shuffled(old(self).data@, final(self).data@, end as int), final(self).split == old(self).split
//@loop 0
    invariant
        ord_ok::<T>(), pos <= hole.pos < end <= self.data@.len() < limit(), child == 2 * hole.pos + 1,
        shuffled(old(self).data@, self.data@, end as int), self.split == old(self).split,
        forall|c: int| 0 < c < end && (c - 1) / 2 >= pos && (c - 1) / 2 != hole.pos ==> #[trigger] edge(self.data@, c),
        hole.pos > pos ==> forall|c: int| 0 < c < end && (c - 1) / 2 == hole.pos ==> !lt(self.data@[(hole.pos - 1) / 2], #[trigger] self.data@[c]),
        hole.pos > pos ==> (hole.pos - 1) / 2 >= pos,
    decreases end - hole.pos
//@at loop_begin 0
    let ghost pre = self.data@;
    let ghost p0 = hole.pos as int;
//@at before 0 return
    proof {
        assert forall|c: int| 0 < c < end && (c - 1) / 2 >= pos implies #[trigger] edge(self.data@, c) by {
            if (c - 1) / 2 == p0 { assert(c == 2 * p0 + 1 || c == 2 * p0 + 2); assert(!lt(self.data@[p0], self.data@[child as int])); assert(!lt(self.data@[child as int], self.data@[c])); }
        }
    }
//@at loop_end 0
    proof { vf_down(pre, self.data@, pos as int, p0, hole.pos as int, end as int); }
//@at past_loop 0
    let ghost pre = self.data@;
    let ghost p0 = hole.pos as int;
//@at finish
    proof {
        if hole.pos != p0 { vf_down(pre, self.data@, pos as int, p0, hole.pos as int, end as int); }
        assert forall|c: int| 0 < c < end && (c - 1) / 2 >= pos implies #[trigger] edge(self.data@, c) by {
            if hole.pos == p0 && (c - 1) / 2 == p0 { assert(c == 2 * p0 + 1 || c == 2 * p0 + 2); assert(c == end - 1 && c == child); }
        }
    }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::sift_down
//@spec
    requires ord_ok::<T>(), pos < old(self).split <= old(self).data@.len() < limit(),
        forall|c: int| 0 < c < old(self).split && (c - 1) / 2 > pos ==> #[trigger] edge(old(self).data@, c),
    ensures forall|c: int| 0 < c < final(self).split && (c - 1) / 2 >= pos ==> #[trigger] edge(final(self).data@, c),
        shuffled(old(self).data@, final(self).data@, old(self).split as int), final(self).split == old(self).split
//@endfn
//@fn engine/src/datastr/heap.rs Heap::sift_down_to_bottom
//@rw sub Hole::new(&mut self.data, $p) => VfHole::new(&self.data, $p)
//@rw subopt hole.get($a) => hole.get(&self.data, $a)
//@rw subopt hole.element() => hole.element(&self.data)
//@rw subopt hole.move_to($a) => hole.move_to(&mut self.data, $a)
//@rw subopt child += $a as usize; => child += vf_b2u($a);
//@rw subopt drop(hole); => ;
//@rw sub self.sift_up($a, $b) => self.sift_up($a, $b, Ghost(end as int))
//@spec
    requires ord_ok::<T>(), pos == 0, 0 < old(self).split <= old(self).data@.len() < limit(),
        forall|c: int| 0 < c < old(self).split && (c - 1) / 2 != 0 ==> #[trigger] edge(old(self).data@, c),
    ensures hok(final(self).data@, old(self).split as int), shuffled(old(self).data@, final(self).data@, old(self).split as int), final(self).split == old(self).split
//@loop 0
    invariant
        ord_ok::<T>(), hole.pos < end <= self.data@.len() < limit(), child == 2 * hole.pos + 1, end == old(self).split,
        shuffled(old(self).data@, self.data@, end as int), self.split == old(self).split,
        forall|c: int| 0 < c < end && c != hole.pos && (c - 1) / 2 != hole.pos ==> #[trigger] edge(self.data@, c),
        hole.pos > 0 ==> forall|c: int| 0 < c < end && (c - 1) / 2 == hole.pos ==> !lt(self.data@[(hole.pos - 1) / 2], #[trigger] self.data@[c]),
    decreases end - hole.pos
//@at loop_begin 0
    let ghost pre = self.data@;
    let ghost p0 = hole.pos as int;
//@at loop_end 0
    proof { vf_sink(pre, self.data@, p0, hole.pos as int, end as int); }
//@at past_loop 0
    let ghost pre = self.data@;
    let ghost p0 = hole.pos as int;
//@at before pos = hole.pos()
    proof { if hole.pos != p0 { vf_sink(pre, self.data@, p0, hole.pos as int, end as int); } }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::rebuild_tail
//@rw subopt tail_len * log2_fast($e) => vf_mul64(tail_len, log2_fast($e))
//@rw sub #[inline(always)] fn log2_fast($x:id: usize) -> usize { $b } => ;
//@rw sub self.sift_up($a, $b) => self.sift_up($a, $b, Ghost($b + 1))
//@rw for
//@spec
    requires ord_ok::<T>(), start <= old(self).split <= old(self).data@.len() < limit(), hok(old(self).data@, start as int)
    ensures final(self).wf(), final(self).split == old(self).split, shuffled(old(self).data@, final(self).data@, old(self).split as int)
//@loop 0
    invariant ord_ok::<T>(), start <= vf_i0 <= vf_e0, vf_e0 == self.split, self.split == old(self).split, self.split <= self.data@.len() < limit(), hok(self.data@, vf_i0 as int), shuffled(old(self).data@, self.data@, self.split as int)
    decreases vf_e0 - vf_i0
//@at loop_start 0
    let ghost pre = self.data@;
//@at loop_end 0
    proof { lemma_widen(pre, self.data@, vf_i0 as int, self.split as int); }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::rebuild
//@spec
    requires ord_ok::<T>(), old(self).split <= old(self).data@.len() < limit()
    ensures final(self).wf(), final(self).split == old(self).split, shuffled(old(self).data@, final(self).data@, old(self).split as int)
//@loop 0
    invariant ord_ok::<T>(), n <= self.split / 2, self.split == old(self).split, self.split <= self.data@.len() < limit(),
        forall|c: int| 0 < c < self.split && (c - 1) / 2 >= n ==> #[trigger] edge(self.data@, c),
        shuffled(old(self).data@, self.data@, self.split as int)
    decreases n
//@endfn
//@fn engine/src/datastr/heap.rs Heap::retain
//@sig fn retain<F: VfPred<T>>(&mut self, mut f: F)
//@rw sub self.data.retain(|$e:id| { $b }) => let mut vf_keep: Vec<bool> = Vec::new(); while vf_keep.len() < self.data.len() { let $e = &self.data[vf_keep.len()]; let vf_b: bool = { $b }; vf_keep.push(vf_b); } vf_retain(&mut self.data, &vf_keep, Ghost(vf_p))
//@rw subopt f($e) => f.call($e)
//@rw subopt let mut i = 0; => let mut i: usize = 0;
//@rw subopt let mut removed_from_heap = 0; => let mut removed_from_heap: usize = 0;
//@spec
    requires old(self).wf()
    ensures final(self).wf(),
        final(self).live() == old(self).data@.take(old(self).split as int).filter(|x: T| f.ok(x)).to_multiset(),
        final(self).settled() == old(self).settled().filter(|x: T| f.ok(x)),
//@at start
    let ghost vf_p = |x: T| f.ok(x);
    let ghost d = self.data@;
    let ghost n = self.split as int;
    let ghost f0 = f;
//@loop 0
    invariant self.data@ == d, self.split == n, n <= d.len() < limit(), i == vf_keep@.len(), i <= d.len(),
        forall|x: T| #[trigger] f.ok(x) == f0.ok(x), vf_p == (|x: T| f0.ok(x)),
        forall|k: int| 0 <= k < i ==> #[trigger] vf_keep@[k] == vf_p(d[k]),
        removed_from_heap <= i, removed_from_heap <= n,
        vf_count(d, vf_p, vf_min_s(i as int, n)) == vf_min_s(i as int, n) - removed_from_heap,
        first_removed <= n, forall|k: int| 0 <= k < i && k < first_removed ==> vf_p(#[trigger] d[k]),
        first_removed < n ==> first_removed < i,
    decreases d.len() - i
//@at before self.rebuild_tail
    let ghost mid = self.data@;
    proof {
        assert(i == d.len());
        vf_retained(d, mid, vf_p, n, self.split as int, first_removed as int);
    }
//@at end
    proof { assert(self.data@.skip(self.split as int) =~= mid.skip(self.split as int)); }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::peek
//@spec
    requires self.wf()
    ensures r is None <==> self.live() =~= Multiset::<T>::empty(),
        r matches Some(x) ==> self.live().count(*x) > 0 && forall|y: T| #[trigger] self.live().count(y) > 0 ==> !lt(*x, y)
//@at start
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let d = self.data@; let n = self.split as int; let m = d.take(n);
        if n > 0 {
            assert(m[0] == d[0]); assert(m.to_multiset().contains(d[0]));
            assert(m.to_multiset().count(d[0]) > 0);
            assert forall|y: T| #[trigger] self.live().count(y) > 0 implies !lt(d[0], y) by {
                lemma_mset_contains(m, y); let i = choose|i: int| 0 <= i < m.len() && m[i] == y; lemma_root_max(d, n, i);
            }
        } else { assert(m.to_multiset().len() == 0); }
    }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::clear
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).live() =~= Multiset::<T>::empty(), final(self).settled() =~= Seq::<T>::empty()
//@at end
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(self.data@.take(0).to_multiset().len() == 0); }
//@endfn
//@fn engine/src/datastr/heap.rs Heap::popped
//@rw sub &self.data[self.split..] => vf_suffix(&self.data, self.split)
//@spec
    requires self.wf()
    ensures r@ == self.settled()
//@endfn
}
/// a product that cannot overflow
fn vf_mul64(a: usize, b: usize) -> (r: usize) requires a < 0x10000, b < 64 ensures r == a * b { assert(a * b < 0x400000) by (nonlinear_arith) requires a < 0x10000, b < 64; a * b }
/// &v[k..] (std)
#[verifier::external_body]
fn vf_suffix<T>(v: &Vec<T>, k: usize) -> (r: &[T]) requires k <= v@.len() ensures r@ == v@.skip(k as int) { &v[k..] }
/// std: leading_zeros of a nonzero number is below the number of bits
pub assume_specification [usize::leading_zeros] (x: usize) -> (r: u32) ensures r <= 64, x > 0 ==> r < 64;
//@fn engine/src/datastr/heap.rs nested Heap::rebuild_tail::log2_fast
//@spec
    requires x > 0
    ensures r < 64
//@endfn

/// one step down: the greater child moves into the hole
proof fn vf_down<T: Ord>(a: Seq<T>, b: Seq<T>, pos: int, p0: int, c0: int, end: int)
    requires ord_ok::<T>(), 0 <= pos <= p0 < c0 < end <= a.len(), (c0 - 1) / 2 == p0, b == a.update(p0, a[c0]).update(c0, a[p0]),
        !lt(a[c0], a[p0]),
        forall|c: int| 0 < c < end && (c - 1) / 2 == p0 ==> !lt(a[c0], #[trigger] a[c]),
        forall|c: int| 0 < c < end && (c - 1) / 2 >= pos && (c - 1) / 2 != p0 ==> #[trigger] edge(a, c),
        p0 > pos ==> forall|c: int| 0 < c < end && (c - 1) / 2 == p0 ==> !lt(a[(p0 - 1) / 2], #[trigger] a[c]),
        p0 > pos ==> (p0 - 1) / 2 >= pos,
    ensures shuffled(a, b, end),
        forall|c: int| 0 < c < end && (c - 1) / 2 >= pos && (c - 1) / 2 != c0 ==> #[trigger] edge(b, c),
        forall|c: int| 0 < c < end && (c - 1) / 2 == c0 ==> !lt(b[p0], #[trigger] b[c]),
{
    lemma_swap(a, end, p0, c0);
    assert forall|c: int| 0 < c < end && (c - 1) / 2 >= pos && (c - 1) / 2 != c0 implies #[trigger] edge(b, c) by {
        if (c - 1) / 2 == p0 { assert(!lt(a[c0], a[c])); }
        else { assert(edge(a, c)); if c == p0 { assert(!lt(a[(p0 - 1) / 2], a[c0])); } }
    }
    assert forall|c: int| 0 < c < end && (c - 1) / 2 == c0 implies !lt(b[p0], #[trigger] b[c]) by { assert(edge(a, c)); }
}
proof fn vf_sink<T: Ord>(a: Seq<T>, b: Seq<T>, p0: int, c0: int, end: int)
    requires ord_ok::<T>(), 0 <= p0 < c0 < end <= a.len(), (c0 - 1) / 2 == p0, b == a.update(p0, a[c0]).update(c0, a[p0]),
        forall|c: int| 0 < c < end && (c - 1) / 2 == p0 ==> !lt(a[c0], #[trigger] a[c]),
        forall|c: int| 0 < c < end && c != p0 && (c - 1) / 2 != p0 ==> #[trigger] edge(a, c),
        p0 > 0 ==> forall|c: int| 0 < c < end && (c - 1) / 2 == p0 ==> !lt(a[(p0 - 1) / 2], #[trigger] a[c]),
    ensures shuffled(a, b, end),
        forall|c: int| 0 < c < end && c != c0 && (c - 1) / 2 != c0 ==> #[trigger] edge(b, c),
        forall|c: int| 0 < c < end && (c - 1) / 2 == c0 ==> !lt(b[p0], #[trigger] b[c]),
{
    lemma_swap(a, end, p0, c0);
    assert forall|c: int| 0 < c < end && c != c0 && (c - 1) / 2 != c0 implies #[trigger] edge(b, c) by {
        if (c - 1) / 2 == p0 { assert(!lt(a[c0], a[c])); }
        else if c == p0 { assert(!lt(a[(p0 - 1) / 2], a[c0])); }
        else { assert(edge(a, c)); }
    }
    assert forall|c: int| 0 < c < end && (c - 1) / 2 == c0 implies !lt(b[p0], #[trigger] b[c]) by { assert(edge(a, c)); }
}
proof fn lemma_widen<T>(a: Seq<T>, b: Seq<T>, k: int, n: int)
    requires shuffled(a, b, k), 0 <= k <= n <= a.len()
    ensures shuffled(a, b, n)
{
    assert(a.take(n) =~= a.take(k) + a.take(n).skip(k));
    assert(b.take(n) =~= b.take(k) + a.take(n).skip(k));
    vstd::seq_lib::lemma_multiset_commutative(a.take(k), a.take(n).skip(k));
    vstd::seq_lib::lemma_multiset_commutative(b.take(k), a.take(n).skip(k));
}
proof fn vf_retained<T: Ord>(d: Seq<T>, mid: Seq<T>, p: spec_fn(T) -> bool, n: int, k: int, fr: int)
    requires 0 <= fr <= n <= d.len(), hok(d, n), mid == d.filter(p), vf_count(d, p, n) == k, forall|i: int| 0 <= i < fr ==> p(#[trigger] d[i])
    ensures fr <= k <= mid.len() <= d.len(), hok(mid, fr), mid.take(k) == d.take(n).filter(p), mid.skip(k) == d.skip(n).filter(p)
{
    assert(d =~= d.take(n) + d.skip(n));
    Seq::filter_distributes_over_add(d.take(n), d.skip(n), p);
    vf_count_is(d, p, n);
    assert(mid =~= d.take(n).filter(p) + d.skip(n).filter(p));
    assert(mid.take(k) =~= d.take(n).filter(p));
    assert(mid.skip(k) =~= d.skip(n).filter(p));
    let mt = d.skip(fr).take(n - fr);
    assert(d.take(n) =~= d.take(fr) + mt);
    Seq::filter_distributes_over_add(d.take(fr), mt, p);
    lemma_filter_all(d.take(fr), p);
    let pre = mid.take(k);
    assert(pre =~= d.take(fr) + mt.filter(p));
    assert forall|c: int| 0 < c < fr implies #[trigger] edge(mid, c) by {
        assert(edge(d, c)); assert(mid[c] == pre[c]); assert(mid[(c - 1) / 2] == pre[(c - 1) / 2]);
        assert(d.take(fr)[c] == d[c]); assert(d.take(fr)[(c - 1) / 2] == d[(c - 1) / 2]);
    }
    vf_filter_len(d, p);
}
spec fn vf_count<T>(d: Seq<T>, p: spec_fn(T) -> bool, k: int) -> int decreases k { if k <= 0 { 0 } else { vf_count(d, p, k - 1) + if p(d[k - 1]) { 1int } else { 0 } } }
proof fn vf_count_is<T>(d: Seq<T>, p: spec_fn(T) -> bool, k: int)
    requires 0 <= k <= d.len()
    ensures d.take(k).filter(p).len() == vf_count(d, p, k)
    decreases k
{
    reveal(Seq::filter);
    if k > 0 { vf_count_is(d, p, k - 1); assert(d.take(k).drop_last() =~= d.take(k - 1)); } else { assert(d.take(0).filter(p) =~= Seq::<T>::empty()); }
}
proof fn vf_filter_len<T>(d: Seq<T>, p: spec_fn(T) -> bool)
    ensures d.filter(p).len() <= d.len()
    decreases d.len()
{ reveal(Seq::filter); if d.len() > 0 { vf_filter_len(d.drop_last(), p); } }
fn main() {}
}
