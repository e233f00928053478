//@include prelude.inc
//@include bits.inc
use vstd::std_specs::bits::*;
//@item engine/src/datastr/rank_select_map.rs struct FastClearBitVec
const STORAGE_BITS: usize = 64;

/// the clear list names every word at most once and only words with set bits
spec fn words_ok(data: Seq<u64>, l: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] < data.len() && data[l[k] as int] != 0
    &&& forall|k: int, m: int| 0 <= k < m < l.len() ==> #[trigger] l[k] != #[trigger] l[m]
}
impl FastClearBitVec {
    spec fn view(&self) -> spec_fn(int) -> bool { |i: int| abit(self.data@, i) }
    spec fn wf(&self) -> bool {
        &&& self.data@.len() < 0x0100_0000_0000_0000
        &&& forall|w: int| 0 <= w < self.data@.len() && #[trigger] self.data@[w] != 0 ==> exists|k: int| 0 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == w
        &&& self.list_ok()
    }
    spec fn list_ok(&self) -> bool { words_ok(self.data@, self.to_clear@) }
    spec fn bits(&self) -> int { 64 * self.data@.len() as int }

//@fn engine/src/datastr/rank_select_map.rs FastClearBitVec::new
//@spec
    requires size < 0x2000_0000_0000_0000
    ensures r.wf(), size <= r.bits(), forall|i: int| !#[trigger] abit(r.data@, i)
//@at start
    proof { lemma_bit_zero(); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs FastClearBitVec::get
//@spec
    requires self.wf(), index < self.bits()
    ensures r == abit(self.data@, index as int)
//@at start
    proof { lemma_bit_get(self.data@[index as int / 64], (index % 64) as u64); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs FastClearBitVec::set
//@spec
    requires old(self).wf(), index < old(self).bits()
    ensures final(self).wf(), final(self).bits() == old(self).bits(),
        forall|i: int| #[trigger] abit(final(self).data@, i) == (i == index || abit(old(self).data@, i))
//@at start
    proof { lemma_bit_set(self.data@[index as int / 64], (index % 64) as u64); }
//@at end
    proof {
        let w = index as int / 64;
        assert forall|v: int| 0 <= v < self.data@.len() && #[trigger] self.data@[v] != 0 implies exists|k: int| 0 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == v by {
            if v != w || old(self).data@[w] != 0 {
                assert(old(self).data@[v] != 0);
                let k = choose|k: int| 0 <= k < old(self).to_clear@.len() && #[trigger] old(self).to_clear@[k] == v;
                assert(self.to_clear@[k] == v);
            } else {
                assert(self.to_clear@[self.to_clear@.len() - 1] == v);
            }
        }
        assert forall|i: int| #[trigger] abit(self.data@, i) == (i == index || abit(old(self).data@, i)) by { }
        assert(bit(self.data@[w], index as int % 64));
        lemma_bit_zero();
        assert(self.data@[w] != 0);
        assert forall|k: int| 0 <= k < self.to_clear@.len() implies #[trigger] self.to_clear@[k] < self.data@.len() && self.data@[self.to_clear@[k] as int] != 0 by {
            if k < old(self).to_clear@.len() { assert(old(self).to_clear@[k] < old(self).data@.len()); }
        }
        assert forall|k: int, m: int| 0 <= k < m < self.to_clear@.len() implies #[trigger] self.to_clear@[k] != #[trigger] self.to_clear@[m] by {
            assert(old(self).to_clear@[k] == self.to_clear@[k]);
            if m < old(self).to_clear@.len() { assert(old(self).to_clear@[m] == self.to_clear@[m]); }
        }
    }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs FastClearBitVec::clear
//@rw for
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).bits() == old(self).bits(), forall|i: int| !#[trigger] abit(final(self).data@, i)
//@loop 0
    invariant self.to_clear@ == old(self).to_clear@, self.data@.len() == old(self).data@.len(), vf_i0 <= self.to_clear@.len(), vf_it0@ == self.to_clear@, old(self).wf(),
        forall|w: int| 0 <= w < self.data@.len() && #[trigger] self.data@[w] != 0 ==> exists|k: int| vf_i0 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == w,
        forall|k: int| 0 <= k < self.to_clear@.len() ==> #[trigger] self.to_clear@[k] < self.data@.len(),
    decreases self.to_clear@.len() - vf_i0
//@at loop_start 0
    let ghost pre = self.data@;
//@at loop_end 0
    proof {
        assert forall|w: int| 0 <= w < self.data@.len() && #[trigger] self.data@[w] != 0 implies exists|k: int| vf_i0 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == w by {
            assert(pre[w] != 0);
            let k = choose|k: int| vf_i0 - 1 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == w;
            assert(k != vf_i0 - 1);
        }
    }
//@at after_loop 0
    proof { lemma_bit_zero(); assert forall|i: int| !#[trigger] abit(self.data@, i) by { if 0 <= i < 64 * self.data@.len() { assert(self.data@[i / 64] == 0); } } }
//@endfn
}


// ---- iteration over the set bits: std's slice::Iter is replaced by its contract
#[verifier::external_body]
struct VfIter<'a> { it: std::slice::Iter<'a, usize> }
impl<'a> VfIter<'a> {
    /// what is still to come
    uninterp spec fn rest(&self) -> Seq<usize>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> (r matches Some(x) && x == old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { self.it.next().copied() }
    #[verifier::external_body]
    fn vf_over(v: &'a Vec<usize>) -> (r: VfIter<'a>) ensures r.rest() == v@ { VfIter { it: v.iter() } }
}
//@item engine/src/datastr/rank_select_map.rs struct SetBitsIter std::slice::Iter<'a,~usize>=>VfIter<'a>

impl<'a> SetBitsIter<'a> {
    spec fn wf(&self) -> bool {
        &&& words_ok(self.data@, self.to_clear_iter.rest())
        &&& self.data@.len() < 0x0100_0000_0000_0000
        &&& self.current_bits != 0 ==> self.current_idx < self.data@.len() && forall|k: int| 0 <= k < self.to_clear_iter.rest().len() ==> #[trigger] self.to_clear_iter.rest()[k] != self.current_idx
    }
    /// the positions still to be yielded
    spec fn todo(&self, i: int) -> bool {
        0 <= i && ((self.current_bits != 0 && i / 64 == self.current_idx && bit(self.current_bits, i % 64))
            || exists|k: int| 0 <= k < self.to_clear_iter.rest().len() && #[trigger] self.to_clear_iter.rest()[k] == i / 64 && bit(self.data@[i / 64], i % 64))
    }
//@fn engine/src/datastr/rank_select_map.rs Iterator for SetBitsIter::next
//@rw subopt Some(&$p:id) => Some($p)
//@rw ret Self::Item => usize
//@spec
    requires old(self).wf()
    ensures final(self).wf(),
        r matches Some(i) ==> old(self).todo(i as int) && forall|j: int| #[trigger] final(self).todo(j) == (old(self).todo(j) && j != i),
        r is None ==> forall|j: int| !#[trigger] old(self).todo(j)
//@at before let index
    let ghost mid = *self;
    proof {
        lemma_bit_zero(); 
        let a = old(self).to_clear_iter.rest();
        let b = self.to_clear_iter.rest();
        if old(self).current_bits == 0 {
            assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] != self.current_idx by { assert(b[k] == a[k + 1]); assert(a[0] != a[k + 1]); }
            assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < self.data@.len() && self.data@[b[k] as int] != 0 by { assert(b[k] == a[k + 1]); }
            assert forall|k: int, m: int| 0 <= k < m < b.len() implies #[trigger] b[k] != #[trigger] b[m] by { assert(b[k] == a[k + 1]); assert(b[m] == a[m + 1]); assert(a[k+1] != a[m+1]); }
            assert forall|j: int| #[trigger] self.todo(j) == old(self).todo(j) by {
                if 0 <= j {
                    if old(self).todo(j) {
                        let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == j / 64 && bit(self.data@[j / 64], j % 64);
                        if k > 0 { assert(b[k - 1] == a[k]); }
                    }
                    if self.todo(j) {
                        if j / 64 == self.current_idx { assert(a[0] == j / 64); }
                        else { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == j / 64 && bit(self.data@[j / 64], j % 64); assert(a[k + 1] == b[k]); }
                    }
                }
            }
        }
        lemma_tz(self.current_bits);
        lemma_bit_unset(self.current_bits, u64_trailing_zeros(self.current_bits) as u64);
    }
//@at end
    proof {
        lemma_bit_zero();
        let i = self.current_idx as int * 64 + index as int;
        assert(i / 64 == self.current_idx && i % 64 == index as int);
        assert(mid.todo(i));
        assert(self.to_clear_iter.rest() == mid.to_clear_iter.rest());
        assert forall|j: int| #[trigger] self.todo(j) == (mid.todo(j) && j != i) by {
            if 0 <= j {
                assert(j == (j / 64) * 64 + j % 64);
                let t = u64_trailing_zeros(mid.current_bits) as int;
                assert(self.current_bits == mid.current_bits & !(1u64 << (t as u64)));
                assert(bit(self.current_bits, j % 64) == (bit(mid.current_bits, j % 64) && j % 64 != t));
                if mid.todo(j) && j / 64 == self.current_idx {
                    if exists|k: int| 0 <= k < self.to_clear_iter.rest().len() && #[trigger] self.to_clear_iter.rest()[k] == j / 64 && bit(self.data@[j / 64], j % 64) { assert(false); }
                }
                if self.todo(j) && j / 64 == self.current_idx {
                    if exists|k: int| 0 <= k < self.to_clear_iter.rest().len() && #[trigger] self.to_clear_iter.rest()[k] == j / 64 && bit(self.data@[j / 64], j % 64) { assert(false); }
                }
            }
        }
    }
//@endfn
}
impl FastClearBitVec {
//@fn engine/src/datastr/rank_select_map.rs FastClearBitVec::set_bits_iter
//@rw sub self.to_clear.iter() => VfIter::vf_over(&self.to_clear)
//@sig fn set_bits_iter(&self) -> (r: SetBitsIter<'_>)
//@spec
    requires self.wf()
    ensures r.wf(), forall|j: int| #[trigger] r.todo(j) == abit(self.data@, j)
//@at start
    proof {
        lemma_bit_zero();
        assert forall|j: int| abit(self.data@, j) implies exists|k: int| 0 <= k < self.to_clear@.len() && #[trigger] self.to_clear@[k] == j / 64 by { assert(self.data@[j / 64] != 0); }
    }
//@endfn
}
} // verus!
fn main() {}
