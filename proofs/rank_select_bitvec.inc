impl BitVec {
//@fn engine/src/datastr/rank_select_map.rs BitVec::new
//@rw subopt alloc_zeroed(Layout::from_size_align($n, $a).unwrap()) => vf_alloc_zeroed($n, $a)
//@rw subopt size_of::<usize>() => 8
//@rw subopt size_of::<u64>() => 8
//@rw subopt Vec::from_raw_parts($p as *mut u64, $n, $m) => vf_from_raw_parts($p, $n, $m)
//@spec
    requires size < 0x1000_0000_0000_0000
    ensures r.wf(), r.size == size, forall|i: int| !#[trigger] r.at(i)
//@at start
    proof { lemma_bit_zero(); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::get
//@spec
    requires self.wf(), index < self.size
    ensures r == self.at(index as int)
//@at start
    proof { lemma_bit_get(self.data@[index as int / 64], (index % 64) as u64); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::set
//@spec
    requires old(self).wf(), index < old(self).size
    ensures final(self).wf(), final(self).size == old(self).size, forall|i: int| #[trigger] final(self).at(i) == (old(self).at(i) || i == index)
//@at start
    proof { lemma_bit_set(self.data@[index as int / 64], (index % 64) as u64); }
//@at end
    proof { assert forall|i: int| #[trigger] self.at(i) == (old(self).at(i) || i == index) by { if i / 64 == index as int / 64 { assert(i == 64 * (i / 64) + i % 64); } }
        assert forall|i: int| self.size <= i implies !#[trigger] abit(self.data@, i) by { assert(!old(self).at(i)); assert(self.at(i) == (old(self).at(i) || i == index)); } }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::unset
//@spec
    requires old(self).wf(), index < old(self).size
    ensures final(self).wf(), final(self).size == old(self).size, forall|i: int| #[trigger] final(self).at(i) == (old(self).at(i) && i != index)
//@at start
    proof { lemma_bit_unset(self.data@[index as int / 64], (index % 64) as u64); }
//@at end
    proof { assert forall|i: int| #[trigger] self.at(i) == (old(self).at(i) && i != index) by { if i / 64 == index as int / 64 { assert(i == 64 * (i / 64) + i % 64); } }
        assert forall|i: int| self.size <= i implies !#[trigger] abit(self.data@, i) by { assert(!old(self).at(i)); assert(self.at(i) == (old(self).at(i) && i != index)); } }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::unset_all_around
//@spec
    requires old(self).wf(), index < old(self).size
    ensures final(self).wf(), final(self).size == old(self).size, forall|i: int| #[trigger] final(self).at(i) == (old(self).at(i) && i / 64 != index as int / 64)
//@at start
    proof { lemma_bit_zero(); }
//@at end
    proof { assert forall|i: int| #[trigger] self.at(i) == (old(self).at(i) && i / 64 != index as int / 64) by { }
        assert forall|i: int| self.size <= i implies !#[trigger] abit(self.data@, i) by { assert(!old(self).at(i)); assert(self.at(i) == (old(self).at(i) && i / 64 != index as int / 64)); } }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::len
//@spec
    ensures r == self.size
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::is_empty
//@spec
    ensures r == (self.size == 0)
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::clear
//@rw for
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).size == old(self).size, forall|i: int| !#[trigger] final(self).at(i)
//@loop 0
    invariant self.size == old(self).size, self.data@.len() == old(self).data@.len(), vf_i0 <= self.data@.len(), forall|i: int| 0 <= i < vf_i0 ==> #[trigger] self.data@[i] == 0
    decreases self.data@.len() - vf_i0
//@at after_loop 0
    proof { lemma_bit_zero(); assert forall|i: int| !#[trigger] self.at(i) by { } }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::set_all
//@rw for
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).size == old(self).size, forall|i: int| #[trigger] final(self).at(i) == (0 <= i < final(self).size)
//@loop 0
    invariant self.size == old(self).size, self.data@.len() == old(self).data@.len(), vf_i0 <= self.data@.len(), forall|i: int| 0 <= i < vf_i0 ==> #[trigger] self.data@[i] == !0u64
    decreases self.data@.len() - vf_i0
//@at start
    proof { lemma_bit_all(); }
//@at past_loop 0
    let ghost k = (self.size % 64) as u64;
    let ghost full = self.data@;
    proof {
        lemma_mod_shift(!0u64, k);
        if k > 0 {
            let y = sub(1u64 << k, 1);
            assert(y == !0u64 % (1u64 << k)) by {
                assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == (i < k) by {
                    let j = i as u64;
                    assert((sub(1u64 << k, 1) >> j) & 1u64 == (if j < k { 1u64 } else { 0u64 })) by (bit_vector) requires k < 64, j < 64;
                }
                lemma_u64_low_bits_mask_is_mod(!0u64, k as nat);
                lemma_u64_pow2_no_overflow(k as nat);
                lemma_u64_shl_is_mul(1u64, k);
                lemma_low_bits_mask_is_pow2m1(k as nat);
                assert(!0u64 & y == y) by (bit_vector);
            }
            assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == (i < k) by { }
        }
    }
//@at finish
    proof {
        assert forall|i: int| #[trigger] self.at(i) == (0 <= i < self.size) by {
            if 0 <= i < 64 * self.data@.len() {
                assert(i == 64 * (i / 64) + i % 64);
                if i / 64 < self.size as int / 64 { assert(self.data@[i / 64] == full[i / 64]); assert(bit(!0u64, i % 64)); }
                else { assert(i / 64 == self.size as int / 64); assert(bit(self.data@[i / 64], i % 64) == (i % 64 < k)); }
            }
        }
        assert forall|i: int| self.size <= i implies !#[trigger] abit(self.data@, i) by { assert(!self.at(i)); }
    }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs BitVec::count_ones
//@rw subopt $x:chain.iter().map(|$v:id| $v:id.count_ones() as usize).sum() => vf_popsum($x.as_slice())
//@spec
    requires self.wf()
    ensures r == ones(self.data@, self.size as int)
//@at start
    proof {
        lemma_wsum(self.data@, 0, self.data@.len() as int);
        lemma_ones_beyond(self.data@, self.size as int, 64 * self.data@.len() as int);
    }
//@endfn
}

//@item engine/src/datastr/rank_select_map.rs struct RankSelectMap

impl RankSelectMap {
    spec fn data(&self) -> Seq<u64> { self.contained_keys_flags.data@ }
    spec fn shape(&self) -> bool {
        &&& self.contained_keys_flags.wf()
        &&& self.prefix_sum@.len() == (self.contained_keys_flags.size + 511) / 512 + 1
    }
    /// prefix_sum[p] counts the set bits of the first p cache lines
    spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& forall|p: int| 0 <= p < self.prefix_sum@.len() ==> #[trigger] self.prefix_sum@[p] == ones(self.data(), 512 * p)
    }
    spec fn contains(&self, key: int) -> bool { self.contained_keys_flags.at(key) }
    /// the local id of a contained key: number of contained keys below it
    spec fn rank(&self, key: int) -> nat { ones(self.data(), key) }
    spec fn total(&self) -> nat { ones(self.data(), self.contained_keys_flags.size as int) }

//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::new
//@spec
    requires bit_vec.wf()
    ensures r.wf(), r.contained_keys_flags == bit_vec
//@endfn

//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::len
//@rw subopt Some(&$l:id) => $l:id ===> Some(vf_l) => *vf_l
//@spec
    requires self.wf()
    ensures r == self.total()
//@at start
    proof {
        let p = self.prefix_sum@.len() - 1;
        let n = self.contained_keys_flags.size as int;
        assert(512 * p >= n);
        lemma_ones_beyond(self.data(), n, 512 * p);
    }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::is_empty
//@spec
    requires self.wf()
    ensures r == (self.total() == 0)
//@endfn

//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::compile
//@rw for
//@spec
    requires old(self).shape(), old(self).prefix_sum@[0] == 0
    ensures final(self).wf(), final(self).contained_keys_flags == old(self).contained_keys_flags
//@loop 0
    invariant self.shape(), self.contained_keys_flags == old(self).contained_keys_flags, vf_e0 == self.prefix_sum@.len(), 1 <= vf_i0 <= self.prefix_sum@.len(),
        forall|p: int| 0 <= p < vf_i0 ==> #[trigger] self.prefix_sum@[p] == ones(self.data(), 512 * p),
        previous == ones(self.data(), 512 * (vf_i0 - 1)),
    decreases self.prefix_sum@.len() - vf_i0
//@at loop_begin 0
    proof {
        lemma_ones_mono(self.data(), 0, 512 * vf_i0 as int);
        lemma_ones_mono(self.data(), 512 * (vf_i0 as int - 1), 512 * vf_i0 as int);
    }
//@endfn

//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::bit_count_entire_range
//@rw sub $x:chain[range].iter().map(|$v:id| $v:id.count_ones() as usize).sum() => vf_popsum(vf_slice(&$x, range))
//@spec
    requires self.shape(), range_index + 1 < self.prefix_sum@.len()
    ensures r == ones(self.data(), 512 * (range_index + 1)) - ones(self.data(), 512 * range_index)
//@at end
    proof {
        let a = range_index * 8; let n = self.data().len() as int;
        let b = if (range_index + 1) * 8 <= n { (range_index + 1) * 8 } else { n };
        assert(a <= b);
        lemma_wsum_sub(self.data(), a as int, b as int, b as int);
        lemma_wsum(self.data(), a as int, b as int);
        lemma_ones_beyond(self.data(), 64 * b as int, 512 * (range_index + 1));
    }
//@endfn

//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::at
//@spec
    requires self.wf(), self.contains(key as int), key < self.contained_keys_flags.size
    ensures r == self.rank(key as int)
//@at start
    proof { lemma_ones_bound(self.data(), key as int); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::at_or_next_lower
//@spec
    requires self.wf(), key < self.contained_keys_flags.size, self.contains(key as int) || self.rank(key as int) > 0
    ensures r == (if self.contains(key as int) { self.rank(key as int) } else { (self.rank(key as int) - 1) as nat })
//@at start
    proof { lemma_ones_bound(self.data(), key as int); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::get
//@spec
    requires self.wf()
    ensures r == (if self.contains(key as int) { Some(self.rank(key as int) as usize) } else { None::<usize> }), self.rank(key as int) <= key
//@at start
    proof { lemma_ones_bound(self.data(), key as int); }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs RankSelectMap::bit_count_partial_range
//@rw sub $x:chain[range].iter().map(|$v:id| $v:id.count_ones() as usize).sum() => vf_popsum(vf_slice(&$x, range))
//@spec
    requires self.wf(), key < self.contained_keys_flags.size
    ensures r == ones(self.data(), key as int) - ones(self.data(), 512 * (key as int / 512))
//@at start
    proof { lemma_mod_shift(self.data()[key as int / 64], (key % 64) as u64); }
//@at end
    proof {
        let w = key as int / 64; let a = (w / 8) * 8;
        assert(64 * a == 512 * (key as int / 512));
        lemma_wsum_sub(self.data(), a, w, w);
        lemma_wsum(self.data(), a, w);
        lemma_ones_word(self.data(), w, key as int % 64);
        lemma_ones_bound(self.data(), key as int);
    }
//@endfn
}

