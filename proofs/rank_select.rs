//@include prelude.inc
//@include bits.inc
//@include rank_select.inc
//@include rank_select_bitvec.inc
//@item engine/src/datastr/rank_select_map.rs struct InvertableRankSelectMap
//@item engine/src/datastr/rank_select_map.rs const GROUPED_LOCALS

spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// std: the number of leading entries that are at most `value` in a sorted slice
fn vf_count_le(v: &[usize], value: usize) -> (r: usize)
    requires forall|i: int, j: int| 0 <= i <= j < v@.len() ==> #[trigger] v@[i] <= #[trigger] v@[j]
    ensures r <= v@.len(), forall|i: int| 0 <= i < r ==> #[trigger] v@[i] <= value, forall|i: int| r <= i < v@.len() ==> #[trigger] v@[i] > value
{
    let mut r = 0;
    while r < v.len() && v[r] <= value invariant r <= v@.len(), forall|i: int| 0 <= i < r ==> #[trigger] v@[i] <= value decreases v@.len() - r { r += 1; }
    proof { assert forall|i: int| r <= i < v@.len() implies #[trigger] v@[i] > value by { assert(v@[r as int] <= v@[i]); } }
    r
}
fn vf_uslice(v: &Vec<usize>, a: usize, b: usize) -> (r: &[usize])
    requires a <= b <= v@.len()
    ensures r@ == v@.subrange(a as int, b as int)
{ vstd::slice::slice_subrange(v.as_slice(), a, b) }

impl InvertableRankSelectMap {
    spec fn groups(&self) -> int { (self.map.total() as int + 255) / 256 }
    /// blocks[g] is the cache line holding the element with local id 256 * g
    spec fn wf(&self) -> bool {
        &&& self.map.wf()
        &&& self.blocks@.len() == self.groups() + 1
        &&& self.blocks@[self.groups()] == self.map.prefix_sum@.len() - 1
        &&& forall|g: int| 0 <= g < self.groups() ==> blk_ok(self.map, self.blocks@, g)
    }
}
spec fn blk_ok(map: RankSelectMap, blocks: Seq<usize>, g: int) -> bool {
    &&& blocks[g] + 1 < map.prefix_sum@.len()
    &&& map.prefix_sum@[blocks[g] as int] <= 256 * g < map.prefix_sum@[blocks[g] + 1]
}
proof fn lemma_prefix_mono(map: RankSelectMap, a: int, b: int)
    requires map.wf(), 0 <= a <= b < map.prefix_sum@.len()
    ensures map.prefix_sum@[a] <= map.prefix_sum@[b]
{ lemma_ones_mono(map.data(), 512 * a, 512 * b); }
proof fn lemma_prefix_last(map: RankSelectMap)
    requires map.wf()
    ensures map.prefix_sum@[map.prefix_sum@.len() - 1] == map.total(), map.prefix_sum@[0] == 0, map.total() <= map.contained_keys_flags.size
{
    let p = map.prefix_sum@.len() - 1;
    let n = map.contained_keys_flags.size as int;
    assert(512 * p >= n);
    lemma_ones_beyond(map.data(), n, 512 * p);
    lemma_ones_bound(map.data(), n);
    assert(map.prefix_sum@[0] == ones(map.data(), 0));
}


proof fn lemma_shr(x: u64, k: u64)
    requires k < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x >> k, i) == bit(x, i + k)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x >> k, i) == bit(x, i + k) by {
        let j = i as u64;
        if i + k < 64 {
            let m = (i + k) as u64;
            assert(((x >> k) >> j) & 1u64 == (x >> m) & 1u64) by (bit_vector) requires k < 64, j < 64, m == add(j, k), m < 64;
        } else {
            assert(((x >> k) >> j) & 1u64 == 0u64) by (bit_vector) requires k < 64, j < 64, add(j, k) >= 64;
        }
    }
}
proof fn lemma_cnt_shift(x: u64, y: u64, k: int, m: int)
    requires 0 <= k, 0 <= m, k + m <= 64, forall|i: int| 0 <= i < m ==> #[trigger] bit(y, i) == bit(x, i + k)
    ensures cnt(x, k + m) == cnt(x, k) + cnt(y, m)
    decreases m
{ if m > 0 { lemma_cnt_shift(x, y, k, m - 1); assert(bit(y, m - 1) == bit(x, m - 1 + k)); } }
proof fn lemma_trunc(x: u64)
    ensures cnt((x as u32) as u64, 32) == cnt(x, 32), cnt((x as u16) as u64, 16) == cnt(x, 16), cnt((x as u8) as u64, 8) == cnt(x, 8)
{
    assert forall|i: int| 0 <= i < 32 implies bit((x as u32) as u64, i) == bit(x, i) by {
        let j = i as u64;
        assert((((x as u32) as u64) >> j) & 1u64 == (x >> j) & 1u64) by (bit_vector) requires j < 32;
    }
    assert forall|i: int| 0 <= i < 16 implies bit((x as u16) as u64, i) == bit(x, i) by {
        let j = i as u64;
        assert((((x as u16) as u64) >> j) & 1u64 == (x >> j) & 1u64) by (bit_vector) requires j < 16;
    }
    assert forall|i: int| 0 <= i < 8 implies bit((x as u8) as u64, i) == bit(x, i) by {
        let j = i as u64;
        assert((((x as u8) as u64) >> j) & 1u64 == (x >> j) & 1u64) by (bit_vector) requires j < 8;
    }
    lemma_cnt_ext((x as u32) as u64, x, 32); lemma_cnt_ext((x as u16) as u64, x, 16); lemma_cnt_ext((x as u8) as u64, x, 8);
}
/// `word` is `x` moved down by `sh`; the wanted bit is number `ar` among the lowest `w` bits of `word`
spec fn narrowed(x: u64, rank: int, word: u64, ar: int, sh: int, w: int) -> bool {
    &&& 0 <= ar < cnt(word, w) && ar < w && 0 <= sh && sh + w <= 64
    &&& cnt(x, sh) + ar == rank
    &&& forall|i: int| 0 <= i < w ==> #[trigger] bit(word, i) == bit(x, sh + i)
}
proof fn lemma_narrow(x: u64, rank: int, word: u64, ar: int, sh: int, k: u64)
    requires narrowed(x, rank, word, ar, sh, 2 * k), 0 < k <= 32
    ensures cnt(word, k as int) <= ar ==> narrowed(x, rank, word >> k, ar - cnt(word, k as int), sh + k, k as int),
        cnt(word, k as int) > ar ==> narrowed(x, rank, word, ar, sh, k as int),
        cnt(word, k as int) <= k
{
    lemma_shr(word, k);
    lemma_cnt_shift(word, word >> k, k as int, k as int);
    lemma_cnt_bound(word >> k, k as int);
    lemma_cnt_bound(word, k as int);
    assert forall|i: int| 0 <= i < k implies #[trigger] bit(x, i + sh) == bit(word, i) by { assert(bit(word, i) == bit(x, sh + i)); }
    lemma_cnt_shift(x, word, sh, k as int);
    if cnt(word, k as int) <= ar {
        assert forall|i: int| 0 <= i < k implies #[trigger] bit(word >> k, i) == bit(x, sh + k + i) by { assert(bit(word, i + k) == bit(x, sh + (i + k))); }
    }
}

impl InvertableRankSelectMap {
//@fn engine/src/datastr/rank_select_map.rs InvertableRankSelectMap::int_local_index
//@spec
    requires rank < cnt(int_v, 64)
    ensures r < 64, bit(int_v, r as int), cnt(int_v, r as int) == rank
//@at start
    proof { lemma_cnt_bound(int_v, 64); }
//@at before 0 let lower_ones
    proof { lemma_trunc(word); lemma_narrow(int_v, rank as int, word, adjusted_rank as int, shifted as int, 32); }
//@at before 1 let lower_ones
    proof { lemma_trunc(word); lemma_narrow(int_v, rank as int, word, adjusted_rank as int, shifted as int, 16); }
//@at before 2 let lower_ones
    proof { lemma_trunc(word); lemma_narrow(int_v, rank as int, word, adjusted_rank as int, shifted as int, 8); }
//@at before_loop 0
    let ghost w0 = word;
    let ghost a0 = adjusted_rank;
    let ghost mut d: int = 0;
    proof { lemma_cnt_bound(word, 8); }
//@loop 0
    invariant
        narrowed(int_v, rank as int, w0, a0 as int, shifted as int, 8),
        0 <= d <= 8, adjusted_rank < cnt(word, 8), cnt(w0, d) + adjusted_rank == a0,
        forall|i: int| d <= i < 64 ==> #[trigger] bit(word, i) == bit(w0, i), forall|i: int| 0 <= i < d ==> !#[trigger] bit(word, i),
    decreases adjusted_rank
//@at loop_begin 0
    let ghost t = u64_trailing_zeros(word) as int;
    let ghost wo = word;
    proof {
        if word == 0 { lemma_bit_zero(); lemma_cnt_high(word, 0, 8); }
        lemma_drop_low(word); lemma_tz(word);
        if t >= 8 { lemma_cnt_high(word, 0, 8); }
        if t < d { assert(!bit(word, t)); }
        lemma_cnt_low(w0, word, d, t);
    }
//@at loop_end 0
    proof {
        lemma_cnt_high(word, 0, t + 1); lemma_cnt_high(wo, 0, t);
        lemma_cnt_tail(word, wo, t + 1, 8);
        d = t + 1;
    }
//@at after_loop 0
    proof {
        if word == 0 { lemma_bit_zero(); lemma_cnt_high(word, 0, 8); }
        lemma_tz(word);
        let t = u64_trailing_zeros(word) as int;
        if t >= 8 { lemma_cnt_high(word, 0, 8); }
        if t < d { assert(!bit(word, t)); }
        lemma_cnt_low(w0, word, d, t);
        assert forall|i: int| 0 <= i < t implies #[trigger] bit(int_v, i + shifted) == bit(w0, i) by { assert(bit(w0, i) == bit(int_v, shifted + i)); }
        lemma_cnt_shift(int_v, w0, shifted as int, t);
        assert(bit(w0, t) == bit(int_v, shifted + t));
    }
//@endfn
}
impl InvertableRankSelectMap {
//@fn engine/src/datastr/rank_select_map.rs InvertableRankSelectMap::block_local_index
//@rw sub &self.map.contained_keys_flags.data[$a..$b] => vf_slice(&self.map.contained_keys_flags.data, $a..$b)
//@rw sub data.iter() => vf_cur(data)
//@rw loopval &u64
//@spec
    requires self.map.wf(), block + 1 < self.map.prefix_sum@.len(), self.map.prefix_sum@[block as int] + rank < self.map.prefix_sum@[block + 1]
    ensures r < 512, self.map.contains(512 * block + r), self.map.rank(512 * block + r) == self.map.prefix_sum@[block as int] + rank
//@at before_loop 0
    let ghost s = self.map.data();
    let ghost p0 = ones(s, 512 * block as int);
    proof {
        lemma_ones_beyond(s, 64 * data_end as int, 512 * (block + 1));
        lemma_ones_bound(s, 512 * (block as int));
    }
//@loop 0
    invariant_except_break
        num_skipped_bits == 64 * iter.pos, popcount_sum == ones(s, 64 * (data_begin + iter.pos)) - p0, popcount_sum <= rank, popcount_sum <= 64 * iter.pos
    invariant
        s == self.map.data(), self.map.wf(), data_begin == block * 8, data_end <= s.len(), data_begin < data_end, data@ == s.subrange(data_begin as int, data_end as int),
        data_end <= data_begin + 8,
        iter.wf(), iter.s@ == data@, p0 == ones(s, 64 * data_begin as int), p0 + rank < ones(s, 64 * data_end as int),
    ensures
        vf_bv0 matches Some(bits), iter.pos >= 1, num_skipped_bits == 64 * (iter.pos - 1), popcount_sum == ones(s, 64 * (data_begin + iter.pos - 1)) - p0,
        popcount_sum <= rank < popcount_sum + cnt(s[data_begin + iter.pos - 1], 64), *vf_bv0->Some_0 == s[data_begin + iter.pos - 1],
    decreases data@.len() - iter.pos
//@at loop_begin 0
    proof {
        if iter.pos < data@.len() { lemma_ones_word(s, data_begin + iter.pos, 64); lemma_cnt_bound(s[data_begin + iter.pos], 64); assert(64 * (data_begin + iter.pos + 1) == 64 * (data_begin + iter.pos) + 64); }
    }
//@at end
    proof {
        let w = data_begin + iter.pos - 1;
        let k = (rank - popcount_sum) as int;
        assert forall|i: int| 0 <= i < 64 && bit(s[w], i) && cnt(s[w], i) == k implies abit(s, 64 * w + i) && ones(s, 64 * w + i) == p0 + rank by {
            lemma_ones_word(s, w, i);
            assert((64 * w + i) / 64 == w && (64 * w + i) % 64 == i);
        }
    }
//@endfn
}
impl InvertableRankSelectMap {
//@fn engine/src/datastr/rank_select_map.rs InvertableRankSelectMap::inverse
//@rw sub $x:chain[$a..=$b].partition_point(|&prefix_sum| prefix_sum <= value) => vf_count_le(vf_uslice(&$x, $a, $b + 1), value)
//@spec
    requires self.wf(), value < self.map.total()
    ensures self.map.contains(r as int), self.map.rank(r as int) == value
//@at start
    proof {
        let g = value as int / 256;
        let ps = self.map.prefix_sum@;
        lemma_prefix_last(self.map);
        assert(g < self.groups());
        assert(blk_ok(self.map, self.blocks@, g));
        if g + 1 < self.groups() { assert(blk_ok(self.map, self.blocks@, g + 1)); }
        let a = self.blocks@[g] as int; let b = self.blocks@[g + 1] as int;
        assert(256 * g <= value < 256 * (g + 1));
        assert(a <= b) by { if b < a { lemma_prefix_mono(self.map, b + 1, a); assert(g + 1 < self.groups()); assert(ps[b + 1] > 256 * (g + 1)); } }
        assert(ps[a] <= value);
        assert forall|i: int, j: int| 0 <= i <= j < b + 1 - a implies #[trigger] ps.subrange(a, b + 1)[i] <= #[trigger] ps.subrange(a, b + 1)[j] by { lemma_prefix_mono(self.map, a + i, a + j); }
        assert(ps.subrange(a, b + 1)[0] == ps[a]);
    }
//@at before let block_local_rank
    proof {
        let g = value as int / 256;
        let ps = self.map.prefix_sum@;
        let a = self.blocks@[g] as int; let b = self.blocks@[g + 1] as int;
        assert(ps.subrange(a, b + 1)[block_index - a] <= value);
        if g + 1 < self.groups() {
            // the next group starts at 256 * (g + 1) > value: its block is at or after this one
            assert(blk_ok(self.map, self.blocks@, g + 1));
            assert(ps[b + 1] > value);
            if block_index < b { assert(ps.subrange(a, b + 1)[block_index + 1 - a] > value); }
        } else {
            assert(ps[b] == self.map.total());
            assert(ps.subrange(a, b + 1)[b - a] > value);
            assert(block_index < b);
            assert(ps.subrange(a, b + 1)[block_index + 1 - a] > value);
        }
    }
//@endfn
//@fn engine/src/datastr/rank_select_map.rs InvertableRankSelectMap::new
//@rw subopt *blocks.last_mut().unwrap() = $e; => let vf_n = blocks.len(); blocks.set(vf_n - 1, $e);
//@rw subopt let mut value = 0; => let mut value: usize = 0;
//@rw for
//@spec
    requires map.wf()
    ensures r.wf(), r.map == map
//@at start
    proof { lemma_prefix_last(map); }
//@at before_loop 0
    let ghost t = map.total() as int;
    let ghost ng = (t + 255) / 256;
//@loop 0
    invariant
        map.wf(), t == map.total(), ng == (t + 255) / 256, blocks@.len() == ng + 1, blocks@[ng] == map.prefix_sum@.len() - 1,
        t <= map.contained_keys_flags.size, t == map.prefix_sum@[map.prefix_sum@.len() - 1],
        vf_it0@ == map.prefix_sum@,
        vf_i0 < map.prefix_sum@.len(),
        value % 256 == 0, value / 256 <= ng,
        map.prefix_sum@[vf_i0 as int] <= value,
        forall|g: int| 0 <= g < value as int / 256 ==> blk_ok(map, blocks@, g),
    decreases map.prefix_sum@.len() - vf_i0
//@loop 1
    invariant
        map.wf(), t == map.total(), ng == (t + 255) / 256, blocks@.len() == ng + 1, blocks@[ng] == map.prefix_sum@.len() - 1,
        t <= map.contained_keys_flags.size, t == map.prefix_sum@[map.prefix_sum@.len() - 1],
        block_index + 1 < map.prefix_sum@.len(), prefix_sums[0] == map.prefix_sum@[block_index as int], prefix_sums[1] == map.prefix_sum@[block_index + 1],
        prefix_sums[0] <= value, prefix_sums[1] <= t,
        value % 256 == 0, value / 256 <= ng,
        forall|g: int| 0 <= g < value as int / 256 ==> blk_ok(map, blocks@, g),
    decreases t + 256 - value
//@at loop_start 0
    proof { lemma_prefix_mono(map, block_index + 1, map.prefix_sum@.len() - 1); }
//@at loop_begin 1
    let ghost b0 = blocks@;
    let ghost g0 = value as int / 256;
    proof { assert(value == 256 * g0); assert(g0 < ng); }
//@at loop_end 1
    proof {
        assert(value as int / 256 == g0 + 1);
        assert forall|g: int| 0 <= g < value as int / 256 implies blk_ok(map, blocks@, g) by { if g < g0 { assert(blk_ok(map, b0, g)); assert(blocks@[g] == b0[g]); } }
    }
//@endfn
}
/// the property itself, from the contracts above: local ids are dense (0..len), increasing in the global id,
/// and `inverse` is the two-sided inverse of `at`
proof fn prop_dense_bijection(m: RankSelectMap, a: int, b: int)
    requires m.wf(), 0 <= a < b, m.contains(a), m.contains(b)
    ensures m.rank(a) < m.rank(b) < m.total(), m.rank(a) == m.rank(b) ==> a == b
{
    let n = m.contained_keys_flags.size as int;
    lemma_rank_order(m.data(), a, b);
    assert(b < n);
    lemma_rank_order(m.data(), b, n);
}
proof fn prop_inverse_roundtrip(m: RankSelectMap, key: int, back: int)
    requires m.wf(), 0 <= key, 0 <= back, m.contains(key), m.contains(back), m.rank(back) == m.rank(key)
    ensures back == key
{ lemma_rank_unique(m.data(), back, key); }
/// no set bits in a..b
proof fn lemma_cnt_low(x: u64, y: u64, a: int, b: int)
    requires a <= b, b <= 64, 0 <= a, forall|i: int| a <= i < 64 ==> #[trigger] bit(y, i) == bit(x, i), forall|i: int| a <= i < b ==> !#[trigger] bit(y, i)
    ensures cnt(x, b) == cnt(x, a)
{ assert forall|i: int| a <= i < b implies !#[trigger] bit(x, i) by { assert(!bit(y, i)); } lemma_cnt_high(x, a, b); }
proof fn lemma_cnt_tail(x: u64, y: u64, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> #[trigger] bit(x, i) == bit(y, i)
    ensures cnt(x, b) - cnt(x, a) == cnt(y, b) - cnt(y, a)
    decreases b - a
{ if a < b { lemma_cnt_tail(x, y, a, b - 1); } }
} // verus!
fn main() {}
