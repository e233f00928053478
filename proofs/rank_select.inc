use vstd::std_specs::bits::*;
use vstd::bits::*;
use vstd::arithmetic::power2::*;
// ---- counting bits
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32) ensures r == cnt(x, 64), r <= 64;
pub assume_specification [u32::count_ones] (x: u32) -> (r: u32) ensures r == cnt(x as u64, 32), r <= 32;
pub assume_specification [u16::count_ones] (x: u16) -> (r: u32) ensures r == cnt(x as u64, 16), r <= 16;
pub assume_specification [u8::count_ones] (x: u8) -> (r: u32) ensures r == cnt(x as u64, 8), r <= 8;

proof fn lemma_cnt_bound(x: u64, k: int)
    ensures cnt(x, k) <= (if k < 0 { 0 } else { k })
    decreases k
{ if k > 0 { lemma_cnt_bound(x, k - 1); } }
proof fn lemma_cnt_ext(x: u64, y: u64, k: int)
    requires forall|i: int| 0 <= i < k ==> bit(x, i) == bit(y, i)
    ensures cnt(x, k) == cnt(y, k)
    decreases k
{ if k > 0 { lemma_cnt_ext(x, y, k - 1); } }
/// positions above the highest set bit add nothing
proof fn lemma_cnt_high(x: u64, a: int, b: int)
    requires a <= b, forall|i: int| a <= i < b ==> !bit(x, i)
    ensures cnt(x, b) == cnt(x, a)
    decreases b - a
{ if a < b { lemma_cnt_high(x, a, b - 1); if b <= 0 {} } }
proof fn lemma_cnt_mono(x: u64, a: int, b: int)
    requires a <= b
    ensures cnt(x, a) <= cnt(x, b)
    decreases b - a
{ if a < b { lemma_cnt_mono(x, a, b - 1); } }
/// the low k bits
proof fn lemma_mod_shift(x: u64, k: u64)
    requires k < 64
    ensures (1u64 << k) > 0, forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x % (1u64 << k), i) == (bit(x, i) && i < k), cnt(x % (1u64 << k), 64) == cnt(x, k as int)
{
    lemma_u64_low_bits_mask_is_mod(x, k as nat);
    lemma_u64_pow2_no_overflow(k as nat);
    lemma_pow2_pos(k as nat);
    lemma_u64_shl_is_mul(1u64, k);
    let p = 1u64 << k;
    assert(p == pow2(k as nat));
    let m = low_bits_mask(k as nat) as u64;
    assert(x % p == x & m);
    assert(m == sub(p, 1)) by { lemma_low_bits_mask_is_pow2m1(k as nat); }
    let y = x % p;
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == (bit(x, i) && i < k) by {
        let j = i as u64;
        assert(((x & sub(1u64 << k, 1)) >> j) & 1u64 == (if j < k { (x >> j) & 1u64 } else { 0u64 })) by (bit_vector) requires k < 64, j < 64;
    }
    lemma_cnt_high(y, k as int, 64);
    lemma_cnt_ext(x, y, k as int);
}
proof fn lemma_low_bits_mask_is_pow2m1(k: nat) ensures low_bits_mask(k) == pow2(k) - 1 { lemma_pow2_pos(k); reveal(low_bits_mask); }

/// a whole word of the array
proof fn lemma_ones_word(s: Seq<u64>, w: int, k: int)
    requires 0 <= w < s.len(), 0 <= k <= 64
    ensures ones(s, 64 * w + k) == ones(s, 64 * w) + cnt(s[w], k)
    decreases k
{
    if k > 0 {
        lemma_ones_word(s, w, k - 1);
        let i = 64 * w + k - 1;
        assert(i / 64 == w && i % 64 == k - 1);
    }
}
proof fn lemma_wsum(s: Seq<u64>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures ones(s, 64 * b) == ones(s, 64 * a) + wsum(s, a, b)
    decreases b - a
{
    if a < b {
        lemma_wsum(s, a, b - 1);
        lemma_ones_word(s, b - 1, 64);
    }
}
proof fn lemma_ones_mono(s: Seq<u64>, a: int, b: int)
    requires a <= b
    ensures ones(s, a) <= ones(s, b), ones(s, b) - ones(s, a) <= b - a
    decreases b - a
{ if a < b { lemma_ones_mono(s, a, b - 1); if b <= 0 {} } }
proof fn lemma_ones_beyond(s: Seq<u64>, n: int, m: int)
    requires n <= m, forall|i: int| n <= i < m ==> !abit(s, i)
    ensures ones(s, m) == ones(s, n)
    decreases m - n
{ if n < m { lemma_ones_beyond(s, n, m - 1); if m <= 0 {} } }
proof fn lemma_ones_bound(s: Seq<u64>, n: int)
    ensures ones(s, n) <= (if n < 0 { 0 } else { n })
    decreases n
{ if n > 0 { lemma_ones_bound(s, n - 1); } }
/// dense numbering: two set positions with the same rank are the same
proof fn lemma_rank_unique(s: Seq<u64>, a: int, b: int)
    requires 0 <= a, 0 <= b, abit(s, a), abit(s, b), ones(s, a) == ones(s, b)
    ensures a == b
{
    if a < b { lemma_ones_mono(s, a + 1, b); assert(ones(s, a + 1) == ones(s, a) + 1); }
    if b < a { lemma_ones_mono(s, b + 1, a); assert(ones(s, b + 1) == ones(s, b) + 1); }
}
/// ... in increasing order
proof fn lemma_rank_order(s: Seq<u64>, a: int, b: int)
    requires 0 <= a < b, abit(s, a)
    ensures ones(s, a) < ones(s, b)
{ lemma_ones_mono(s, a + 1, b); assert(ones(s, a + 1) == ones(s, a) + 1); }

/// `.iter().map(|v| v.count_ones() as usize).sum()`
fn vf_popsum(s: &[u64]) -> (r: usize)
    requires s@.len() < 0x0100_0000_0000_0000
    ensures r == wsum(s@, 0, s@.len() as int), r <= 64 * s@.len()
{
    let mut i = 0; let mut r: usize = 0;
    while i < s.len() invariant i <= s@.len(), s@.len() < 0x0100_0000_0000_0000, r == wsum(s@, 0, i as int), r <= 64 * i decreases s@.len() - i
    { r += s[i].count_ones() as usize; i += 1; }
    r
}
proof fn lemma_wsum_sub(s: Seq<u64>, a: int, b: int, k: int)
    requires 0 <= a <= k <= b <= s.len()
    ensures wsum(s.subrange(a, b), 0, k - a) == wsum(s, a, k)
    decreases k - a
{ if a < k { lemma_wsum_sub(s, a, b, k - 1); } }
/// `&v[range]`
fn vf_slice(v: &Vec<u64>, range: core::ops::Range<usize>) -> (r: &[u64])
    requires range.start <= range.end <= v@.len()
    ensures r@ == v@.subrange(range.start as int, range.end as int)
{ vstd::slice::slice_subrange(v.as_slice(), range.start, range.end) }

// ---- allocation: `bytes` zeroed bytes with alignment `align`, later read as a vector of 64 bit words
struct VfMem { bytes: usize, align: usize }
fn vf_alloc_zeroed(bytes: usize, align: usize) -> (r: VfMem) ensures r.bytes == bytes, r.align == align { VfMem { bytes, align } }
/// valid only if the words fit the allocated bytes exactly (the capacity is handed back on drop)
fn vf_from_raw_parts(m: VfMem, len: usize, cap: usize) -> (r: Vec<u64>)
    requires len == cap, cap * 8 == m.bytes, m.align >= 8
    ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] == 0
{ vf_fill(0u64, len) }

//@item engine/src/datastr/rank_select_map.rs const CACHE_LINE_WIDTH
//@item engine/src/datastr/rank_select_map.rs struct BitVec
//@item engine/src/datastr/rank_select_map.rs const STORAGE_BITS u64::BITS=>64u32
//@item engine/src/datastr/rank_select_map.rs const BITS_PER_PREFIX
//@item engine/src/datastr/rank_select_map.rs const INTS_PER_PREFIX

impl BitVec {
    spec fn wf(&self) -> bool {
        &&& self.size < 0x1000_0000_0000_0000
        &&& self.data@.len() == (self.size + 63) / 64
        // padding bits are never set
        &&& forall|i: int| self.size <= i ==> !#[trigger] abit(self.data@, i)
    }
    /// content: one bool per position
    spec fn at(&self, i: int) -> bool { abit(self.data@, i) }
    proof fn lemma_padding(&self, i: int, v: u64)
        requires self.wf(), 0 <= i < self.size
        ensures i / 64 < self.data@.len()
    { }
}
