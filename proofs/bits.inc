// ---- single bits of machine words
pub open spec fn bit(x: u64, i: int) -> bool { 0 <= i < 64 && (x >> (i as u64)) & 1u64 == 1u64 }
/// bit `i` of a word array
spec fn abit(s: Seq<u64>, i: int) -> bool { 0 <= i < 64 * s.len() && bit(s[i / 64], i % 64) }
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
/// number of set bits among the lowest k
pub open spec fn cnt(x: u64, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt(x, k - 1) + b2n(bit(x, k - 1)) } }
/// number of set bits of the array below position n
spec fn ones(s: Seq<u64>, n: int) -> nat decreases n { if n <= 0 { 0 } else { ones(s, n - 1) + b2n(abit(s, n - 1)) } }
/// number of set bits in the words a..b
spec fn wsum(s: Seq<u64>, a: int, b: int) -> nat decreases b - a { if b <= a { 0 } else { wsum(s, a, b - 1) + cnt(s[b - 1], 64) } }

proof fn lemma_bit_set(x: u64, k: u64)
    requires k < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x | (1u64 << k), i) == (bit(x, i) || i == k)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x | (1u64 << k), i) == (bit(x, i) || i == k) by {
        let j = i as u64;
        assert(((x | (1u64 << k)) >> j) & 1u64 == (if j == k { 1u64 } else { (x >> j) & 1u64 })) by (bit_vector) requires k < 64, j < 64;
    }
}
proof fn lemma_bit_unset(x: u64, k: u64)
    requires k < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x & !(1u64 << k), i) == (bit(x, i) && i != k)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x & !(1u64 << k), i) == (bit(x, i) && i != k) by {
        let j = i as u64;
        assert(((x & !(1u64 << k)) >> j) & 1u64 == (if j == k { 0u64 } else { (x >> j) & 1u64 })) by (bit_vector) requires k < 64, j < 64;
    }
}
proof fn lemma_bit_get(x: u64, k: u64)
    requires k < 64
    ensures (x & (1u64 << k) != 0) == bit(x, k as int)
{
    assert((x & (1u64 << k) != 0) == ((x >> k) & 1u64 == 1u64)) by (bit_vector) requires k < 64;
}
proof fn lemma_bit_zero()
    ensures forall|i: int| !#[trigger] bit(0u64, i)
{
    assert forall|i: int| !#[trigger] bit(0u64, i) by {
        let j = i as u64;
        if 0 <= i < 64 { assert((0u64 >> j) & 1u64 == 0u64) by (bit_vector) requires j < 64; }
    }
}
proof fn lemma_bit_all()
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(!0u64, i)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(!0u64, i) by {
        let j = i as u64;
        assert((!0u64 >> j) & 1u64 == 1u64) by (bit_vector) requires j < 64;
    }
}
proof fn lemma_word_zero(x: u64)
    requires x != 0
    ensures exists|i: int| 0 <= i < 64 && bit(x, i)
{
    if forall|i: int| 0 <= i < 64 ==> !bit(x, i) {
        assert forall|j: u64| #![trigger (x >> j)] j < 64 implies (x >> j) & 1u64 == 0u64 by {
            assert(!bit(x, j as int));
            assert((x >> j) & 1u64 == 0u64 || (x >> j) & 1u64 == 1u64) by (bit_vector);
        }
        assert(x == 0) by (bit_vector) requires forall|j: u64| #![trigger (x >> j)] j < 64 ==> (x >> j) & 1u64 == 0u64;
    }
}
/// the lowest set bit
proof fn lemma_tz(x: u64)
    requires x != 0
    ensures u64_trailing_zeros(x) < 64, bit(x, u64_trailing_zeros(x) as int), forall|i: int| 0 <= i < u64_trailing_zeros(x) ==> !#[trigger] bit(x, i)
{
    axiom_u64_trailing_zeros(x);
    let t = u64_trailing_zeros(x) as u64;
    assert(t < 64);
    assert(bit(x, t as int));
    assert forall|i: int| 0 <= i < t implies !#[trigger] bit(x, i) by {
        let j = i as u64;
        assert((x >> j) & 1u64 == 0u64);
    }
}
/// x & (x - 1) drops the lowest set bit
proof fn lemma_drop_low(x: u64)
    requires x != 0
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x & sub(x, 1), i) == (bit(x, i) && i != u64_trailing_zeros(x))
{
    lemma_tz(x);
    axiom_u64_trailing_zeros(x);
    let t = u64_trailing_zeros(x) as u64;
    assert(x & sub(1u64 << t, 1) == 0) by {
        assert forall|j: u64| #![trigger (x >> j)] j < t implies (x >> j) & 1u64 == 0u64 by {
            assert(!bit(x, j as int));
            assert((x >> j) & 1u64 == 0u64 || (x >> j) & 1u64 == 1u64) by (bit_vector);
        }
        assert(x & sub(1u64 << t, 1) == 0) by (bit_vector) requires t < 64, forall|j: u64| #![trigger (x >> j)] j < t ==> (x >> j) & 1u64 == 0u64;
    }
    assert(x & sub(x, 1) == x & !(1u64 << t)) by (bit_vector) requires t < 64, (x >> t) & 1u64 == 1u64, x & sub(1u64 << t, 1) == 0;
    lemma_bit_unset(x, t);
}
