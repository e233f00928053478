/// a list of n numbers below n without repetition
spec fn perm(s: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
/// pigeonhole: a permutation hits every number
proof fn lemma_perm_onto(s: Seq<u32>, v: int)
    requires perm(s), 0 <= v < s.len()
    ensures exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v
{
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != v {
        let n = s.len() as int;
        let ids = Seq::new(s.len(), |i: int| s[i] as int);
        assert(ids.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } }
        }
        ids.unique_seq_to_set();
        lemma_int_range(0, n);
        let rest = set_int_range(0, n).remove(v);
        assert(ids.to_set().subset_of(rest)) by {
            assert forall|x: int| ids.to_set().contains(x) implies rest.contains(x) by { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(s[i] != v); }
        }
        lemma_len_subset(ids.to_set(), rest);
    }
}
/// mutually inverse lists
spec fn inverse(a: Seq<u32>, b: Seq<u32>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < b.len() && b[a[i] as int] == i
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < a.len() && a[b[i] as int] == i
}
