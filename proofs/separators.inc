use std::ops::Range;
//@item engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs enum SeparatorNodes
//@item engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs struct SeparatorTree
type Rng = std::ops::Range<u32>;
spec fn down(r: Rng) -> Seq<u32> { Seq::new(if r.end > r.start { (r.end - r.start) as nat } else { 0 }, |i: int| (r.end - 1 - i) as u32) }
/// std: Range::rev collected
fn vf_rev(r: &Rng) -> (v: Vec<u32>) ensures v@ == down(*r)
{
    let mut v: Vec<u32> = Vec::new();
    let mut e = r.end;
    while e > r.start invariant v@.len() == r.end - e, r.start <= r.end ==> r.start <= e <= r.end, r.start > r.end ==> e == r.end, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == r.end - 1 - i decreases e { e -= 1; v.push(e); }
    assert(v@ =~= down(*r));
    v
}
fn vf_push(v: Vec<u32>, x: u32) -> (r: Vec<u32>) ensures r@ == v@.push(x) { let mut v = v; v.push(x); v }
fn vf_copied(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@ { let mut r: Vec<u32> = Vec::new(); let mut i = 0; while i < v.len() invariant i <= v@.len(), r@ == v@.take(i as int) decreases v@.len() - i { r.push(v[i]); i += 1; assert(v@.take(i as int) =~= v@.take(i - 1).push(v@[i - 1])); } assert(v@.take(i as int) =~= v@); r }
fn vf_first(s: &Vec<u32>) -> (r: Option<u32>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { if s.len() == 0 { None } else { Some(s[0]) } }
fn vf_extend(o: &mut Vec<u32>, n: Vec<u32>) ensures final(o)@ == old(o)@ + n@
{
    let mut i = 0;
    while i < n.len() invariant i <= n@.len(), o@ == old(o)@ + n@.take(i as int) decreases n@.len() - i { o.push(n[i]); i += 1; assert(n@.take(i as int) =~= n@.take(i - 1).push(n@[i - 1])); }
    assert(n@.take(i as int) =~= n@);
}
fn vf_len(r: &Rng) -> (k: usize) ensures k == down(*r).len() { if r.end > r.start { (r.end - r.start) as usize } else { 0 } }
fn vf_range_empty(r: &Rng) -> (b: bool) ensures b == (down(*r).len() == 0) { !(r.start < r.end) }
fn vf_last(r: &Rng) -> (o: Option<u32>) ensures o == (if down(*r).len() == 0 { None } else { Some(down(*r)[0]) }) { if r.start < r.end { Some(r.end - 1) } else { None } }

impl SeparatorNodes {
    /// the nodes in the order in which they are listed
    spec fn view(&self) -> Seq<u32> { match *self { SeparatorNodes::Consecutive(r) => down(r), SeparatorNodes::Random(v) => v@ } }

//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::new
//@spec
    ensures r@ == Seq::<u32>::empty()
//@at end
    proof { assert(down(Rng { start: 0, end: 0 }) =~= Seq::<u32>::empty()); }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::with_one_node
//@spec
    requires node < u32::MAX
    ensures r@ == seq![node]
//@at end
    proof { assert(down(Rng { start: node, end: (node + 1) as u32 }) =~= seq![node]); }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::push
//@rw subopt Vec::from_iter(range.rev().chain(std::iter::once($e))) => vf_push(vf_rev(range), $e)
//@spec
    requires old(self)@.len() > 0
    ensures final(self)@ == old(self)@.push(node)
//@at finish
    proof { assert(self@ =~= old(self)@.push(node)); }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::is_empty
//@rw subopt range.is_empty() => vf_range_empty(range)
//@spec
    ensures r == (self@.len() == 0)
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::len
//@rw subopt range.len() => vf_len(range)
//@spec
    ensures r == self@.len()
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::highest_ranked_node
//@rw subopt nodes.first().copied() => vf_first(nodes)
//@rw subopt range.clone().rev().next() => vf_last(range)
//@spec
    ensures r == (if self@.len() == 0 { None } else { Some(self@[0]) })
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::iter
//@sig fn iter(&self) -> (r: Vec<NodeId>)
//@rw subopt EitherOrIterator::Either(range.clone().rev()) => vf_rev(range)
//@rw subopt EitherOrIterator::Or(nodes.iter().copied()) => vf_copied(nodes)
//@spec
    ensures r@ == self@
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorNodes::mut_nodes
//@sig fn mut_nodes(&mut self) -> (r: &mut Vec<NodeId>)
//@rw subopt Vec::from_iter(range.rev()) => vf_rev(range)
//@spec
    ensures r@ == old(self)@, final(self)@ == final(r)@
//@endfn
}
/// all nodes of a tree: the separator first, then the parts
spec fn flat(t: SeparatorTree) -> Seq<u32> decreases t, 0nat { t.nodes@ + flats(t.children, t.children@.len()) }
spec fn flats(c: Vec<SeparatorTree>, n: nat) -> Seq<u32> decreases c, n { if n == 0 || n > c@.len() { Seq::empty() } else { flats(c, (n - 1) as nat) + flat(c[n - 1]) } }
/// x belongs to a separator and y to one of the parts it separates
spec fn above(t: SeparatorTree, x: u32, y: u32) -> bool decreases t
{ t.nodes@.contains(x) && flats(t.children, t.children@.len()).contains(y) || exists|i: int| 0 <= i < t.children@.len() && above(#[trigger] t.children[i], x, y) }
/// x occurs before y
spec fn before(s: Seq<u32>, x: u32, y: u32) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == y }
spec fn cnt(s: Seq<u32>, x: u32) -> int { s.to_multiset().count(x) as int }
proof fn lemma_cnt_add(a: Seq<u32>, b: Seq<u32>, x: u32) ensures cnt(a + b, x) == cnt(a, x) + cnt(b, x) { vstd::seq_lib::lemma_multiset_commutative(a, b); }
proof fn lemma_cnt(s: Seq<u32>, x: u32) ensures cnt(s, x) > 0 <==> s.contains(x) { vstd::seq_lib::to_multiset_contains(s, x); }
proof fn lemma_in_flats(c: Vec<SeparatorTree>, n: nat, i: int, y: u32)
    requires 0 <= i < n <= c@.len(), flat(c[i]).contains(y)
    ensures flats(c, n).contains(y)
    decreases n
{
    let a = flats(c, (n - 1) as nat); let b = flat(c[n - 1]);
    if i == n - 1 { let k = choose|k: int| 0 <= k < b.len() && b[k] == y; assert((a + b)[a.len() + k] == y); }
    else { lemma_in_flats(c, (n - 1) as nat, i, y); let k = choose|k: int| 0 <= k < a.len() && a[k] == y; assert((a + b)[k] == y); }
}
proof fn lemma_of_flats(c: Vec<SeparatorTree>, n: nat, y: u32)
    requires n <= c@.len(), flats(c, n).contains(y)
    ensures exists|i: int| 0 <= i < n && flat(#[trigger] c[i]).contains(y)
    decreases n
{
    if n > 0 {
        let a = flats(c, (n - 1) as nat); let b = flat(c[n - 1]);
        let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == y;
        if k < a.len() { assert(a[k] == y); lemma_of_flats(c, (n - 1) as nat, y); } else { assert(b[k - a.len()] == y); assert(flat(c[n - 1]).contains(y)); }
    }
}
/// a tree over the ranks 0 .. n
spec fn covers(t: SeparatorTree, n: nat) -> bool { forall|x: u32| #[trigger] cnt(flat(t), x) == if x < n { 1int } else { 0 } }
proof fn lemma_once(s: Seq<u32>, n: nat)
    requires forall|x: u32| #[trigger] cnt(s, x) == if x < n { 1int } else { 0 }, n <= u32::MAX
    ensures perm(s), s.len() == n, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < n by { assert(s.contains(s[i])); lemma_cnt(s, s[i]); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {
        if s[i] == s[j] {
            let x = s[i]; let a = s.take(j); let b = s.skip(j);
            assert(s =~= a + b); lemma_cnt_add(a, b, x);
            assert(a[i] == x && b[0] == x); lemma_cnt(a, x); lemma_cnt(b, x); assert(cnt(s, x) <= 1);
        }
    }
    let k = s.len() as int;
    let ids = Seq::new(s.len(), |i: int| s[i] as int);
    assert(ids.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } } }
    ids.unique_seq_to_set();
    lemma_int_range(0, n as int);
    assert(ids.to_set() =~= set_int_range(0, n as int)) by {
        assert forall|v: int| ids.to_set().contains(v) == set_int_range(0, n as int).contains(v) by {
            if ids.to_set().contains(v) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == v; assert(s[i] < n); }
            if 0 <= v < n { let x = v as u32; assert(cnt(s, x) == 1); lemma_cnt(s, x); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(ids[i] == v); }
        }
    }
}
