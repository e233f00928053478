//@include prelude.inc
type NodeId = u32;
type Rank = u32;
//@include perm.inc
//@include_contracts node_order.inc node_order
//@include separators.inc

spec fn iperm(p: Seq<int>) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }
spec fn id(n: nat) -> Seq<int> { Seq::new(n, |i: int| i) }
spec fn sum(f: spec_fn(int) -> int, n: int) -> int decreases n { if n <= 0 { 0 } else { sum(f, n - 1) + f(n - 1) } }
spec fn psum(f: spec_fn(int) -> int, p: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(f, p, n - 1) + f(p[n - 1]) } }
proof fn lemma_psum_remove(f: spec_fn(int) -> int, p: Seq<int>, q: int, n: int)
    requires 0 <= q < p.len(), 0 <= n <= p.len()
    ensures psum(f, p, n) == (if q < n { psum(f, p.remove(q), n - 1) + f(p[q]) } else { psum(f, p.remove(q), n) })
    decreases n
{ if n > 0 { lemma_psum_remove(f, p, q, n - 1); } }
proof fn lemma_iperm_onto(p: Seq<int>, v: int) requires iperm(p), 0 <= v < p.len() ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v
{
    if forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != v {
        let n = p.len() as int;
        assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j { assert(p[i] != p[j]); } else { assert(p[j] != p[i]); } } }
        p.unique_seq_to_set();
        lemma_int_range(0, n);
        let rest = set_int_range(0, n).remove(v);
        assert(p.to_set().subset_of(rest)) by { assert forall|x: int| p.to_set().contains(x) implies rest.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p[i] != v); } }
        lemma_len_subset(p.to_set(), rest);
    }
}
proof fn lemma_psum(f: spec_fn(int) -> int, p: Seq<int>) requires iperm(p) ensures psum(f, p, p.len() as int) == sum(f, p.len() as int) decreases p.len()
{
    let n = p.len() as int;
    if n > 0 {
        lemma_iperm_onto(p, n - 1);
        let q = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == n - 1;
        let r = p.remove(q);
        assert(iperm(r)) by {
            assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < r.len() by { let k = if i < q { i } else { i + 1 }; assert(r[i] == p[k]); if k < q { assert(p[k] != p[q]); } else { assert(p[q] != p[k]); } }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { let a = if i < q { i } else { i + 1 }; let b = if j < q { j } else { j + 1 }; assert(p[a] != p[b]); }
        }
        lemma_psum(f, r);
        lemma_psum_remove(f, p, q, n);
    }
}
/// the second tree arises from the first by rearranging nodes within separators and the parts of separators
spec fn shuf(a: SeparatorTree, b: SeparatorTree) -> bool decreases b
{
    &&& a.nodes@.to_multiset() =~= b.nodes@.to_multiset()
    &&& a.num_nodes == b.num_nodes
    &&& a.children@.len() == b.children@.len()
    &&& exists|p: Seq<int>| #[trigger] iperm(p) && p.len() == b.children@.len() && forall|i: int| 0 <= i < b.children@.len() ==> shuf(a.children@[p[i]], #[trigger] b.children[i])
}
proof fn lemma_flats(c: Vec<SeparatorTree>, n: nat, x: u32, f: spec_fn(int) -> int)
    requires n <= c@.len(), forall|i: int| 0 <= i < c@.len() ==> #[trigger] f(i) == cnt(flat(c[i]), x)
    ensures cnt(flats(c, n), x) == sum(f, n as int)
    decreases n
{
    if n > 0 { lemma_flats(c, (n - 1) as nat, x, f); lemma_cnt_add(flats(c, (n - 1) as nat), flat(c[n - 1]), x); assert(f(n - 1) == cnt(flat(c[n - 1]), x)); }
    else { vstd::seq_lib::to_multiset_len(Seq::<u32>::empty()); }
}
proof fn lemma_psum_same(f: spec_fn(int) -> int, g: spec_fn(int) -> int, p: Seq<int>, n: int)
    requires 0 <= n <= p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] g(i) == f(p[i])
    ensures psum(f, p, n) == sum(g, n) decreases n
{ if n > 0 { lemma_psum_same(f, g, p, n - 1); assert(g(n - 1) == f(p[n - 1])); } }
proof fn lemma_shuf(a: SeparatorTree, b: SeparatorTree, x: u32)
    requires shuf(a, b)
    ensures cnt(flat(a), x) == cnt(flat(b), x)
    decreases b
{
    let p = choose|p: Seq<int>| #[trigger] iperm(p) && p.len() == b.children@.len() && forall|i: int| 0 <= i < b.children@.len() ==> shuf(a.children@[p[i]], #[trigger] b.children[i]);
    let n = b.children@.len();
    let f = |i: int| cnt(flat(a.children[i]), x);
    let g = |i: int| cnt(flat(b.children[i]), x);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == f(p[i]) by { assert(decreases_to!(b => b.children)); assert(shuf(a.children@[p[i]], b.children[i])); lemma_shuf(a.children@[p[i]], b.children[i], x); }
    lemma_flats(a.children, n, x, f);
    lemma_flats(b.children, n, x, g);
    lemma_psum_same(f, g, p, n as int);
    lemma_psum(f, p);
    lemma_cnt_add(a.nodes@, flats(a.children, n), x);
    lemma_cnt_add(b.nodes@, flats(b.children, n), x);
}
proof fn lemma_shuf_above(a: SeparatorTree, b: SeparatorTree, x: u32, y: u32)
    requires shuf(a, b), above(a, x, y)
    ensures above(b, x, y)
    decreases b
{
    let p = choose|p: Seq<int>| #[trigger] iperm(p) && p.len() == b.children@.len() && forall|i: int| 0 <= i < b.children@.len() ==> shuf(a.children@[p[i]], #[trigger] b.children[i]);
    let n = b.children@.len();
    if a.nodes@.contains(x) && flats(a.children, n).contains(y) {
        lemma_cnt(a.nodes@, x); lemma_cnt(b.nodes@, x);
        lemma_of_flats(a.children, n, y);
        let i = choose|i: int| 0 <= i < n && flat(#[trigger] a.children[i]).contains(y);
        lemma_iperm_onto(p, i);
        let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == i;
        assert(shuf(a.children@[p[q]], b.children[q]));
        lemma_shuf(a.children@[i], b.children[q], y);
        lemma_cnt(flat(a.children@[i]), y); lemma_cnt(flat(b.children[q]), y);
        lemma_in_flats(b.children, n, q, y);
    } else {
        let i = choose|i: int| 0 <= i < n && above(#[trigger] a.children[i], x, y);
        lemma_iperm_onto(p, i);
        let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == i;
        assert(shuf(a.children@[p[q]], b.children[q]));
        assert(decreases_to!(b => b.children));
        lemma_shuf_above(a.children@[i], b.children[q], x, y);
        assert(above(b.children[q], x, y));
    }
}
proof fn lemma_before_in(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, x: u32, y: u32) requires before(b, x, y) ensures before(a + b + c, x, y)
{ let (i, j) = choose|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i] == x && #[trigger] b[j] == y; let s = a + b + c; assert(s[a.len() + i] == x && s[a.len() + j] == y); }
proof fn lemma_before_two(a: Seq<u32>, b: Seq<u32>, x: u32, y: u32) requires a.contains(x), b.contains(y) ensures before(a + b, x, y)
{ let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let j = choose|j: int| 0 <= j < b.len() && b[j] == y; let s = a + b; assert(s[i] == x && s[a.len() + j] == y); }
proof fn lemma_flats_before(c: Vec<SeparatorTree>, n: nat, i: int, x: u32, y: u32)
    requires 0 <= i < n <= c@.len(), before(flat(c[i]), x, y)
    ensures before(flats(c, n), x, y)
    decreases n
{
    let a = flats(c, (n - 1) as nat); let b = flat(c[n - 1]);
    if i == n - 1 { lemma_before_in(a, b, Seq::empty(), x, y); assert(a + b + Seq::<u32>::empty() =~= a + b); }
    else { lemma_flats_before(c, (n - 1) as nat, i, x, y); lemma_before_in(Seq::empty(), a, b, x, y); assert(Seq::<u32>::empty() + a + b =~= a + b); }
}
/// the preorder of the tree lists separators before the parts they separate
proof fn lemma_flat_above(t: SeparatorTree, x: u32, y: u32)
    requires above(t, x, y)
    ensures before(flat(t), x, y)
    decreases t
{
    let n = t.children@.len();
    if t.nodes@.contains(x) && flats(t.children, n).contains(y) { lemma_before_two(t.nodes@, flats(t.children, n), x, y); }
    else {
        let i = choose|i: int| 0 <= i < n && above(#[trigger] t.children[i], x, y);
        assert(decreases_to!(t => t.children));
        lemma_flat_above(t.children[i], x, y);
        lemma_flats_before(t.children, n, i, x, y);
        lemma_before_in(t.nodes@, flats(t.children, n), Seq::empty(), x, y);
        assert(t.nodes@ + flats(t.children, n) + Seq::<u32>::empty() =~= flat(t));
    }
}
/// the derived order: the nodes of the tree, each once, separators after the parts they separate
spec fn derived(t: SeparatorTree, from: NodeOrder, to: NodeOrder) -> bool {
    &&& to.wf() && to.n() == from.n()
    &&& forall|x: u32, y: u32| #[trigger] above(t, x, y) ==> x < from.n() && y < from.n() && to.ranks@[from.node_order@[x as int] as int] > to.ranks@[from.node_order@[y as int] as int]
}
/// listing the nodes top down and reversing puts separators after their parts
proof fn lemma_derived(t: SeparatorTree, s: Seq<u32>, from: NodeOrder, to: NodeOrder)
    requires from.wf(), from.n() < u32::MAX, covers(t, from.n()), forall|x: u32| #[trigger] cnt(s, x) == cnt(flat(t), x),
        forall|x: u32, y: u32| #[trigger] above(t, x, y) ==> before(s, x, y),
        to.wf(), to.node_order@.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> to.node_order@[s.len() - 1 - i] == from.node_order@[#[trigger] s[i] as int]
    ensures derived(t, from, to)
{
    assert forall|x: u32| #[trigger] cnt(s, x) == (if x < from.n() { 1int } else { 0 }) by { assert(cnt(flat(t), x) == if x < from.n() { 1int } else { 0 }); }
    lemma_once(s, from.n());
    assert forall|x: u32, y: u32| #[trigger] above(t, x, y) implies x < from.n() && y < from.n() && to.ranks@[from.node_order@[x as int] as int] > to.ranks@[from.node_order@[y as int] as int] by {
        assert(before(s, x, y));
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == y;
        assert(to.node_order@[s.len() - 1 - i] == from.node_order@[s[i] as int]);
        assert(to.node_order@[s.len() - 1 - j] == from.node_order@[s[j] as int]);
    }
}
proof fn lemma_order_perm(s: Seq<u32>, from: NodeOrder, o: Seq<u32>)
    requires perm(s), from.wf(), s.len() == from.n(), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> o[s.len() - 1 - i] == from.node_order@[#[trigger] s[i] as int]
    ensures perm(o)
{
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < o.len() by { let k = s.len() - 1 - i; assert(o[s.len() - 1 - k] == from.node_order@[s[k] as int]); assert(from.node_order@[s[k] as int] < s.len()); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by {
        let a = s.len() - 1 - i; let b = s.len() - 1 - j;
        assert(o[s.len() - 1 - a] == from.node_order@[s[a] as int]); assert(o[s.len() - 1 - b] == from.node_order@[s[b] as int]);
        assert(s[b] != s[a]);
        assert(from.ranks@[from.node_order@[s[a] as int] as int] == s[a]); assert(from.ranks@[from.node_order@[s[b] as int] as int] == s[b]);
    }
}
/// std: slice sorting only rearranges
#[verifier::external_body]
fn vf_sort_nodes(v: &mut Vec<u32>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { }
#[verifier::external_body]
fn vf_sort_trees(v: &mut Vec<SeparatorTree>) -> (p: Ghost<Seq<int>>) ensures final(v)@.len() == old(v)@.len(), iperm(p@), p@.len() == old(v)@.len(), forall|i: int| 0 <= i < p@.len() ==> (#[trigger] final(v)@[i]) == old(v)@[p@[i]] { v.sort_unstable_by_key(|c| c.num_nodes); Ghost::assume_new() }
#[verifier::external_body]
fn vf_reverse(v: &mut Vec<u32>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
fn vf_clone_tree(t: &SeparatorTree) -> (r: SeparatorTree) ensures r == *t { unimplemented!() }
#[verifier::external_body]
fn vf_any_bool() -> bool { true }

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder_sep
//@sig fn reorder_sep(nodes: &mut Vec<NodeId>, order: &NodeOrder)
//@rw sub let furthest = $e; => ;
//@rw sub if let Some(&furthest) = furthest { nodes.sort_by_key($e) } => if vf_any_bool() { vf_sort_nodes(nodes) }
//@spec
    ensures final(nodes)@.to_multiset() == old(nodes)@.to_multiset()
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder_tree
//@sig fn reorder_tree(separators: &mut SeparatorTree, level: usize, order: &NodeOrder)
//@rw sub , latitude, longitude) => )
//@rw sub for $c:id in &mut $s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &mut $s[vf_k]; vf_k += 1; $b }
//@spec
    ensures shuf(*old(separators), *final(separators))
    decreases *old(separators)
//@at start
    let ghost t0 = *separators;
    proof { lemma_shuf_refl(t0); }
//@loop 0
    invariant vf_k <= separators.children@.len(), level <= 2, t0 == *old(separators), separators.children@.len() == t0.children@.len(), separators.num_nodes == t0.num_nodes, separators.nodes@.to_multiset() == t0.nodes@.to_multiset(),
        forall|i: int| vf_k <= i < t0.children@.len() ==> #[trigger] separators.children@[i] == t0.children@[i],
        forall|i: int| 0 <= i < vf_k ==> shuf(t0.children@[i], #[trigger] separators.children@[i]),
    decreases t0.children@.len() - vf_k
//@at loop_start 0
    proof { assert(decreases_to!(t0 => t0.children)); assert(decreases_to!(t0.children => t0.children[vf_k as int])); }
//@at finish
    proof {
        let n = t0.children@.len(); let p = id(n);
        assert(iperm(p));
        assert forall|i: int| 0 <= i < separators.children@.len() implies shuf(t0.children@[p[i]], #[trigger] separators.children[i]) by { assert(separators.children@[i] == separators.children[i]); }
    }
//@endfn
proof fn lemma_shuf_refl(t: SeparatorTree) ensures shuf(t, t) decreases t
{
    let p = id(t.children@.len()); assert(iperm(p));
    assert forall|i: int| 0 <= i < t.children@.len() implies shuf(t.children@[p[i]], #[trigger] t.children[i]) by { assert(decreases_to!(t => t.children)); lemma_shuf_refl(t.children[i]); }
}

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder_children_by_size
//@rw sub $s:chain.sort_unstable_by_key(|$c:id| $e); => let vf_p = vf_sort_trees(&mut $s);
//@rw sub for $c:id in &mut $s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &mut $s[vf_k]; vf_k += 1; $b }
//@spec
    ensures shuf(*old(separators), *final(separators))
    decreases *old(separators)
//@at start
    let ghost t0 = *separators;
//@loop 0
    invariant vf_k <= separators.children@.len(), t0 == *old(separators), separators.children@.len() == t0.children@.len(), separators.num_nodes == t0.num_nodes, separators.nodes == t0.nodes, iperm(vf_p@), vf_p@.len() == t0.children@.len(),
        forall|i: int| vf_k <= i < t0.children@.len() ==> #[trigger] separators.children@[i] == t0.children@[vf_p@[i]],
        forall|i: int| 0 <= i < vf_k ==> shuf(t0.children@[vf_p@[i]], #[trigger] separators.children@[i]),
    decreases t0.children@.len() - vf_k
//@at loop_start 0
    proof { let q = vf_p@[vf_k as int]; assert(decreases_to!(t0 => t0.children)); assert(decreases_to!(t0.children => t0.children[q])); assert(separators.children@[vf_k as int] == t0.children@[q]); }
//@at finish
    proof {
        assert forall|i: int| 0 <= i < separators.children@.len() implies shuf(t0.children@[vf_p@[i]], #[trigger] separators.children[i]) by { assert(separators.children@[i] == separators.children[i]); }
    }
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::to_ordering
//@rw sub $o:id.extend($e); => vf_extend($o, $e);
//@rw sub for $c:id in &$s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &$s[vf_k]; vf_k += 1; $b }
//@spec
    ensures final(order)@ == old(order)@ + flat(*seperators)
    decreases seperators
//@loop 0
    invariant vf_k <= seperators.children@.len(), order@ == old(order)@ + (seperators.nodes@ + flats(seperators.children, vf_k as nat))
    decreases seperators.children@.len() - vf_k
//@at loop_start 0
    proof { assert(decreases_to!(seperators => seperators.children)); assert(decreases_to!(seperators.children => seperators.children[vf_k as int])); }
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder
//@sig fn reorder(cch_separators: &SeparatorTree, cch_order: &NodeOrder) -> (r: NodeOrder)
//@rw sub cch.separators().clone() => vf_clone_tree(cch_separators)
//@rw subopt cch.node_order() => cch_order
//@rw subopt cch.node_order => cch_order
//@rw sub , latitude, longitude) => )
//@rw sub let mut order = Vec::new(); => let mut order: Vec<NodeId> = Vec::new();
//@rw sub for $c:id in &mut $s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &mut $s[vf_k]; vf_k += 1; $b }
//@rw sub order.reverse(); => vf_reverse(&mut order);
//@spec
    requires cch_order.wf(), cch_order.n() < u32::MAX, covers(*cch_separators, cch_order.n())
    ensures derived(*cch_separators, *cch_order, r)
//@loop 0
    invariant vf_k <= order@.len(), order@.len() == s0.len(), from.wf(), s0.len() == from.n(), perm(s0), *cch_order == from, covers(t1, from.n()),
        forall|i: int| 0 <= i < vf_k ==> #[trigger] order@[i] == from.node_order@[s0[i] as int], forall|i: int| vf_k <= i < s0.len() ==> #[trigger] order@[i] == s0[i],
    decreases order@.len() - vf_k
//@at before_loop 0
    let ghost from = *cch_order;
    let ghost s0 = order@;
    proof {
        assert(s0 =~= flat(t1));
        lemma_once(s0, from.n());
    }
//@at after_loop 0
    let ghost o1 = order@;
//@at before let mut order
    let ghost t1 = separators;
    proof {
        assert forall|x: u32| #[trigger] cnt(flat(t1), x) == (if x < cch_order.n() { 1int } else { 0 }) by { lemma_shuf(*cch_separators, t1, x); assert(cnt(flat(*cch_separators), x) == if x < cch_order.n() { 1int } else { 0 }); }
    }
//@at end
    proof {
        assert forall|i: int| 0 <= i < s0.len() implies order@[s0.len() - 1 - i] == from.node_order@[#[trigger] s0[i] as int] by { assert(o1[i] == from.node_order@[s0[i] as int]); }
        lemma_order_perm(s0, from, order@);
        assert forall|x: u32| #[trigger] cnt(s0, x) == cnt(flat(*cch_separators), x) by { lemma_shuf(*cch_separators, t1, x); }
        assert forall|x: u32, y: u32| #[trigger] above(*cch_separators, x, y) implies before(s0, x, y) by { lemma_shuf_above(*cch_separators, t1, x, y); lemma_flat_above(t1, x, y); }
        assert forall|to: NodeOrder| to.wf() && to.node_order@ == order@ implies #[trigger] derived(*cch_separators, from, to) by { lemma_derived(*cch_separators, s0, from, to); }
    }
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder_for_seperator_based_customization
//@sig fn reorder_for_seperator_based_customization(cch_order: &NodeOrder, separators: SeparatorTree) -> (r: NodeOrder)
//@rw sub separators => vf_sep
//@rw sub let mut order = Vec::new(); => let mut order: Vec<NodeId> = Vec::new();
//@rw sub for $c:id in &mut $s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &mut $s[vf_k]; vf_k += 1; $b }
//@rw sub order.reverse(); => vf_reverse(&mut order);
//@spec
    requires cch_order.wf(), cch_order.n() < u32::MAX, covers(separators, cch_order.n())
    ensures derived(separators, *cch_order, r)
//@at start
    let mut vf_sep = separators;
//@loop 0
    invariant vf_k <= order@.len(), order@.len() == s0.len(), from.wf(), s0.len() == from.n(), perm(s0), *cch_order == from,
        forall|i: int| 0 <= i < vf_k ==> #[trigger] order@[i] == from.node_order@[s0[i] as int], forall|i: int| vf_k <= i < s0.len() ==> #[trigger] order@[i] == s0[i],
    decreases order@.len() - vf_k
//@at before_loop 0
    let ghost from = *cch_order;
    let ghost s0 = order@;
    proof { assert(s0 =~= flat(t1)); lemma_once(s0, from.n()); }
//@at before let mut order
    let ghost t1 = vf_sep;
    proof {
        assert forall|x: u32| #[trigger] cnt(flat(t1), x) == (if x < cch_order.n() { 1int } else { 0 }) by { lemma_shuf(separators, t1, x); assert(cnt(flat(separators), x) == if x < cch_order.n() { 1int } else { 0 }); }
    }
//@at after_loop 0
    let ghost o1 = order@;
//@at end
    proof {
        assert forall|i: int| 0 <= i < s0.len() implies order@[s0.len() - 1 - i] == from.node_order@[#[trigger] s0[i] as int] by { assert(o1[i] == from.node_order@[s0[i] as int]); }
        lemma_order_perm(s0, from, order@);
        assert forall|x: u32| #[trigger] cnt(s0, x) == cnt(flat(separators), x) by { lemma_shuf(separators, t1, x); }
        assert forall|x: u32, y: u32| #[trigger] above(separators, x, y) implies before(s0, x, y) by { lemma_shuf_above(separators, t1, x, y); lemma_flat_above(t1, x, y); }
        assert forall|to: NodeOrder| to.wf() && to.node_order@ == order@ implies #[trigger] derived(separators, from, to) by { lemma_derived(separators, s0, from, to); }
    }
//@endfn

/// std: VecDeque
#[verifier::external_body]
struct VfDeque<'a> { q: std::collections::VecDeque<&'a SeparatorTree> }
impl<'a> VfDeque<'a> {
    uninterp spec fn view(&self) -> Seq<SeparatorTree>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<SeparatorTree>::empty() { VfDeque { q: std::collections::VecDeque::new() } }
    #[verifier::external_body]
    fn push_back(&mut self, t: &'a SeparatorTree) ensures final(self)@ == old(self)@.push(*t) { self.q.push_back(t) }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<&'a SeparatorTree>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(&old(self)@[0]) && final(self)@ == old(self)@.skip(1) { self.q.pop_front() }
}
/// the nodes of the trees still queued
spec fn queued(q: Seq<SeparatorTree>, n: int, x: u32) -> int decreases n { if n <= 0 { 0 } else { queued(q, n - 1, x) + cnt(flat(q[n - 1]), x) } }
proof fn lemma_queued_same(q: Seq<SeparatorTree>, r: Seq<SeparatorTree>, n: int, x: u32) requires 0 <= n <= q.len(), n <= r.len(), forall|i: int| 0 <= i < n ==> q[i] == r[i] ensures queued(q, n, x) == queued(r, n, x) decreases n { if n > 0 { lemma_queued_same(q, r, n - 1, x); } }
proof fn lemma_queued_skip(q: Seq<SeparatorTree>, n: int, x: u32) requires 0 < n <= q.len() ensures queued(q, n, x) == cnt(flat(q[0]), x) + queued(q.skip(1), n - 1, x) decreases n { if n > 1 { lemma_queued_skip(q, n - 1, x); assert(q.skip(1)[n - 2] == q[n - 1]); } else { assert(queued(q, 0, x) == 0); assert(queued(q.skip(1), 0, x) == 0); } }
spec fn pend(q: Seq<SeparatorTree>, y: u32) -> bool { exists|k: int| 0 <= k < q.len() && flat(#[trigger] q[k]).contains(y) }
spec fn pend_above(q: Seq<SeparatorTree>, x: u32, y: u32) -> bool { exists|k: int| 0 <= k < q.len() && above(#[trigger] q[k], x, y) }
/// every separator node precedes the nodes of its parts, or these are still queued
spec fn top_down(o: Seq<u32>, q: Seq<SeparatorTree>, x: u32, y: u32) -> bool { before(o, x, y) || o.contains(x) && pend(q, y) || pend_above(q, x, y) }
proof fn lemma_bfs_step(o: Seq<u32>, q: Seq<SeparatorTree>, o2: Seq<u32>, q2: Seq<SeparatorTree>, x: u32, y: u32)
    requires q.len() > 0, o2 == o + q[0].nodes@, q2 == q.skip(1) + q[0].children@, top_down(o, q, x, y)
    ensures top_down(o2, q2, x, y)
{
    let t = q[0]; let n = t.children@.len();
    if before(o, x, y) { lemma_before_in(Seq::empty(), o, t.nodes@, x, y); assert(Seq::<u32>::empty() + o + t.nodes@ =~= o2); }
    else if o.contains(x) && pend(q, y) {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(o2[i] == x);
        let k = choose|k: int| 0 <= k < q.len() && flat(#[trigger] q[k]).contains(y);
        if k > 0 { assert(q2[k - 1] == q[k]); }
        else {
            let j = choose|j: int| 0 <= j < flat(t).len() && flat(t)[j] == y;
            if j < t.nodes@.len() { assert(t.nodes@[j] == y); lemma_before_two(o, t.nodes@, x, y); }
            else { let c = flats(t.children, n); assert(c[j - t.nodes@.len()] == y); lemma_of_flats(t.children, n, y); let m = choose|m: int| 0 <= m < n && flat(#[trigger] t.children[m]).contains(y); assert(q2[q.len() - 1 + m] == t.children[m]); }
        }
    } else {
        let k = choose|k: int| 0 <= k < q.len() && above(#[trigger] q[k], x, y);
        if k > 0 { assert(q2[k - 1] == q[k]); }
        else if t.nodes@.contains(x) && flats(t.children, n).contains(y) {
            let i = choose|i: int| 0 <= i < t.nodes@.len() && t.nodes@[i] == x; assert(o2[o.len() + i] == x);
            lemma_of_flats(t.children, n, y); let m = choose|m: int| 0 <= m < n && flat(#[trigger] t.children[m]).contains(y); assert(q2[q.len() - 1 + m] == t.children[m]);
        } else {
            let m = choose|m: int| 0 <= m < n && above(#[trigger] t.children[m], x, y); assert(q2[q.len() - 1 + m] == t.children[m]);
        }
    }
}
proof fn lemma_queued_children(q: Seq<SeparatorTree>, c: Vec<SeparatorTree>, n: int, x: u32)
    requires 0 <= n <= c@.len()
    ensures queued(q + c@, q.len() + n, x) == queued(q, q.len() as int, x) + cnt(flats(c, n as nat), x)
    decreases n
{
    if n > 0 { lemma_queued_children(q, c, n - 1, x); assert((q + c@)[q.len() + n - 1] == c@[n - 1]); lemma_cnt_add(flats(c, (n - 1) as nat), flat(c[n - 1]), x); }
    else { lemma_queued_same(q, q + c@, q.len() as int, x); vstd::seq_lib::to_multiset_len(Seq::<u32>::empty()); }
}
//@fn engine/src/algo/customizable_contraction_hierarchy/reorder.rs -::reorder_bfs
//@sig fn reorder_bfs(cch_separators: &SeparatorTree, cch_order: &NodeOrder) -> (r: NodeOrder)
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@rw whilelet
//@rw sub cch.separators() => cch_separators
//@rw subopt cch.node_order() => cch_order
//@rw subopt cch.node_order => cch_order
//@rw sub std::collections::VecDeque::new() => VfDeque::new()
//@rw sub order.extend($e); => vf_extend(&mut order, $e);
//@rw sub let mut order = Vec::new(); => let mut order: Vec<NodeId> = Vec::new();
//@rw sub for $c:id in &mut $s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &mut $s[vf_k]; vf_k += 1; $b }
//@rw sub for $c:id in &$s:chain { $b } => let mut vf_k: usize = 0; while vf_k < $s.len() { let $c = &$s[vf_k]; vf_k += 1; $b }
//@rw sub order.reverse(); => vf_reverse(&mut order);
//@spec
    requires cch_order.wf(), cch_order.n() < u32::MAX, covers(*cch_separators, cch_order.n())
    ensures derived(*cch_separators, *cch_order, r)
//@at before_loop 0
    proof {
        let q = queue@; assert(q =~= seq![*cch_separators]);
        assert forall|x: u32| #[trigger] cnt(flat(*cch_separators), x) == cnt(order@, x) + queued(q, q.len() as int, x) by { vstd::seq_lib::to_multiset_len(Seq::<u32>::empty()); assert(queued(q, 0, x) == 0); assert(q[0] == *cch_separators); }
        assert forall|x: u32, y: u32| #[trigger] above(*cch_separators, x, y) implies top_down(order@, q, x, y) by { assert(above(q[0], x, y)); }
    }
//@loop 0
    invariant forall|x: u32| #[trigger] cnt(flat(*cch_separators), x) == cnt(order@, x) + queued(queue@, queue@.len() as int, x),
        forall|x: u32, y: u32| #[trigger] above(*cch_separators, x, y) ==> top_down(order@, queue@, x, y),
    ensures forall|x: u32| #[trigger] cnt(flat(*cch_separators), x) == cnt(order@, x), forall|x: u32, y: u32| #[trigger] above(*cch_separators, x, y) ==> before(order@, x, y)
//@at loop_begin 0
    let ghost q1 = queue@;
    let ghost o1 = order@;
//@loop 1
    invariant vf_k <= sep.children@.len(), queue@ == q2 + sep.children@.take(vf_k as int)
    decreases sep.children@.len() - vf_k
//@at before_loop 1
    let ghost q2 = queue@;
    proof { assert(q2 + sep.children@.take(0) =~= q2); assert(seq![*sep] + q2 =~= q1); }
//@at loop_end 1
    proof { assert(sep.children@.take(vf_k as int) =~= sep.children@.take(vf_k - 1).push(sep.children@[vf_k - 1])); }
//@at after_loop 1
    proof {
        let qq = seq![*sep] + q2;
        assert(sep.children@.take(sep.children@.len() as int) =~= sep.children@);
        assert forall|x: u32| #[trigger] cnt(flat(*cch_separators), x) == cnt(order@, x) + queued(queue@, queue@.len() as int, x) by {
            lemma_cnt_add(o1, sep.nodes@, x); lemma_queued_skip(qq, qq.len() as int, x); assert(qq.skip(1) =~= q2); lemma_queued_children(q2, sep.children, sep.children@.len() as int, x); lemma_cnt_add(sep.nodes@, flats(sep.children, sep.children@.len()), x);
            assert(cnt(flat(*cch_separators), x) == cnt(o1, x) + queued(qq, qq.len() as int, x));
        }
        assert forall|x: u32, y: u32| #[trigger] above(*cch_separators, x, y) implies top_down(order@, queue@, x, y) by { assert(qq.skip(1) =~= q2); assert(top_down(o1, qq, x, y)); lemma_bfs_step(o1, qq, order@, queue@, x, y); }
    }
//@loop 2
    invariant vf_k <= order@.len(), order@.len() == s0.len(), from.wf(), s0.len() == from.n(), perm(s0), *cch_order == from,
        forall|i: int| 0 <= i < vf_k ==> #[trigger] order@[i] == from.node_order@[s0[i] as int], forall|i: int| vf_k <= i < s0.len() ==> #[trigger] order@[i] == s0[i],
    decreases order@.len() - vf_k
//@at before_loop 2
    let ghost from = *cch_order;
    let ghost s0 = order@;
    proof {
        assert forall|x: u32| #[trigger] cnt(s0, x) == (if x < from.n() { 1int } else { 0 }) by { assert(cnt(flat(*cch_separators), x) == if x < from.n() { 1int } else { 0 }); assert(cnt(flat(*cch_separators), x) == cnt(s0, x)); }
        lemma_once(s0, from.n());
    }
//@at after_loop 2
    let ghost o1 = order@;
//@at end
    proof {
        assert forall|i: int| 0 <= i < s0.len() implies order@[s0.len() - 1 - i] == from.node_order@[#[trigger] s0[i] as int] by { assert(o1[i] == from.node_order@[s0[i] as int]); }
        lemma_order_perm(s0, from, order@);
        assert forall|x: u32| #[trigger] cnt(s0, x) == cnt(flat(*cch_separators), x) by { assert(cnt(flat(*cch_separators), x) == cnt(s0, x)); }
        assert forall|to: NodeOrder| to.wf() && to.node_order@ == order@ implies #[trigger] derived(*cch_separators, from, to) by { lemma_derived(*cch_separators, s0, from, to); }
    }
//@endfn

} // verus!
fn main() {}
