//@include prelude.inc
type NodeId = u32;
//@include perm.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include separators.inc
// ---- rebuilding the tree from the elimination tree
//@item engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs enum Children
spec fn kids(c: Children) -> Seq<u32> { match c { Children::None => Seq::empty(), Children::One(x) => seq![x], Children::Many(v) => v@ } }
spec fn kid(ch: Seq<Children>, v: u32, c: u32) -> bool { kids(ch[v as int]).contains(c) }
spec fn tree_ok(ch: Seq<Children>) -> bool {
    &&& ch.len() < u32::MAX
    &&& forall|v: u32, c: u32| v < ch.len() && #[trigger] kid(ch, v, c) ==> c < v
    &&& forall|v: u32, w: u32, c: u32| v < ch.len() && w < ch.len() && #[trigger] kid(ch, v, c) && #[trigger] kid(ch, w, c) ==> v == w
    &&& forall|v: int| 0 <= v < ch.len() ==> no_dup(#[trigger] kids(ch[v]))
}
spec fn no_dup(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// x is r or below r
spec fn desc(ch: Seq<Children>, r: u32, x: u32) -> bool decreases r { x == r || exists|c: u32| #[trigger] kid(ch, r, c) && c < r && desc(ch, c, x) }
proof fn lemma_desc_le(ch: Seq<Children>, r: u32, x: u32) requires desc(ch, r, x) ensures x <= r decreases r
{ if x != r { let c = choose|c: u32| #[trigger] kid(ch, r, c) && c < r && desc(ch, c, x); lemma_desc_le(ch, c, x); } }
proof fn lemma_desc_up(ch: Seq<Children>, r: u32, x: u32)
    requires desc(ch, r, x), x != r, tree_ok(ch), r < ch.len()
    ensures exists|w: u32| w < ch.len() && w > x && #[trigger] kid(ch, w, x) && desc(ch, r, w)
    decreases r
{
    let c = choose|c: u32| #[trigger] kid(ch, r, c) && c < r && desc(ch, c, x);
    if c == x { assert(kid(ch, r, x) && desc(ch, r, r)); }
    else { lemma_desc_up(ch, c, x); let w = choose|w: u32| w < ch.len() && w > x && #[trigger] kid(ch, w, x) && desc(ch, c, w); assert(desc(ch, r, w)); }
}
/// the nodes above a node form a chain
proof fn lemma_chain(ch: Seq<Children>, a: u32, b: u32, x: u32)
    requires tree_ok(ch), a < ch.len(), b < ch.len(), desc(ch, a, x), desc(ch, b, x)
    ensures desc(ch, a, b) || desc(ch, b, a)
    decreases ch.len() - x
{
    lemma_desc_le(ch, a, x);
    if x != a && x != b {
        lemma_desc_up(ch, a, x); lemma_desc_up(ch, b, x);
        let w = choose|w: u32| w < ch.len() && w > x && #[trigger] kid(ch, w, x) && desc(ch, a, w);
        let v = choose|v: u32| v < ch.len() && v > x && #[trigger] kid(ch, v, x) && desc(ch, b, v);
        assert(v == w);
        lemma_chain(ch, a, b, w);
    }
}
proof fn lemma_desc_trans(ch: Seq<Children>, a: u32, b: u32, c: u32) requires desc(ch, a, b), desc(ch, b, c) ensures desc(ch, a, c) decreases a
{ if a != b { let k = choose|k: u32| #[trigger] kid(ch, a, k) && k < a && desc(ch, k, b); lemma_desc_trans(ch, k, b, c); } }
/// two children of a node have no common descendants
proof fn lemma_apart(ch: Seq<Children>, v: u32, a: u32, b: u32, x: u32)
    requires tree_ok(ch), v < ch.len(), kid(ch, v, a), kid(ch, v, b), a != b, desc(ch, a, x), desc(ch, b, x)
    ensures false
{
    assert(a < v && b < v);
    lemma_chain(ch, a, b, x);
    let (p, q) = if desc(ch, a, b) { (a, b) } else { (b, a) };
    lemma_desc_up(ch, p, q);
    let w = choose|w: u32| w < ch.len() && w > q && #[trigger] kid(ch, w, q) && desc(ch, p, w);
    lemma_desc_le(ch, p, w);
    assert(w == v);
}
spec fn sized(t: SeparatorTree) -> bool decreases t { t.num_nodes == flat(t).len() && forall|i: int| 0 <= i < t.children@.len() ==> sized(#[trigger] t.children[i]) }
spec fn together(t: SeparatorTree, x: u32, y: u32) -> bool decreases t { t.nodes@.contains(x) && t.nodes@.contains(y) || exists|i: int| 0 <= i < t.children@.len() && together(#[trigger] t.children[i], x, y) }
/// the tree below r
spec fn subtree(ch: Seq<Children>, r: u32, t: SeparatorTree) -> bool {
    &&& sized(t)
    &&& forall|x: u32| #[trigger] cnt(flat(t), x) == if desc(ch, r, x) { 1int } else { 0 }
    &&& forall|x: u32, y: u32| #[trigger] above(t, x, y) ==> x != y && desc(ch, x, y) && x < ch.len()
    &&& forall|x: u32, y: u32| #[trigger] desc(ch, r, x) && #[trigger] desc(ch, x, y) && x != y ==> above(t, x, y) || together(t, x, y)
}
spec fn subtrees(ch: Seq<Children>, tops: Seq<u32>, cs: Seq<SeparatorTree>) -> bool { forall|i: int| 0 <= i < cs.len() ==> subtree(ch, tops[i], #[trigger] cs[i]) }
spec fn in_some(ch: Seq<Children>, tops: Seq<u32>, n: int, x: u32) -> bool { exists|i: int| 0 <= i < n && desc(ch, #[trigger] tops[i], x) }
spec fn apart(ch: Seq<Children>, tops: Seq<u32>) -> bool { forall|i: int, j: int, x: u32| 0 <= i < j < tops.len() && #[trigger] desc(ch, tops[i], x) ==> !#[trigger] desc(ch, tops[j], x) }
proof fn lemma_tops(ch: Seq<Children>, tops: Seq<u32>, cs: Vec<SeparatorTree>, n: nat, x: u32)
    requires n <= cs@.len(), cs@.len() == tops.len(), subtrees(ch, tops, cs@), apart(ch, tops)
    ensures cnt(flats(cs, n), x) == if in_some(ch, tops, n as int, x) { 1int } else { 0 }
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_tops(ch, tops, cs, m, x);
        lemma_cnt_add(flats(cs, m), flat(cs[n - 1]), x);
        assert(subtree(ch, tops[n - 1], cs@[n - 1]));
        assert(cnt(flat(cs@[n - 1]), x) == if desc(ch, tops[n - 1], x) { 1int } else { 0 });
        if in_some(ch, tops, m as int, x) { let i = choose|i: int| 0 <= i < m && desc(ch, #[trigger] tops[i], x); assert(!desc(ch, tops[n - 1], x)); assert(in_some(ch, tops, n as int, x)); }
        else if desc(ch, tops[n - 1], x) { assert(in_some(ch, tops, n as int, x)); }
        else if in_some(ch, tops, n as int, x) { let i = choose|i: int| 0 <= i < n && desc(ch, #[trigger] tops[i], x); assert(i < m); }
    } else { vstd::seq_lib::to_multiset_len(Seq::<u32>::empty()); }
}
proof fn lemma_flats_len(cs: Vec<SeparatorTree>, n: nat, m: nat) requires n <= m <= cs@.len() ensures flats(cs, n).len() <= flats(cs, m).len() decreases m { if n < m { lemma_flats_len(cs, n, (m - 1) as nat); } }
proof fn lemma_few_nodes(s: Seq<u32>, n: nat)
    requires forall|x: u32| #[trigger] cnt(s, x) <= if x < n { 1int } else { 0 }
    ensures s.len() <= n
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {
        if s[i] == s[j] {
            let x = s[i]; let a = s.take(j); let b = s.skip(j);
            assert(s =~= a + b); lemma_cnt_add(a, b, x);
            assert(a[i] == x && b[0] == x); lemma_cnt(a, x); lemma_cnt(b, x); assert(cnt(s, x) <= 1);
        }
    }
    let ids = Seq::new(s.len(), |i: int| s[i] as int);
    assert(ids.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } } }
    ids.unique_seq_to_set();
    lemma_int_range(0, n as int);
    assert(ids.to_set().subset_of(set_int_range(0, n as int))) by {
        assert forall|v: int| ids.to_set().contains(v) implies set_int_range(0, n as int).contains(v) by { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == v; assert(s.contains(s[i])); lemma_cnt(s, s[i]); assert(cnt(s, s[i]) <= if s[i] < n { 1int } else { 0 }); }
    }
    lemma_len_subset(ids.to_set(), set_int_range(0, n as int));
}
proof fn lemma_one_each(s: Seq<u32>, x: u32)
    requires no_dup(s)
    ensures cnt(s, x) == if s.contains(x) { 1int } else { 0 }
    decreases s.len()
{
    lemma_cnt(s, x);
    if s.len() > 0 {
        let d = s.drop_last(); assert(s =~= d.push(s.last())); vstd::seq_lib::to_multiset_build(d, s.last());
        lemma_one_each(d, x); lemma_cnt(d, x);
        if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(s[i] != s[s.len() - 1]); }
        if s.contains(x) && !d.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } }
        if s.last() == x { assert(s[s.len() - 1] == x); }
    } else { vstd::seq_lib::to_multiset_len(s); }
}
/// a separator that is a chain from r down to v, with the subtrees of v's children
proof fn lemma_subtree(ch: Seq<Children>, r: u32, v: u32, ns: Seq<u32>, t: SeparatorTree)
    requires tree_ok(ch), r < ch.len(), v < ch.len(), t.nodes@ == ns, ns.len() > 0, ns[0] == r, ns.last() == v,
        forall|i: int, j: int| 0 <= i < j < ns.len() ==> #[trigger] ns[i] > #[trigger] ns[j], forall|i: int| 0 <= i < ns.len() ==> #[trigger] ns[i] < ch.len(),
        forall|i: int, x: u32| 0 <= i < ns.len() && #[trigger] desc(ch, ns[i], x) ==> ns.skip(i).contains(x) || desc(ch, v, x),
        forall|i: int, x: u32| 0 <= i < ns.len() && desc(ch, v, x) ==> #[trigger] desc(ch, ns[i], x),
        forall|i: int| 0 <= i < ns.len() ==> desc(ch, r, #[trigger] ns[i]),
        t.children@.len() == kids(ch[v as int]).len(), subtrees(ch, kids(ch[v as int]), t.children@), t.num_nodes == flat(t).len()
    ensures subtree(ch, r, t)
{
    let ks = kids(ch[v as int]); let n = t.children@.len(); let c = t.children;
    lemma_apart_kids(ch, v);
    assert forall|x: u32| #[trigger] cnt(flat(t), x) == (if desc(ch, r, x) { 1int } else { 0 }) by {
        lemma_cnt_add(ns, flats(c, n), x); lemma_tops(ch, ks, c, n, x); lemma_one_each(ns, x);
        lemma_kid_desc(ch, v, x);
        if ns.contains(x) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == x; assert(desc(ch, r, ns[i])); assert(x >= v); if in_some(ch, ks, n as int, x) { let i = choose|i: int| 0 <= i < n && desc(ch, #[trigger] ks[i], x); assert(kid(ch, v, ks[i])); lemma_desc_le(ch, ks[i], x); } }
        else {
            assert(x != v) by { assert(ns[ns.len() - 1] == v); }
            if desc(ch, r, x) { assert(desc(ch, ns[0], x)); if ns.skip(0).contains(x) { assert(ns.skip(0) =~= ns); } }
            if in_some(ch, ks, n as int, x) { assert(desc(ch, v, x)); assert(desc(ch, ns[0], x)); }
        }
    }
    assert forall|x: u32, y: u32| #[trigger] above(t, x, y) implies x != y && desc(ch, x, y) && x < ch.len() by {
        if ns.contains(x) && flats(c, n).contains(y) {
            let i = choose|i: int| 0 <= i < ns.len() && ns[i] == x;
            lemma_cnt(flats(c, n), y); lemma_tops(ch, ks, c, n, y); lemma_kid_desc(ch, v, y);
            let k = choose|k: int| 0 <= k < n && desc(ch, #[trigger] ks[k], y); assert(kid(ch, v, ks[k])); lemma_desc_le(ch, ks[k], y);
            assert(desc(ch, v, y)); assert(desc(ch, ns[i], y)); assert(x >= v);
        } else { let i = choose|i: int| 0 <= i < n && above(#[trigger] c[i], x, y); assert(subtree(ch, ks[i], c@[i])); }
    }
    assert forall|x: u32, y: u32| #[trigger] desc(ch, r, x) && #[trigger] desc(ch, x, y) && x != y implies above(t, x, y) || together(t, x, y) by {
        lemma_kid_desc(ch, v, x); lemma_kid_desc(ch, v, y);
        if ns.contains(x) {
            let i = choose|i: int| 0 <= i < ns.len() && ns[i] == x;
            assert(desc(ch, ns[i], y));
            if ns.skip(i).contains(y) { let j = choose|j: int| 0 <= j < ns.skip(i).len() && ns.skip(i)[j] == y; assert(ns[i + j] == y); }
            else if y == v { assert(ns[ns.len() - 1] == v); }
            else { lemma_tops(ch, ks, c, n, y); lemma_cnt(flats(c, n), y); }
        } else {
            assert(desc(ch, ns[0], x));
            assert(ns.skip(0) =~= ns);
            assert(x != v) by { assert(ns[ns.len() - 1] == v); }
            let k = choose|k: int| 0 <= k < n && desc(ch, #[trigger] ks[k], x);
            assert(subtree(ch, ks[k], c@[k]));
            assert(above(c[k], x, y) || together(c[k], x, y));
        }
    }
    assert forall|i: int| 0 <= i < t.children@.len() implies sized(#[trigger] t.children[i]) by { assert(subtree(ch, ks[i], c@[i])); }
}
proof fn lemma_kid_desc(ch: Seq<Children>, v: u32, x: u32)
    requires tree_ok(ch), v < ch.len()
    ensures desc(ch, v, x) == (x == v || in_some(ch, kids(ch[v as int]), kids(ch[v as int]).len() as int, x))
{
    let ks = kids(ch[v as int]);
    if desc(ch, v, x) && x != v { let c = choose|c: u32| #[trigger] kid(ch, v, c) && c < v && desc(ch, c, x); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == c; assert(desc(ch, ks[i], x)); }
    if in_some(ch, ks, ks.len() as int, x) { let i = choose|i: int| 0 <= i < ks.len() && desc(ch, #[trigger] ks[i], x); assert(kid(ch, v, ks[i])); }
}
proof fn lemma_apart_kids(ch: Seq<Children>, v: u32) requires tree_ok(ch), v < ch.len() ensures apart(ch, kids(ch[v as int]))
{
    let ks = kids(ch[v as int]);
    assert forall|i: int, j: int, x: u32| 0 <= i < j < ks.len() && #[trigger] desc(ch, ks[i], x) implies !#[trigger] desc(ch, ks[j], x) by {
        assert(no_dup(ks)); assert(kid(ch, v, ks[i]) && kid(ch, v, ks[j])); assert(ks[i] != ks[j]);
        if desc(ch, ks[j], x) { lemma_apart(ch, v, ks[i], ks[j], x); }
    }
}
impl SeparatorTree {
//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorTree::new_subtree
//@rw sub while let &Children::One($x:id) = $e { $b } => while let Children::One(vf_c) = $e { let $x = *vf_c; $b; }
//@rw sub vec![] => Vec::new()
//@rw sub let children: Vec<_> = => let children: Vec<SeparatorTree> =
//@rw sub $c:id.iter().map(|&child| { $b }).collect() => { let mut vf_v: Vec<SeparatorTree> = Vec::new(); let mut vf_k: usize = 0; while vf_k < $c.len() { let child = $c[vf_k]; vf_k += 1; let vf_t = { $b }; vf_v.push(vf_t); } vf_v }
//@rw sub let num_nodes = $e + $c:id.iter().map(|$x:id| $f).sum::<usize>(); => let mut vf_s: usize = 0; let mut vf_k: usize = 0; while vf_k < $c.len() { let $x = &$c[vf_k]; vf_k += 1; vf_s = vf_s + $f; } let num_nodes = $e + vf_s;
//@spec
    requires tree_ok(children@), root < children@.len()
    ensures subtree(children@, root, r)
    decreases root
//@at start
    let ghost ch = children@;
    let ghost cv = children;
//@at before_loop 0
    proof { assert(nodes@.skip(0) =~= nodes@); assert(nodes@[0] == root); assert(nodes@.contains(root)); }
//@loop 0
    invariant children@ == ch, cv == children, tree_ok(ch), root < ch.len(), node <= root, nodes@.len() > 0, nodes@[0] == root, nodes@.last() == node,
        forall|i: int, j: int| 0 <= i < j < nodes@.len() ==> #[trigger] nodes@[i] > #[trigger] nodes@[j], forall|i: int| 0 <= i < nodes@.len() ==> #[trigger] nodes@[i] < ch.len(),
        forall|i: int, x: u32| 0 <= i < nodes@.len() && #[trigger] desc(ch, nodes@[i], x) ==> nodes@.skip(i).contains(x) || desc(ch, node, x),
        forall|i: int, x: u32| 0 <= i < nodes@.len() && desc(ch, node, x) ==> #[trigger] desc(ch, nodes@[i], x),
        forall|i: int| 0 <= i < nodes@.len() ==> desc(ch, root, #[trigger] nodes@[i]),
    ensures !(ch[node as int] is One)
    decreases node
//@at loop_start 0
    let ghost n0 = nodes@;
    let ghost v0 = node;
    proof { let oc = *vf_c; assert(kids(ch[node as int]) =~= seq![oc]); assert(seq![oc][0] == oc); assert(kid(ch, node, oc)); }
//@at loop_end 0
    proof {
        let ns = nodes@; let l = n0.len();
        assert(ns == n0.push(node));
        assert(v0 == n0[l - 1]);
        assert(desc(ch, node, node)); assert(desc(ch, v0, node)); 
        lemma_desc_trans(ch, root, v0, node);
        assert forall|x: u32| #[trigger] desc(ch, v0, x) implies x == v0 || desc(ch, node, x) by { if x != v0 { let c = choose|c: u32| #[trigger] kid(ch, v0, c) && c < v0 && desc(ch, c, x); assert(c == node); } }
        assert forall|i: int, x: u32| 0 <= i < ns.len() && #[trigger] desc(ch, ns[i], x) implies ns.skip(i).contains(x) || desc(ch, node, x) by {
            if i < l {
                assert(n0[i] == ns[i]); assert(desc(ch, n0[i], x));
                if n0.skip(i).contains(x) { let j = choose|j: int| 0 <= j < n0.skip(i).len() && n0.skip(i)[j] == x; assert(ns.skip(i)[j] == x); }
                else { assert(desc(ch, v0, x)); if x == v0 { assert(ns.skip(i)[l - 1 - i] == x); } }
            }
        }
        assert forall|i: int, x: u32| 0 <= i < ns.len() && desc(ch, node, x) implies #[trigger] desc(ch, ns[i], x) by { if i < l { assert(desc(ch, v0, x)); assert(desc(ch, n0[i], x)); } }
        assert forall|i: int| 0 <= i < ns.len() implies desc(ch, root, #[trigger] ns[i]) by { if i < l { assert(ns[i] == n0[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < ns.len() implies #[trigger] ns[i] > #[trigger] ns[j] by { if j == l { if i < l - 1 { assert(n0[i] > n0[l - 1]); } } }
    }
//@loop 1
    invariant children@ == ch, cells@ == kids(ch[node as int]), tree_ok(ch), root < ch.len(), node <= root, vf_k <= cells@.len(), vf_v@.len() == vf_k, subtrees(ch, kids(ch[node as int]), vf_v@)
    decreases cells@.len() - vf_k
//@at loop_start 1
    proof { assert(kid(ch, node, cells@[vf_k as int])); }
//@loop 2
    invariant vf_k <= children@.len(), vf_s == flats(children, vf_k as nat).len(), flats(children, children@.len()).len() <= ch.len(), ch.len() < u32::MAX, forall|i: int| 0 <= i < children@.len() ==> sized(#[trigger] children@[i])
    decreases children@.len() - vf_k
//@at before_loop 2
    let ghost ks = kids(ch[node as int]);
    proof {
        lemma_apart_kids(ch, node);
        let f = flats(children, children@.len());
        assert forall|x: u32| #[trigger] cnt(f, x) <= (if x < node as nat { 1int } else { 0 }) by {
            lemma_tops(ch, ks, children, children@.len(), x);
            if in_some(ch, ks, ks.len() as int, x) { let i = choose|i: int| 0 <= i < ks.len() && desc(ch, #[trigger] ks[i], x); assert(kid(ch, node, ks[i])); lemma_desc_le(ch, ks[i], x); }
        }
        lemma_few_nodes(f, node as nat);
        assert forall|i: int| 0 <= i < children@.len() implies sized(#[trigger] children@[i]) by { assert(subtree(ch, ks[i], children@[i])); }
        assert forall|x: u32| #[trigger] cnt(nodes@, x) <= (if x < ch.len() { 1int } else { 0 }) by { assert(no_dup(nodes@)); lemma_one_each(nodes@, x); }
        lemma_few_nodes(nodes@, ch.len());
    }
//@at loop_start 2
    proof { lemma_flats_len(children, (vf_k + 1) as nat, children@.len()); assert(sized(children@[vf_k as int])); }
//@at end
    proof {
        let t = SeparatorTree { nodes, children, num_nodes };
        lemma_subtree(ch, root, node, nodes@, t);
    }
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorTree::new
//@rw sub let mut children = vec![Children::None; $e]; => let mut children: Vec<Children> = vf_nones($e);
//@rw sub let mut roots = Vec::new(); => let mut roots: Vec<NodeId> = Vec::new();
//@rw subopt vec![$a, $b] => vf_two($a, $b)
//@rw sub let children: Vec<_> = => let children: Vec<SeparatorTree> =
//@rw sub $c:id.into_iter().map(|$x:id| $e).collect(); => { let mut vf_v: Vec<SeparatorTree> = Vec::new(); let mut vf_k: usize = 0; while vf_k < $c.len() { let $x = $c[vf_k]; vf_k += 1; let vf_t = { $e }; vf_v.push(vf_t); } vf_v };
//@rw sub let num_nodes = $c:id.iter().map(|$x:id| $f).sum::<usize>(); => let mut vf_s: usize = 0; let mut vf_k: usize = 0; while vf_k < $c.len() { let $x = &$c[vf_k]; vf_k += 1; vf_s = vf_s + $f; } let num_nodes = vf_s;
//@rw for
//@spec
    requires parents_ok(elimination_tree@)
    ensures covers(r, elimination_tree@.len()), sized(r),
        forall|x: u32, y: u32| #[trigger] above(r, x, y) ==> x != y && anc(elimination_tree@, y, x),
        forall|x: u32, y: u32| y < elimination_tree@.len() && #[trigger] anc(elimination_tree@, y, x) && x != y ==> above(r, x, y) || together(r, x, y),
//@at start
    let ghost et = elimination_tree@;
//@loop 0
    invariant vf_it0@ == et, vf_i0 <= et.len(), children@.len() == et.len(), parents_ok(et),
        forall|v: int| 0 <= v < et.len() ==> no_dup(#[trigger] kids(children@[v])),
        forall|v: u32, c: u32| v < et.len() ==> #[trigger] kid(children@, v, c) == (c < vf_i0 && et[c as int]@ == Some(v)),
        no_dup(roots@), forall|c: u32| #[trigger] roots@.contains(c) == (c < vf_i0 && et[c as int]@ is None),
    decreases et.len() - vf_i0
//@at loop_start 0
    let ghost c0 = children@;
    let ghost r0 = roots@;
    let ghost p0 = et[vf_i0 - 1]@;
//@at loop_end 0
    proof {
        let i = (vf_i0 - 1) as u32;
        if p0 is Some {
            let q = p0->0;
            assert(children@ =~= c0.update(q as int, children@[q as int]));
            assert(kids(children@[q as int]) =~= kids(c0[q as int]).push(i));
            assert forall|v: int| 0 <= v < et.len() implies no_dup(#[trigger] kids(children@[v])) by { if v == q { let k = kids(c0[v]); assert(no_dup(k)); assert forall|a: int, b: int| 0 <= a < b < k.push(i).len() implies #[trigger] k.push(i)[a] != #[trigger] k.push(i)[b] by { if b == k.len() { assert(k.contains(k[a])); assert(kid(c0, q, k[a])); } } } else { assert(no_dup(kids(c0[v]))); } }
            assert forall|v: u32, c: u32| v < et.len() implies #[trigger] kid(children@, v, c) == (c < vf_i0 && et[c as int]@ == Some(v)) by { assert(kid(c0, v, c) == (c < i && et[c as int]@ == Some(v))); if v == q { lemma_push_contains(kids(c0[v as int]), i, c); } }
        } else {
            assert forall|v: int| 0 <= v < et.len() implies no_dup(#[trigger] kids(children@[v])) by { assert(no_dup(kids(c0[v]))); }
            assert forall|v: u32, c: u32| v < et.len() implies #[trigger] kid(children@, v, c) == (c < vf_i0 && et[c as int]@ == Some(v)) by { assert(kid(c0, v, c) == (c < i && et[c as int]@ == Some(v))); }
            assert(roots@ == r0.push(i));
            assert forall|a: int, b: int| 0 <= a < b < roots@.len() implies #[trigger] roots@[a] != #[trigger] roots@[b] by { if b == r0.len() { assert(r0.contains(r0[a])); } }
        }
        assert forall|c: u32| #[trigger] roots@.contains(c) == (c < vf_i0 && et[c as int]@ is None) by { assert(r0.contains(c) == (c < i && et[c as int]@ is None)); if p0 is None { lemma_push_contains(r0, i, c); } }
    }
//@at before let children: Vec<SeparatorTree> =
    let ghost ch = children@;
    let ghost rs = roots@;
    proof {
        assert forall|v: u32, c: u32| v < ch.len() && #[trigger] kid(ch, v, c) implies c < v by { assert(et[c as int]@ == Some(v)); }
        assert(tree_ok(ch));
        lemma_apart_roots(et, ch, rs);
    }
//@loop 1
    invariant children@ == ch, roots@ == rs, tree_ok(ch), ch.len() == et.len(), forall|c: u32| #[trigger] rs.contains(c) ==> c < et.len(), vf_k <= roots@.len(), vf_v@.len() == vf_k, subtrees(ch, rs, vf_v@)
    decreases roots@.len() - vf_k
//@at loop_start 1
    proof { assert(rs.contains(rs[vf_k as int])); }
//@loop 2
    invariant vf_k <= children@.len(), vf_s == flats(children, vf_k as nat).len(), flats(children, children@.len()).len() <= et.len(), et.len() < u32::MAX, forall|i: int| 0 <= i < children@.len() ==> sized(#[trigger] children@[i])
    decreases children@.len() - vf_k
//@at before_loop 2
    let ghost f = flats(children, children@.len());
    proof {
        assert forall|x: u32| #[trigger] cnt(f, x) == (if x < et.len() { 1int } else { 0 }) by {
            lemma_tops(ch, rs, children, children@.len(), x);
            if x < et.len() { lemma_root_of(et, ch, rs, x); }
            if in_some(ch, rs, rs.len() as int, x) { let i = choose|i: int| 0 <= i < rs.len() && desc(ch, #[trigger] rs[i], x); assert(rs.contains(rs[i])); lemma_desc_le(ch, rs[i], x); }
        }
        lemma_once(f, et.len());
        assert forall|i: int| 0 <= i < children@.len() implies sized(#[trigger] children@[i]) by { assert(subtree(ch, rs[i], children@[i])); }
    }
//@at loop_start 2
    proof { lemma_flats_len(children, (vf_k + 1) as nat, children@.len()); assert(sized(children@[vf_k as int])); }
//@at end
    proof {
        assert forall|t: SeparatorTree| t.children == children && #[trigger] t.nodes@ == Seq::<u32>::empty() && t.num_nodes == num_nodes implies
            covers(t, et.len()) && sized(t) && (forall|x: u32, y: u32| #[trigger] above(t, x, y) ==> x != y && anc(et, y, x))
            && (forall|x: u32, y: u32| y < et.len() && #[trigger] anc(et, y, x) && x != y ==> above(t, x, y) || together(t, x, y)) by {
            assert(flat(t) =~= f);
            assert forall|x: u32, y: u32| #[trigger] above(t, x, y) implies x != y && anc(et, y, x) by {
                let i = choose|i: int| 0 <= i < t.children@.len() && above(#[trigger] t.children[i], x, y);
                assert(subtree(ch, rs[i], t.children@[i]));
                lemma_desc_anc(et, ch, x, y);
            }
            assert forall|x: u32, y: u32| y < et.len() && #[trigger] anc(et, y, x) && x != y implies above(t, x, y) || together(t, x, y) by {
                lemma_anc_desc(et, ch, x, y);
                lemma_root_of(et, ch, rs, x);
                let i = choose|i: int| 0 <= i < rs.len() && desc(ch, #[trigger] rs[i], x);
                assert(subtree(ch, rs[i], t.children@[i]));
                assert(above(t.children[i], x, y) || together(t.children[i], x, y));
            }
            assert forall|i: int| 0 <= i < t.children@.len() implies sized(#[trigger] t.children[i]) by { assert(sized(children@[i])); }
        }
    }
//@endfn
}
fn vf_nones(n: usize) -> (r: Vec<Children>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == Children::None { let mut v: Vec<Children> = Vec::new(); while v.len() < n invariant v@.len() <= n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == Children::None decreases n - v@.len() { v.push(Children::None); } v }
fn vf_two(a: u32, b: u32) -> (r: Vec<u32>) ensures r@ == seq![a, b] { let mut v: Vec<u32> = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
proof fn lemma_push_contains(s: Seq<u32>, i: u32, c: u32) ensures s.push(i).contains(c) == (s.contains(c) || c == i)
{ let p = s.push(i); if s.contains(c) { let k = choose|k: int| 0 <= k < s.len() && s[k] == c; assert(p[k] == c); } if c == i { assert(p[s.len() as int] == c); } if p.contains(c) { let k = choose|k: int| 0 <= k < p.len() && p[k] == c; if k < s.len() { assert(s[k] == c); } } }
/// every parent ranks higher
spec fn parents_ok(et: Seq<InRangeOption<u32>>) -> bool { et.len() < u32::MAX && forall|u: int| 0 <= u < et.len() ==> ((#[trigger] et[u])@ matches Some(p) ==> u < p < et.len()) }
/// a is v or an ancestor of v in the elimination tree
spec fn anc(et: Seq<InRangeOption<u32>>, v: u32, a: u32) -> bool decreases et.len() - v { v == a || v < et.len() && (et[v as int]@ matches Some(p) && v < p < et.len() && anc(et, p, a)) }
spec fn matches_tree(et: Seq<InRangeOption<u32>>, ch: Seq<Children>) -> bool { parents_ok(et) && tree_ok(ch) && ch.len() == et.len() && forall|v: u32, c: u32| v < et.len() ==> #[trigger] kid(ch, v, c) == (c < et.len() && et[c as int]@ == Some(v)) }
proof fn lemma_desc_anc(et: Seq<InRangeOption<u32>>, ch: Seq<Children>, x: u32, y: u32)
    requires matches_tree(et, ch), x < et.len(), desc(ch, x, y)
    ensures anc(et, y, x)
    decreases et.len() - y
{
    lemma_desc_le(ch, x, y);
    if x != y { lemma_desc_up(ch, x, y); let w = choose|w: u32| w < ch.len() && w > y && #[trigger] kid(ch, w, y) && desc(ch, x, w); lemma_desc_anc(et, ch, x, w); }
}
proof fn lemma_anc_desc(et: Seq<InRangeOption<u32>>, ch: Seq<Children>, x: u32, y: u32)
    requires matches_tree(et, ch), y < et.len(), anc(et, y, x)
    ensures desc(ch, x, y), x < et.len()
    decreases et.len() - y
{
    if x != y { let p = et[y as int]@->0; lemma_anc_desc(et, ch, x, p); assert(kid(ch, p, y)); assert(desc(ch, y, y)); assert(desc(ch, p, y)); lemma_desc_trans(ch, x, p, y); }
}
spec fn roots_of(et: Seq<InRangeOption<u32>>, rs: Seq<u32>) -> bool { no_dup(rs) && forall|c: u32| #[trigger] rs.contains(c) == (c < et.len() && et[c as int]@ is None) }
proof fn lemma_apart_roots(et: Seq<InRangeOption<u32>>, ch: Seq<Children>, rs: Seq<u32>)
    requires matches_tree(et, ch), roots_of(et, rs)
    ensures apart(ch, rs)
{
    assert forall|i: int, j: int, x: u32| 0 <= i < j < rs.len() && #[trigger] desc(ch, rs[i], x) implies !#[trigger] desc(ch, rs[j], x) by {
        if desc(ch, rs[j], x) {
            let a = rs[i]; let b = rs[j]; assert(rs.contains(a) && rs.contains(b)); assert(a != b);
            lemma_chain(ch, a, b, x);
            let (p, q) = if desc(ch, a, b) { (a, b) } else { (b, a) };
            lemma_desc_up(ch, p, q);
            let w = choose|w: u32| w < ch.len() && w > q && #[trigger] kid(ch, w, q) && desc(ch, p, w);
        }
    }
}
proof fn lemma_root_of(et: Seq<InRangeOption<u32>>, ch: Seq<Children>, rs: Seq<u32>, x: u32)
    requires matches_tree(et, ch), roots_of(et, rs), x < et.len()
    ensures in_some(ch, rs, rs.len() as int, x)
    decreases et.len() - x
{
    if et[x as int]@ is None { assert(rs.contains(x)); let i = choose|i: int| 0 <= i < rs.len() && rs[i] == x; assert(desc(ch, rs[i], x)); }
    else { let p = et[x as int]@->0; lemma_root_of(et, ch, rs, p); let i = choose|i: int| 0 <= i < rs.len() && desc(ch, #[trigger] rs[i], p); assert(kid(ch, p, x)); assert(desc(ch, x, x)); assert(desc(ch, p, x)); lemma_desc_trans(ch, rs[i], p, x); }
}
} // verus!
fn main() {}
