//@include prelude.inc
//@include graph_types.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
//@include walk.inc
//@include updown.inc
//@include rel.inc
//@include_contracts ch_contract.inc ch_contract
spec fn lists_o(ns: Seq<Node>) -> Lk { Seq::new(ns.len(), |u: int| Seq::new(ns[u].outgoing@.len(), |k: int| ns[u].outgoing@[k].0)) }
spec fn lists_i(ns: Seq<Node>) -> Lk { Seq::new(ns.len(), |u: int| Seq::new(ns[u].incoming@.len(), |k: int| ns[u].incoming@[k].0)) }
/// the arcs of the lists as a relation
spec fn listed(ls: Lk, e: Er) -> bool {
    &&& forall|u: int, k: int| 0 <= u < ls.len() && 0 <= k < ls[u].len() ==> rstep(e, u, (#[trigger] ls[u][k]).node as int, ls[u][k].weight as int)
    &&& forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) ==> 0 <= u < ls.len() && 0 <= v < ls.len() && exists|k: int| 0 <= k < ls[u].len() && (#[trigger] ls[u][k]).node == v && ls[u][k].weight == w
}
proof fn lemma_listed(ns: Seq<Node>, n: int)
    requires frozen_up(ns, n), ns.len() == n, n < u32::MAX
    ensures listed(lists_o(ns), og(ns, 0)), listed(lists_i(ns), ig(ns, 0)), upward(lists_o(ns)), upward(lists_i(ns)), lists_o(ns).len() == n, lists_i(ns).len() == n
{
    let o = lists_o(ns); let i = lists_i(ns);
    assert forall|u: int, k: int| 0 <= u < n && 0 <= k < o[u].len() implies rstep(og(ns, 0), u, (#[trigger] o[u][k]).node as int, o[u][k].weight as int) && u < o[u][k].node < n && o[u][k].weight <= INFINITY by { assert(ns[u].wf()); lemma_lm(ns[u].outgoing@, k); assert(ns[u].om().dom().contains(o[u][k].node)); assert(has_out(ns, 0, u, o[u][k].node as int, o[u][k].weight as int)); }
    assert forall|u: int, k: int| 0 <= u < n && 0 <= k < i[u].len() implies rstep(ig(ns, 0), u, (#[trigger] i[u][k]).node as int, i[u][k].weight as int) && u < i[u][k].node < n && i[u][k].weight <= INFINITY by { assert(ns[u].wf()); lemma_lm(ns[u].incoming@, k); assert(ns[u].im().dom().contains(i[u][k].node)); assert(has_in(ns, 0, u, i[u][k].node as int, i[u][k].weight as int)); }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(og(ns, 0), u, v, w) implies 0 <= u < n && 0 <= v < n && exists|k: int| 0 <= k < o[u].len() && (#[trigger] o[u][k]).node == v && o[u][k].weight == w by { assert(has_out(ns, 0, u, v, w)); assert(ns[u].wf()); let k = lemma_lm_find(ns[u].outgoing@, v as u32); assert(o[u][k] == ns[u].outgoing@[k].0); }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(ig(ns, 0), u, v, w) implies 0 <= u < n && 0 <= v < n && exists|k: int| 0 <= k < i[u].len() && (#[trigger] i[u][k]).node == v && i[u][k].weight == w by { assert(has_in(ns, 0, u, v, w)); assert(ns[u].wf()); let k = lemma_lm_find(ns[u].incoming@, v as u32); assert(i[u][k] == ns[u].incoming@[k].0); }
}
proof fn lemma_to_walk(ls: Lk, e: Er, u: int, v: int, d: int, k: nat)
    requires links_ok(ls), listed(ls, e), rch(e, u, v, d, k), 0 <= u < ls.len()
    ensures realised(bg(ls), u, 0, v, d), 0 <= v < ls.len()
    decreases k
{
    lemma_bg(ls);
    if k == 0 { lemma_realise_start(bg(ls), u, 0); }
    else {
        let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat);
        let j = choose|j: int| 0 <= j < ls[u].len() && (#[trigger] ls[u][j]).node == y && ls[u][j].weight == w;
        lemma_to_walk(ls, e, y, v, d - w, (k - 1) as nat);
        assert(bg(ls)[u][j] == (y, w, ()));
        lemma_realise_front(bg(ls), u, j, v, d - w);
    }
}
proof fn lemma_from_walk(ls: Lk, e: Er, u: int, v: int, a: Seq<int>)
    requires links_ok(ls), listed(ls, e), walk(bg(ls), u, v, a), 0 <= u < ls.len()
    ensures wk(e, u, v, wlen(bg(ls), u, a))
    decreases a.len()
{
    lemma_bg(ls);
    if a.len() == 0 { lemma_wk0(e, u); }
    else {
        let g = bg(ls);
        let r = lemma_uncons(g, u, a);
        assert(g[u][a[0]] == (ls[u][a[0]].node as int, ls[u][a[0]].weight as int, ()));
        assert(rstep(e, u, ls[u][a[0]].node as int, ls[u][a[0]].weight as int));
        assert(walk(g, g[u][a[0]].0, v, r));
        lemma_from_walk(ls, e, g[u][a[0]].0, v, r);
        lemma_wk1(e, u, g[u][a[0]].0, g[u][a[0]].1);
        lemma_wk_trans(e, u, g[u][a[0]].0, v, g[u][a[0]].1, wlen(g, g[u][a[0]].0, r));
    }
}
proof fn lemma_rev(e: Er, u: int, v: int, d: int, k: nat)
    requires rch(e, u, v, d, k)
    ensures rch(rev(e), v, u, d, k)
    decreases k
{
    if k > 0 {
        let (y, w) = choose|y: int, w: int| #[trigger] rstep(e, u, y, w) && rch(e, y, v, d - w, (k - 1) as nat);
        lemma_rev(e, y, v, d - w, (k - 1) as nat);
        assert(rstep(rev(e), y, u, w));
        assert(rch(rev(e), u, u, 0, 0)); assert(rch(rev(e), y, u, w, 1));
        lemma_rch_trans(rev(e), v, y, u, d - w, w, (k - 1) as nat, 1);
    }
}
/// after contracting every node, the query's value is the shortest distance in the input graph
proof fn prop_contraction_exact(e0: Er, ns: Seq<Node>, n: int, s: int, t: int, d: int)
    requires contracted(e0, ns, Seq::empty(), n), 0 <= s < n, 0 <= t < n, ud(bg(lists_o(ns)), bg(lists_i(ns)), s, t, d)
    ensures d < CAP ==> wk(e0, s, t, d), forall|x: int| #[trigger] wk(e0, s, t, x) ==> d <= x
{
    let (o, i) = (lists_o(ns), lists_i(ns)); let (f, b) = (bg(o), bg(i)); let none = Seq::<Node>::empty();
    lemma_listed(ns, n);
    assert forall|x: int| #[trigger] wk(e0, s, t, x) implies d <= x by {
        assert forall|u: int, v: int, w: int| !#[trigger] rstep(og(none, n), u, v, w) by { if rstep(og(none, n), u, v, w) { assert(has_out(none, n, u, v, w)); } }
        let (m, p, q) = lemma_hier_done(e0, og(ns, 0), ig(ns, 0), og(none, n), n, s, t, x);
        let k = choose|k: nat| #[trigger] rch(og(ns, 0), s, m, p, k); lemma_to_walk(o, og(ns, 0), s, m, p, k);
        let k2 = choose|k: nat| #[trigger] rch(ig(ns, 0), t, m, q, k); lemma_to_walk(i, ig(ns, 0), t, m, q, k2);
        assert(ud_meets(f, b, s, t, m, p, q));
    }
    if d < CAP {
        let (m, p, q) = choose|m: int, p: int, q: int| #[trigger] ud_meets(f, b, s, t, m, p, q) && d == p + q;
        let a = choose|a: Seq<int>| #[trigger] walk(f, s, m, a) && 0 + wlen(f, s, a) == p; lemma_from_walk(o, og(ns, 0), s, m, a);
        let c = choose|c: Seq<int>| #[trigger] walk(b, t, m, c) && 0 + wlen(b, t, c) == q; lemma_from_walk(i, ig(ns, 0), t, m, c);
        lemma_wk_real(og(ns, 0), e0, s, m, p);
        let k = choose|k: nat| #[trigger] rch(ig(ns, 0), t, m, q, k); lemma_rev(ig(ns, 0), t, m, q, k);
        lemma_wk_real(rev(ig(ns, 0)), e0, m, t, q);
        lemma_wk_trans(e0, s, m, t, p, q);
    }
}
} // verus!
fn main() {}
