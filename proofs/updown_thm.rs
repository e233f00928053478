//@include prelude.inc
//@include arcs.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include etree.inc
//@include_contracts ewalk.inc elimination_walk
//@include walk.inc
//@include cch_thm.inc
//@include updown.inc
/// the links of a customized hierarchy without the ids of the arcs
spec fn plain_links(ls: Ls) -> Lk { Seq::new(ls.len(), |u: int| Seq::new(ls[u].len(), |i: int| Link { node: ls[u][i].0.0, weight: ls[u][i].1 })) }
proof fn lemma_plain_links(ls: Ls, et: Et)
    requires up_ok(ls, et), ls.len() < u32::MAX
    ensures upward(plain_links(ls)), links_ok(plain_links(ls))
{ let p = plain_links(ls); assert forall|u: int, k: int| 0 <= u < p.len() && 0 <= k < p[u].len() implies (#[trigger] p[u][k]).node < p.len() && p[u][k].weight <= INFINITY && u < p[u][k].node by { assert(ls[u][k].0.0 < ls.len()); } }
proof fn lemma_uw_real(ls: Ls, et: Et, s: int, v: int, d: int)
    requires up_ok(ls, et), ls.len() < u32::MAX, 0 <= s < ls.len(), uw(ls, s, v, d)
    ensures realised(bg(plain_links(ls)), s, 0, v, d)
    decreases v
{
    let g = bg(plain_links(ls));
    if v == s && d == 0 { lemma_realise_start(g, s, 0); }
    else {
        let (u, i) = choose|u: int, i: int| 0 <= u < v && u < ls.len() && 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0.0 == v && uw(ls, s, u, d - ls[u][i].1);
        lemma_uw_real(ls, et, s, u, d - ls[u][i].1);
        lemma_realise(g, s, 0, u, d - ls[u][i].1, i);
    }
}
proof fn lemma_real_uw(ls: Ls, et: Et, s: int, a: Seq<int>)
    requires up_ok(ls, et), ls.len() < u32::MAX, 0 <= s < ls.len(), wok(bg(plain_links(ls)), s, a)
    ensures uw(ls, s, wend(bg(plain_links(ls)), s, a), wlen(bg(plain_links(ls)), s, a))
    decreases a.len()
{
    let g = bg(plain_links(ls));
    if a.len() > 0 {
        lemma_plain_links(ls, et); lemma_bg(plain_links(ls));
        let a0 = a.drop_last(); let u = wend(g, s, a0); let i = a.last();
        lemma_real_uw(ls, et, s, a0); lemma_walk_range(g, s, a0);
        assert(ls[u][i].0.0 == wend(g, s, a));
        assert(uw(ls, s, u, wlen(g, s, a) - ls[u][i].1));
    }
}
/// what the one-to-many query computes on a customized hierarchy is the shortest distance of the graph
proof fn prop_one_to_many<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls, s: int, t: int, d: int)
    requires customized(g, o, et, f, b), 0 <= s < g.len(), 0 <= t < g.len(), ud(bg(plain_links(f)), bg(plain_links(b)), o.ranks@[s] as int, o.ranks@[t] as int, d), d >= 0
    ensures is_dist(g, s, 0, t, d)
{
    let (rs, rt) = (o.ranks@[s], o.ranks@[t]);
    let (pf, pb) = (bg(plain_links(f)), bg(plain_links(b)));
    let r = if d < CAP { Some(d as u32) } else { None };
    assert forall|v: u32, x: int, y: int| #[trigger] meets(f, b, rs as int, rt as int, v as int, x, y) implies x + y >= d by {
        lemma_uw_anc(f, et, rs, v, x);
        lemma_uw_real(f, et, rs as int, v as int, x); lemma_uw_real(b, et, rt as int, v as int, y);
        assert(ud_meets(pf, pb, rs as int, rt as int, v as int, x, y));
    }
    if d < CAP {
        let (x, p, q) = choose|x: int, p: int, q: int| #[trigger] ud_meets(pf, pb, rs as int, rt as int, x, p, q) && d == p + q;
        let a = choose|a: Seq<int>| #[trigger] walk(pf, rs as int, x, a) && 0 + wlen(pf, rs as int, a) == p;
        let c = choose|c: Seq<int>| #[trigger] walk(pb, rt as int, x, c) && 0 + wlen(pb, rt as int, c) == q;
        lemma_real_uw(f, et, rs as int, a); lemma_real_uw(b, et, rt as int, c);
        let w = x as u32;
        assert(meets(f, b, rs as int, rt as int, w as int, p, q));
    }
    assert(answers(f, b, rs, rt, r));
    prop_exact(g, o, et, f, b, s, t, r);
}
} // verus!
fn main() {}
