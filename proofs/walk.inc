// ---- abstract weighted graphs: per node the outgoing arcs (head, weight, what a path records of the arc)
type Ag<L> = Seq<Seq<(int, int, L)>>;
spec const CAP: int = 0x7fff_ffff;
/// heads in range, weights between 0 and INFINITY
spec fn ag_ok<L>(g: Ag<L>) -> bool {
    &&& g.len() < u32::MAX
    &&& forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> 0 <= (#[trigger] g[u][k]).0 < g.len() && 0 <= g[u][k].1 <= CAP
}
/// a walk is the list of arc positions taken; its end, validity and length
spec fn wend<L>(g: Ag<L>, s: int, a: Seq<int>) -> int decreases a.len() { if a.len() == 0 { s } else { g[wend(g, s, a.drop_last())][a.last()].0 } }
spec fn wok<L>(g: Ag<L>, s: int, a: Seq<int>) -> bool decreases a.len() { a.len() == 0 || (wok(g, s, a.drop_last()) && 0 <= a.last() < g[wend(g, s, a.drop_last())].len()) }
spec fn wlen<L>(g: Ag<L>, s: int, a: Seq<int>) -> int decreases a.len() { if a.len() == 0 { 0 } else { wlen(g, s, a.drop_last()) + g[wend(g, s, a.drop_last())][a.last()].1 } }
spec fn walk<L>(g: Ag<L>, s: int, t: int, a: Seq<int>) -> bool { wok(g, s, a) && wend(g, s, a) == t }
/// some walk from s to v has length exactly d - d0
spec fn realised<L>(g: Ag<L>, s: int, d0: int, v: int, d: int) -> bool { exists|a: Seq<int>| #[trigger] walk(g, s, v, a) && d0 + wlen(g, s, a) == d }
/// no walk from s to v is shorter than d - d0
spec fn at_most<L>(g: Ag<L>, s: int, d0: int, v: int, d: int) -> bool { forall|a: Seq<int>| #[trigger] walk(g, s, v, a) ==> d <= d0 + wlen(g, s, a) }
/// d is the shortest distance, or d is INFINITY and every walk is at least that long
spec fn is_dist<L>(g: Ag<L>, s: int, d0: int, v: int, d: int) -> bool { at_most(g, s, d0, v, d) && (d < CAP ==> realised(g, s, d0, v, d)) && d <= CAP }
proof fn lemma_walk_range<L>(g: Ag<L>, s: int, a: Seq<int>)
    requires ag_ok(g), 0 <= s < g.len(), wok(g, s, a)
    ensures 0 <= wend(g, s, a) < g.len(), wlen(g, s, a) >= 0
    decreases a.len()
{ if a.len() > 0 { lemma_walk_range(g, s, a.drop_last()); } }
proof fn lemma_walk_push<L>(g: Ag<L>, s: int, a: Seq<int>, k: int)
    ensures wend(g, s, a.push(k)) == g[wend(g, s, a)][k].0, wlen(g, s, a.push(k)) == wlen(g, s, a) + g[wend(g, s, a)][k].1,
        wok(g, s, a.push(k)) == (wok(g, s, a) && 0 <= k < g[wend(g, s, a)].len())
{ assert(a.push(k).drop_last() =~= a); }
proof fn lemma_walk_take<L>(g: Ag<L>, s: int, a: Seq<int>, j: int)
    requires ag_ok(g), 0 <= s < g.len(), wok(g, s, a), 0 <= j <= a.len()
    ensures wok(g, s, a.take(j)), 0 <= wlen(g, s, a.take(j)) <= wlen(g, s, a)
    decreases a.len()
{
    if j == a.len() { assert(a.take(j) =~= a); lemma_walk_range(g, s, a); }
    else { assert(a.drop_last().take(j) =~= a.take(j)); lemma_walk_take(g, s, a.drop_last(), j); lemma_walk_range(g, s, a.drop_last()); lemma_walk_range(g, s, a.take(j)); }
}
/// an arc extends a realised distance
proof fn lemma_realise<L>(g: Ag<L>, s: int, d0: int, u: int, d: int, k: int)
    requires realised(g, s, d0, u, d), 0 <= k < g[u].len()
    ensures realised(g, s, d0, g[u][k].0, d + g[u][k].1)
{
    let a = choose|a: Seq<int>| #[trigger] walk(g, s, u, a) && d0 + wlen(g, s, a) == d;
    lemma_walk_push(g, s, a, k);
    assert(walk(g, s, g[u][k].0, a.push(k)));
}
proof fn lemma_realised_ge<L>(g: Ag<L>, s: int, d0: int, v: int, d: int)
    requires ag_ok(g), 0 <= s < g.len(), realised(g, s, d0, v, d)
    ensures d >= d0
{ let a = choose|a: Seq<int>| #[trigger] walk(g, s, v, a) && d0 + wlen(g, s, a) == d; lemma_walk_range(g, s, a); }
proof fn lemma_realise_start<L>(g: Ag<L>, s: int, d0: int)
    ensures realised(g, s, d0, s, d0)
{ assert(walk(g, s, s, Seq::empty())); }
