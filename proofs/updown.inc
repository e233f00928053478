// ---- walks that go up from s in one graph and down to v in another (stored as upward links of v)
type Lk = Seq<Seq<Link>>;
spec fn bg(ls: Lk) -> Ag<()> { Seq::new(ls.len(), |u: int| Seq::new(ls[u].len(), |k: int| (ls[u][k].node as int, ls[u][k].weight as int, ()))) }
spec fn links_ok(ls: Lk) -> bool { ls.len() < u32::MAX && forall|u: int, k: int| 0 <= u < ls.len() && 0 <= k < ls[u].len() ==> (#[trigger] ls[u][k]).node < ls.len() && ls[u][k].weight <= INFINITY }
spec fn upward(ls: Lk) -> bool { links_ok(ls) && forall|u: int, k: int| 0 <= u < ls.len() && 0 <= k < ls[u].len() ==> u < (#[trigger] ls[u][k]).node }
spec fn ud_meets(f: Ag<()>, b: Ag<()>, s: int, v: int, x: int, p: int, q: int) -> bool { 0 <= x < f.len() && realised(f, s, 0, x, p) && realised(b, v, 0, x, q) }
/// d is the length of a shortest up-down walk from s to v, or INFINITY if there is none below
spec fn ud(f: Ag<()>, b: Ag<()>, s: int, v: int, d: int) -> bool {
    &&& d <= CAP
    &&& forall|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, v, x, p, q) ==> d <= p + q
    &&& d < CAP ==> exists|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, v, x, p, q) && d == p + q
}
proof fn lemma_bg(ls: Lk)
    requires links_ok(ls)
    ensures ag_ok(bg(ls)), bg(ls).len() == ls.len(), forall|u: int| 0 <= u < ls.len() ==> (#[trigger] bg(ls)[u]).len() == ls[u].len(),
        forall|u: int, k: int| 0 <= u < ls.len() && 0 <= k < ls[u].len() ==> (#[trigger] bg(ls)[u][k]) == (ls[u][k].node as int, ls[u][k].weight as int, ())
{
    let g = bg(ls);
    assert forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() implies 0 <= (#[trigger] g[u][k]).0 < g.len() && 0 <= g[u][k].1 <= CAP by { assert(ls[u][k].node < ls.len()); }
}
/// the first arc of a walk and the rest
proof fn lemma_uncons<L>(g: Ag<L>, s: int, a: Seq<int>) -> (r: Seq<int>)
    requires ag_ok(g), 0 <= s < g.len(), wok(g, s, a), a.len() > 0
    ensures 0 <= a[0] < g[s].len(), wok(g, g[s][a[0]].0, r), wend(g, g[s][a[0]].0, r) == wend(g, s, a), wlen(g, s, a) == g[s][a[0]].1 + wlen(g, g[s][a[0]].0, r), r.len() == a.len() - 1
    decreases a.len()
{
    let a0 = a.drop_last();
    if a0.len() == 0 { assert(wend(g, s, a0) == s); assert(a.last() == a[0]); assert(wlen(g, s, a0) == 0); Seq::empty() }
    else {
        assert(a0[0] == a[0]);
        let r0 = lemma_uncons(g, s, a0);
        let h = g[s][a[0]].0;
        lemma_walk_push(g, h, r0, a.last());
        r0.push(a.last())
    }
}
proof fn lemma_cons<L>(g: Ag<L>, u: int, k: int, b: Seq<int>)
    requires ag_ok(g), 0 <= u < g.len(), 0 <= k < g[u].len(), wok(g, g[u][k].0, b)
    ensures wok(g, u, seq![k] + b), wend(g, u, seq![k] + b) == wend(g, g[u][k].0, b), wlen(g, u, seq![k] + b) == g[u][k].1 + wlen(g, g[u][k].0, b)
    decreases b.len()
{
    let a = seq![k] + b;
    if b.len() == 0 {
        assert(a =~= seq![k]); assert(a.drop_last() =~= Seq::empty());
        assert(wend(g, u, a.drop_last()) == u); assert(wok(g, u, a.drop_last())); assert(wlen(g, u, a.drop_last()) == 0); assert(a.last() == k); assert(wok(g, u, a));
    } else { assert(a.drop_last() =~= seq![k] + b.drop_last()); lemma_cons(g, u, k, b.drop_last()); }
}
proof fn lemma_realise_front<L>(g: Ag<L>, u: int, k: int, x: int, q: int)
    requires ag_ok(g), 0 <= u < g.len(), 0 <= k < g[u].len(), realised(g, g[u][k].0, 0, x, q)
    ensures realised(g, u, 0, x, q + g[u][k].1)
{
    let c = choose|c: Seq<int>| #[trigger] walk(g, g[u][k].0, x, c) && 0 + wlen(g, g[u][k].0, c) == q;
    lemma_cons(g, u, k, c);
    assert(walk(g, u, x, seq![k] + c));
}
/// what the downward sweep knows about node v after looking at its first k upward links: heads carry the values r
spec fn sweep(f: Ag<()>, b: Ag<()>, s: int, v: int, k: int, df: int, d: int, r: spec_fn(int) -> int) -> bool {
    &&& d <= df && d <= CAP
    &&& forall|j: int| 0 <= j < k ==> d <= r((#[trigger] b[v][j]).0) + b[v][j].1
    &&& d < CAP ==> exists|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, v, x, p, q) && d == p + q
}
proof fn lemma_sweep_start(f: Ag<()>, b: Ag<()>, s: int, v: int, df: int, r: spec_fn(int) -> int)
    requires is_dist(f, s, 0, v, df), 0 <= v < f.len()
    ensures sweep(f, b, s, v, 0, df, df, r)
{ if df < CAP { lemma_realise_start(b, v, 0); assert(ud_meets(f, b, s, v, v, df, 0)); } }
proof fn lemma_sweep_step(f: Ag<()>, b: Ag<()>, s: int, v: int, k: int, df: int, d: int, r: spec_fn(int) -> int, d2: int)
    requires sweep(f, b, s, v, k, df, d, r), ag_ok(b), 0 <= v < b.len(), 0 <= k < b[v].len(), ud(f, b, s, b[v][k].0, r(b[v][k].0)), d2 == (if r(b[v][k].0) + b[v][k].1 < d { r(b[v][k].0) + b[v][k].1 } else { d })
    ensures sweep(f, b, s, v, k + 1, df, d2, r)
{
    let h = b[v][k].0; let w = b[v][k].1;
    if d2 < CAP && d2 != d {
        let (x, p, q) = choose|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, h, x, p, q) && r(h) == p + q;
        lemma_realise_front(b, v, k, x, q);
        assert(ud_meets(f, b, s, v, x, p, q + w));
    }
}
proof fn lemma_sweep_done(f: Ag<()>, b: Ag<()>, s: int, v: int, df: int, d: int, r: spec_fn(int) -> int)
    requires ag_ok(f), ag_ok(b), 0 <= v < b.len(), f.len() == b.len(), sweep(f, b, s, v, b[v].len() as int, df, d, r), is_dist(f, s, 0, v, df), forall|j: int| 0 <= j < b[v].len() ==> ud(f, b, s, (#[trigger] b[v][j]).0, r(b[v][j].0))
    ensures ud(f, b, s, v, d)
{
    assert forall|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, v, x, p, q) implies d <= p + q by {
        let c = choose|c: Seq<int>| #[trigger] walk(b, v, x, c) && 0 + wlen(b, v, c) == q;
        if c.len() == 0 {
            let a = choose|a: Seq<int>| #[trigger] walk(f, s, x, a) && 0 + wlen(f, s, a) == p;
            assert(walk(f, s, v, a));
        } else {
            let e = lemma_uncons(b, v, c);
            let k = c[0]; let h = b[v][k].0;
            assert(walk(b, h, x, e));
            assert(realised(b, h, 0, x, q - b[v][k].1));
            assert(ud_meets(f, b, s, h, x, p, q - b[v][k].1));
            assert(ud(f, b, s, b[v][k].0, r(b[v][k].0)));
        }
    }
}
