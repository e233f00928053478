// ---- upward and downward walks over a customized hierarchy have the distances of the graph
spec fn meets(f: Ls, b: Ls, s: int, t: int, v: int, x: int, y: int) -> bool { uw(f, s, v, x) && uw(b, t, v, y) }
/// there is a link from x to y of weight at most d (infinite weights do not count)
spec fn le_link(ls: Ls, x: int, y: int, d: int) -> bool { d >= INFINITY || exists|i: int| 0 <= i < ls[x].len() && (#[trigger] ls[x][i]).0.0 == y && ls[x][i].1 <= d }
/// the arc from x to y of the hierarchy has weight at most d
spec fn le_arc(f: Ls, b: Ls, x: int, y: int, d: int) -> bool { (x < y ==> le_link(f, x, y, d)) && (y < x ==> le_link(b, y, x, d)) && (x == y ==> d >= 0) }
spec fn meets_le(f: Ls, b: Ls, s: int, t: int, d: int) -> bool { d >= INFINITY || exists|v: int, x: int, y: int| 0 <= v < f.len() && #[trigger] meets(f, b, s, t, v, x, y) && x + y <= d }
/// every lower triangle is respected
spec fn triangles_ok(f: Ls, b: Ls) -> bool {
    forall|u: int, i: int, j: int| 0 <= u < f.len() && 0 <= i < b[u].len() && 0 <= j < f[u].len() ==> le_arc(f, b, (#[trigger] b[u][i]).0.0 as int, (#[trigger] f[u][j]).0.0 as int, b[u][i].1 + f[u][j].1)
}
/// every arc of the graph is respected
spec fn arcs_ok<L>(g: Ag<L>, o: NodeOrder, f: Ls, b: Ls) -> bool {
    forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> le_arc(f, b, o.ranks@[u] as int, o.ranks@[(#[trigger] g[u][k]).0] as int, g[u][k].1)
}
/// every finite weight is the length of a walk
spec fn honest<L>(g: Ag<L>, o: NodeOrder, f: Ls, b: Ls) -> bool {
    &&& forall|u: int, i: int| 0 <= u < f.len() && 0 <= i < f[u].len() && (#[trigger] f[u][i]).1 < INFINITY ==> realised(g, o.node_order@[u] as int, 0, o.node_order@[f[u][i].0.0 as int] as int, f[u][i].1 as int)
    &&& forall|u: int, i: int| 0 <= u < b.len() && 0 <= i < b[u].len() && (#[trigger] b[u][i]).1 < INFINITY ==> realised(g, o.node_order@[b[u][i].0.0 as int] as int, 0, o.node_order@[u] as int, b[u][i].1 as int)
}
spec fn customized<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls) -> bool {
    ag_ok(g) && o.wf() && o.n() == g.len() && f.len() == g.len() && b.len() == g.len() && up_ok(f, et) && up_ok(b, et) && triangles_ok(f, b) && arcs_ok(g, o, f, b) && honest(g, o, f, b)
}
proof fn lemma_prepend(ls: Ls, et: Et, s: int, i: int, v: int, d: int)
    requires up_ok(ls, et), 0 <= s < ls.len(), 0 <= i < ls[s].len(), 0 <= v <= u32::MAX, uw(ls, ls[s][i].0.0 as int, v, d)
    ensures uw(ls, s, v, d + ls[s][i].1)
    decreases v
{
    let p = ls[s][i].0.0 as int; let w = ls[s][i].1;
    if v == p && d == 0 { assert(uw(ls, s, s, 0)); assert(uw(ls, s, s, d + w - ls[s][i].1)); }
    else {
        let (u, j) = choose|u: int, j: int| 0 <= u < v && u < ls.len() && 0 <= j < ls[u].len() && (#[trigger] ls[u][j]).0.0 == v && uw(ls, p, u, d - ls[u][j].1);
        lemma_prepend(ls, et, s, i, u, d - ls[u][j].1);
        assert(uw(ls, s, u, d + w - ls[u][j].1));
    }
}
proof fn lemma_first(ls: Ls, et: Et, s: int, v: int, d: int) -> (i: int)
    requires up_ok(ls, et), 0 <= s < ls.len(), 0 <= v < ls.len(), uw(ls, s, v, d), !(v == s && d == 0)
    ensures 0 <= i < ls[s].len(), s < ls[s][i].0.0 < ls.len(), uw(ls, ls[s][i].0.0 as int, v, d - ls[s][i].1), d - ls[s][i].1 >= 0
    decreases v
{
    let (u, j) = choose|u: int, j: int| 0 <= u < v && u < ls.len() && 0 <= j < ls[u].len() && (#[trigger] ls[u][j]).0.0 == v && uw(ls, s, u, d - ls[u][j].1);
    if u == s && d - ls[u][j].1 == 0 { assert(uw(ls, v, v, 0)); j }
    else {
        let i = lemma_first(ls, et, s, u, d - ls[u][j].1);
        let p = ls[s][i].0.0;
        assert(uw(ls, p as int, u, d - ls[s][i].1 - ls[u][j].1));
        assert(uw(ls, p as int, v, d - ls[s][i].1));
        lemma_uw_anc(ls, et, p, v as u32, d - ls[s][i].1);
        i
    }
}
/// an up-down walk to t and an arc from t to y give an up-down walk to y
proof fn lemma_step(f: Ls, b: Ls, et: Et, s: int, t: int, y: int, v: int, p: int, q: int, d: int)
    requires up_ok(f, et), up_ok(b, et), f.len() == b.len(), triangles_ok(f, b), 0 <= s < f.len(), 0 <= t < f.len(), 0 <= y < f.len(), 0 <= v < f.len(), meets(f, b, s, t, v, p, q), le_arc(f, b, t, y, d), d >= 0
    ensures meets_le(f, b, s, y, p + q + d)
    decreases f.len() - t
{
    lemma_uw_anc(f, et, s as u32, v as u32, p);
    lemma_uw_anc(b, et, t as u32, v as u32, q);
    if d < INFINITY {
        if t == y { assert(meets(f, b, s, y, v, p, q)); }
        else if y < t {
            let i = choose|i: int| 0 <= i < b[y].len() && (#[trigger] b[y][i]).0.0 == t && b[y][i].1 <= d;
            lemma_prepend(b, et, y, i, v, q);
            assert(meets(f, b, s, y, v, p, q + b[y][i].1));
        } else {
            let j = choose|j: int| 0 <= j < f[t].len() && (#[trigger] f[t][j]).0.0 == y && f[t][j].1 <= d;
            let w = f[t][j].1 as int;
            if v == t && q == 0 {
                assert(uw(f, s, y, p + w)) by { assert(uw(f, s, t, p + w - f[t][j].1)); }
                assert(meets(f, b, s, y, y, p + w, 0));
            } else {
                let i = lemma_first(b, et, t, v, q);
                let z = b[t][i].0.0 as int; let wb = b[t][i].1 as int;
                assert(le_arc(f, b, z, y, wb + w));
                assert(meets(f, b, s, z, v, p, q - wb));
                lemma_step(f, b, et, s, z, y, v, p, q - wb, wb + w);
                if p + q - wb + wb + w < INFINITY {
                    let (v1, p1, q1) = choose|v1: int, p1: int, q1: int| 0 <= v1 < f.len() && #[trigger] meets(f, b, s, y, v1, p1, q1) && p1 + q1 <= p + q - wb + (wb + w);
                    assert(p1 + q1 <= p + q + d);
                }
            }
        }
    }
}
/// every walk of the graph is matched by an up-down walk
proof fn lemma_updown<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls, s: int, a: Seq<int>)
    requires customized(g, o, et, f, b), 0 <= s < g.len(), wok(g, s, a)
    ensures meets_le(f, b, o.ranks@[s] as int, o.ranks@[wend(g, s, a)] as int, wlen(g, s, a))
    decreases a.len()
{
    let rs = o.ranks@[s] as int;
    if a.len() == 0 { assert(meets(f, b, rs, rs, rs, 0, 0)); }
    else {
        let a0 = a.drop_last();
        lemma_updown(g, o, et, f, b, s, a0);
        lemma_walk_range(g, s, a0);
        let u = wend(g, s, a0); let k = a.last(); let d = g[u][k].1;
        if wlen(g, s, a) < INFINITY {
            let (v, p, q) = choose|v: int, p: int, q: int| 0 <= v < f.len() && #[trigger] meets(f, b, rs, o.ranks@[u] as int, v, p, q) && p + q <= wlen(g, s, a0);
            let y = o.ranks@[g[u][k].0] as int;
            lemma_step(f, b, et, rs, o.ranks@[u] as int, y, v, p, q, d);
            if p + q + d < INFINITY {
                let (v1, p1, q1) = choose|v1: int, p1: int, q1: int| 0 <= v1 < f.len() && #[trigger] meets(f, b, rs, y, v1, p1, q1) && p1 + q1 <= p + q + d;
                assert(p1 + q1 <= wlen(g, s, a));
            }
        }
    }
}
proof fn lemma_walk_cat<L>(g: Ag<L>, s: int, m: int, t: int, a: Seq<int>, c: Seq<int>)
    requires walk(g, s, m, a), walk(g, m, t, c)
    ensures walk(g, s, t, a + c), wlen(g, s, a + c) == wlen(g, s, a) + wlen(g, m, c)
    decreases c.len()
{
    if c.len() == 0 { assert(a + c =~= a); }
    else { lemma_walk_cat(g, s, m, wend(g, m, c.drop_last()), a, c.drop_last()); assert((a + c).drop_last() =~= a + c.drop_last()); }
}
proof fn lemma_realised_cat<L>(g: Ag<L>, s: int, m: int, t: int, x: int, y: int)
    requires realised(g, s, 0, m, x), realised(g, m, 0, t, y)
    ensures realised(g, s, 0, t, x + y)
{
    let a = choose|a: Seq<int>| #[trigger] walk(g, s, m, a) && 0 + wlen(g, s, a) == x;
    let c = choose|c: Seq<int>| #[trigger] walk(g, m, t, c) && 0 + wlen(g, m, c) == y;
    lemma_walk_cat(g, s, m, t, a, c);
}
proof fn lemma_up_real<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls, s: int, v: int, d: int)
    requires customized(g, o, et, f, b), 0 <= s < g.len(), 0 <= v < g.len(), uw(f, s, v, d), d < INFINITY
    ensures realised(g, o.node_order@[s] as int, 0, o.node_order@[v] as int, d)
    decreases v
{
    if v == s && d == 0 { lemma_realise_start(g, o.node_order@[s] as int, 0); }
    else {
        let (u, i) = choose|u: int, i: int| 0 <= u < v && u < f.len() && 0 <= i < f[u].len() && (#[trigger] f[u][i]).0.0 == v && uw(f, s, u, d - f[u][i].1);
        lemma_uw_anc(f, et, s as u32, u as u32, d - f[u][i].1);
        lemma_up_real(g, o, et, f, b, s, u, d - f[u][i].1);
        lemma_realised_cat(g, o.node_order@[s] as int, o.node_order@[u] as int, o.node_order@[v] as int, d - f[u][i].1, f[u][i].1 as int);
    }
}
proof fn lemma_down_real<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls, t: int, v: int, d: int)
    requires customized(g, o, et, f, b), 0 <= t < g.len(), 0 <= v < g.len(), uw(b, t, v, d), d < INFINITY
    ensures realised(g, o.node_order@[v] as int, 0, o.node_order@[t] as int, d)
    decreases v
{
    if v == t && d == 0 { lemma_realise_start(g, o.node_order@[t] as int, 0); }
    else {
        let (u, i) = choose|u: int, i: int| 0 <= u < v && u < b.len() && 0 <= i < b[u].len() && (#[trigger] b[u][i]).0.0 == v && uw(b, t, u, d - b[u][i].1);
        lemma_uw_anc(b, et, t as u32, u as u32, d - b[u][i].1);
        lemma_down_real(g, o, et, f, b, t, u, d - b[u][i].1);
        lemma_realised_cat(g, o.node_order@[v] as int, o.node_order@[u] as int, o.node_order@[t] as int, b[u][i].1 as int, d - b[u][i].1);
    }
}
/// what a query computes: the smallest sum of an upward and a downward walk, infinite sums do not count
spec fn answers(f: Ls, b: Ls, s: u32, t: u32, r: Option<u32>) -> bool {
    match r {
        None => forall|v: u32, x: int, y: int| #[trigger] meets(f, b, s as int, t as int, v as int, x, y) ==> x + y >= INFINITY,
        Some(d) => d < INFINITY && (exists|v: u32, x: int, y: int| #[trigger] meets(f, b, s as int, t as int, v as int, x, y) && x + y == d)
            && forall|v: u32, x: int, y: int| #[trigger] meets(f, b, s as int, t as int, v as int, x, y) ==> x + y >= d,
    }
}
/// on a customized hierarchy that is the shortest distance of the graph
proof fn prop_exact<L>(g: Ag<L>, o: NodeOrder, et: Et, f: Ls, b: Ls, s: int, t: int, r: Option<u32>)
    requires customized(g, o, et, f, b), 0 <= s < g.len(), 0 <= t < g.len(), answers(f, b, o.ranks@[s], o.ranks@[t], r)
    ensures is_dist(g, s, 0, t, match r { None => CAP, Some(d) => d as int })
{
    let d = match r { None => CAP, Some(d) => d as int };
    let (rs, rt) = (o.ranks@[s], o.ranks@[t]);
    assert forall|a: Seq<int>| #[trigger] walk(g, s, t, a) implies d <= 0 + wlen(g, s, a) by {
        lemma_updown(g, o, et, f, b, s, a);
        if wlen(g, s, a) < INFINITY {
            let (v, p, q) = choose|v: int, p: int, q: int| 0 <= v < f.len() && #[trigger] meets(f, b, rs as int, rt as int, v, p, q) && p + q <= wlen(g, s, a);
            let w = v as u32; assert(meets(f, b, rs as int, rt as int, w as int, p, q));
        }
    }
    if let Some(x) = r {
        let (v, p, q) = choose|v: u32, p: int, q: int| #[trigger] meets(f, b, rs as int, rt as int, v as int, p, q) && p + q == x;
        lemma_uw_anc(f, et, rs, v, p); lemma_uw_anc(b, et, rt, v, q);
        lemma_up_real(g, o, et, f, b, rs as int, v as int, p);
        lemma_down_real(g, o, et, f, b, rt as int, v as int, q);
        lemma_realised_cat(g, s, o.node_order@[v as int] as int, t, p, q);
    }
}
