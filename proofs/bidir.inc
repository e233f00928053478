// ---------------------------------------------------------------- bidirectional search: one side seen from its source
/// every arc of g lies reversed in h
spec fn has_arc(h: Ag<()>, v: int, u: int, w: int) -> bool { exists|k: int| 0 <= k < h[v].len() && (#[trigger] h[v][k]).0 == u && h[v][k].1 == w }
spec fn mirrors(g: Ag<()>, h: Ag<()>) -> bool { g.len() == h.len() && forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> has_arc(h, (#[trigger] g[u][k]).0, u, g[u][k].1) }
/// a search on g from s for t with potential p; h is g reversed
struct Side { g: Ag<()>, h: Ag<()>, s: int, t: int, p: Pot }
spec fn flip(c: Side, o: Pot) -> Side { Side { g: c.h, h: c.g, s: c.t, t: c.s, p: o } }
spec fn graphs_ok(c: Side) -> bool { ag_ok(c.g) && ag_ok(c.h) && mirrors(c.g, c.h) && mirrors(c.h, c.g) && 0 <= c.s < c.g.len() && 0 <= c.t < c.g.len() }
/// v lies on a walk from s to t shorter than INFINITY: a to v, b (reversed) from v
spec fn via(c: Side, v: int, a: Seq<int>, b: Seq<int>) -> bool { walk(c.g, c.s, v, a) && walk(c.h, c.t, v, b) && wlen(c.g, c.s, a) + wlen(c.h, c.t, b) < CAP }
/// the potential never drops by more than the weight of an arc and is present wherever a short walk passes
spec fn cons(c: Side) -> bool { forall|u: int, k: int| 0 <= u < c.g.len() && 0 <= k < c.g[u].len() ==> arc_cons(c.p, u, #[trigger] c.g[u][k]) }
spec fn arc_cons(p: Pot, u: int, a: (int, int, ())) -> bool { p(u) is Some && p(a.0) is Some ==> p(u).unwrap() <= a.1 + p(a.0).unwrap() }
spec fn present(c: Side) -> bool { forall|v: int, a: Seq<int>, b: Seq<int>| #[trigger] via(c, v, a, b) ==> (c.p)(v) is Some }
spec fn side_ok(c: Side) -> bool { graphs_ok(c) && cons(c) && present(c) && pot_ok(c.p, c.g.len() as int) }
/// no walk over v with the label dv is shorter than lim (with s = t the answer is known at once)
spec fn dead(c: Side, v: int, dv: int, lim: int) -> bool { c.s == c.t || at_most(c.h, c.t, dv, v, lim) }
spec fn uncovered(c: Side, d: Seq<u32>, q: Qu, lim: int, v: int) -> bool { !(q.dom().contains(v as usize) || closed(c.g, d, v) || dead(c, v, d[v] as int, lim)) }
spec fn bcovered(c: Side, d: Seq<u32>, q: Qu, lim: int, u: int) -> bool { forall|v: int| 0 <= v < c.g.len() && v != u && #[trigger] d[v] < CAP ==> !uncovered(c, d, q, lim, v) }
/// keys of nodes that still matter are small enough; no key (but the source's) is smaller than label plus potential
spec fn bkey(c: Side, d: Seq<u32>, q: Qu, lim: int, id: usize) -> bool {
    &&& id != c.s ==> d[id as int] + (c.p)(id as int).unwrap() <= q[id].key && q[id].key < CAP + (c.p)(id as int).unwrap()
    &&& id == c.s ==> q[id].key == 0
    &&& dead(c, id as int, d[id as int] as int, lim) || ((c.p)(id as int) is Some && q[id].key <= d[id as int] + (c.p)(id as int).unwrap())
}
spec fn bkeys(c: Side, d: Seq<u32>, q: Qu, lim: int) -> bool { forall|id: usize| #[trigger] q.dom().contains(id) ==> bkey(c, d, q, lim, id) }
spec fn binv(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int) -> bool {
    labels(c.g, c.s, 0, d) && queued(c.g, c.p, c.s, d, q) && bkeys(c, d, q, lim) && bcovered(c, d, q, lim, u) && tree(c.g, c.s, d, pr)
}
/// the best meeting point is known
spec fn meet(c: Side, d: Seq<u32>, e: Seq<u32>, lim: int) -> bool { c.s == c.t || forall|x: int| #![trigger d[x]] #![trigger e[x]] 0 <= x < c.g.len() ==> lim <= d[x] + e[x] }

proof fn lemma_arc_back(c: Side, z0: int, k: int) -> (j: int)
    requires graphs_ok(c), 0 <= z0 < c.g.len(), 0 <= k < c.g[z0].len()
    ensures 0 <= c.g[z0][k].0 < c.g.len(), 0 <= c.g[z0][k].1, 0 <= j < c.h[c.g[z0][k].0].len(), c.h[c.g[z0][k].0][j].0 == z0, c.h[c.g[z0][k].0][j].1 == c.g[z0][k].1
{
    assert(has_arc(c.h, c.g[z0][k].0, z0, c.g[z0][k].1));
    choose|j: int| 0 <= j < c.h[c.g[z0][k].0].len() && (#[trigger] c.h[c.g[z0][k].0][j]).0 == z0 && c.h[c.g[z0][k].0][j].1 == c.g[z0][k].1
}
proof fn lemma_flip_ok(c: Side, o: Pot) requires graphs_ok(c) ensures graphs_ok(flip(c, o)) { }
/// a walk from s to z and a reversed walk from t to z make a walk from s to t
proof fn lemma_join(c: Side, z: int, a: Seq<int>, b: Seq<int>) -> (r: Seq<int>)
    requires graphs_ok(c), walk(c.g, c.s, z, a), walk(c.h, c.t, z, b)
    ensures walk(c.g, c.s, c.t, r), wlen(c.g, c.s, r) == wlen(c.g, c.s, a) + wlen(c.h, c.t, b)
    decreases b.len()
{
    if b.len() == 0 { a } else {
        let b0 = b.drop_last(); let z0 = wend(c.h, c.t, b0); let f = flip(c, c.p);
        lemma_flip_ok(c, c.p); lemma_walk_range(c.h, c.t, b0);
        let j = lemma_arc_back(f, z0, b.last());
        lemma_walk_push(c.g, c.s, a, j);
        lemma_join(c, z0, a.push(j), b0)
    }
}
/// the last arc of a moved to the other walk
proof fn lemma_shift(c: Side, z: int, a: Seq<int>, b: Seq<int>) -> (b0: Seq<int>)
    requires graphs_ok(c), walk(c.g, c.s, z, a), walk(c.h, c.t, z, b), a.len() > 0
    ensures ({ let z0 = wend(c.g, c.s, a.drop_last()); let w = c.g[z0][a.last()].1; walk(c.g, c.s, z0, a.drop_last()) && walk(c.h, c.t, z0, b0) && wlen(c.h, c.t, b0) == wlen(c.h, c.t, b) + w && wlen(c.g, c.s, a) == wlen(c.g, c.s, a.drop_last()) + w && w >= 0
        && 0 <= z0 < c.g.len() && 0 <= a.last() < c.g[z0].len() && c.g[z0][a.last()].0 == z && wlen(c.g, c.s, a.drop_last()) >= 0 })
{
    let a0 = a.drop_last(); let z0 = wend(c.g, c.s, a0);
    lemma_walk_range(c.g, c.s, a0);
    let j = lemma_arc_back(c, z0, a.last());
    lemma_walk_push(c.h, c.t, b, j);
    b.push(j)
}
/// on a walk shorter than lim: the label of its end is right, or a node before is queued with a right label and key
proof fn lemma_front2(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, z: int, a: Seq<int>, b: Seq<int>) -> (r: (int, Seq<int>))
    requires side_ok(c), c.s != c.t, binv(c, d, pr, q, lim, -1), walk(c.g, c.s, z, a), walk(c.h, c.t, z, b), wlen(c.g, c.s, a) + wlen(c.h, c.t, b) < lim, lim <= CAP
    ensures 0 <= r.0 <= a.len(), r.0 == a.len() ==> d[z] <= wlen(c.g, c.s, a),
        r.0 < a.len() ==> ({ let y = wend(c.g, c.s, a.take(r.0)); let l = wlen(c.g, c.s, a.take(r.0));
            0 <= y < c.g.len() && q.dom().contains(y as usize) && d[y] <= l && (c.p)(y) is Some && q[y as usize].key <= l + (c.p)(y).unwrap()
            && walk(c.h, c.t, y, r.1) && wlen(c.h, c.t, r.1) == wlen(c.h, c.t, b) + wlen(c.g, c.s, a) - l && walk(c.g, c.s, y, a.take(r.0)) })
    decreases a.len()
{
    lemma_walk_range(c.h, c.t, b);
    if a.len() == 0 { (0, b) } else {
        let a0 = a.drop_last(); let z0 = wend(c.g, c.s, a0);
        let b0 = lemma_shift(c, z, a, b);
        lemma_walk_range(c.h, c.t, b0);
        let r = lemma_front2(c, d, pr, q, lim, z0, a0, b0);
        assert(a0.take(a0.len() as int) =~= a0);
        if r.0 < a0.len() { assert(a0.take(r.0) =~= a.take(r.0)); r }
        else {
            assert(a.take(a0.len() as int) =~= a0);
            assert(d[z0] < CAP);
            assert(!dead(c, z0, d[z0] as int, lim)) by { assert(walk(c.h, c.t, z0, b0)); }
            if q.dom().contains(z0 as usize) { assert(bkey(c, d, q, lim, z0 as usize)); (a0.len() as int, b0) }
            else {
                assert(!uncovered(c, d, q, lim, z0));
                assert(closed(c.g, d, z0));
                assert(d[c.g[z0][a.last()].0] <= d[z0] + c.g[z0][a.last()].1);
                (a.len() as int, b)
            }
        }
    }
}
/// the potential at the j-th node of the walk and at its end, and the other side's
proof fn lemma_pots(c: Side, o: Pot, z: int, a: Seq<int>, b: Seq<int>, j: int)
    requires side_ok(c), side_ok(flip(c, o)), walk(c.g, c.s, z, a), walk(c.h, c.t, z, b), wlen(c.g, c.s, a) + wlen(c.h, c.t, b) < CAP, 0 <= j <= a.len()
    ensures ({ let y = wend(c.g, c.s, a.take(j)); let l = wlen(c.g, c.s, a) - wlen(c.g, c.s, a.take(j));
        (c.p)(y) is Some && (c.p)(z) is Some && (c.p)(y).unwrap() <= l + (c.p)(z).unwrap() && o(y) is Some && o(z) is Some && o(z).unwrap() <= l + o(y).unwrap() && l >= 0 })
    decreases a.len()
{
    assert(via(c, z, a, b)); assert(via(flip(c, o), z, b, a));
    if j == a.len() { assert(a.take(j) =~= a); } else {
        let a0 = a.drop_last(); let z0 = wend(c.g, c.s, a0);
        let b0 = lemma_shift(c, z, a, b);
        lemma_pots(c, o, z0, a0, b0, j);
        assert(a0.take(j) =~= a.take(j));
        assert(arc_cons(c.p, z0, c.g[z0][a.last()]));
        let k = lemma_arc_back(c, z0, a.last());
        assert(arc_cons(o, z, flip(c, o).g[z][k]));
    }
}
/// while a walk from s to t shorter than lim exists, both queues hold nodes with small keys
proof fn lemma_open(c: Side, o: Pot, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, a: Seq<int>) -> (r: (int, int))
    requires side_ok(c), side_ok(flip(c, o)), c.s != c.t, binv(c, d, pr, q, lim, -1), binv(flip(c, o), e, er, eq, lim, -1), meet(c, d, e, lim), lim <= CAP, walk(c.g, c.s, c.t, a), wlen(c.g, c.s, a) < lim
    ensures q.dom().contains(r.0 as usize), eq.dom().contains(r.1 as usize), 0 <= r.0 < c.g.len(), 0 <= r.1 < c.g.len(), (c.p)(r.0) is Some, (c.p)(r.1) is Some, o(r.1) is Some,
        q[r.0 as usize].key + eq[r.1 as usize].key <= wlen(c.g, c.s, a) + (c.p)(r.1).unwrap() + o(r.1).unwrap(),
        exists|l: int, b: Seq<int>| #[trigger] walk(c.h, c.t, r.0, b) && q[r.0 as usize].key <= l + (c.p)(r.0).unwrap() && #[trigger] (l + wlen(c.h, c.t, b)) == wlen(c.g, c.s, a),
        exists|a1: Seq<int>, b1: Seq<int>| #[trigger] via(c, r.1, a1, b1),
{
    let b: Seq<int> = Seq::empty();
    assert(walk(c.h, c.t, c.t, b)); assert(wlen(c.h, c.t, b) == 0);
    let r1 = lemma_front2(c, d, pr, q, lim, c.t, a, b);
    if r1.0 == a.len() { assert(e[c.t] == 0); assert(lim <= d[c.t] + e[c.t]); }
    let x = wend(c.g, c.s, a.take(r1.0)); let b2 = r1.1; let f = flip(c, o);
    let r2 = lemma_front2(f, e, er, eq, lim, x, b2, a.take(r1.0));
    if r2.0 == b2.len() { assert(lim <= d[x] + e[x]); }
    let y = wend(f.g, f.s, b2.take(r2.0));
    assert(flip(f, c.p) == c);
    lemma_pots(f, c.p, x, b2, a.take(r1.0), r2.0);
    let l = wlen(c.g, c.s, a.take(r1.0));
    assert(walk(c.h, c.t, x, b2) && l + wlen(c.h, c.t, b2) == wlen(c.g, c.s, a));
    assert(via(c, y, r2.1, b2.take(r2.0)));
    (x, y)
}
/// the target is on top of the queue: its label is not longer than any walk shorter than lim
proof fn lemma_top(c: Side, o: Pot, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, a: Seq<int>)
    requires side_ok(c), side_ok(flip(c, o)), c.s != c.t, binv(c, d, pr, q, lim, -1), lim <= CAP, walk(c.g, c.s, c.t, a), wlen(c.g, c.s, a) < lim,
        q.dom().contains(c.t as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[c.t as usize].key <= q[id].key
    ensures d[c.t] <= wlen(c.g, c.s, a)
{
    let b: Seq<int> = Seq::empty();
    assert(walk(c.h, c.t, c.t, b)); assert(wlen(c.h, c.t, b) == 0);
    let r = lemma_front2(c, d, pr, q, lim, c.t, a, b);
    if r.0 < a.len() {
        let x = wend(c.g, c.s, a.take(r.0));
        assert(q[c.t as usize].key <= q[x as usize].key);
        lemma_pots(c, o, c.t, a, b, r.0);
        assert(bkey(c, d, q, lim, c.t as usize));
    }
}
/// pruning by what is left of the other side's queue: no walk over the arc k of u is shorter than lim
proof fn lemma_prune(c: Side, o: Pot, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, u: int, k: int, du: int, top: int, rest: int)
    requires side_ok(c), side_ok(flip(c, o)), binv(flip(c, o), e, er, eq, lim, -1), lim <= CAP, 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), realised(c.g, c.s, 0, u, du), du + c.g[u][k].1 < CAP,
        c.s == c.t || lim <= du + e[u], forall|id: usize| #[trigger] eq.dom().contains(id) ==> top <= eq[id].key,
        o(c.g[u][k].0) matches Some(x) ==> rest <= 0 || rest <= top - x, du + c.g[u][k].1 + rest >= lim
    ensures o(c.g[u][k].0) is Some ==> dead(c, c.g[u][k].0, du + c.g[u][k].1, lim)
{
    let h = c.g[u][k].0; let x = du + c.g[u][k].1; let f = flip(c, o);
    if c.s != c.t && o(h) is Some {
        let au = choose|a: Seq<int>| #[trigger] walk(c.g, c.s, u, a) && 0 + wlen(c.g, c.s, a) == du;
        lemma_walk_push(c.g, c.s, au, k);
        assert forall|b: Seq<int>| #[trigger] walk(c.h, c.t, h, b) implies lim <= x + wlen(c.h, c.t, b) by {
            if x + wlen(c.h, c.t, b) < lim {
                let j = lemma_arc_back(c, u, k);
                lemma_walk_push(c.h, c.t, b, j);
                let b1 = b.push(j);
                lemma_walk_range(c.h, c.t, b);
                let r = lemma_front2(f, e, er, eq, lim, u, b1, au);
                if r.0 < b1.len() {
                    assert(b1.take(r.0) =~= b.take(r.0));
                    let y = wend(f.g, f.s, b.take(r.0));
                    assert(flip(f, c.p) == c);
                    lemma_pots(f, c.p, h, b, au.push(k), r.0);
                    assert(top <= eq[y as usize].key);
                }
            }
        }
    }
}
/// a node without potential lies on no walk shorter than INFINITY
proof fn lemma_absent(c: Side, v: int, dv: int, lim: int)
    requires side_ok(c), realised(c.g, c.s, 0, v, dv), (c.p)(v) is None, lim <= CAP
    ensures dead(c, v, dv, lim)
{
    let a = choose|a: Seq<int>| #[trigger] walk(c.g, c.s, v, a) && 0 + wlen(c.g, c.s, a) == dv;
    assert forall|b: Seq<int>| #[trigger] walk(c.h, c.t, v, b) implies lim <= dv + wlen(c.h, c.t, b) by { if dv + wlen(c.h, c.t, b) < CAP { assert(via(c, v, a, b)); } }
}
spec fn improve_q(c: Side, d: Seq<u32>, q: Qu, u: int, k: int, q2: Qu, lim2: int) -> bool {
    let h = c.g[u][k].0; let x = d[u] + c.g[u][k].1;
    (q2 == q && dead(c, h, x, lim2)) || ((c.p)(h) is Some && q2 == q.insert(h as usize, State { key: ((c.p)(h).unwrap() + x) as u32, node: h as u32 }))
}
proof fn lemma_improve_labels(g: Ag<()>, s: int, d: Seq<u32>, h: int, x: int, d2: Seq<u32>)
    requires labels(g, s, 0, d), 0 <= h < g.len(), realised(g, s, 0, h, x), 0 <= x < d[h], d2 == d.update(h, x as u32)
    ensures labels(g, s, 0, d2), h != s
{
    assert(d[h] <= CAP);
    assert forall|v: int| 0 <= v < g.len() implies #[trigger] d2[v] <= CAP && (d2[v] < CAP ==> realised(g, s, 0, v, d2[v] as int)) by { assert(d[v] <= CAP); }
}
proof fn lemma_improve_covered(c: Side, d: Seq<u32>, q: Qu, lim: int, u: int, k: int, d2: Seq<u32>, q2: Qu, lim2: int)
    requires ag_ok(c.g), d.len() == c.g.len(), bcovered(c, d, q, lim, u), 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), d[u] < CAP, lim2 <= lim <= CAP, 0 <= d[u] + c.g[u][k].1 < d[c.g[u][k].0] <= CAP,
        d2 == d.update(c.g[u][k].0, (d[u] + c.g[u][k].1) as u32), improve_q(c, d, q, u, k, q2, lim2)
    ensures bcovered(c, d2, q2, lim2, u)
{
    let g = c.g; let h = g[u][k].0;
    assert(0 <= h < g.len());
    assert forall|v: int| 0 <= v < g.len() && v != u && #[trigger] d2[v] < CAP implies !uncovered(c, d2, q2, lim2, v) by {
        if v != h {
            assert(d[v] < CAP); assert(!uncovered(c, d, q, lim, v));
            if !q.dom().contains(v as usize) && closed(g, d, v) { assert forall|j: int| 0 <= j < g[v].len() implies d2[(#[trigger] g[v][j]).0] <= d2[v] + g[v][j].1 by { assert(d[g[v][j].0] <= d[v] + g[v][j].1); } assert(closed(g, d2, v)); }
        }
    }
}
proof fn lemma_improve_keys(c: Side, d: Seq<u32>, q: Qu, lim: int, u: int, k: int, d2: Seq<u32>, q2: Qu, lim2: int)
    requires ag_ok(c.g), pot_ok(c.p, c.g.len() as int), d.len() == c.g.len(), queued(c.g, c.p, c.s, d, q), bkeys(c, d, q, lim), 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), d[u] < CAP, lim2 <= lim <= CAP, 0 <= d[u] + c.g[u][k].1 < d[c.g[u][k].0] <= CAP,
        d2 == d.update(c.g[u][k].0, (d[u] + c.g[u][k].1) as u32), improve_q(c, d, q, u, k, q2, lim2), c.g[u][k].0 != c.s
    ensures bkeys(c, d2, q2, lim2), queued(c.g, c.p, c.s, d2, q2)
{
    let g = c.g; let p = c.p; let s = c.s;
    let h = g[u][k].0; let x = d[u] + g[u][k].1;
    assert(0 <= h < g.len());
    if p(h) is Some { lemma_pot_ok(p, g.len() as int, h); }
    assert forall|id: usize| #[trigger] q2.dom().contains(id) implies id < g.len() && q2[id].node == id && (id == s || p(id as int) is Some) && d2[id as int] < CAP && bkey(c, d2, q2, lim2, id) by {
        if id != h { assert(q.dom().contains(id)); assert(bkey(c, d, q, lim, id)); }
        else if q2 == q { assert(q.dom().contains(id)); assert(bkey(c, d, q, lim, id)); }
    }
}
/// one improvement: the head gets the label x, is queued (with its potential) or dead
proof fn lemma_improve2(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int, k: int, d2: Seq<u32>, pr2: Seq<(NodeId, ())>, q2: Qu, lim2: int)
    requires side_ok(c), binv(c, d, pr, q, lim, u), 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), d[u] < CAP, lim2 <= lim <= CAP,
        ({ let h = c.g[u][k].0; let x = d[u] + c.g[u][k].1; x < d[h] && d2 == d.update(h, x as u32) && pr2 == pr.update(h, (u as u32, ())) }), improve_q(c, d, q, u, k, q2, lim2)
    ensures binv(c, d2, pr2, q2, lim2, u), c.g[u][k].0 != u, c.g[u][k].0 != c.s
{
    let g = c.g; let p = c.p; let s = c.s;
    let h = g[u][k].0; let x = d[u] + g[u][k].1;
    assert(0 <= h < g.len());
    lemma_realise(g, s, 0, u, d[u] as int, k);
    lemma_realised_ge(g, s, 0, h, x);
    lemma_realised_ge(g, s, 0, u, d[u] as int);
    assert(d[h] <= CAP);
    lemma_improve_labels(g, s, d, h, x, d2);
    lemma_improve_covered(c, d, q, lim, u, k, d2, q2, lim2);
    lemma_improve_keys(c, d, q, lim, u, k, d2, q2, lim2);
    let tau = pick_tau(g, s, d, pr);
    lemma_tree_pick(g, s, d, pr, tau);
    let tau2 = lemma_tree_improve(g, s, d, pr, tau, u, k, d2, pr2);
}
/// the part of lemma_improve about predecessors
proof fn lemma_tree_improve(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, tau: Seq<nat>, u: int, k: int, d2: Seq<u32>, pr2: Seq<(NodeId, ())>) -> (tau2: Seq<nat>)
    requires labels(g, s, 0, d), tree_with(g, s, d, pr, tau), 0 <= u < g.len(), 0 <= k < g[u].len(), d[u] < CAP, g[u][k].0 != s,
        ({ let h = g[u][k].0; let x = d[u] + g[u][k].1; x < d[h] && d2 == d.update(h, x as u32) && pr2 == pr.update(h, (u as u32, ())) })
    ensures tree_with(g, s, d2, pr2, tau2), tree(g, s, d2, pr2)
{
    let h = g[u][k].0; let x = d[u] + g[u][k].1;
    assert(0 <= h < g.len()); assert(d[h] <= CAP);
    let top = max_tau(tau, tau.len() as int) + 1;
    let tau2 = tau.update(h, top);
    assert forall|v: int| 0 <= v < g.len() && v != s && #[trigger] d2[v] < CAP implies tree_at(g, d2, pr2, tau2, v) by {
        if v == h {
            assert(d2[u] == d[u] && d2[h] == x);
            assert(tree_arc(g, d2, v, pr2[v].0 as int, pr2[v].1, k));
            lemma_max_tau(tau, tau.len() as int, u);
        } else {
            assert(d[v] < CAP); assert(tree_at(g, d, pr, tau, v));
            let y = pr[v].0 as int;
            let j = choose|j: int| #[trigger] tree_arc(g, d, v, y, pr[v].1, j);
            assert(d2[v] == d[v]); assert(0 <= g[y][j].1);
            if y == h { assert(d2[y] < d[y]); assert(d2[y] < d2[v]); } else { assert(d2[y] == d[y]); assert(tau2[y] == tau[y] && tau2[v] == tau[v]); }
            assert(pr2[v] == pr[v]);
            assert(tree_arc(g, d2, v, pr2[v].0 as int, pr2[v].1, j));
        }
    }
    assert(tree_with(g, s, d2, pr2, tau2));
    tau2
}
/// the limit shrank meanwhile
proof fn lemma_lim(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int, lim2: int)
    requires binv(c, d, pr, q, lim, u), lim2 <= lim
    ensures binv(c, d, pr, q, lim2, u)
{
    assert forall|id: usize| #[trigger] q.dom().contains(id) implies bkey(c, d, q, lim2, id) by { assert(bkey(c, d, q, lim, id)); }
    assert forall|v: int| 0 <= v < c.g.len() && v != u && #[trigger] d[v] < CAP implies !uncovered(c, d, q, lim2, v) by { assert(!uncovered(c, d, q, lim, v)); }
}
proof fn lemma_pop2(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, node: NodeId, q2: Qu)
    requires binv(c, d, pr, q, lim, -1), q.dom().contains(node as usize), forall|id: usize| q.dom().contains(id) ==> !lt(#[trigger] q[id], q[node as usize]), q2 == q.remove(node as usize)
    ensures binv(c, d, pr, q2, lim, node as int), node < c.g.len(), d[node as int] < CAP, d.len() == c.g.len(), !q2.dom().contains(node as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[node as usize].key <= q[id].key
{
    assert forall|id: usize| #[trigger] q.dom().contains(id) implies q[node as usize].key <= q[id].key by { assert(!lt(q[id], q[node as usize])); }
    assert forall|id: usize| #[trigger] q2.dom().contains(id) implies q.dom().contains(id) && q2[id] == q[id] && bkey(c, d, q2, lim, id) by { assert(bkey(c, d, q, lim, id)); }
    assert forall|v: int| 0 <= v < c.g.len() && v != node && #[trigger] d[v] < CAP implies !uncovered(c, d, q2, lim, v) by { assert(!uncovered(c, d, q, lim, v)); }
}
proof fn lemma_after2(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int)
    requires binv(c, d, pr, q, lim, u), closed(c.g, d, u)
    ensures binv(c, d, pr, q, lim, -1)
{ assert forall|v: int| 0 <= v < c.g.len() && v != -1 && #[trigger] d[v] < CAP implies !uncovered(c, d, q, lim, v) by { if v != u { assert(!uncovered(c, d, q, lim, v)); } } }
proof fn lemma_start2(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int)
    requires side_ok(c), lim <= CAP, d =~= Seq::new(c.g.len(), |i: int| INFINITY).update(c.s, 0u32), pr.len() == c.g.len(),
        q =~= IMap::<usize, State>::empty().insert(c.s as usize, State { key: 0, node: c.s as u32 })
    ensures binv(c, d, pr, q, lim, -1)
{
    let g = c.g; let s = c.s;
    lemma_realise_start(g, s, 0);
    assert(d[s] == 0);
    assert forall|v: int| 0 <= v < g.len() implies #[trigger] d[v] <= CAP && (d[v] < CAP ==> realised(g, s, 0, v, d[v] as int)) by { }
    assert forall|id: usize| #[trigger] q.dom().contains(id) implies bkey(c, d, q, lim, id) by { if (c.p)(s) is None { lemma_absent(c, s, 0, lim); } }
    let tau = Seq::new(g.len(), |i: int| 0nat);
    assert(tree_with(g, s, d, pr, tau));
}

// ---------------------------------------------------------------- the bidirectional server
proof fn lemma_meet(c: Side, d: Seq<u32>, e: Seq<u32>, lim: int, h: int, x: int, d2: Seq<u32>, lim2: int)
    requires side_ok(c), meet(c, d, e, lim), labels(c.h, c.t, 0, e), lim2 <= lim <= CAP, 0 <= h < c.g.len(), 0 <= x < CAP, d.len() == c.g.len(), d2 == d.update(h, x as u32), lim2 <= x + e[h] || dead(c, h, x, lim2)
    ensures meet(c, d2, e, lim2)
{
    if c.s != c.t {
        assert(e[h] <= CAP);
        if lim2 > x + e[h] {
            let b = choose|b: Seq<int>| #[trigger] walk(c.h, c.t, h, b) && 0 + wlen(c.h, c.t, b) == e[h];
            assert(realised(c.h, c.t, 0, h, e[h] as int));
            assert(lim2 <= x + wlen(c.h, c.t, b));
        }
        assert forall|y: int| #![trigger d2[y]] #![trigger e[y]] 0 <= y < c.g.len() implies lim2 <= d2[y] + e[y] by { assert(lim <= d[y] + e[y]); }
    }
}
/// the meeting node is on a path of the tentative distance
spec fn meeting2(d: Seq<u32>, e: Seq<u32>, x: int, tent: int) -> bool { d.len() == e.len() && (tent < CAP ==> 0 <= x < d.len() && d[x] + e[x] <= tent) }
proof fn lemma_meeting2(d: Seq<u32>, e: Seq<u32>, x: int, tent: int, h: int, l: int, d2: Seq<u32>, x2: int, tent2: int)
    requires meeting2(d, e, x, tent), 0 <= h < d.len(), 0 <= l < d[h], d2 == d.update(h, l as u32), (tent2 == tent && x2 == x) || (x2 == h && tent2 == l + e[h])
    ensures meeting2(d2, e, x2, tent2)
{ }
/// the closures handed to one step of one direction: whether to queue an improved node, and its potential
trait VfBiCb: Sized {
    spec fn c(&self) -> Side;
    spec fn e(&self) -> Seq<u32>;
    spec fn lim(&self) -> int;
    spec fn tent(&self) -> int;
    spec fn mt(&self) -> int;
    spec fn ok(&self) -> bool;
    #[verifier::prophetic] spec fn same(&self, o: &Self) -> bool;
    proof fn lemma_refl(&self) ensures self.same(self);
    proof fn lemma_ok(&self) requires self.ok() ensures side_ok(self.c()), labels(self.c().h, self.c().t, 0, self.e()), self.lim() <= CAP;
    fn improve(&mut self, head: NodeId, dist: Weight, Ghost(u): Ghost<int>, Ghost(k): Ghost<int>, Ghost(du): Ghost<int>) -> (r: bool)
        requires old(self).ok(), 0 <= u < old(self).c().g.len(), 0 <= k < old(self).c().g[u].len(), old(self).c().g[u][k].0 == head, dist == du + old(self).c().g[u][k].1, 0 <= du, dist < CAP,
            realised(old(self).c().g, old(self).c().s, 0, u, du), old(self).c().s == old(self).c().t || old(self).lim() <= du + old(self).e()[u]
        ensures final(self).ok(), final(self).c() == old(self).c(), final(self).e() == old(self).e(), final(self).lim() <= old(self).lim(), final(self).tent() <= old(self).tent(), forall|o: Self| #[trigger] old(self).same(&o) ==> final(self).same(&o),
            r ==> final(self).lim() <= dist + old(self).e()[head as int], !r ==> dead(old(self).c(), head as int, dist as int, final(self).lim()),
            (final(self).tent() == old(self).tent() && final(self).mt() == old(self).mt()) || (final(self).mt() == head && final(self).tent() == dist + old(self).e()[head as int]);
    fn potential(&mut self, node: NodeId) -> (r: Option<Weight>)
        requires old(self).ok(), node < old(self).c().g.len()
        ensures final(self).ok(), final(self).c() == old(self).c(), final(self).e() == old(self).e(), final(self).lim() == old(self).lim(), final(self).tent() == old(self).tent(), final(self).mt() == old(self).mt(), forall|o: Self| #[trigger] old(self).same(&o) ==> final(self).same(&o), r == (old(self).c().p)(node as int);
}
proof fn lemma_binv(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int)
    requires binv(c, d, pr, q, lim, u)
    ensures labels(c.g, c.s, 0, d), d.len() == c.g.len(), ag_ok(c.g), pr.len() == c.g.len(), d[c.s] == 0, c.g.len() < u32::MAX
{ }
proof fn lemma_relax_pre(c: Side, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, u: int, k: int)
    requires binv(c, d, pr, q, lim, u), side_ok(c), 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), lim <= CAP
    ensures 0 <= c.g[u][k].0 < c.g.len(), 0 <= c.g[u][k].1 <= CAP, d[u] <= CAP, d[c.g[u][k].0] <= CAP, d[u] < CAP ==> realised(c.g, c.s, 0, u, d[u] as int), d[u] < CAP ==> realised(c.g, c.s, 0, c.g[u][k].0, d[u] + c.g[u][k].1),
        q.dom().contains(c.g[u][k].0 as usize) ==> bkey(c, d, q, lim, c.g[u][k].0 as usize) && q[c.g[u][k].0 as usize].node == c.g[u][k].0 && d[c.g[u][k].0] < CAP,
        c.g[u][k].0 != c.s || d[c.s] == 0
{ let a = c.g[u][k]; assert(0 <= a.0 < c.g.len()); assert(d[a.0] <= CAP); assert(d[u] <= CAP); if d[u] < CAP { lemma_realise(c.g, c.s, 0, u, d[u] as int, k); } }
proof fn lemma_side_pot(c: Side, h: int) requires side_ok(c), 0 <= h < c.g.len() ensures (c.p)(h) is Some ==> (c.p)(h).unwrap() <= CAP { }
proof fn lemma_meet_at(c: Side, d: Seq<u32>, e: Seq<u32>, lim: int, u: int)
    requires meet(c, d, e, lim), 0 <= u < c.g.len()
    ensures c.s == c.t || lim <= d[u] + e[u]
{ }
/// an entry that is still in the queue has no smaller key than the improved one
proof fn lemma_key_gt(c: Side, d: Seq<u32>, q: Qu, lim2: int, lim: int, h: int, x: int, next: State, e: Seq<u32>)
    requires 0 <= h < c.g.len(), q.dom().contains(h as usize), bkey(c, d, q, lim, h as usize), q[h as usize].node == h, h != c.s, (c.p)(h) is Some, x < d[h], next.key == (c.p)(h).unwrap() + x, next.node == h, c.g.len() < u32::MAX
    ensures !lt(q[h as usize], next)
{ }
impl<'b, Graph: VfLinks<Link>> DijkstraRun<'b, Graph, DefaultOps> {
    spec fn binv(&self, c: Side, lim: int) -> bool { self.wf() && self.g() == c.g && binv(c, self.distances@, self.predecessors@, self.queue@, lim, -1) }
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::settle_next_node as=settle_pruned tag=pruned
//@attr
#[verifier::rlimit(50)]
//@sig fn settle_pruned<E: VfPred1<Link>, C: VfBiCb>(&mut self, mut edge_predicate: E, cb: &mut C) -> (r: Option<NodeId>)
//@rw optmap
//@rw sub self.graph.link_iter($e) => vf_seq_links(self.graph, $e)
//@rw subopt edge_predicate($e) => edge_predicate.call($e)
//@rw sub improve_callback($a, $b) => cb.improve($a, *$b, Ghost(u), Ghost(k), Ghost(dd[u] as int))
//@rw sub potential($e).map(|$p:id| $x) => (match cb.potential($e) { Some($p) => Some($x), None => None })
//@rw subopt self.num_relaxed_arcs += 1; => vf_inc(&mut self.num_relaxed_arcs);
//@rw subopt self.num_queue_pushs += 1; => vf_inc(&mut self.num_queue_pushs);
//@rw subopt self.predecessors, NodeIdT => self.predecessors.as_slice(), NodeIdT
//@rw subopt &mut self.distances[$e] => self.distances.index_mut($e)
//@rw subopt &self.distances[$e] => self.distances.index($e)
//@rw for
//@rw sub let link = $v:id[$i:id]; => let link = vf_copy(&$v[$i]);
//@rw sub self.ops.merge( => <DefaultOps as DijkstraOps<Graph>>::merge(self.ops,
//@rw sub self.ops.link( => <DefaultOps as DijkstraOps<Graph>>::link(self.ops,
//@rw sub self.ops.predecessor_link( => <DefaultOps as DijkstraOps<Graph>>::predecessor_link(self.ops,
//@spec
    requires old(cb).ok(), old(self).binv(old(cb).c(), old(cb).lim()), meet(old(cb).c(), old(self).dist(), old(cb).e(), old(cb).lim()), meeting2(old(self).dist(), old(cb).e(), old(cb).mt(), old(cb).tent())
    ensures
        final(self).same(*old(self)), final(cb).ok(), final(cb).c() == old(cb).c(), final(cb).e() == old(cb).e(), final(cb).lim() <= old(cb).lim(), final(cb).tent() <= old(cb).tent(), final(cb).same(old(cb)),
        final(self).binv(old(cb).c(), final(cb).lim()), meet(old(cb).c(), final(self).dist(), old(cb).e(), final(cb).lim()), meeting2(final(self).dist(), old(cb).e(), final(cb).mt(), final(cb).tent()),
        r is None ==> old(self).queue@.dom() =~= ISet::empty() && final(self).queue@ =~= old(self).queue@ && final(self).distances@ == old(self).distances@,
        r matches Some(u) ==> u < old(self).g().len() && old(self).queue@.dom().contains(u as usize) && final(self).dist()[u as int] == old(self).dist()[u as int] && old(self).dist()[u as int] < CAP
            && forall|id: usize| #[trigger] old(self).queue@.dom().contains(id) ==> old(self).queue@[u as usize].key <= old(self).queue@[id].key,
//@at start
    hide(binv); hide(side_ok); hide(labels); hide(tree_with); hide(tree); hide(ag_ok); hide(ord_ok); hide(IndexdMinHeap::heap_ok); hide(IndexdMinHeap::maps_ok); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::view); hide(IndexdMinHeap::wf); hide(state_cmp); hide(graph_ok); hide(agraph); hide(meet); hide(dead); hide(realised); hide(closed); hide(bkey); hide(meeting2);
    let ghost g = self.g(); let ghost c = cb.c(); let ghost e = cb.e(); let ghost dd = self.distances@; let ghost qq = self.queue@; let ghost run0 = *self; let ghost cb0 = *cb;
    proof { lemma_state_ord(); cb.lemma_ok(); cb.lemma_refl(); lemma_binv(c, self.distances@, self.predecessors@, self.queue@, cb.lim(), -1); }
//@at loop_outer 0
    let ghost u = node as int;
    proof {
        assert(self.queue@ =~= qq.remove(node as usize));
        assert forall|id: usize| qq.dom().contains(id) implies !lt(#[trigger] qq[id], qq[node as usize]) by { }
        lemma_pop2(c, dd, self.predecessors@, qq, cb.lim(), node, self.queue@);
        lemma_agraph::<DefaultOps, Graph>(self.graph, self.ops, node as int);
        lemma_binv(c, self.distances@, self.predecessors@, self.queue@, cb.lim(), u);
    }
//@loop 0
    invariant
        ord_ok::<State>(), self.wf(), self.same(run0), g == self.g(), g == run0.g(), u == node, c == cb.c(), g == c.g, e == cb.e(), cb.ok(), cb0 == *old(cb), cb.same(&cb0), c == cb0.c(), e == cb0.e(), cb.lim() <= cb0.lim(), cb.tent() <= cb0.tent(), side_ok(c),
        0 <= u < g.len(), vf_it0@ == self.graph.lists()[u], vf_i0 <= vf_it0@.len(), g.len() < u32::MAX,
        binv(c, self.distances@, self.predecessors@, self.queue@, cb.lim(), u), meet(c, self.distances@, e, cb.lim()), meeting2(self.distances@, e, cb.mt(), cb.tent()), self.distances@.len() == g.len(), self.predecessors@.len() == g.len(),
        self.distances@[u] == dd[u], dd[u] < CAP, dd.len() == g.len(),
        forall|k: int| 0 <= k < vf_i0 ==> self.distances@[(#[trigger] g[u][k]).0] <= dd[u] + g[u][k].1,
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    let ghost d1 = self.distances@; let ghost pr1 = self.predecessors@; let ghost q1 = self.queue@; let ghost k = vf_i0 - 1; let ghost cb1 = *cb; let ghost lim1 = cb.lim(); let ghost mt1 = cb.mt(); let ghost tent1 = cb.tent();
    let ghost h = g[u][k].0; let ghost x = d1[u] + g[u][k].1;
    proof { lemma_agraph::<DefaultOps, Graph>(self.graph, self.ops, u); lemma_arc::<DefaultOps, Graph>(self.graph, self.ops, u, k); cb.lemma_ok();
        lemma_relax_pre(c, d1, pr1, q1, lim1, u, k); lemma_side_pot(c, h); lemma_meet_at(c, d1, e, lim1, u); }
//@at before self.queue.decrease_key
    proof { lemma_key_gt(c, d1, q1, cb.lim(), lim1, h, x, next, cb.e()); }
//@at loop_end 0
    proof {
        cb.lemma_ok();
        if x < d1[h] {
            assert(self.distances@ =~= d1.update(h, x as u32));
            assert(self.predecessors@ =~= pr1.update(h, (u as u32, ())));
            let qi = q1.insert(h as usize, State { key: ((c.p)(h).unwrap() + x) as u32, node: h as u32 });
            if !dead(c, h, x, cb.lim()) { if (c.p)(h) is None { lemma_absent(c, h, x, cb.lim()); } else { assert(self.queue@ =~= qi); } } else if self.queue@ != q1 { assert(self.queue@ =~= qi); }
            assert(improve_q(c, d1, q1, u, k, self.queue@, cb.lim()));
            lemma_improve2(c, d1, pr1, q1, lim1, u, k, self.distances@, self.predecessors@, self.queue@, cb.lim());
            lemma_meet(c, d1, e, lim1, h, x, self.distances@, cb.lim());
            lemma_meeting2(d1, e, mt1, tent1, h, x, self.distances@, cb.mt(), cb.tent());
        } else { assert(self.distances@ =~= d1); assert(self.queue@ == q1 && self.predecessors@ == pr1); }
        assert forall|j: int| 0 <= j < vf_i0 implies self.distances@[(#[trigger] g[u][j]).0] <= dd[u] + g[u][j].1 by { if j < k { assert(d1[g[u][j].0] <= dd[u] + g[u][j].1); } }
    }
//@at after_loop 0
    proof {
        assert(closed(g, self.distances@, u)) by { reveal(closed); lemma_agraph::<DefaultOps, Graph>(self.graph, self.ops, u); }
        lemma_after2(c, self.distances@, self.predecessors@, self.queue@, cb.lim(), u);
    }
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::next_with_improve_callback_and_potential
//@sig fn next_with_improve_callback_and_potential<C: VfBiCb>(&mut self, cb: &mut C) -> (r: Option<NodeId>)
//@rw sub self.settle_next_node(|_| true, improve_callback, potential) => self.settle_pruned(VfAll(), cb)
//@spec
    requires old(cb).ok(), old(self).binv(old(cb).c(), old(cb).lim()), meet(old(cb).c(), old(self).dist(), old(cb).e(), old(cb).lim()), meeting2(old(self).dist(), old(cb).e(), old(cb).mt(), old(cb).tent())
    ensures
        final(self).same(*old(self)), final(cb).ok(), final(cb).c() == old(cb).c(), final(cb).e() == old(cb).e(), final(cb).lim() <= old(cb).lim(), final(cb).tent() <= old(cb).tent(), final(cb).same(old(cb)),
        final(self).binv(old(cb).c(), final(cb).lim()), meet(old(cb).c(), final(self).dist(), old(cb).e(), final(cb).lim()), meeting2(final(self).dist(), old(cb).e(), final(cb).mt(), final(cb).tent()),
        r is None ==> old(self).queue@.dom() =~= ISet::empty() && final(self).queue@ =~= old(self).queue@ && final(self).distances@ == old(self).distances@,
        r matches Some(u) ==> u < old(self).g().len() && old(self).queue@.dom().contains(u as usize) && final(self).dist()[u as int] == old(self).dist()[u as int] && old(self).dist()[u as int] < CAP
            && forall|id: usize| #[trigger] old(self).queue@.dom().contains(id) ==> old(self).queue@[u as usize].key <= old(self).queue@[id].key,
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::queue
//@sig fn queue(&self) -> (r: &IndexdMinHeap<State>)
//@spec
    requires self.wf()
    ensures r@ == self.qu(), r.wf()
//@endfn
    fn vf_td(&self, node: NodeId) -> (r: Weight) requires self.wf(), node < self.g().len() ensures r == self.dist()[node as int] { *self.tentative_distance(node) }
}
