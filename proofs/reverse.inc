/// the result of reversing: offsets are bucket starts and every arc sits at its own place, turned around
spec fn reversed_ok(a: Seq<A>, n: int, fo: Seq<u32>, head: Seq<u32>) -> bool {
    &&& fo.len() == n + 1 && head.len() == a.len()
    &&& forall|v: int| 0 <= v <= n ==> #[trigger] fo[v] == below(a, a.len() as int, v)
    &&& forall|e: int| 0 <= e < a.len() ==> head[#[trigger] dest(a, e)] == a[e].u
}
/// the property: arc e of the input is an arc of the reversed graph's node a[e].v leading to a[e].u, at a place of its own
proof fn prop_reversed(a: Seq<A>, n: int, fo: Seq<u32>, head: Seq<u32>, e: int)
    requires reversed_ok(a, n, fo, head), 0 <= e < a.len(), forall|e: int| 0 <= e < a.len() ==> 0 <= (#[trigger] a[e]).v < n
    ensures fo[a[e].v] <= dest(a, e) < fo[a[e].v + 1], head[dest(a, e)] == a[e].u, fo[n] == a.len(), fo[0] == 0,
        forall|f: int| 0 <= f < a.len() && f != e ==> dest(a, f) != dest(a, e)
{
    lemma_dest(a, e); lemma_below_zero(a, a.len() as int); lemma_below_all(a, a.len() as int, n);
    assert forall|f: int| 0 <= f < a.len() && f != e implies dest(a, f) != dest(a, e) by { if f < e { lemma_dest_injective(a, f, e); } else { lemma_dest_injective(a, e, f); } }
}
