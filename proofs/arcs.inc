/// an arc list in iteration order (node by node, each node's links in order): u -> v with payload w
ghost struct A { u: int, v: int, w: int }
/// arcs among the first k with head v
spec fn into(a: Seq<A>, k: int, v: int) -> int decreases k { if k <= 0 { 0 } else { into(a, k - 1, v) + if a[k - 1].v == v { 1int } else { 0 } } }
/// arcs among the first k with head below v
spec fn below(a: Seq<A>, k: int, v: int) -> int decreases k { if k <= 0 { 0 } else { below(a, k - 1, v) + if a[k - 1].v < v { 1int } else { 0 } } }
/// where arc e goes when the arcs are sorted stably by head
spec fn dest(a: Seq<A>, e: int) -> int { below(a, a.len() as int, a[e].v) + into(a, e, a[e].v) }

proof fn lemma_into_bounds(a: Seq<A>, j: int, k: int, v: int)
    requires 0 <= j <= k
    ensures 0 <= into(a, j, v) <= into(a, k, v) <= into(a, j, v) + (k - j)
    decreases k
{ if j < k { lemma_into_bounds(a, j, k - 1, v); } else if k > 0 { lemma_into_bounds(a, j - 1, k - 1, v); } }
proof fn lemma_below_step(a: Seq<A>, k: int, v: int)
    requires 0 <= k
    ensures below(a, k, v + 1) == below(a, k, v) + into(a, k, v), 0 <= below(a, k, v) <= k
    decreases k
{ if k > 0 { lemma_below_step(a, k - 1, v); } }
proof fn lemma_below_mono(a: Seq<A>, k: int, v: int, w: int)
    requires 0 <= k, v <= w
    ensures below(a, k, v) <= below(a, k, w) <= k, 0 <= below(a, k, v)
    decreases w - v
{ lemma_below_step(a, k, v); lemma_below_step(a, k, w); lemma_into_bounds(a, 0, k, v); if v < w { lemma_below_step(a, k, w - 1); lemma_into_bounds(a, 0, k, w - 1); lemma_below_mono(a, k, v, w - 1); } }
proof fn lemma_below_zero(a: Seq<A>, k: int)
    requires 0 <= k <= a.len(), forall|e: int| 0 <= e < a.len() ==> 0 <= (#[trigger] a[e]).v
    ensures below(a, k, 0) == 0
    decreases k
{ if k > 0 { lemma_below_zero(a, k - 1); } }
proof fn lemma_below_all(a: Seq<A>, k: int, n: int)
    requires 0 <= k <= a.len(), forall|e: int| 0 <= e < a.len() ==> (#[trigger] a[e]).v < n
    ensures below(a, k, n) == k
    decreases k
{ if k > 0 { lemma_below_all(a, k - 1, n); } }
/// the destination lies in the bucket of the head, and two arcs never share one
proof fn lemma_dest(a: Seq<A>, e: int)
    requires 0 <= e < a.len()
    ensures below(a, a.len() as int, a[e].v) <= dest(a, e) < below(a, a.len() as int, a[e].v + 1) <= a.len(), 0 <= dest(a, e)
{
    let m = a.len() as int; let v = a[e].v;
    lemma_into_bounds(a, 0, e, v); lemma_into_bounds(a, e + 1, m, v);
    lemma_below_step(a, m, v); lemma_below_step(a, m, v + 1);
}
proof fn lemma_dest_injective(a: Seq<A>, e: int, f: int)
    requires 0 <= e < f < a.len()
    ensures dest(a, e) != dest(a, f)
{
    let m = a.len() as int;
    lemma_dest(a, e); lemma_dest(a, f);
    if a[e].v == a[f].v { lemma_into_bounds(a, e + 1, f, a[e].v); }
    else if a[e].v < a[f].v { lemma_below_mono(a, m, a[e].v + 1, a[f].v); }
    else { lemma_below_mono(a, m, a[f].v + 1, a[e].v); }
}
/// the arcs of node u and of all nodes before it
spec fn offset<T>(lists: Seq<Seq<T>>, u: int) -> int decreases u { if u <= 0 { 0 } else { offset(lists, u - 1) + lists[u - 1].len() } }
proof fn lemma_offset_mono<T>(lists: Seq<Seq<T>>, u: int, w: int)
    requires 0 <= u <= w <= lists.len()
    ensures 0 <= offset(lists, u) <= offset(lists, w)
    decreases w
{ if u < w { lemma_offset_mono(lists, u, w - 1); } else if u > 0 { lemma_offset_mono(lists, u - 1, u - 1); } }
/// the pair (u, i) an arc index belongs to is unique
proof fn lemma_offset_step<T>(lists: Seq<Seq<T>>, u: int, w: int)
    requires 0 <= u < w <= lists.len()
    ensures offset(lists, u) + lists[u].len() <= offset(lists, w)
    decreases w
{ assert(offset(lists, u + 1) == offset(lists, u) + lists[u].len()); lemma_offset_mono(lists, u + 1, w); }
