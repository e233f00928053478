//@include prelude.inc
//@include arcs.inc
//@include reverse.inc
//@include graph.inc
//@include links.inc
//@include adj.inc
impl OwnedGraph {
//@fn engine/src/datastr/graph/first_out_graph.rs BuildReversed for OwnedGraph::reversed
//@sig fn reversed<G: VfLinks<Link>>(graph: &G) -> (r: Self)
//@rw sub graph.link_iter($n) => vf_seq_links(graph, $n)
//@rw for
//@rw subopt let mut prefix_sum = 0; => let mut prefix_sum: u32 = 0;
//@rw subopt let mut head = vec![0; $e]; => let mut head: Vec<u32> = vec![0; $e];
//@rw subopt let mut weights = vec![0; $e]; => let mut weights: Vec<u32> = vec![0; $e];
//@spec
    requires fits(graph.lists())
    ensures reversed_ok(arcs(graph.lists()), graph.lists().len() as int, r.first_out@, r.head@), r.weight@.len() == arcs(graph.lists()).len(),
        forall|e: int| 0 <= e < arcs(graph.lists()).len() ==> r.weight@[#[trigger] dest(arcs(graph.lists()), e)] == arcs(graph.lists())[e].w
//@at start
    let ghost ls = graph.lists();
    let ghost a = arcs(ls);
    let ghost n = ls.len() as int;
    let ghost m = a.len() as int;
    proof { lemma_arcs(ls); }
//@loop 0
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e0 == n, vf_i0 <= n, reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, vf_i0 as int), v),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 1
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it1@ == ls[node as int], vf_i1 <= vf_it1@.len(), reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, node as int) + vf_i1, v),
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost e = offset(ls, node as int) + vf_i1 - 1;
    let ghost fo0 = reversed_first_out@;
    proof { assert(a[e].v == ls[node as int][vf_i1 - 1].h()); lemma_into_bounds(a, 0, e, neighbor as int); assert(fo0[neighbor + 1] == into(a, e, neighbor as int)); }
//@at loop_end 1
    proof { assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v + 1] == into(a, e + 1, v) by { assert(fo0[v + 1] == into(a, e, v)); } }
//@at before_loop 2
    proof {
        lemma_below_zero(a, m);
        assert forall|v: int| 0 < v <= n implies #[trigger] reversed_first_out@[v] == into(a, m, v - 1) by { let x = v - 1; assert(reversed_first_out@[x + 1] == into(a, m, x)); }
    }
//@loop 2
    invariant
        n == ls.len(), m == a.len(), m < u32::MAX, reversed_first_out@.len() == n + 1, vf_i2 <= n + 1,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        below(a, m, 0) == 0,
        forall|v: int| 0 <= v < vf_i2 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
        forall|v: int| vf_i2 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == into(a, m, v - 1),
        vf_i2 == 0 ==> reversed_first_out@[0] == 0,
        prefix_sum == (if vf_i2 == 0 { 0 } else { below(a, m, vf_i2 - 1) }),
    decreases n + 1 - vf_i2
//@at loop_begin 2
    proof {
        assert(vf_i2 > 0 ==> reversed_first_out@[vf_i2 as int] == into(a, m, vf_i2 - 1));
        if vf_i2 > 0 { lemma_below_step(a, m, vf_i2 - 1); }
        lemma_below_mono(a, m, 0, vf_i2 as int);
    }
//@at before_loop 3
    proof { lemma_below_all(a, m, n); assert(reversed_first_out@[n] == below(a, m, n)); }
//@loop 3
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e3 == n, vf_i3 <= n, reversed_first_out@.len() == n + 1, head@.len() == m, weights@.len() == m, m < u32::MAX,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n, reversed_first_out@[n] == m,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, vf_i3 as int), v),
        forall|e: int| 0 <= e < offset(ls, vf_i3 as int) ==> head@[#[trigger] dest(a, e)] == a[e].u && weights@[dest(a, e)] == a[e].w,
    decreases vf_e3 - vf_i3
//@at loop_start 3
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 4
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it4@ == ls[node as int], vf_i4 <= vf_it4@.len(), reversed_first_out@.len() == n + 1, head@.len() == m, weights@.len() == m,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX, reversed_first_out@[n] == m,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, node as int) + vf_i4, v),
        forall|e: int| 0 <= e < offset(ls, node as int) + vf_i4 ==> head@[#[trigger] dest(a, e)] == a[e].u && weights@[dest(a, e)] == a[e].w,
    decreases vf_it4@.len() - vf_i4
//@at loop_start 4
    let ghost e = offset(ls, node as int) + vf_i4 - 1;
    let ghost fo0 = reversed_first_out@;
    proof {
        assert(a[e] == (A { u: node as int, v: ls[node as int][vf_i4 - 1].h(), w: ls[node as int][vf_i4 - 1].pay() }));
        lemma_dest(a, e);
        assert(fo0[neighbor as int] == dest(a, e));
    }
//@at loop_end 4
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, e + 1, v) by { assert(fo0[v] == below(a, m, v) + into(a, e, v)); }
        assert forall|f: int| 0 <= f < e + 1 implies head@[#[trigger] dest(a, f)] == a[f].u && weights@[dest(a, f)] == a[f].w by { lemma_dest(a, f); if f < e { lemma_dest_injective(a, f, e); } }
    }
//@at before_loop 5
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v + 1) by { lemma_below_step(a, m, v); }
        lemma_below_all(a, m, n);
    }
//@loop 5
    invariant
        n == ls.len(), m == a.len(), reversed_first_out@.len() == n + 1, vf_e5 == 1, vf_i5 <= n, n > 0 ==> 1 <= vf_i5, reversed_first_out@[n] == m, below(a, m, n) == m,
        forall|v: int| 0 <= v < vf_i5 && v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v + 1),
        forall|v: int| vf_i5 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
    decreases vf_i5
//@at end
    proof { lemma_below_zero(a, m); lemma_below_all(a, m, n); assert(reversed_first_out@[n] == m); }
//@endfn
}
/// UnweightedFirstOutGraph with Vec containers
struct UnweightedOwnedGraph { first_out: Vec<EdgeId>, head: Vec<NodeId> }
impl UnweightedOwnedGraph {
//@fn engine/src/datastr/graph/first_out_graph.rs BuildReversed for UnweightedOwnedGraph::reversed
//@sig fn reversed<G: VfLinks<NodeIdT>>(graph: &G) -> (r: Self)
//@rw sub graph.link_iter($n) => vf_seq_links(graph, $n)
//@rw for
//@rw subopt let mut prefix_sum = 0; => let mut prefix_sum: u32 = 0;
//@rw subopt let mut head = vec![0; $e]; => let mut head: Vec<u32> = vec![0; $e];
//@spec
    requires fits(graph.lists())
    ensures reversed_ok(arcs(graph.lists()), graph.lists().len() as int, r.first_out@, r.head@)
//@at start
    let ghost ls = graph.lists();
    let ghost a = arcs(ls);
    let ghost n = ls.len() as int;
    let ghost m = a.len() as int;
    proof { lemma_arcs(ls); }
//@loop 0
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e0 == n, vf_i0 <= n, reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, vf_i0 as int), v),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 1
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it1@ == ls[node as int], vf_i1 <= vf_it1@.len(), reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, node as int) + vf_i1, v),
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost e = offset(ls, node as int) + vf_i1 - 1;
    let ghost fo0 = reversed_first_out@;
    proof { assert(a[e].v == ls[node as int][vf_i1 - 1].h()); lemma_into_bounds(a, 0, e, neighbor as int); assert(fo0[neighbor + 1] == into(a, e, neighbor as int)); }
//@at loop_end 1
    proof { assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v + 1] == into(a, e + 1, v) by { assert(fo0[v + 1] == into(a, e, v)); } }
//@at before_loop 2
    proof {
        lemma_below_zero(a, m);
        assert forall|v: int| 0 < v <= n implies #[trigger] reversed_first_out@[v] == into(a, m, v - 1) by { let x = v - 1; assert(reversed_first_out@[x + 1] == into(a, m, x)); }
    }
//@loop 2
    invariant
        n == ls.len(), m == a.len(), m < u32::MAX, reversed_first_out@.len() == n + 1, vf_i2 <= n + 1,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        below(a, m, 0) == 0,
        forall|v: int| 0 <= v < vf_i2 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
        forall|v: int| vf_i2 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == into(a, m, v - 1),
        vf_i2 == 0 ==> reversed_first_out@[0] == 0,
        prefix_sum == (if vf_i2 == 0 { 0 } else { below(a, m, vf_i2 - 1) }),
    decreases n + 1 - vf_i2
//@at loop_begin 2
    proof {
        assert(vf_i2 > 0 ==> reversed_first_out@[vf_i2 as int] == into(a, m, vf_i2 - 1));
        if vf_i2 > 0 { lemma_below_step(a, m, vf_i2 - 1); }
        lemma_below_mono(a, m, 0, vf_i2 as int);
    }
//@at before_loop 3
    proof { lemma_below_all(a, m, n); assert(reversed_first_out@[n] == below(a, m, n)); }
//@loop 3
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e3 == n, vf_i3 <= n, reversed_first_out@.len() == n + 1, head@.len() == m, m < u32::MAX,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n, reversed_first_out@[n] == m,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, vf_i3 as int), v),
        forall|e: int| 0 <= e < offset(ls, vf_i3 as int) ==> head@[#[trigger] dest(a, e)] == a[e].u,
    decreases vf_e3 - vf_i3
//@at loop_start 3
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 4
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it4@ == ls[node as int], vf_i4 <= vf_it4@.len(), reversed_first_out@.len() == n + 1, head@.len() == m,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX, reversed_first_out@[n] == m,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, node as int) + vf_i4, v),
        forall|e: int| 0 <= e < offset(ls, node as int) + vf_i4 ==> head@[#[trigger] dest(a, e)] == a[e].u,
    decreases vf_it4@.len() - vf_i4
//@at loop_start 4
    let ghost e = offset(ls, node as int) + vf_i4 - 1;
    let ghost fo0 = reversed_first_out@;
    proof {
        assert(a[e] == (A { u: node as int, v: ls[node as int][vf_i4 - 1].h(), w: ls[node as int][vf_i4 - 1].pay() }));
        lemma_dest(a, e);
        assert(fo0[neighbor as int] == dest(a, e));
    }
//@at loop_end 4
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, e + 1, v) by { assert(fo0[v] == below(a, m, v) + into(a, e, v)); }
        assert forall|f: int| 0 <= f < e + 1 implies head@[#[trigger] dest(a, f)] == a[f].u by { lemma_dest(a, f); if f < e { lemma_dest_injective(a, f, e); } }
    }
//@at before_loop 5
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v + 1) by { lemma_below_step(a, m, v); }
        lemma_below_all(a, m, n);
    }
//@loop 5
    invariant
        n == ls.len(), m == a.len(), reversed_first_out@.len() == n + 1, vf_e5 == 1, vf_i5 <= n, n > 0 ==> 1 <= vf_i5, reversed_first_out@[n] == m, below(a, m, n) == m,
        forall|v: int| 0 <= v < vf_i5 && v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v + 1),
        forall|v: int| vf_i5 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
    decreases vf_i5
//@at end
    proof { lemma_below_zero(a, m); lemma_below_all(a, m, n); assert(reversed_first_out@[n] == m); }
//@endfn
}
//@item engine/src/datastr/graph/first_out_graph.rs struct ReversedGraphWithEdgeIds
impl ReversedGraphWithEdgeIds {
//@fn engine/src/datastr/graph/first_out_graph.rs BuildReversed for ReversedGraphWithEdgeIds::reversed
//@sig fn reversed<G: VfLinks<(NodeIdT, EdgeIdT)>>(graph: &G) -> (r: Self)
//@rw sub graph.link_iter($n) => vf_seq_links(graph, $n)
//@rw for
//@rw subopt let mut prefix_sum = 0; => let mut prefix_sum: u32 = 0;
//@rw subopt let mut head = vec![0; $e]; => let mut head: Vec<u32> = vec![0; $e];
//@rw subopt let mut edge_ids = vec![0; $e]; => let mut edge_ids: Vec<u32> = vec![0; $e];
//@spec
    requires fits(graph.lists())
    ensures reversed_ok(arcs(graph.lists()), graph.lists().len() as int, r.first_out@, r.head@), r.edge_ids@.len() == arcs(graph.lists()).len(),
        forall|e: int| 0 <= e < arcs(graph.lists()).len() ==> r.edge_ids@[#[trigger] dest(arcs(graph.lists()), e)] == arcs(graph.lists())[e].w
//@at start
    let ghost ls = graph.lists();
    let ghost a = arcs(ls);
    let ghost n = ls.len() as int;
    let ghost m = a.len() as int;
    proof { lemma_arcs(ls); }
//@loop 0
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e0 == n, vf_i0 <= n, reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, vf_i0 as int), v),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 1
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it1@ == ls[node as int], vf_i1 <= vf_it1@.len(), reversed_first_out@.len() == n + 1, reversed_first_out@[0] == 0,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v + 1] == into(a, offset(ls, node as int) + vf_i1, v),
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost e = offset(ls, node as int) + vf_i1 - 1;
    let ghost fo0 = reversed_first_out@;
    proof { assert(a[e].v == ls[node as int][vf_i1 - 1].h()); lemma_into_bounds(a, 0, e, neighbor as int); assert(fo0[neighbor + 1] == into(a, e, neighbor as int)); }
//@at loop_end 1
    proof { assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v + 1] == into(a, e + 1, v) by { assert(fo0[v + 1] == into(a, e, v)); } }
//@at before_loop 2
    proof {
        lemma_below_zero(a, m);
        assert forall|v: int| 0 < v <= n implies #[trigger] reversed_first_out@[v] == into(a, m, v - 1) by { let x = v - 1; assert(reversed_first_out@[x + 1] == into(a, m, x)); }
    }
//@loop 2
    invariant
        n == ls.len(), m == a.len(), m < u32::MAX, reversed_first_out@.len() == n + 1, vf_i2 <= n + 1,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        below(a, m, 0) == 0,
        forall|v: int| 0 <= v < vf_i2 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
        forall|v: int| vf_i2 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == into(a, m, v - 1),
        vf_i2 == 0 ==> reversed_first_out@[0] == 0,
        prefix_sum == (if vf_i2 == 0 { 0 } else { below(a, m, vf_i2 - 1) }),
    decreases n + 1 - vf_i2
//@at loop_begin 2
    proof {
        assert(vf_i2 > 0 ==> reversed_first_out@[vf_i2 as int] == into(a, m, vf_i2 - 1));
        if vf_i2 > 0 { lemma_below_step(a, m, vf_i2 - 1); }
        lemma_below_mono(a, m, 0, vf_i2 as int);
    }
//@at before_loop 3
    proof { lemma_below_all(a, m, n); assert(reversed_first_out@[n] == below(a, m, n)); }
//@loop 3
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), vf_e3 == n, vf_i3 <= n, reversed_first_out@.len() == n + 1, head@.len() == m, edge_ids@.len() == m, m < u32::MAX,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n, reversed_first_out@[n] == m,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, vf_i3 as int), v),
        forall|e: int| 0 <= e < offset(ls, vf_i3 as int) ==> head@[#[trigger] dest(a, e)] == a[e].u && edge_ids@[dest(a, e)] == a[e].w,
    decreases vf_e3 - vf_i3
//@at loop_start 3
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 4
    invariant
        a == arcs(ls), ls == graph.lists(), n == ls.len(), m == a.len(), fits(ls), node < n, vf_it4@ == ls[node as int], vf_i4 <= vf_it4@.len(), reversed_first_out@.len() == n + 1, head@.len() == m, edge_ids@.len() == m,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m, m < u32::MAX, reversed_first_out@[n] == m,
        forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|v: int| 0 <= v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, offset(ls, node as int) + vf_i4, v),
        forall|e: int| 0 <= e < offset(ls, node as int) + vf_i4 ==> head@[#[trigger] dest(a, e)] == a[e].u && edge_ids@[dest(a, e)] == a[e].w,
    decreases vf_it4@.len() - vf_i4
//@at loop_start 4
    let ghost e = offset(ls, node as int) + vf_i4 - 1;
    let ghost fo0 = reversed_first_out@;
    proof {
        assert(a[e] == (A { u: node as int, v: ls[node as int][vf_i4 - 1].h(), w: ls[node as int][vf_i4 - 1].pay() }));
        lemma_dest(a, e);
        assert(fo0[neighbor as int] == dest(a, e));
    }
//@at loop_end 4
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v) + into(a, e + 1, v) by { assert(fo0[v] == below(a, m, v) + into(a, e, v)); }
        assert forall|f: int| 0 <= f < e + 1 implies head@[#[trigger] dest(a, f)] == a[f].u && edge_ids@[dest(a, f)] == a[f].w by { lemma_dest(a, f); if f < e { lemma_dest_injective(a, f, e); } }
    }
//@at before_loop 5
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] reversed_first_out@[v] == below(a, m, v + 1) by { lemma_below_step(a, m, v); }
        lemma_below_all(a, m, n);
    }
//@loop 5
    invariant
        n == ls.len(), m == a.len(), reversed_first_out@.len() == n + 1, vf_e5 == 1, vf_i5 <= n, n > 0 ==> 1 <= vf_i5, reversed_first_out@[n] == m, below(a, m, n) == m,
        forall|v: int| 0 <= v < vf_i5 && v < n ==> #[trigger] reversed_first_out@[v] == below(a, m, v + 1),
        forall|v: int| vf_i5 <= v <= n && v > 0 ==> #[trigger] reversed_first_out@[v] == below(a, m, v),
    decreases vf_i5
//@at end
    proof { lemma_below_zero(a, m); lemma_below_all(a, m, n); assert(reversed_first_out@[n] == m); }
//@endfn
}
} // verus!
fn main() {}
