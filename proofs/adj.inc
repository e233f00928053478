/// the graph's arcs are exactly the lists' arcs, node by node, in the same order
spec fn graph_of(g: OwnedGraph, ls: Seq<Seq<Link>>) -> bool {
    &&& g.n() == ls.len() && g.m() == offset(ls, ls.len() as int) && g.weight@.len() == g.m()
    &&& forall|u: int| 0 <= u <= ls.len() ==> #[trigger] g.first_out@[u] == offset(ls, u)
    &&& forall|u: int, i: int| 0 <= u < ls.len() && 0 <= i < ls[u].len() ==> g.head@[offset(ls, u) + i] == (#[trigger] ls[u][i]).node && g.weight@[offset(ls, u) + i] == ls[u][i].weight
}
spec fn views<T>(v: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn total(d: Seq<u32>, k: int) -> int decreases k { if k <= 0 { 0 } else { total(d, k - 1) + d[k - 1] } }
proof fn lemma_total_mono(d: Seq<u32>, j: int, k: int) requires 0 <= j <= k <= d.len() ensures 0 <= total(d, j) <= total(d, k) decreases k { if j < k { lemma_total_mono(d, j, k - 1); } else if j > 0 { lemma_total_mono(d, j - 1, j - 1); } }
//@fn engine/src/datastr/graph/first_out_graph.rs -::degrees_to_first_out
//@sig fn degrees_to_first_out(degrees: Vec<EdgeId>) -> (r: Vec<EdgeId>)
//@rw sub std::iter::once($a).chain($d.scan($i, |$s:id, $x:id| { $b; Some($y) })) => let mut vf_out: Vec<EdgeId> = Vec::new(); vf_out.push($a); let mut vf_st: EdgeId = $i; for $x in $d.iter() { let $x = *$x; { let $s = &mut vf_st; $b; vf_out.push($y); } } vf_out
//@rw for
//@spec
    requires total(degrees@, degrees@.len() as int) <= u32::MAX
    ensures r@.len() == degrees@.len() + 1, forall|k: int| 0 <= k <= degrees@.len() ==> #[trigger] r@[k] == total(degrees@, k)
//@loop 0
    invariant vf_it0@ == degrees@, vf_i0 <= degrees@.len(), vf_st == total(degrees@, vf_i0 as int), total(degrees@, degrees@.len() as int) <= u32::MAX, vf_out@.len() == vf_i0 + 1,
        forall|k: int| 0 <= k <= vf_i0 ==> #[trigger] vf_out@[k] == total(degrees@, k),
    decreases degrees@.len() - vf_i0
//@at loop_start 0
    proof { lemma_total_mono(degrees@, vf_i0 as int, degrees@.len() as int); }
//@endfn
impl OwnedGraph {
//@fn engine/src/datastr/graph/first_out_graph.rs OwnedGraph::from_adjancecy_lists
//@rw sub let degrees = $x.iter().map(|$n:id| $e); => let mut degrees: Vec<EdgeId> = Vec::new(); for $n in $x.iter() { degrees.push($e); }
//@rw sub degrees_to_first_out(degrees).collect() => degrees_to_first_out(degrees)
//@rw sub $x:chain.into_iter().flat_map(|$n:id| $n:id.into_iter().map(|Link { $p }| ($q, $r))).unzip() => { let mut vf_a: Vec<NodeId> = Vec::new(); let mut vf_b: Vec<Weight> = Vec::new(); for $n in $x.iter() { for vf_l in $n.iter() { let Link { $p } = *vf_l; vf_a.push($q); vf_b.push($r); } } (vf_a, vf_b) }
//@rw for
//@spec
    requires adjancecy_lists@.len() < u32::MAX - 1, offset(views(adjancecy_lists@), adjancecy_lists@.len() as int) < u32::MAX
    ensures graph_of(r, views(adjancecy_lists@))
//@at start
    let ghost ls = views(adjancecy_lists@);
    let ghost n = ls.len() as int;
    let ghost mut dg: Seq<u32> = Seq::empty();
//@loop 0
    invariant vf_it0@ == adjancecy_lists@, ls == views(adjancecy_lists@), n == ls.len(), vf_i0 <= n, offset(ls, n) < u32::MAX, degrees@.len() == vf_i0, total(degrees@, vf_i0 as int) == offset(ls, vf_i0 as int),
        forall|k: int| 0 <= k <= vf_i0 ==> total(degrees@, k) == #[trigger] offset(ls, k),
    decreases n - vf_i0
//@at loop_start 0
    let ghost d0 = degrees@;
    proof { lemma_offset_step(ls, vf_i0 - 1, n); lemma_offset_mono(ls, 0, vf_i0 - 1); }
//@at loop_end 0
    proof {
        assert forall|k: int| 0 <= k <= vf_i0 implies total(degrees@, k) == #[trigger] offset(ls, k) by {
            if k < vf_i0 { lemma_total_prefix(d0, degrees@, k); } else { lemma_total_prefix(d0, degrees@, k - 1); }
        }
    }
//@at after_loop 0
    proof { dg = degrees@; }
//@at before_loop 1
    proof {
        assert forall|u: int| 0 <= u <= n implies #[trigger] first_out@[u] == offset(ls, u) by { assert(total(dg, u) == offset(ls, u)); }
    }
//@loop 1
    invariant vf_it1@ == adjancecy_lists@, ls == views(adjancecy_lists@), n == ls.len(), vf_i1 <= n, offset(ls, n) < u32::MAX, vf_a@.len() == offset(ls, vf_i1 as int), vf_b@.len() == vf_a@.len(),
        forall|u: int, i: int| 0 <= u < vf_i1 && 0 <= i < ls[u].len() ==> vf_a@[offset(ls, u) + i] == (#[trigger] ls[u][i]).node && vf_b@[offset(ls, u) + i] == ls[u][i].weight,
        first_out@.len() == n + 1, forall|u: int| 0 <= u <= n ==> #[trigger] first_out@[u] == offset(ls, u),
    decreases n - vf_i1
//@loop 2
    invariant ls == views(adjancecy_lists@), n == ls.len(), 1 <= vf_i1 <= n, vf_it2@ == ls[vf_i1 - 1], vf_i2 <= vf_it2@.len(), vf_a@.len() == offset(ls, vf_i1 - 1) + vf_i2, vf_b@.len() == vf_a@.len(),
        forall|u: int, i: int| 0 <= u < vf_i1 - 1 && 0 <= i < ls[u].len() ==> vf_a@[offset(ls, u) + i] == (#[trigger] ls[u][i]).node && vf_b@[offset(ls, u) + i] == ls[u][i].weight,
        forall|i: int| 0 <= i < vf_i2 ==> vf_a@[offset(ls, vf_i1 - 1) + i] == (#[trigger] ls[vf_i1 - 1][i]).node && vf_b@[offset(ls, vf_i1 - 1) + i] == ls[vf_i1 - 1][i].weight,
        first_out@.len() == n + 1, forall|u: int| 0 <= u <= n ==> #[trigger] first_out@[u] == offset(ls, u),
    decreases vf_it2@.len() - vf_i2
//@at loop_start 2
    let ghost (a0, b0) = (vf_a@, vf_b@);
//@at loop_end 2
    proof {
        assert forall|u: int, i: int| 0 <= u < vf_i1 - 1 && 0 <= i < ls[u].len() implies vf_a@[offset(ls, u) + i] == (#[trigger] ls[u][i]).node && vf_b@[offset(ls, u) + i] == ls[u][i].weight by {
            lemma_offset_step(ls, u, vf_i1 - 1); lemma_offset_mono(ls, 0, u);
            assert(a0[offset(ls, u) + i] == ls[u][i].node && b0[offset(ls, u) + i] == ls[u][i].weight);
        }
    }
//@endfn
}
proof fn lemma_total_prefix(a: Seq<u32>, b: Seq<u32>, k: int) requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures total(a, k) == total(b, k) decreases k { if k > 0 { lemma_total_prefix(a, b, k - 1); } }
