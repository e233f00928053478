//@include prelude.inc
//@include perm.inc
//@include arcs.inc
//@include graph.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts adj.inc reverse

// ---------------------------------------------------------------- parallel arcs
/// the least weight (capped at INFINITY) among arcs lo..hi with head v
spec fn least(head: Seq<u32>, w: Seq<u32>, lo: int, hi: int, v: int) -> int decreases hi - lo {
    if hi <= lo { INFINITY as int } else { let r = least(head, w, lo, hi - 1, v); if head[hi - 1] == v && w[hi - 1] < r { w[hi - 1] as int } else { r } }
}
proof fn lemma_least_same(head: Seq<u32>, w: Seq<u32>, x: Seq<u32>, lo: int, hi: int, v: int)
    requires 0 <= lo <= hi <= w.len(), w.len() == x.len(), forall|e: int| lo <= e < hi ==> w[e] == x[e]
    ensures least(head, w, lo, hi, v) == least(head, x, lo, hi, v)
    decreases hi - lo
{ if lo < hi { lemma_least_same(head, w, x, lo, hi - 1, v); } }
/// the property: least is a lower bound of every parallel arc and is attained (or is INFINITY)
proof fn prop_least(head: Seq<u32>, w: Seq<u32>, lo: int, hi: int, v: int)
    ensures least(head, w, lo, hi, v) <= INFINITY, forall|e: int| lo <= e < hi && #[trigger] head[e] == v ==> least(head, w, lo, hi, v) <= w[e],
        least(head, w, lo, hi, v) == INFINITY || exists|e: int| lo <= e < hi && #[trigger] head[e] == v && w[e] == least(head, w, lo, hi, v)
    decreases hi - lo
{
    if lo < hi {
        prop_least(head, w, lo, hi - 1, v);
        let r = least(head, w, lo, hi - 1, v);
        if head[hi - 1] == v && w[hi - 1] < r { }
        else if r != INFINITY { let e = choose|e: int| lo <= e < hi - 1 && #[trigger] head[e] == v && w[e] == r; assert(head[e] == v); }
    }
}
impl OwnedGraph {
    fn vf_lo(&self, node: NodeId) -> (r: usize) requires self.wf(), node < self.n() ensures r == self.first_out@[node as int] { self.first_out[node as usize] as usize }
    fn vf_hi(&self, node: NodeId) -> (r: usize) requires self.wf(), node < self.n() ensures r == self.first_out@[node + 1] { self.first_out[node as usize + 1] as usize }
}
//@fn engine/src/datastr/graph.rs -::unify_parallel_edges
//@sig fn unify_parallel_edges(graph: &mut OwnedGraph)
//@rw sub for (&$x:id, $w:id) in graph.link_iter_mut($e) { $b } => for vf_k in graph.vf_lo($e)..graph.vf_hi($e) { let $x = graph.head[vf_k]; let $w = &mut graph.weight[vf_k]; $b }
//@rw for
//@spec
    requires old(graph).wf()
    ensures final(graph).first_out@ == old(graph).first_out@, final(graph).head@ == old(graph).head@, final(graph).wf(),
        forall|u: int, e: int| #![trigger old(graph).first_out@[u], final(graph).weight@[e]] 0 <= u < old(graph).n() && old(graph).first_out@[u] <= e < old(graph).first_out@[u + 1] ==>
            final(graph).weight@[e] == least(old(graph).head@, old(graph).weight@, old(graph).first_out@[u] as int, old(graph).first_out@[u + 1] as int, old(graph).head@[e] as int),
//@at start
    let ghost fo = graph.first_out@;
    let ghost hd = graph.head@;
    let ghost w0 = graph.weight@;
    let ghost n = graph.n();
//@loop 0
    invariant
        old(graph).wf(), graph.wf(), graph.first_out@ == fo, graph.head@ == hd, graph.weight@.len() == w0.len(), vf_e0 == n, vf_i0 <= n, n == graph.n(), weight_cache@.len() == n,
        fo == old(graph).first_out@, hd == old(graph).head@, w0 == old(graph).weight@,
        forall|v: int| 0 <= v < n ==> #[trigger] weight_cache@[v] == INFINITY,
        forall|e: int| fo[vf_i0 as int] <= e < w0.len() ==> #[trigger] graph.weight@[e] == w0[e],
        forall|u: int, e: int| #![trigger fo[u], graph.weight@[e]] 0 <= u < vf_i0 && fo[u] <= e < fo[u + 1] ==> graph.weight@[e] == least(hd, w0, fo[u] as int, fo[u + 1] as int, hd[e] as int),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    let ghost lo = fo[vf_i0 - 1] as int;
    let ghost hi = fo[vf_i0 as int] as int;
    let ghost w1 = graph.weight@;
    proof { assert(lo <= hi <= w0.len()); }
//@loop 1
    invariant
        graph.wf(), graph.first_out@ == fo, graph.head@ == hd, graph.weight@ == w1, w1.len() == w0.len(), n == graph.n(), weight_cache@.len() == n, lo <= vf_i1 <= vf_e1, vf_e1 == hi, 0 <= lo, hi <= w0.len(),
        forall|e: int| lo <= e < w0.len() ==> #[trigger] w1[e] == w0[e],
        forall|v: int| 0 <= v < n ==> #[trigger] weight_cache@[v] == least(hd, w0, lo, vf_i1 as int, v),
    decreases vf_e1 - vf_i1
//@at loop_start 1
    let ghost c0 = weight_cache@;
    proof { assert(w1[vf_i1 - 1] == w0[vf_i1 - 1]); }
//@at loop_end 1
    proof { assert forall|v: int| 0 <= v < n implies #[trigger] weight_cache@[v] == least(hd, w0, lo, vf_i1 as int, v) by { assert(c0[v] == least(hd, w0, lo, vf_i1 - 1, v)); } }
//@loop 2
    invariant
        graph.wf(), graph.first_out@ == fo, graph.head@ == hd, graph.weight@.len() == w0.len(), w1.len() == w0.len(), n == graph.n(), weight_cache@.len() == n, lo <= vf_i2 <= vf_e2, vf_e2 == hi, 0 <= lo, hi <= w0.len(),
        forall|v: int| 0 <= v < n ==> #[trigger] weight_cache@[v] == least(hd, w0, lo, hi, v),
        forall|e: int| 0 <= e < lo || hi <= e < w0.len() ==> #[trigger] graph.weight@[e] == w1[e],
        forall|e: int| lo <= e < vf_i2 ==> #[trigger] graph.weight@[e] == least(hd, w0, lo, hi, hd[e] as int),
    decreases vf_e2 - vf_i2
//@loop 3
    invariant
        graph.wf(), graph.first_out@ == fo, graph.head@ == hd, n == graph.n(), weight_cache@.len() == n, lo <= vf_i3 <= vf_e3, vf_e3 == hi, 0 <= lo, hi <= w0.len(), graph.weight@.len() == w0.len(),
        forall|v: int| 0 <= v < n ==> #[trigger] weight_cache@[v] == INFINITY || weight_cache@[v] == least(hd, w0, lo, hi, v),
        forall|e: int| #![trigger hd[e]] lo <= e < vf_i3 ==> weight_cache@[hd[e] as int] == INFINITY,
        forall|e: int| 0 <= e < lo || hi <= e < w0.len() ==> #[trigger] graph.weight@[e] == w1[e],
        forall|e: int| lo <= e < hi ==> #[trigger] graph.weight@[e] == least(hd, w0, lo, hi, hd[e] as int),
    decreases vf_e3 - vf_i3
//@at after_loop 3
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] weight_cache@[v] == INFINITY by {
            prop_least(hd, w0, lo, hi, v);
            if weight_cache@[v] != INFINITY { let e = choose|e: int| lo <= e < hi && #[trigger] hd[e] == v && w0[e] == least(hd, w0, lo, hi, v); assert(hd[e] == v); }
        }
        assert forall|u: int, e: int| #![trigger fo[u], graph.weight@[e]] 0 <= u < vf_i0 && fo[u] <= e < fo[u + 1] implies graph.weight@[e] == least(hd, w0, fo[u] as int, fo[u + 1] as int, hd[e] as int) by {
            if u < vf_i0 - 1 { assert(fo[u + 1] <= fo[vf_i0 - 1]); assert(w1[e] == least(hd, w0, fo[u] as int, fo[u + 1] as int, hd[e] as int)); }
        }
    }
//@endfn

// ---------------------------------------------------------------- splitting by rank
/// node u's upward arcs among the first k arcs
spec fn ups(a: Seq<A>, rk: Seq<u32>, k: int, u: int) -> Seq<Link> decreases k {
    if k <= 0 { Seq::empty() } else { let e = a[k - 1]; let p = ups(a, rk, k - 1, u); if rk[e.u] < rk[e.v] && e.u == u { p.push(Link { node: e.v as u32, weight: e.w as u32 }) } else { p } }
}
/// the tails of the arcs leading down (or staying level) into u among the first k arcs
spec fn downs(a: Seq<A>, rk: Seq<u32>, k: int, u: int) -> Seq<Link> decreases k {
    if k <= 0 { Seq::empty() } else { let e = a[k - 1]; let p = downs(a, rk, k - 1, u); if rk[e.u] >= rk[e.v] && e.v == u { p.push(Link { node: e.u as u32, weight: e.w as u32 }) } else { p } }
}
spec fn up_lists(a: Seq<A>, rk: Seq<u32>, n: int, k: int) -> Seq<Seq<Link>> { Seq::new(n as nat, |u: int| ups(a, rk, k, u)) }
spec fn down_lists(a: Seq<A>, rk: Seq<u32>, n: int, k: int) -> Seq<Seq<Link>> { Seq::new(n as nat, |u: int| downs(a, rk, k, u)) }
proof fn lemma_offset_update<T>(l: Seq<Seq<T>>, m: Seq<Seq<T>>, x: int, k: int)
    requires l.len() == m.len(), 0 <= x < l.len(), 0 <= k <= l.len(), m[x].len() == l[x].len() + 1, forall|u: int| 0 <= u < l.len() && u != x ==> l[u] == m[u]
    ensures offset(m, k) == offset(l, k) + if k > x { 1int } else { 0 }
    decreases k
{ if k > 0 { lemma_offset_update(l, m, x, k - 1); } }
proof fn lemma_offset_empty<T>(l: Seq<Seq<T>>, k: int)
    requires 0 <= k <= l.len(), forall|u: int| 0 <= u < l.len() ==> (#[trigger] l[u]).len() == 0
    ensures offset(l, k) == 0
    decreases k
{ if k > 0 { lemma_offset_empty(l, k - 1); } }
/// every arc lands in exactly one of the two parts
proof fn prop_split_total(a: Seq<A>, rk: Seq<u32>, n: int, k: int)
    requires 0 <= k <= a.len(), forall|e: int| 0 <= e < a.len() ==> 0 <= (#[trigger] a[e]).u < n && 0 <= a[e].v < n
    ensures offset(up_lists(a, rk, n, k), n) + offset(down_lists(a, rk, n, k), n) == k
    decreases k
{
    let (u1, d1) = (up_lists(a, rk, n, k), down_lists(a, rk, n, k));
    if k == 0 { if n >= 0 { lemma_offset_empty(u1, u1.len() as int); lemma_offset_empty(d1, d1.len() as int); } }
    else {
        prop_split_total(a, rk, n, k - 1);
        let (u0, d0) = (up_lists(a, rk, n, k - 1), down_lists(a, rk, n, k - 1));
        let e = a[k - 1];
        if rk[e.u] < rk[e.v] { lemma_offset_update(u0, u1, e.u, n); assert(d0 =~= d1); } else { lemma_offset_update(d0, d1, e.v, n); assert(u0 =~= u1); }
    }
}
/// ... namely in the list its ranks call for
proof fn prop_split_where(a: Seq<A>, rk: Seq<u32>, k: int, e: int)
    requires 0 <= e < k <= a.len()
    ensures rk[a[e].u] < rk[a[e].v] ==> ups(a, rk, k, a[e].u).contains(Link { node: a[e].v as u32, weight: a[e].w as u32 }),
        rk[a[e].u] >= rk[a[e].v] ==> downs(a, rk, k, a[e].v).contains(Link { node: a[e].u as u32, weight: a[e].w as u32 })
    decreases k
{
    if e < k - 1 {
        prop_split_where(a, rk, k - 1, e);
        let c = a[e]; let d = a[k - 1];
        if rk[c.u] < rk[c.v] { let l = ups(a, rk, k - 1, c.u); let x = Link { node: c.v as u32, weight: c.w as u32 }; let i = l.index_of(x); assert(ups(a, rk, k, c.u)[i] == x); }
        else { let l = downs(a, rk, k - 1, c.v); let x = Link { node: c.u as u32, weight: c.w as u32 }; let i = l.index_of(x); assert(downs(a, rk, k, c.v)[i] == x); }
    } else {
        let c = a[e];
        if rk[c.u] < rk[c.v] { let l = ups(a, rk, k, c.u); assert(l[l.len() - 1] == (Link { node: c.v as u32, weight: c.w as u32 })); }
        else { let l = downs(a, rk, k, c.v); assert(l[l.len() - 1] == (Link { node: c.u as u32, weight: c.w as u32 })); }
    }
}
fn vf_empties<T>(n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Seq::<T>::empty()
{
    let mut r: Vec<Vec<T>> = Vec::new(); let mut i = 0;
    while i < n invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ == Seq::<T>::empty() decreases n - i { r.push(Vec::new()); i += 1; }
    r
}
trait VfLinkIterGraph: VfLinks<Link> {
//@fn engine/src/datastr/graph.rs trait LinkIterGraph::ch_split
//@sig fn ch_split(&self, order: &NodeOrder) -> (r: (OwnedGraph, OwnedGraph))
//@rw sub (0..$n).map(|_| Vec::<Link>::new()).collect() => vf_empties::<Link>($n)
//@rw sub in self.link_iter($n) => in vf_seq_links(self, $n)
//@rw for
//@spec
    requires fits(self.lists()), order.wf(), order.n() == self.lists().len()
    ensures graph_of(r.0, up_lists(arcs(self.lists()), order.ranks@, order.n() as int, arcs(self.lists()).len() as int)),
        graph_of(r.1, down_lists(arcs(self.lists()), order.ranks@, order.n() as int, arcs(self.lists()).len() as int)),
//@at start
    let ghost ls = self.lists();
    let ghost a = arcs(ls);
    let ghost n = ls.len() as int;
    let ghost m = a.len() as int;
    let ghost rk = order.ranks@;
    proof { lemma_arcs(ls); }
//@loop 0
    invariant
        a == arcs(ls), ls == self.lists(), n == ls.len(), m == a.len(), fits(ls), order.wf(), order.n() == n, rk == order.ranks@, vf_e0 == n, vf_i0 <= n, up@.len() == n, down@.len() == n,
        m == offset(ls, n), forall|e: int| 0 <= e < m ==> 0 <= (#[trigger] a[e]).v < n && 0 <= a[e].u < n,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|u: int| 0 <= u < n ==> (#[trigger] up@[u])@ == ups(a, rk, offset(ls, vf_i0 as int), u),
        forall|u: int| 0 <= u < n ==> (#[trigger] down@[u])@ == downs(a, rk, offset(ls, vf_i0 as int), u),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { lemma_offset_step(ls, node as int, n); lemma_offset_mono(ls, 0, node as int); }
//@loop 1
    invariant
        a == arcs(ls), ls == self.lists(), n == ls.len(), m == a.len(), fits(ls), order.wf(), order.n() == n, rk == order.ranks@, node < n, vf_it1@ == ls[node as int], vf_i1 <= vf_it1@.len(), up@.len() == n, down@.len() == n,
        0 <= offset(ls, node as int), offset(ls, node as int) + ls[node as int].len() <= m,
        forall|x: int, i: int| 0 <= x < n && 0 <= i < ls[x].len() ==> a[offset(ls, x) + i] == (A { u: x, v: (#[trigger] ls[x][i]).h(), w: ls[x][i].pay() }),
        forall|u: int| 0 <= u < n ==> (#[trigger] up@[u])@ == ups(a, rk, offset(ls, node as int) + vf_i1, u),
        forall|u: int| 0 <= u < n ==> (#[trigger] down@[u])@ == downs(a, rk, offset(ls, node as int) + vf_i1, u),
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost e = offset(ls, node as int) + vf_i1 - 1;
    let ghost (up0, down0) = (up@, down@);
    proof { assert(a[e] == (A { u: node as int, v: ls[node as int][vf_i1 - 1].h(), w: ls[node as int][vf_i1 - 1].pay() })); }
//@at loop_end 1
    proof {
        assert forall|u: int| 0 <= u < n implies (#[trigger] up@[u])@ == ups(a, rk, e + 1, u) by { assert(up0[u]@ == ups(a, rk, e, u)); }
        assert forall|u: int| 0 <= u < n implies (#[trigger] down@[u])@ == downs(a, rk, e + 1, u) by { assert(down0[u]@ == downs(a, rk, e, u)); }
    }
//@at after_loop 0
    proof {
        prop_split_total(a, rk, n, m);
        assert(views(up@) =~= up_lists(a, rk, n, m)); assert(views(down@) =~= down_lists(a, rk, n, m));
        lemma_offset_mono(views(up@), 0, n); lemma_offset_mono(views(down@), 0, n);
    }
//@endfn
}

// ---------------------------------------------------------------- line graph
/// a turn cost callback that answers consistently (FnMut in the real signature)
trait VfTurn {
    spec fn cost(&self, a: int, b: int) -> Option<Weight>;
    fn call(&mut self, a: EdgeId, b: EdgeId) -> (r: Option<Weight>) ensures r == old(self).cost(a as int, b as int), forall|x: int, y: int| #[trigger] final(self).cost(x, y) == old(self).cost(x, y);
}
/// the turns from arc e to the arcs lo..k, as links of the line graph
spec fn turns<T: VfTurn>(w: Seq<u32>, t: &T, e: int, lo: int, k: int) -> Seq<Link> decreases k - lo {
    if k <= lo { Seq::empty() } else { let p = turns(w, t, e, lo, k - 1); match t.cost(e, k - 1) { Some(c) => p.push(Link { node: (k - 1) as u32, weight: (w[e] + c) as u32 }), None => p } }
}
spec fn turn_lists<T: VfTurn>(fo: Seq<u32>, hd: Seq<u32>, w: Seq<u32>, t: &T) -> Seq<Seq<Link>> { Seq::new(hd.len(), |e: int| turns(w, t, e, fo[hd[e] as int] as int, fo[hd[e] + 1] as int)) }
proof fn lemma_turns_same<T: VfTurn>(w: Seq<u32>, t: &T, s: &T, e: int, lo: int, k: int)
    requires forall|x: int, y: int| #[trigger] t.cost(x, y) == s.cost(x, y)
    ensures turns(w, t, e, lo, k) == turns(w, s, e, lo, k)
    decreases k - lo
{ if lo < k { lemma_turns_same(w, t, s, e, lo, k - 1); assert(t.cost(e, k - 1) == s.cost(e, k - 1)); } }
/// the property: exactly the allowed successor arcs, each with the arc's own weight plus the turn's cost
proof fn prop_turns<T: VfTurn>(w: Seq<u32>, t: &T, e: int, lo: int, k: int)
    requires 0 <= lo <= k <= u32::MAX
    ensures forall|f: int| lo <= f < k && (#[trigger] t.cost(e, f)) is Some ==> turns(w, t, e, lo, k).contains(Link { node: f as u32, weight: (w[e] + t.cost(e, f).unwrap()) as u32 }),
        forall|i: int| 0 <= i < turns(w, t, e, lo, k).len() ==> lo <= (#[trigger] turns(w, t, e, lo, k)[i]).node < k && t.cost(e, turns(w, t, e, lo, k)[i].node as int) is Some && turns(w, t, e, lo, k)[i].weight == (w[e] + t.cost(e, turns(w, t, e, lo, k)[i].node as int).unwrap()) as u32,
        forall|i: int, j: int| 0 <= i < j < turns(w, t, e, lo, k).len() ==> (#[trigger] turns(w, t, e, lo, k)[i]).node < (#[trigger] turns(w, t, e, lo, k)[j]).node,
    decreases k - lo
{
    if lo < k {
        prop_turns(w, t, e, lo, k - 1);
        let p = turns(w, t, e, lo, k - 1); let q = turns(w, t, e, lo, k);
        assert forall|f: int| lo <= f < k && (#[trigger] t.cost(e, f)) is Some implies q.contains(Link { node: f as u32, weight: (w[e] + t.cost(e, f).unwrap()) as u32 }) by {
            let x = Link { node: f as u32, weight: (w[e] + t.cost(e, f).unwrap()) as u32 };
            if f < k - 1 { let i = p.index_of(x); assert(p.contains(x)); assert(q[i] == x); } else { assert(q[q.len() - 1] == x); }
        }
    }
}
impl OwnedGraph {
//@fn engine/src/datastr/graph/first_out_graph.rs EdgeRandomAccessGraph for FirstOutGraph::link
//@sig fn link(&self, edge_id: EdgeId) -> (r: Link)
//@rw subopt self.head() => self.head
//@rw subopt self.weight() => self.weight
//@spec
    requires self.wf(), edge_id < self.m()
    ensures r.node == self.head@[edge_id as int], r.weight == self.weight@[edge_id as int]
//@endfn
//@fn engine/src/datastr/graph/first_out_graph.rs EdgeIdGraph for FirstOutGraph::neighbor_edge_indices
//@sig fn neighbor_edge_indices(&self, node: NodeId) -> (r: std::ops::Range<EdgeId>)
//@rw subopt self.first_out() => self.first_out
//@spec
    requires self.wf(), node < self.n()
    ensures r.start == self.first_out@[node as int], r.end == self.first_out@[node + 1]
//@endfn
}
//@fn engine/src/datastr/graph.rs -::line_graph
//@sig fn line_graph<T: VfTurn>(graph: &OwnedGraph, mut turn_costs: T) -> (r: OwnedGraph)
//@rw sub if let Some($c:id) = turn_costs($a, $b) => if let Some($c) = turn_costs.call($a, $b)
//@rw sub in graph.neighbor_edge_indices($e) => in graph.neighbor_edge_indices($e).start..graph.neighbor_edge_indices($e).end
//@rw subopt let mut num_turns = 0; => let mut num_turns: i32 = 0;
//@rw subopt let mut first_out = Vec::with_capacity($e); => let mut first_out: Vec<EdgeId> = Vec::new();
//@rw subopt let mut head = Vec::new(); => let mut head: Vec<NodeId> = Vec::new();
//@rw subopt let mut weight = Vec::new(); => let mut weight: Vec<Weight> = Vec::new();
//@rw for
//@spec
    requires graph.wf(), graph.m() < u32::MAX - 1,
        forall|a: int, b: int| 0 <= a < graph.m() && 0 <= b < graph.m() && (#[trigger] turn_costs.cost(a, b)) is Some ==> graph.weight@[a] + turn_costs.cost(a, b).unwrap() <= u32::MAX,
        offset(turn_lists(graph.first_out@, graph.head@, graph.weight@, &turn_costs), graph.m()) < i32::MAX
    ensures graph_of(r, turn_lists(graph.first_out@, graph.head@, graph.weight@, &turn_costs))
//@at start
    let ghost fo = graph.first_out@;
    let ghost hd = graph.head@;
    let ghost w = graph.weight@;
    let ghost m = graph.m();
    let ghost t0 = turn_costs;
    let ghost tl = turn_lists(fo, hd, w, &t0);
    proof { assert(tl.len() == m); }
//@loop 0
    invariant graph.wf(), fo == graph.first_out@, hd == graph.head@, w == graph.weight@, m == graph.m(), tl == turn_lists(fo, hd, w, &t0), tl.len() == m, offset(tl, m) < i32::MAX, vf_e0 == m, vf_i0 <= m, m < u32::MAX - 1,
        forall|a: int, b: int| 0 <= a < m && 0 <= b < m && (#[trigger] t0.cost(a, b)) is Some ==> w[a] + t0.cost(a, b).unwrap() <= u32::MAX,
        forall|x: int, y: int| #[trigger] turn_costs.cost(x, y) == t0.cost(x, y),
        num_turns == offset(tl, vf_i0 as int), head@.len() == num_turns, weight@.len() == num_turns, first_out@.len() == vf_i0 + 1,
        forall|u: int| 0 <= u <= vf_i0 ==> #[trigger] first_out@[u] == offset(tl, u),
        forall|u: int, i: int| 0 <= u < vf_i0 && 0 <= i < tl[u].len() ==> head@[offset(tl, u) + i] == (#[trigger] tl[u][i]).node && weight@[offset(tl, u) + i] == tl[u][i].weight,
    decreases vf_e0 - vf_i0
//@at loop_start 0
    let ghost e = vf_i0 - 1;
    let ghost (h0, w0) = (head@, weight@);
    let ghost lo = fo[hd[e] as int] as int;
    let ghost hi = fo[hd[e] + 1] as int;
    proof { lemma_offset_step(tl, e, m); lemma_offset_mono(tl, 0, e); assert(hd[e] < graph.n()); assert(tl[e] == turns(w, &t0, e, lo, hi)); }
//@loop 1
    invariant graph.wf(), fo == graph.first_out@, hd == graph.head@, w == graph.weight@, m == graph.m(), e == vf_i0 - 1, 0 <= e < m, edge_id == e, link.weight == w[e], lo <= vf_i1 <= vf_e1, vf_e1 == hi, hi <= m, m < u32::MAX - 1, 0 <= lo,
        tl == turn_lists(fo, hd, w, &t0), tl.len() == m, offset(tl, e) + tl[e].len() < i32::MAX, tl[e] == turns(w, &t0, e, lo, hi), 0 <= offset(tl, e),
        forall|a: int, b: int| 0 <= a < m && 0 <= b < m && (#[trigger] t0.cost(a, b)) is Some ==> w[a] + t0.cost(a, b).unwrap() <= u32::MAX,
        forall|x: int, y: int| #[trigger] turn_costs.cost(x, y) == t0.cost(x, y),
        ({ let p = turns(w, &t0, e, lo, vf_i1 as int);
            &&& num_turns == offset(tl, e) + p.len() && head@.len() == num_turns && weight@.len() == num_turns && h0.len() == offset(tl, e) && w0.len() == h0.len()
            &&& forall|j: int| 0 <= j < h0.len() ==> #[trigger] head@[j] == h0[j]
            &&& forall|j: int| 0 <= j < h0.len() ==> #[trigger] weight@[j] == w0[j]
            &&& forall|i: int| 0 <= i < p.len() ==> head@[offset(tl, e) + i] == (#[trigger] p[i]).node && weight@[offset(tl, e) + i] == p[i].weight }),
    decreases vf_e1 - vf_i1
//@at loop_start 1
    proof { assert(turn_costs.cost(e, vf_i1 - 1) == t0.cost(e, vf_i1 - 1)); lemma_turns_len(w, &t0, e, lo, vf_i1 as int, hi); }
//@at loop_end 0
    proof {
        assert forall|u: int, i: int| 0 <= u < vf_i0 && 0 <= i < tl[u].len() implies head@[offset(tl, u) + i] == (#[trigger] tl[u][i]).node && weight@[offset(tl, u) + i] == tl[u][i].weight by {
            if u < e { lemma_offset_step(tl, u, e); lemma_offset_mono(tl, 0, u); assert(h0[offset(tl, u) + i] == tl[u][i].node && w0[offset(tl, u) + i] == tl[u][i].weight); assert(head@[offset(tl, u) + i] == h0[offset(tl, u) + i]); assert(weight@[offset(tl, u) + i] == w0[offset(tl, u) + i]); }
        }
    }
//@endfn
proof fn lemma_turns_len<T: VfTurn>(w: Seq<u32>, t: &T, e: int, lo: int, j: int, k: int)
    requires j <= k
    ensures turns(w, t, e, lo, j).len() <= turns(w, t, e, lo, k).len()
    decreases k - j
{ if j < k { lemma_turns_len(w, t, e, lo, j, k - 1); } }

// ---------------------------------------------------------------- relabelling with a filter
/// a filter that answers consistently (FnMut in the real signature)
trait VfPred {
    spec fn ok(&self, a: int, b: int) -> bool;
    fn call(&mut self, a: NodeId, b: NodeId) -> (r: bool) ensures r == old(self).ok(a as int, b as int), forall|x: int, y: int| #[trigger] final(self).ok(x, y) == old(self).ok(x, y);
}
/// the accepted arcs among the first k of a node with the given rank
spec fn accepted<P: VfPred>(l: Seq<Link>, p: &P, rk: Seq<u32>, rank: int, k: int) -> Seq<Link> decreases k {
    if k <= 0 { Seq::empty() } else { let r = accepted(l, p, rk, rank, k - 1); if p.ok(rank, rk[l[k - 1].node as int] as int) { r.push(l[k - 1]) } else { r } }
}
/// the property of accepted: exactly the links the filter lets through
proof fn prop_accepted<P: VfPred>(l: Seq<Link>, p: &P, rk: Seq<u32>, rank: int, k: int)
    requires 0 <= k <= l.len()
    ensures accepted(l, p, rk, rank, k) == l.take(k).filter(|x: Link| p.ok(rank, rk[x.node as int] as int))
    decreases k
{
    let f = |x: Link| p.ok(rank, rk[x.node as int] as int);
    reveal(Seq::filter);
    if k > 0 { prop_accepted(l, p, rk, rank, k - 1); assert(l.take(k).drop_last() =~= l.take(k - 1)); } else { assert(l.take(0) =~= Seq::empty()); }
}
/// node `rank` of the result has exactly the links `src` with their heads renamed, ordered by head
spec fn arranged(s: Seq<Link>, src: Seq<Link>, rk: Seq<u32>, hd: Seq<u32>, w: Seq<u32>, lo: int, hi: int) -> bool {
    &&& s.to_multiset() == src.to_multiset() && hi - lo == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> hd[lo + i] == rk[(#[trigger] s[i]).node as int] && w[lo + i] == s[i].weight
    &&& forall|i: int, j: int| 0 <= i <= j < s.len() ==> rk[(#[trigger] s[i]).node as int] <= rk[(#[trigger] s[j]).node as int]
}
spec fn bucket_ok(src: Seq<Link>, rk: Seq<u32>, hd: Seq<u32>, w: Seq<u32>, lo: int, hi: int) -> bool { exists|s: Seq<Link>| #[trigger] arranged(s, src, rk, hd, w, lo, hi) }
spec fn accepted_lists<P: VfPred>(ls: Seq<Seq<Link>>, p: &P, ord: Seq<u32>, rk: Seq<u32>) -> Seq<Seq<Link>> { Seq::new(ord.len(), |r: int| accepted(ls[ord[r] as int], p, rk, r, ls[ord[r] as int].len() as int)) }
/// std: sort_unstable_by_key with the key order.rank(l.node)
#[verifier::external_body]
fn vf_sort_by_rank(l: &mut Vec<Link>, order: &NodeOrder)
    requires order.wf(), forall|i: int| 0 <= i < old(l)@.len() ==> (#[trigger] old(l)@[i]).node < order.n()
    ensures final(l)@.to_multiset() == old(l)@.to_multiset(), forall|i: int, j: int| 0 <= i <= j < final(l)@.len() ==> order.ranks@[(#[trigger] final(l)@[i]).node as int] <= order.ranks@[(#[trigger] final(l)@[j]).node as int]
{ l.sort_unstable_by_key(|x| order.rank(x.node)) }
proof fn lemma_accepted<P: VfPred>(l: Seq<Link>, p: &P, rk: Seq<u32>, rank: int, k: int)
    requires 0 <= k <= l.len()
    ensures accepted(l, p, rk, rank, k).len() <= k, forall|i: int| 0 <= i < accepted(l, p, rk, rank, k).len() ==> l.contains(#[trigger] accepted(l, p, rk, rank, k)[i])
    decreases k
{ if k > 0 { lemma_accepted(l, p, rk, rank, k - 1); } }
impl OwnedGraph {
//@fn engine/src/datastr/graph/first_out_graph.rs BuildPermutated for OwnedGraph::permutated_filtered
//@sig fn permutated_filtered<G: VfLinks<Link>, P: VfPred>(graph: &G, order: &NodeOrder, mut predicate: P) -> (r: Self)
//@rw sub let mut links = graph.link_iter($e).filter(|$l:id| $c).collect::<Vec<_>>(); => let mut links: Vec<Link> = Vec::new(); for vf_l in vf_seq_links(graph, $e) { let $l = &vf_l; if $c { links.push(vf_l); } }
//@rw sub predicate($a, $b) => predicate.call($a, $b)
//@rw sub links.sort_unstable_by_key(|$l:id| order.rank($l:id.node)) => vf_sort_by_rank(&mut links, order)
//@rw sub first_out.last().unwrap() => first_out[first_out.len() - 1]
//@rw subopt Vec::with_capacity($e) => Vec::new()
//@rw subopt let mut head = Vec::new(); => let mut head: Vec<NodeId> = Vec::new();
//@rw subopt let mut weight = Vec::new(); => let mut weight: Vec<Weight> = Vec::new();
//@rw sub for link in links => for link in vf_seq_own(links)
//@rw for
//@spec
    requires fits(graph.lists()), order.wf(), order.n() == graph.lists().len(),
        offset(accepted_lists(graph.lists(), &predicate, order.node_order@, order.ranks@), order.n() as int) < u32::MAX
    ensures r.n() == order.n(),
        ({ let al = accepted_lists(graph.lists(), &predicate, order.node_order@, order.ranks@);
            &&& forall|x: int| 0 <= x <= order.n() ==> #[trigger] r.first_out@[x] == offset(al, x)
            &&& forall|x: int| 0 <= x < order.n() ==> bucket_ok(#[trigger] al[x], order.ranks@, r.head@, r.weight@, offset(al, x), offset(al, x + 1)) }),
        r.m() == r.first_out@[order.n() as int], r.weight@.len() == r.m(),
//@at start
    let ghost ls = graph.lists();
    let ghost n = ls.len() as int;
    let ghost p0 = predicate;
    let ghost rk = order.ranks@;
    let ghost ord = order.node_order@;
    let ghost al = accepted_lists(ls, &p0, ord, rk);
//@loop 0
    invariant ls == graph.lists(), n == ls.len(), fits(ls), order.wf(), order.n() == n, rk == order.ranks@, ord == order.node_order@, vf_it0@ == ord, vf_i0 <= n, al == accepted_lists(ls, &p0, ord, rk), al.len() == n, offset(al, n) < u32::MAX,
        forall|x: int, y: int| #[trigger] predicate.ok(x, y) == p0.ok(x, y),
        first_out@.len() == vf_i0 + 1, head@.len() == offset(al, vf_i0 as int), weight@.len() == head@.len(),
        forall|x: int| 0 <= x <= vf_i0 ==> #[trigger] first_out@[x] == offset(al, x),
        forall|x: int| 0 <= x < vf_i0 ==> bucket_ok(#[trigger] al[x], rk, head@, weight@, offset(al, x), offset(al, x + 1)),
    decreases n - vf_i0
//@at loop_start 0
    let ghost src = ls[node as int];
    let ghost (h0, w0) = (head@, weight@);
    let ghost lo = offset(al, rank as int);
    let ghost vi = vf_i0 - 1;
    proof { lemma_offset_step(al, vi, n); lemma_offset_mono(al, 0, vi); assert(ord[vi] == node && node < n); }
//@loop 1
    invariant ls == graph.lists(), n == ls.len(), fits(ls), order.wf(), order.n() == n, rk == order.ranks@, node < n, rank == vi, 0 <= vi < n, src == ls[node as int], vf_it1@ == src, vf_i1 <= src.len(),
        forall|x: int, y: int| #[trigger] predicate.ok(x, y) == p0.ok(x, y),
        links@ == accepted(src, &p0, rk, rank as int, vf_i1 as int),
    decreases src.len() - vf_i1
//@at loop_start 1
    proof { assert(ls[node as int][vf_i1 - 1].h() < n); assert(predicate.ok(rank as int, rk[vf_l.node as int] as int) == p0.ok(rank as int, rk[vf_l.node as int] as int)); }
//@at past_loop 1
    let ghost acc = links@;
    proof {
        lemma_accepted(src, &p0, rk, rank as int, src.len() as int);
        assert(al[vi] == acc);
        assert(offset(al, vi + 1) == lo + acc.len());
        assert forall|i: int| 0 <= i < links@.len() implies (#[trigger] links@[i]).node < order.n() by {
            let j = src.index_of(links@[i]); assert(src.contains(links@[i])); assert(ls[node as int][j].h() < n);
        }
    }
//@at before_loop 2
    let ghost srt = links@;
    proof {
        acc.to_multiset_ensures(); srt.to_multiset_ensures();
        assert forall|i: int| 0 <= i < srt.len() implies (#[trigger] srt[i]).node < n by {
            assert(srt.contains(srt[i])); assert(srt.to_multiset().count(srt[i]) > 0); assert(acc.contains(srt[i])); let k = acc.index_of(srt[i]);
            let j = src.index_of(acc[k]); assert(src.contains(acc[k])); assert(ls[node as int][j].h() < n);
        }
    }
//@loop 2
    invariant ls == graph.lists(), n == ls.len(), order.wf(), order.n() == n, rk == order.ranks@, vf_it2@ == srt, vf_i2 <= srt.len(), h0.len() == lo, w0.len() == lo,
        forall|i: int| 0 <= i < srt.len() ==> (#[trigger] srt[i]).node < n,
        head@.len() == lo + vf_i2, weight@.len() == lo + vf_i2,
        forall|j: int| 0 <= j < lo ==> #[trigger] head@[j] == h0[j], forall|j: int| 0 <= j < lo ==> #[trigger] weight@[j] == w0[j],
        forall|i: int| 0 <= i < vf_i2 ==> head@[lo + i] == rk[(#[trigger] srt[i]).node as int] && weight@[lo + i] == srt[i].weight,
    decreases srt.len() - vf_i2
//@at after_loop 2
    proof {
        assert(arranged(srt, acc, rk, head@, weight@, lo, lo + acc.len()));
        assert forall|x: int| 0 <= x < vi + 1 implies bucket_ok(#[trigger] al[x], rk, head@, weight@, offset(al, x), offset(al, x + 1)) by {
            if x < vi {
                let s = choose|s: Seq<Link>| #[trigger] arranged(s, al[x], rk, h0, w0, offset(al, x), offset(al, x + 1));
                lemma_offset_step(al, x, vi); lemma_offset_mono(al, 0, x);
                assert forall|i: int| 0 <= i < s.len() implies head@[offset(al, x) + i] == rk[(#[trigger] s[i]).node as int] && weight@[offset(al, x) + i] == s[i].weight by {
                    assert(head@[offset(al, x) + i] == h0[offset(al, x) + i]); assert(weight@[offset(al, x) + i] == w0[offset(al, x) + i]);
                }
                assert(arranged(s, al[x], rk, head@, weight@, offset(al, x), offset(al, x + 1)));
            }
        }
    }
//@endfn
}
fn vf_seq_own<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { v }
} // verus!
fn main() {}
