// ---------------------------------------------------------------- interfaces
impl Reset for Weight {
    spec fn dflt() -> Weight { INFINITY }
    fn vf_default() -> (r: Weight) { INFINITY }
//@fn engine/src/datastr/timestamped_vector.rs trait Reset::reset
//@rw subopt Self::DEFAULT => Self::vf_default()
//@endfn
}
trait Label { spec fn k(&self) -> Weight; fn key(&self) -> (r: Weight) ensures r == self.k(); }
impl Label for Weight {
    spec fn k(&self) -> Weight { *self }
//@fn engine/src/algo/dijkstra.rs Label for Weight::key
//@sig fn key(&self) -> (r: Weight)
//@endfn
}
/// arcs and predecessor links are Copy in the real traits
#[verifier::external_body]
fn vf_copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// Arc: the head of a link
trait Arc: Sized { spec fn hd(&self) -> NodeId; fn head(&self) -> (r: NodeId) ensures r == self.hd(); }
/// LinkIterable<L>: link_iter yields a fixed finite sequence for every node
trait VfLinks<L> {
    spec fn lists(&self) -> Seq<Seq<L>>;
    fn num_nodes(&self) -> (r: usize) ensures r == self.lists().len();
    fn link_iter(&self, node: NodeId) -> (r: Vec<L>) requires node < self.lists().len() ensures r@ == self.lists()[node as int];
}
fn vf_seq_links<L, G: VfLinks<L>>(g: &G, node: NodeId) -> (r: Vec<L>) requires node < g.lists().len() ensures r@ == g.lists()[node as int] { g.link_iter(node) }
/// DijkstraOps with Label = LinkResult = Weight and a constant weight per arc
trait DijkstraOps<Graph>: Sized {
    type Arc: Arc;
    type PredecessorLink;
    spec fn w(&self, graph: &Graph, a: Self::Arc) -> Weight;
    spec fn pl(&self, a: Self::Arc) -> Self::PredecessorLink;
    spec fn arc_ok(&self, graph: &Graph, a: Self::Arc) -> bool;
    spec fn dflt() -> Self;
    fn default() -> (r: Self) ensures r == Self::dflt();
    fn link(&mut self, graph: &Graph, parents: &[(NodeId, Self::PredecessorLink)], tail: NodeIdT, label: &Weight, link: &Self::Arc) -> (r: Weight)
        requires old(self).arc_ok(graph, *link), *label + old(self).w(graph, *link) <= u32::MAX
        ensures r == *label + old(self).w(graph, *link), *final(self) == *old(self);
    fn merge(&mut self, label: &mut Weight, linked: Weight) -> (r: bool)
        ensures *final(self) == *old(self), r == (linked < *old(label)), *final(label) == (if linked < *old(label) { linked } else { *old(label) });
    fn predecessor_link(&self, link: &Self::Arc) -> (r: Self::PredecessorLink)
        ensures r == self.pl(*link);
}
spec fn agraph<O: DijkstraOps<G>, G: VfLinks<O::Arc>>(g: &G, o: &O) -> Ag<O::PredecessorLink> {
    Seq::new(g.lists().len(), |u: int| Seq::new(g.lists()[u].len(), |k: int| (g.lists()[u][k].hd() as int, o.w(g, g.lists()[u][k]) as int, o.pl(g.lists()[u][k]))))
}
spec fn graph_ok<O: DijkstraOps<G>, G: VfLinks<O::Arc>>(g: &G, o: &O) -> bool {
    &&& ag_ok(agraph::<O, G>(g, o))
    &&& forall|u: int, k: int| 0 <= u < g.lists().len() && 0 <= k < g.lists()[u].len() ==> o.arc_ok(g, #[trigger] g.lists()[u][k])
}
proof fn lemma_agraph<O: DijkstraOps<G>, G: VfLinks<O::Arc>>(g: &G, o: &O, u: int)
    ensures agraph::<O, G>(g, o).len() == g.lists().len(), 0 <= u < g.lists().len() ==> agraph::<O, G>(g, o)[u].len() == g.lists()[u].len() { }
proof fn lemma_arc<O: DijkstraOps<G>, G: VfLinks<O::Arc>>(g: &G, o: &O, u: int, k: int)
    requires graph_ok::<O, G>(g, o), 0 <= u < g.lists().len(), 0 <= k < g.lists()[u].len()
    ensures agraph::<O, G>(g, o)[u][k] == (g.lists()[u][k].hd() as int, o.w(g, g.lists()[u][k]) as int, o.pl(g.lists()[u][k])), o.arc_ok(g, g.lists()[u][k]) { }
/// potentials (FnMut closures in the real signatures): answers are fixed between two inits
trait VfPot { spec fn pot(&self) -> Pot; spec fn made_for(&self) -> ISet<Ag<()>>; fn call(&mut self, node: NodeId) -> (r: Option<Weight>) ensures r == (old(self).pot())(node as int), final(self).pot() == old(self).pot(), final(self).made_for() == old(self).made_for(); }
spec fn pot_ok(p: Pot, n: int) -> bool { forall|v: int| 0 <= v < n && #[trigger] p(v) is Some ==> p(v).unwrap() <= CAP }
proof fn lemma_pot_ok(p: Pot, n: int, v: int) requires pot_ok(p, n), 0 <= v < n, p(v) is Some ensures p(v).unwrap() <= CAP { }
/// Neutral: adds nothing
spec fn zero_pot() -> Pot { |v: int| Some(0u32) }
struct VfZero();
impl VfPot for VfZero { spec fn pot(&self) -> Pot { zero_pot() } spec fn made_for(&self) -> ISet<Ag<()>> { ISet::empty() } fn call(&mut self, node: NodeId) -> (r: Option<Weight>) { Some(0) } }
fn vf_set_first<L>(v: &mut Vec<(NodeId, L)>, i: usize, x: NodeId)
    requires i < old(v)@.len()
    ensures final(v)@ == old(v)@.update(i as int, (x, old(v)@[i as int].1))
{ v[i].0 = x; }
/// callbacks that let everything pass
trait VfPred1<A> { fn call(&mut self, a: &A) -> (r: bool) ensures r; }
trait VfImprove { fn call(&mut self, n: NodeId, l: &Weight) -> (r: bool) ensures r; }
struct VfAll();
impl<A> VfPred1<A> for VfAll { fn call(&mut self, a: &A) -> (r: bool) { true } }
impl VfImprove for VfAll { fn call(&mut self, n: NodeId, l: &Weight) -> (r: bool) { true } }
/// statistics counters: assumed not to exceed 2^64
#[verifier::external_body]
fn vf_inc(c: &mut usize) { *c += 1 }

// ---------------------------------------------------------------- the search invariant
type Pot = spec_fn(int) -> Option<Weight>;
type Qu = IMap<usize, State>;
/// all arcs out of v are relaxed with the current labels
spec fn closed<L>(g: Ag<L>, d: Seq<u32>, v: int) -> bool { forall|k: int| 0 <= k < g[v].len() ==> d[(#[trigger] g[v][k]).0] <= d[v] + g[v][k].1 }
spec fn labels<L>(g: Ag<L>, s: int, d0: int, d: Seq<u32>) -> bool {
    &&& d.len() == g.len() && ag_ok(g) && 0 <= s < g.len() && d0 < CAP && d[s] == d0
    &&& forall|v: int| 0 <= v < g.len() ==> #[trigger] d[v] <= CAP && (d[v] < CAP ==> realised(g, s, d0, v, d[v] as int))
}
spec fn queued<L>(g: Ag<L>, p: Pot, s: int, d: Seq<u32>, q: Qu) -> bool {
    forall|id: usize| #[trigger] q.dom().contains(id) ==> id < g.len() && q[id].node == id && (id == s || p(id as int) is Some) && d[id as int] < CAP
}
spec fn exact(p: Pot, d: Seq<u32>, q: Qu) -> bool { forall|id: usize| #[trigger] q.dom().contains(id) ==> q[id].key == d[id as int] + p(id as int).unwrap() }
/// before the source is popped its key may lack the potential
spec fn keys_ok(p: Pot, s: int, d: Seq<u32>, q: Qu) -> bool { exact(p, d, q) || (forall|id: usize| #[trigger] q.dom().contains(id) ==> id == s) }
/// every labelled node is queued or has all its arcs relaxed (except u, which is being settled)
spec fn covered<L>(g: Ag<L>, p: Pot, d: Seq<u32>, q: Qu, u: int) -> bool {
    forall|v: int| 0 <= v < g.len() && v != u && #[trigger] d[v] < CAP && p(v) is Some ==> q.dom().contains(v as usize) || closed(g, d, v)
}
/// the predecessors of labelled nodes: real arcs, not longer than the labels say, free of cycles (tau: time of the last improvement)
spec fn tree_arc<L>(g: Ag<L>, d: Seq<u32>, v: int, u: int, l: L, k: int) -> bool { 0 <= u < g.len() && 0 <= k < g[u].len() && g[u][k].0 == v && g[u][k].2 == l && d[u] + g[u][k].1 <= d[v] }
spec fn tree_at<L>(g: Ag<L>, d: Seq<u32>, pr: Seq<(NodeId, L)>, tau: Seq<nat>, v: int) -> bool {
    let u = pr[v].0 as int;
    (exists|k: int| #[trigger] tree_arc(g, d, v, u, pr[v].1, k)) && d[u] < CAP && (d[u] < d[v] || tau[u] < tau[v])
}
spec fn tree_with<L>(g: Ag<L>, s: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, tau: Seq<nat>) -> bool {
    &&& pr.len() == g.len() && tau.len() == g.len()
    &&& forall|v: int| 0 <= v < g.len() && v != s && #[trigger] d[v] < CAP ==> tree_at(g, d, pr, tau, v)
}
spec fn tree<L>(g: Ag<L>, s: int, d: Seq<u32>, pr: Seq<(NodeId, L)>) -> bool { exists|tau: Seq<nat>| #[trigger] tree_with(g, s, d, pr, tau) }
spec fn inv<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu) -> bool {
    labels(g, s, d0, d) && queued(g, p, s, d, q) && keys_ok(p, s, d, q) && covered(g, p, d, q, -1) && tree(g, s, d, pr)
}
/// a feasible potential towards t (t may lie outside of the graph: then no target)
spec fn feasible<L>(g: Ag<L>, t: int, p: Pot) -> bool {
    &&& forall|v: int| 0 <= v < g.len() && #[trigger] p(v) is Some ==> p(v).unwrap() <= CAP
    &&& 0 <= t < g.len() ==> p(t) == Some(0u32)
    &&& forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> arc_feasible(p, u, #[trigger] g[u][k])
}
spec fn arc_feasible<L>(p: Pot, u: int, a: (int, int, L)) -> bool { p(a.0) is Some && a.1 + p(a.0).unwrap() < CAP ==> p(u) is Some && p(u).unwrap() <= a.1 + p(a.0).unwrap() }

/// relaxing the arc k of u: what one improvement does to the invariant
proof fn lemma_improve<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, tau: Seq<nat>, u: int, k: int, d2: Seq<u32>, pr2: Seq<(NodeId, L)>, q2: Qu) -> (tau2: Seq<nat>)
    requires labels(g, s, d0, d), queued(g, p, s, d, q), exact(p, d, q), covered(g, p, d, q, u), tree_with(g, s, d, pr, tau), 0 <= u < g.len(), 0 <= k < g[u].len(), d[u] < CAP,
        ({ let h = g[u][k].0; let x = d[u] + g[u][k].1; x < d[h] && d2 == d.update(h, x as u32) && pr2 == pr.update(h, (u as u32, g[u][k].2))
            && q2 == (if p(h) is Some { q.insert(h as usize, State { key: (p(h).unwrap() + x) as u32, node: h as u32 }) } else { q })
            && (p(h) is Some ==> p(h).unwrap() <= CAP) })
    ensures labels(g, s, d0, d2), queued(g, p, s, d2, q2), exact(p, d2, q2), covered(g, p, d2, q2, u), tree_with(g, s, d2, pr2, tau2), g[u][k].0 != u, g[u][k].0 != s
{
    let h = g[u][k].0; let x = d[u] + g[u][k].1;
    assert(0 <= h < g.len());
    lemma_realise(g, s, d0, u, d[u] as int, k);
    lemma_realised_ge(g, s, d0, h, x);
    assert(d[h] <= CAP);
    assert forall|v: int| 0 <= v < g.len() implies #[trigger] d2[v] <= CAP && (d2[v] < CAP ==> realised(g, s, d0, v, d2[v] as int)) by { assert(d[v] <= CAP); }
    assert forall|v: int| 0 <= v < g.len() && v != u && #[trigger] d2[v] < CAP && p(v) is Some implies q2.dom().contains(v as usize) || closed(g, d2, v) by {
        if v != h { assert(d[v] < CAP); if !q.dom().contains(v as usize) { assert(closed(g, d, v)); assert forall|j: int| 0 <= j < g[v].len() implies d2[(#[trigger] g[v][j]).0] <= d2[v] + g[v][j].1 by { assert(d[g[v][j].0] <= d[v] + g[v][j].1); } } }
    }
    assert forall|id: usize| #[trigger] q2.dom().contains(id) implies id < g.len() && q2[id].node == id && (id == s || p(id as int) is Some) && d2[id as int] < CAP && q2[id].key == d2[id as int] + p(id as int).unwrap() by {
        if id != h { assert(q.dom().contains(id)); } else if p(h) is None { assert(q.dom().contains(id)); }
    }
    let top = max_tau(tau, tau.len() as int) + 1;
    let tau2 = tau.update(h, top);
    assert forall|v: int| 0 <= v < g.len() && v != s && #[trigger] d2[v] < CAP implies tree_at(g, d2, pr2, tau2, v) by {
        if v == h {
            assert(d2[u] == d[u] && d2[h] == x);
            assert(pr2[v].0 == u as u32 && pr2[v].0 as int == u);
            assert(pr2[v].1 == g[u][k].2);
            assert(tree_arc(g, d2, v, pr2[v].0 as int, pr2[v].1, k));
            lemma_max_tau(tau, tau.len() as int, u);
            assert(tau2[u] < tau2[v]);
        } else {
            assert(d[v] < CAP); assert(tree_at(g, d, pr, tau, v));
            let y = pr[v].0 as int;
            let j = choose|j: int| #[trigger] tree_arc(g, d, v, y, pr[v].1, j);
            assert(d2[v] == d[v]); assert(0 <= g[y][j].1);
            if y == h { assert(d2[y] < d[y]); assert(d2[y] < d2[v]); } else { assert(d2[y] == d[y]); assert(tau2[y] == tau[y] && tau2[v] == tau[v]); }
            assert(pr2[v] == pr[v]);
            assert(tree_arc(g, d2, v, pr2[v].0 as int, pr2[v].1, j));
            assert(tree_at(g, d2, pr2, tau2, v));
        }
    }
    tau2
}
spec fn pick_tau<L>(g: Ag<L>, s: int, d: Seq<u32>, pr: Seq<(NodeId, L)>) -> Seq<nat> { choose|tau: Seq<nat>| #[trigger] tree_with(g, s, d, pr, tau) }
proof fn lemma_tree_pick<L>(g: Ag<L>, s: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, tau: Seq<nat>) requires tree(g, s, d, pr), tau == pick_tau(g, s, d, pr) ensures tree_with(g, s, d, pr, tau) { }
proof fn lemma_pop<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, node: NodeId, q2: Qu)
    requires inv(g, p, s, d0, d, pr, q), q.dom().contains(node as usize), forall|id: usize| q.dom().contains(id) ==> !lt(#[trigger] q[id], q[node as usize]), q2 == q.remove(node as usize)
    ensures labels(g, s, d0, d), d.len() == g.len(), queued(g, p, s, d, q2), exact(p, d, q2), covered(g, p, d, q2, node as int), node < g.len(), d[node as int] < CAP, tree(g, s, d, pr), !q2.dom().contains(node as usize), improved(p, d, q2, d, q2),
        forall|id: usize| #[trigger] q.dom().contains(id) ==> q[node as usize].key <= q[id].key,
{
    assert forall|id: usize| #[trigger] q.dom().contains(id) implies q[node as usize].key <= q[id].key by { assert(!lt(q[id], q[node as usize])); }
    assert forall|id: usize| #[trigger] q2.dom().contains(id) implies q.dom().contains(id) && q2[id] == q[id] by { }
}
proof fn lemma_peek<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, q: Qu, u: int, k: int)
    requires labels(g, s, d0, d), queued(g, p, s, d, q), exact(p, d, q), 0 <= u < g.len(), 0 <= k < g[u].len()
    ensures 0 <= g[u][k].0 < g.len(), 0 <= g[u][k].1 <= CAP, d[u] <= CAP, d[g[u][k].0] <= CAP, d.len() == g.len(),
        q.dom().contains(g[u][k].0 as usize) ==> q[g[u][k].0 as usize].key == d[g[u][k].0] + p(g[u][k].0).unwrap() && q[g[u][k].0 as usize].node == g[u][k].0
{ let a = g[u][k]; assert(0 <= a.0 < g.len()); assert(d[a.0] <= CAP); assert(d[u] <= CAP); }
proof fn lemma_improved_more(p: Pot, d: Seq<u32>, q: Qu, d1: Seq<u32>, q1: Qu, d2: Seq<u32>, q2: Qu, h: int)
    requires improved(p, d, q, d1, q1), 0 <= h < d.len(), d2.len() == d.len(), d2[h] <= d1[h], p(h) is Some ==> q2.dom().contains(h as usize), forall|v: int| 0 <= v < d.len() && v != h ==> #[trigger] d2[v] == d1[v],
        forall|id: usize| #[trigger] q1.dom().contains(id) ==> q2.dom().contains(id), d2[h] < d1[h], forall|id: usize| #[trigger] q2.dom().contains(id) && id != h ==> q1.dom().contains(id)
    ensures improved(p, d, q, d2, q2)
{
    assert forall|id: usize| #[trigger] q2.dom().contains(id) && !q.dom().contains(id) implies id < d.len() && d2[id as int] < d[id as int] by { assert(d1[h] <= d[h]); if id != h { assert(q1.dom().contains(id)); } }
    assert forall|v: int| 0 <= v < d.len() implies #[trigger] d2[v] <= d[v] by { assert(d1[v] <= d[v]); }
    assert forall|v: int| 0 <= v < d.len() && #[trigger] d2[v] < d[v] && p(v) is Some implies q2.dom().contains(v as usize) by { if v != h { assert(d1[v] < d[v]); } }
}
proof fn lemma_after<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, tau: Seq<nat>, u: int)
    requires labels(g, s, d0, d), queued(g, p, s, d, q), exact(p, d, q), covered(g, p, d, q, u), tree_with(g, s, d, pr, tau), closed(g, d, u)
    ensures inv(g, p, s, d0, d, pr, q)
{ }
spec fn max_tau(t: Seq<nat>, k: int) -> nat decreases k { if k <= 0 { 0 } else { let m = max_tau(t, k - 1); if t[k - 1] > m { t[k - 1] } else { m } } }
proof fn lemma_max_tau(t: Seq<nat>, k: int, i: int) requires 0 <= i < k <= t.len() ensures t[i] <= max_tau(t, k) decreases k { if i < k - 1 { lemma_max_tau(t, k - 1, i); } }

/// along a short enough walk to t every node has a potential below the rest of the walk
proof fn lemma_pot<L>(g: Ag<L>, t: int, p: Pot, s: int, a: Seq<int>, j: int)
    requires ag_ok(g), feasible(g, t, p), 0 <= s < g.len(), 0 <= t < g.len(), walk(g, s, t, a), wlen(g, s, a) < CAP, 0 <= j <= a.len()
    ensures p(wend(g, s, a.take(j))) is Some, p(wend(g, s, a.take(j))).unwrap() <= wlen(g, s, a) - wlen(g, s, a.take(j)), 0 <= wend(g, s, a.take(j)) < g.len()
    decreases a.len() - j
{
    lemma_walk_take(g, s, a, j); lemma_walk_range(g, s, a.take(j));
    if j == a.len() { assert(a.take(j) =~= a); }
    else {
        lemma_pot(g, t, p, s, a, j + 1);
        lemma_walk_take(g, s, a, j + 1);
        assert(a.take(j + 1) =~= a.take(j).push(a[j]));
        lemma_walk_push(g, s, a.take(j), a[j]);
        let u = wend(g, s, a.take(j));
        assert(arc_feasible(p, u, g[u][a[j]]));
        assert(wlen(g, s, a.take(j)) >= 0);
    }
}
/// either the label of the walk's j-th node is right or an earlier node of the walk is queued with a right label
proof fn lemma_front<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, q: Qu, a: Seq<int>, j: int) -> (i: int)
    requires labels(g, s, d0, d), covered(g, p, d, q, -1), wok(g, s, a), 0 <= j <= a.len(), d0 + wlen(g, s, a) < CAP,
        forall|i: int| 0 <= i < a.len() ==> p(#[trigger] wend(g, s, a.take(i))) is Some
    ensures 0 <= i <= j, 0 <= wend(g, s, a.take(i)) < g.len(), d[wend(g, s, a.take(i))] <= d0 + wlen(g, s, a.take(i)), i == j || q.dom().contains(wend(g, s, a.take(i)) as usize)
    decreases j
{
    lemma_walk_take(g, s, a, j); lemma_walk_range(g, s, a.take(j));
    if j == 0 { 0 } else {
        let i = lemma_front(g, p, s, d0, d, q, a, j - 1);
        if i < j - 1 { i } else {
            let u = wend(g, s, a.take(j - 1));
            lemma_walk_take(g, s, a, j - 1); lemma_walk_range(g, s, a.take(j - 1));
            assert(d[u] < CAP);
            if q.dom().contains(u as usize) { i } else {
                assert(closed(g, d, u));
                assert(a.take(j) =~= a.take(j - 1).push(a[j - 1]));
                lemma_walk_push(g, s, a.take(j - 1), a[j - 1]);
                assert(d[g[u][a[j - 1]].0] <= d[u] + g[u][a[j - 1]].1);
                j
            }
        }
    }
}
/// the label of the entry with the smallest key is the distance if that entry is the target
proof fn lemma_exact<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, t: int)
    requires inv(g, p, s, d0, d, pr, q), feasible(g, t, p), 0 <= t < g.len(), d0 >= 0, q.dom().contains(t as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[t as usize].key <= q[id].key
    ensures is_dist(g, s, d0, t, d[t] as int), d[t] < CAP
{
    assert forall|a: Seq<int>| #[trigger] walk(g, s, t, a) implies d[t] <= d0 + wlen(g, s, a) by {
        lemma_walk_range(g, s, a);
        if t != s && d0 + wlen(g, s, a) < CAP {
            assert(exact(p, d, q));
            assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] wend(g, s, a.take(i))) is Some by { lemma_pot(g, t, p, s, a, i); }
            let i = lemma_front(g, p, s, d0, d, q, a, a.len() as int);
            let x = wend(g, s, a.take(i));
            if i == a.len() { assert(a.take(i) =~= a); } else { lemma_pot(g, t, p, s, a, i); assert(q[t as usize].key <= q[x as usize].key); }
        }
    }
}
/// nothing queued: every node from which t may be reached has its distance
proof fn lemma_done<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, v: int)
    requires inv(g, p, s, d0, d, pr, q), q.dom() =~= ISet::empty(), 0 <= v < g.len(), d0 >= 0, forall|x: int| 0 <= x < g.len() ==> #[trigger] p(x) is Some
    ensures is_dist(g, s, d0, v, d[v] as int)
{
    assert forall|a: Seq<int>| #[trigger] walk(g, s, v, a) implies d[v] <= d0 + wlen(g, s, a) by {
        lemma_walk_range(g, s, a);
        if d0 + wlen(g, s, a) < CAP {
            assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] wend(g, s, a.take(i))) is Some by { lemma_walk_take(g, s, a, i); lemma_walk_range(g, s, a.take(i)); }
            let i = lemma_front(g, p, s, d0, d, q, a, a.len() as int);
            assert(a.take(a.len() as int) =~= a);
        }
    }
}
/// nothing queued and no label at t: no walk below INFINITY
proof fn lemma_none<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu, t: int)
    requires inv(g, p, s, d0, d, pr, q), q.dom() =~= ISet::empty(), feasible(g, t, p), 0 <= t < g.len(), d0 >= 0
    ensures is_dist(g, s, d0, t, d[t] as int)
{
    assert forall|a: Seq<int>| #[trigger] walk(g, s, t, a) implies d[t] <= d0 + wlen(g, s, a) by {
        lemma_walk_range(g, s, a);
        if d0 + wlen(g, s, a) < CAP {
            assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] wend(g, s, a.take(i))) is Some by { lemma_pot(g, t, p, s, a, i); }
            let i = lemma_front(g, p, s, d0, d, q, a, a.len() as int);
            assert(a.take(a.len() as int) =~= a);
        }
    }
}

// ---------------------------------------------------------------- one search
//@item engine/src/algo/dijkstra.rs struct DijkstraInit <L>=> initial_state:~L=>initial_state:~Weight
//@item engine/src/algo/dijkstra.rs struct DijkstraData <L:~Label,~PredLink~=~(),~NodeData~=~L>=><PredLink> NodeData=>Weight State<L::Key>>=>State>
//@item engine/src/algo/dijkstra/generic_dijkstra.rs struct DijkstraRun Graph~=~OwnedGraph,~Ops~=~DefaultOps=>Graph,~Ops Ops::Label>,=>Weight>, [(NodeId,~Ops::PredecessorLink)]=>Vec<(NodeId,~Ops::PredecessorLink)> State<<Ops::Label~as~super::Label>::Key>>=>State>
impl<PredLink> DijkstraData<PredLink> {
    spec fn wf(&self, n: int) -> bool { self.distances.wf() && self.distances@.len() == n && self.predecessors@.len() == n && self.queue.wf() && self.queue.positions@.len() == n }
}
impl<'b, Graph, Ops> DijkstraRun<'b, Graph, Ops>
where
    Graph: VfLinks<Ops::Arc>,
    Ops: DijkstraOps<Graph>,
{
    spec fn g(&self) -> Ag<Ops::PredecessorLink> { agraph::<Ops, Graph>(self.graph, self.ops) }
    spec fn wf(&self) -> bool {
        &&& graph_ok::<Ops, Graph>(self.graph, self.ops)
        &&& self.distances.wf() && self.distances@.len() == self.g().len() && self.predecessors@.len() == self.g().len() && self.queue.wf() && self.queue.positions@.len() == self.g().len()
    }
    /// the search state is consistent for source s, initial label d0 and potential p
    spec fn inv(&self, p: Pot, s: int, d0: int) -> bool { self.wf() && inv(self.g(), p, s, d0, self.distances@, self.predecessors@, self.queue@) }
    /// the borrowed data keep flowing back to the same owner
    #[verifier::prophetic] spec fn same(&self, o: Self) -> bool {
        &&& self.graph == o.graph && *self.ops == *o.ops
        &&& *final(self.distances) == *final(o.distances) && *final(self.predecessors) == *final(o.predecessors) && *final(self.queue) == *final(o.queue) && *final(self.ops) == *final(o.ops)
    }
    spec fn dist(&self) -> Seq<u32> { self.distances@ }
    spec fn qu(&self) -> Qu { self.queue@ }
    spec fn preds(&self) -> Seq<(NodeId, Ops::PredecessorLink)> { self.predecessors@ }
    /// state right after the start node was added
    spec fn fresh(&self, s: int, d0: int) -> bool {
        &&& self.wf() && 0 <= s < self.g().len() && 0 <= d0 < CAP
        &&& self.distances@ =~= Seq::new(self.g().len(), |i: int| INFINITY).update(s, d0 as u32)
        &&& self.queue@ =~= IMap::<usize, State>::empty().insert(s as usize, State { key: d0 as u32, node: s as u32 })
    }
    proof fn lemma_fresh(&self, s: int, d0: int, p: Pot)
        requires self.fresh(s, d0)
        ensures self.inv(p, s, d0)
    {
        let g = self.g(); let d = self.distances@; let q = self.queue@;
        lemma_realise_start(g, s, d0);
        assert(d[s] == d0);
        assert forall|v: int| 0 <= v < g.len() implies #[trigger] d[v] <= CAP && (d[v] < CAP ==> realised(g, s, d0, v, d[v] as int)) by { }
        assert(covered(g, p, d, q, -1));
        let tau = Seq::new(g.len(), |i: int| 0nat);
        assert(tree_with(g, s, d, self.predecessors@, tau));
    }
    proof fn lemma_inv(&self, p: Pot, s: int, d0: int)
        requires self.inv(p, s, d0)
        ensures self.wf(), inv(self.g(), p, s, d0, self.dist(), self.preds(), self.qu()), self.dist().len() == self.g().len()
    { }
    proof fn lemma_fresh_q(&self, s: int, d0: int)
        requires self.fresh(s, d0)
        ensures forall|t: int| 0 <= t < self.g().len() && #[trigger] self.dist()[t] < CAP ==> t == s && self.qu().dom().contains(t as usize)
    { }
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::query
//@sig fn query(graph: &'b Graph, data: &'b mut DijkstraData<Ops::PredecessorLink>, ops: &'b mut Ops, init: DijkstraInit) -> (r: Self)
//@spec
    requires graph_ok::<Ops, Graph>(graph, ops), old(data).wf(graph.lists().len() as int), init.source.0 < graph.lists().len(), init.initial_state < CAP
    ensures r.graph == graph, *r.ops == *old(ops), *final(r.ops) == *final(ops), final(data).distances == *final(r.distances), final(data).predecessors == *final(r.predecessors), final(data).queue == *final(r.queue),
        r.fresh(init.source.0 as int, init.initial_state as int)
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::initialize
//@sig fn initialize(&mut self, init: DijkstraInit)
//@spec
    requires old(self).wf(), init.source.0 < old(self).g().len(), init.initial_state < CAP
    ensures final(self).same(*old(self)), final(self).fresh(init.source.0 as int, init.initial_state as int)
//@at start
    proof { lemma_state_ord(); }
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::add_start_node
//@sig fn add_start_node(&mut self, init: DijkstraInit)
//@rw sub self.distances[$e] = initial; => *self.distances.index_mut($e) = initial;
//@rw sub self.predecessors[$e].0 = from; => vf_set_first(self.predecessors, $e, from);
//@spec
    requires old(self).wf(), init.source.0 < old(self).g().len(), init.initial_state < CAP, !old(self).queue@.dom().contains(init.source.0 as usize)
    ensures final(self).same(*old(self)), final(self).wf(), final(self).distances@ =~= old(self).distances@.update(init.source.0 as int, init.initial_state),
        final(self).queue@ =~= old(self).queue@.insert(init.source.0 as usize, State { key: init.initial_state, node: init.source.0 }),
//@at start
    proof { lemma_state_ord(); lemma_agraph::<Ops, Graph>(self.graph, self.ops, 0); }
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::next_step_with_potential
//@sig fn next_step_with_potential<P: VfPot>(&mut self, potential: &mut P, Ghost(s): Ghost<int>, Ghost(d0): Ghost<int>) -> (r: Option<NodeId>)
//@rw sub |_| true, |_, _| true, potential => VfAll(), VfAll(), potential, Ghost(s), Ghost(d0)
//@spec
    requires old(self).inv(old(potential).pot(), s, d0), d0 >= 0, pot_ok(old(potential).pot(), old(self).g().len() as int)
    ensures
        final(self).same(*old(self)), final(potential).pot() == old(potential).pot(), final(potential).made_for() == old(potential).made_for(), final(self).inv(old(potential).pot(), s, d0),
        r is None ==> old(self).queue@.dom() =~= ISet::empty() && final(self).queue@ =~= old(self).queue@ && final(self).distances@ == old(self).distances@ && final(self).predecessors@ == old(self).predecessors@,
        r matches Some(u) ==> settled(old(self).g(), old(potential).pot(), s, d0, old(self).distances@, old(self).queue@, final(self).distances@, final(self).queue@, u),
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs Iterator for DijkstraRun::next
//@sig fn next(&mut self, Ghost(s): Ghost<int>, Ghost(d0): Ghost<int>) -> (r: Option<NodeId>)
//@rw sub |_| true, |_, _| true, |_| Some(Neutral()) => VfAll(), VfAll(), &mut VfZero(), Ghost(s), Ghost(d0)
//@spec
    requires old(self).inv(zero_pot(), s, d0), d0 >= 0
    ensures
        final(self).same(*old(self)), final(self).inv(zero_pot(), s, d0),
        r is None ==> old(self).queue@.dom() =~= ISet::empty() && final(self).queue@ =~= old(self).queue@ && final(self).distances@ == old(self).distances@ && final(self).predecessors@ == old(self).predecessors@,
        r matches Some(u) ==> settled(old(self).g(), zero_pot(), s, d0, old(self).distances@, old(self).queue@, final(self).distances@, final(self).queue@, u),
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::tentative_distance
//@sig fn tentative_distance(&self, node: NodeId) -> (r: &Weight)
//@rw sub &self.distances[$e] => self.distances.index($e)
//@spec
    requires self.wf(), node < self.g().len()
    ensures *r == self.dist()[node as int]
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::predecessor
//@sig fn predecessor(&self, node: NodeId) -> (r: NodeId)
//@spec
    requires self.wf(), node < self.g().len()
    ensures r == self.preds()[node as int].0
//@endfn
//@fn engine/src/algo/dijkstra/generic_dijkstra.rs DijkstraRun::settle_next_node
//@sig fn settle_next_node<E: VfPred1<Ops::Arc>, I: VfImprove, P: VfPot>(&mut self, mut edge_predicate: E, mut improve_callback: I, potential: &mut P, Ghost(s): Ghost<int>, Ghost(d0): Ghost<int>) -> (r: Option<NodeId>)
//@rw optmap
//@rw sub self.graph.link_iter($e) => vf_seq_links(self.graph, $e)
//@rw subopt edge_predicate($e) => edge_predicate.call($e)
//@rw subopt improve_callback($a, $b) => improve_callback.call($a, $b)
//@rw subopt potential($e).map(|$p:id| $x) => (match potential.call($e) { Some($p) => Some($x), None => None })
//@rw subopt self.num_relaxed_arcs += 1; => vf_inc(&mut self.num_relaxed_arcs);
//@rw subopt self.num_queue_pushs += 1; => vf_inc(&mut self.num_queue_pushs);
//@rw subopt self.predecessors, NodeIdT => self.predecessors.as_slice(), NodeIdT
//@rw subopt &mut self.distances[$e] => self.distances.index_mut($e)
//@rw subopt &self.distances[$e] => self.distances.index($e)
//@rw for
//@rw sub let link = $v:id[$i:id]; => let link = vf_copy(&$v[$i]);
//@spec
    requires old(self).inv(old(potential).pot(), s, d0), d0 >= 0,
        pot_ok(old(potential).pot(), old(self).g().len() as int)
    ensures
        final(self).same(*old(self)), final(potential).pot() == old(potential).pot(), final(potential).made_for() == old(potential).made_for(),
        final(self).inv(old(potential).pot(), s, d0),
        r is None ==> old(self).queue@.dom() =~= ISet::empty() && final(self).queue@ =~= old(self).queue@ && final(self).distances@ == old(self).distances@ && final(self).predecessors@ == old(self).predecessors@,
        r matches Some(u) ==> settled(old(self).g(), old(potential).pot(), s, d0, old(self).distances@, old(self).queue@, final(self).distances@, final(self).queue@, u),
//@at start
    hide(labels); hide(queued); hide(exact); hide(covered); hide(tree_with); hide(tree); hide(ag_ok); hide(improved); hide(ord_ok); hide(IndexdMinHeap::heap_ok); hide(IndexdMinHeap::maps_ok); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::view); hide(IndexdMinHeap::wf); hide(keys_ok); hide(state_cmp); hide(graph_ok); hide(agraph); hide(inv); hide(pot_ok);
    let ghost g = self.g(); let ghost p: Pot = potential.pot(); let ghost dd = self.distances@; let ghost qq = self.queue@; let ghost run0 = *self;
    proof { lemma_state_ord(); }
//@at loop_outer 0
    proof {
        assert(self.queue@ =~= qq.remove(node as usize));
        assert forall|id: usize| qq.dom().contains(id) implies !lt(#[trigger] qq[id], qq[node as usize]) by { }
        lemma_pop(g, p, s, d0, dd, self.predecessors@, qq, node, self.queue@);
        lemma_agraph::<Ops, Graph>(self.graph, self.ops, node as int);
    }
//@at before_loop 0
    let ghost u = node as int;
    let ghost mut tau: Seq<nat> = pick_tau(g, s, self.distances@, self.predecessors@);
    proof {
        assert(tree(g, s, self.distances@, self.predecessors@));
        lemma_tree_pick(g, s, self.distances@, self.predecessors@, tau);
    }
//@loop 0
    invariant
        ord_ok::<State>(), d0 >= 0, self.wf(), self.same(run0), g == self.g(), g == run0.g(), u == node, p == old(potential).pot(), potential.pot() == old(potential).pot(), potential.made_for() == old(potential).made_for(),
        pot_ok(p, g.len() as int),
        0 <= u < g.len(), vf_it0@ == self.graph.lists()[u], vf_i0 <= vf_it0@.len(),
        labels(g, s, d0, self.distances@), queued(g, p, s, self.distances@, self.queue@), exact(p, self.distances@, self.queue@), covered(g, p, self.distances@, self.queue@, u),
        tree_with(g, s, self.distances@, self.predecessors@, tau),
        self.distances@[u] == dd[u], dd[u] < CAP, dd.len() == g.len(), !self.queue@.dom().contains(u as usize),
        forall|k: int| 0 <= k < vf_i0 ==> self.distances@[(#[trigger] g[u][k]).0] <= dd[u] + g[u][k].1,
        improved(p, dd, qq.remove(node as usize), self.distances@, self.queue@),
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    let ghost d1 = self.distances@; let ghost pr1 = self.predecessors@; let ghost q1 = self.queue@; let ghost k = vf_i0 - 1;
    let ghost h = g[u][k].0; let ghost x = d1[u] + g[u][k].1;
    proof { lemma_agraph::<Ops, Graph>(self.graph, self.ops, u); lemma_arc::<Ops, Graph>(self.graph, self.ops, u, k);
        lemma_peek(g, p, s, d0, d1, q1, u, k); if p(h) is Some { lemma_pot_ok(p, g.len() as int, h); } }
//@at before self.queue.decrease_key
    proof { lemma_gt(q1[h as usize], next); assert(next.key == p(h).unwrap() + x); }
//@at loop_end 0
    proof {
        if x < d1[h] {
            assert(self.distances@ =~= d1.update(h, x as u32));
            assert(self.predecessors@ =~= pr1.update(h, (u as u32, g[u][k].2)));
            let q2 = if p(h) is Some { q1.insert(h as usize, State { key: (p(h).unwrap() + x) as u32, node: h as u32 }) } else { q1 };
            assert(self.queue@ =~= q2);
            assert(self.queue@ == q2);
            tau = lemma_improve(g, p, s, d0, d1, pr1, q1, tau, u, k, self.distances@, self.predecessors@, self.queue@);
            lemma_improved_more(p, dd, qq.remove(node as usize), d1, q1, self.distances@, self.queue@, h);
        } else { assert(self.distances@ =~= d1); assert(self.queue@ == q1 && self.predecessors@ == pr1); }
        assert forall|j: int| 0 <= j < vf_i0 implies self.distances@[(#[trigger] g[u][j]).0] <= dd[u] + g[u][j].1 by { if j < k { assert(d1[g[u][j].0] <= dd[u] + g[u][j].1); } }
    }
//@at after_loop 0
    proof {
        assert(closed(g, self.distances@, u)) by { lemma_agraph::<Ops, Graph>(self.graph, self.ops, u); }
        lemma_after(g, p, s, d0, self.distances@, self.predecessors@, self.queue@, tau, u);
    }
//@endfn
}
proof fn lemma_gt(a: State, b: State) requires a.node == b.node, b.key <= a.key ensures !lt(a, b) { }
/// labels never grow; every improved node with a potential is queued; queued nodes stay queued
spec fn improved(p: Pot, d: Seq<u32>, q: Qu, d2: Seq<u32>, q2: Qu) -> bool {
    &&& d2.len() == d.len()
    &&& forall|v: int| 0 <= v < d.len() ==> #[trigger] d2[v] <= d[v]
    &&& forall|v: int| 0 <= v < d.len() && #[trigger] d2[v] < d[v] && p(v) is Some ==> q2.dom().contains(v as usize)
    &&& forall|id: usize| #[trigger] q.dom().contains(id) ==> q2.dom().contains(id)
    &&& forall|id: usize| #[trigger] q2.dom().contains(id) && !q.dom().contains(id) ==> id < d.len() && d2[id as int] < d[id as int]
}
/// termination measure: the labels, then the queue
spec fn dsum(d: Seq<u32>) -> nat decreases d.len() { if d.len() == 0 { 0 } else { dsum(d.drop_last()) + d.last() as nat } }
spec fn qcount(q: Qu, n: int) -> nat decreases n { if n <= 0 { 0 } else { qcount(q, n - 1) + if q.dom().contains((n - 1) as usize) { 1nat } else { 0nat } } }
proof fn lemma_dsum(d: Seq<u32>, d2: Seq<u32>)
    requires d.len() == d2.len(), forall|v: int| 0 <= v < d.len() ==> #[trigger] d2[v] <= d[v]
    ensures dsum(d2) <= dsum(d), dsum(d2) == dsum(d) ==> d2 =~= d
    decreases d.len()
{ if d.len() > 0 { lemma_dsum(d.drop_last(), d2.drop_last()); assert(d2[d.len() - 1] <= d[d.len() - 1]); if dsum(d2) == dsum(d) { assert forall|v: int| 0 <= v < d.len() implies d2[v] == d[v] by { if v < d.len() - 1 { assert(d2.drop_last()[v] == d.drop_last()[v]); } } } } }
proof fn lemma_qcount(q: Qu, q2: Qu, n: int)
    requires forall|id: usize| #[trigger] q2.dom().contains(id) ==> q.dom().contains(id), n <= u32::MAX
    ensures qcount(q2, n) <= qcount(q, n), forall|u: usize| u < n && q.dom().contains(u) && !q2.dom().contains(u) ==> qcount(q2, n) < #[trigger] qcount_at(q, n, u)
    decreases n
{
    if n > 0 { lemma_qcount(q, q2, n - 1);
        assert forall|u: usize| u < n && q.dom().contains(u) && !q2.dom().contains(u) implies qcount(q2, n) < #[trigger] qcount_at(q, n, u) by { if u < n - 1 { assert(qcount(q2, n - 1) < qcount_at(q, n - 1, u)); } } }
}
spec fn qcount_at(q: Qu, n: int, u: usize) -> nat { qcount(q, n) }
proof fn lemma_measure<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, q: Qu, d2: Seq<u32>, q2: Qu, u: NodeId)
    requires settled(g, p, s, d0, d, q, d2, q2, u), d.len() == g.len(), g.len() < u32::MAX
    ensures dsum(d2) < dsum(d) || (dsum(d2) == dsum(d) && qcount(q2, g.len() as int) < qcount(q, g.len() as int))
{
    lemma_dsum(d, d2);
    if dsum(d2) == dsum(d) {
        assert forall|id: usize| #[trigger] q2.dom().contains(id) implies q.dom().contains(id) by { if !q.dom().contains(id) { assert(!q.remove(u as usize).dom().contains(id)); } }
        lemma_qcount(q, q2, g.len() as int);
        assert(qcount(q2, g.len() as int) < qcount_at(q, g.len() as int, u as usize));
    }
}
/// what settling u does: u had a smallest key, keeps its label, and its arcs are relaxed
spec fn settled<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, q: Qu, d2: Seq<u32>, q2: Qu, u: NodeId) -> bool {
    &&& u < g.len() && q.dom().contains(u as usize) && d2[u as int] == d[u as int] && !q2.dom().contains(u as usize)
    &&& forall|id: usize| #[trigger] q.dom().contains(id) ==> q[u as usize].key <= q[id].key
    &&& improved(p, d, q.remove(u as usize), d2, q2)
    &&& exact(p, d2, q2)
}
