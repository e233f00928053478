// ---------------------------------------------------------------- arcs and ops of the Dijkstra servers
impl Arc for Link {
    spec fn hd(&self) -> NodeId { self.node }
//@fn engine/src/datastr/graph.rs Arc for Link::head
//@sig fn head(&self) -> (r: NodeId)
//@endfn
}
impl<T> Arc for (NodeIdT, T) {
    spec fn hd(&self) -> NodeId { self.0.0 }
//@fn engine/src/datastr/graph.rs Arc for T::head
//@sig fn head(&self) -> (r: NodeId)
//@rw subopt self.0 .0 => (self.0).0
//@endfn
}
impl<T1, T2> Arc for (NodeIdT, T1, T2) {
    spec fn hd(&self) -> NodeId { self.0.0 }
//@fn engine/src/datastr/graph.rs Arc for T2::head
//@sig fn head(&self) -> (r: NodeId)
//@rw subopt self.0 .0 => (self.0).0
//@endfn
}
struct DefaultOps();
impl<G> DijkstraOps<G> for DefaultOps {
    type Arc = Link;
    type PredecessorLink = ();
    spec fn w(&self, graph: &G, a: Link) -> Weight { a.weight }
    spec fn pl(&self, a: Link) -> () { () }
    spec fn arc_ok(&self, graph: &G, a: Link) -> bool { true }
    spec fn dflt() -> Self { DefaultOps() }
    fn default() -> (r: Self) { DefaultOps() }
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOps::link
//@sig fn link(&mut self, _graph: &G, _parents: &[(NodeId, ())], _tail: NodeIdT, label: &Weight, link: &Link) -> (r: Weight)
//@rw subopt label + link.weight => (*label) + link.weight
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOps::merge
//@sig fn merge(&mut self, label: &mut Weight, linked: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOps::predecessor_link
//@sig fn predecessor_link(&self, _link: &Link) -> (r: ())
//@endfn
}
/// EdgeRandomAccessGraph<Link>: link answers the same for the same id
trait VfEdges { spec fn edges(&self) -> Seq<Link>; fn link(&self, edge_id: EdgeId) -> (r: Link) requires edge_id < self.edges().len() ensures r == self.edges()[edge_id as int]; }
struct DefaultOpsByEdgeId();
impl<G: VfEdges> DijkstraOps<G> for DefaultOpsByEdgeId {
    type Arc = (NodeIdT, EdgeIdT);
    type PredecessorLink = ();
    spec fn w(&self, graph: &G, a: (NodeIdT, EdgeIdT)) -> Weight { graph.edges()[a.1.0 as int].weight }
    spec fn pl(&self, a: (NodeIdT, EdgeIdT)) -> () { () }
    spec fn arc_ok(&self, graph: &G, a: (NodeIdT, EdgeIdT)) -> bool { a.1.0 < graph.edges().len() }
    spec fn dflt() -> Self { DefaultOpsByEdgeId() }
    fn default() -> (r: Self) { DefaultOpsByEdgeId() }
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsByEdgeId::link
//@sig fn link(&mut self, graph: &G, _parents: &[(NodeId, ())], _tail: NodeIdT, label: &Weight, vf_arc: &(NodeIdT, EdgeIdT)) -> (r: Weight)
//@rw subopt label + graph.link($e).weight => (*label) + graph.link($e).weight
//@at start
    let EdgeIdT(link_id) = vf_arc.1;
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsByEdgeId::merge
//@sig fn merge(&mut self, label: &mut Weight, linked: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsByEdgeId::predecessor_link
//@sig fn predecessor_link(&self, _link: &(NodeIdT, EdgeIdT)) -> (r: ())
//@endfn
}
struct DefaultOpsWithLinkPath();
impl<G> DijkstraOps<G> for DefaultOpsWithLinkPath {
    type Arc = (NodeIdT, Weight, EdgeIdT);
    type PredecessorLink = EdgeIdT;
    spec fn w(&self, graph: &G, a: (NodeIdT, Weight, EdgeIdT)) -> Weight { a.1 }
    spec fn pl(&self, a: (NodeIdT, Weight, EdgeIdT)) -> EdgeIdT { a.2 }
    spec fn arc_ok(&self, graph: &G, a: (NodeIdT, Weight, EdgeIdT)) -> bool { true }
    spec fn dflt() -> Self { DefaultOpsWithLinkPath() }
    fn default() -> (r: Self) { DefaultOpsWithLinkPath() }
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsWithLinkPath::link
//@sig fn link(&mut self, _graph: &G, _parents: &[(NodeId, EdgeIdT)], _tail: NodeIdT, label: &Weight, vf_arc: &(NodeIdT, Weight, EdgeIdT)) -> (r: Weight)
//@rw subopt label + weight => (*label) + weight
//@at start
    let weight = vf_arc.1;
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsWithLinkPath::merge
//@sig fn merge(&mut self, label: &mut Weight, linked: Weight) -> (r: bool)
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraOps for DefaultOpsWithLinkPath::predecessor_link
//@sig fn predecessor_link(&self, vf_arc: &(NodeIdT, Weight, EdgeIdT)) -> (r: EdgeIdT)
//@at start
    let edge_id = vf_arc.2;
//@endfn
}

// ---------------------------------------------------------------- paths
/// the nodes of a walk and what its arcs record
spec fn wnodes<L>(g: Ag<L>, s: int, a: Seq<int>) -> Seq<NodeId> decreases a.len() { if a.len() == 0 { seq![s as u32] } else { wnodes(g, s, a.drop_last()).push(wend(g, s, a) as u32) } }
spec fn wlinks<L>(g: Ag<L>, s: int, a: Seq<int>) -> Seq<L> decreases a.len() { if a.len() == 0 { Seq::empty() } else { wlinks(g, s, a.drop_last()).push(g[wend(g, s, a.drop_last())][a.last()].2) } }
/// prepending an arc
proof fn lemma_walk_cons<L>(g: Ag<L>, u: int, k: int, b: Seq<int>)
    requires ag_ok(g), 0 <= u < g.len(), 0 <= k < g[u].len(), wok(g, g[u][k].0, b)
    ensures wok(g, u, seq![k] + b), wend(g, u, seq![k] + b) == wend(g, g[u][k].0, b), wlen(g, u, seq![k] + b) == g[u][k].1 + wlen(g, g[u][k].0, b),
        wnodes(g, u, seq![k] + b) =~= seq![u as u32] + wnodes(g, g[u][k].0, b), wlinks(g, u, seq![k] + b) =~= seq![g[u][k].2] + wlinks(g, g[u][k].0, b)
    decreases b.len()
{
    let a = seq![k] + b;
    if b.len() == 0 {
        assert(a =~= seq![k]); assert(a.drop_last() =~= Seq::empty());
        assert(wend(g, u, a.drop_last()) == u); assert(wok(g, u, a.drop_last())); assert(wlen(g, u, a.drop_last()) == 0); assert(a.last() == k); assert(wok(g, u, a));
        assert(wlinks(g, u, a.drop_last()) =~= Seq::empty());
        assert(wnodes(g, u, a.drop_last()) =~= seq![u as u32]);
    } else {
        assert(a.drop_last() =~= seq![k] + b.drop_last());
        lemma_walk_cons(g, u, k, b.drop_last());
    }
}
/// nodes is the node list of a walk from s to t of length at most len
spec fn is_node_path<L>(g: Ag<L>, s: int, t: int, nodes: Seq<NodeId>, len: int) -> bool { exists|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) <= len && wnodes(g, s, a) == nodes }
spec fn is_edge_path<L>(g: Ag<L>, s: int, t: int, links: Seq<L>, len: int) -> bool { exists|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) <= len && wlinks(g, s, a) == links }
/// ... which is then a shortest one
proof fn lemma_path_exact<L>(g: Ag<L>, s: int, d0: int, t: int, d: int, nodes: Seq<NodeId>)
    requires is_dist(g, s, d0, t, d), is_node_path(g, s, t, nodes, d - d0)
    ensures exists|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) == d - d0 && wnodes(g, s, a) == nodes
{ let a = choose|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) <= d - d0 && wnodes(g, s, a) == nodes; assert(walk(g, s, t, a)); }
/// following the predecessor of v once: what loops rely on
proof fn lemma_tree_step<L>(g: Ag<L>, s: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, tau: Seq<nat>, v: int) -> (k: int)
    requires ag_ok(g), tree_with(g, s, d, pr, tau), 0 <= v < g.len(), v != s, d[v] < CAP, d.len() == g.len()
    ensures ({ let u = pr[v].0 as int; 0 <= u < g.len() && 0 <= k < g[u].len() && g[u][k].0 == v && g[u][k].2 == pr[v].1 && d[u] + g[u][k].1 <= d[v] && d[u] < CAP && d[u] <= d[v] && (d[u] < d[v] || tau[u] < tau[v]) })
{ assert(tree_at(g, d, pr, tau, v)); let u = pr[v].0 as int; let k = choose|k: int| #[trigger] tree_arc(g, d, v, u, pr[v].1, k); assert(0 <= g[u][k].0 < g.len() && 0 <= g[u][k].1 <= CAP); k }
fn vf_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse()
{
    let ghost v0 = v@; let n = v.len(); let mut i: usize = 0;
    while i < n / 2
        invariant n == v@.len(), v@.len() == v0.len(), 0 <= i <= n / 2, forall|j: int| 0 <= j < n ==> #[trigger] v@[j] == (if j < i || j >= n - i { v0[n - 1 - j] } else { v0[j] })
        decreases n / 2 - i
    { vf_swap2(v, i, n - 1 - i); i = i + 1; }
    assert(v@ =~= v0.reverse());
}
#[verifier::external_body]
fn vf_swap2<T>(v: &mut Vec<T>, a: usize, b: usize) requires a < old(v)@.len(), b < old(v)@.len() ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]) { v.swap(a, b) }
fn vf_fill_pairs<L>(x: (NodeId, L), n: usize) -> (r: Vec<(NodeId, L)>) ensures r@ == Seq::new(n as nat, |i: int| x)
{
    let mut r: Vec<(NodeId, L)> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, r@ =~= Seq::new(i as nat, |j: int| x) decreases n - i { r.push(vf_copy(&x)); i = i + 1; }
    assert(r@ =~= Seq::new(n as nat, |i: int| x));
    r
}
impl<PredLink> DijkstraData<PredLink> {
    /// the predecessors form paths of the labelled lengths from s
    spec fn tree_for(&self, g: Ag<PredLink>, s: int) -> bool { ag_ok(g) && self.distances.wf() && self.distances@.len() == g.len() && tree(g, s, self.distances@, self.predecessors@) }
//@fn engine/src/algo/dijkstra.rs DijkstraData::new_with_pred_link
//@sig fn new_with_pred_link(n: usize, pred_link_init: PredLink) -> (r: Self)
//@rw sub vec![(n as NodeId, pred_link_init); n] => vf_fill_pairs((n as NodeId, pred_link_init), n)
//@spec
    requires n < u32::MAX
    ensures r.wf(n as int)
//@at start
    proof { lemma_state_ord(); }
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraData::node_path
//@sig fn node_path(&self, from: NodeId, to: NodeId, Ghost(g): Ghost<Ag<PredLink>>) -> (r: Vec<NodeId>)
//@rw subopt *path.last().unwrap() => path[path.len() - 1]
//@rw subopt path.reverse(); => vf_reverse(&mut path);
//@spec
    requires self.tree_for(g, from as int), from < g.len(), to < g.len(), self.distances@[to as int] < CAP
    ensures is_node_path(g, from as int, to as int, r@, self.distances@[to as int] - self.distances@[from as int])
//@at start
    let ghost d = self.distances@; let ghost pr = self.predecessors@; let ghost tau = pick_tau(g, from as int, d, pr);
    let ghost mut b: Seq<int> = Seq::empty();
    proof { lemma_tree_pick(g, from as int, d, pr, tau); }
//@at before_loop 0
    proof { assert(path@.reverse() =~= seq![to]); assert(wnodes(g, to as int, b) =~= seq![to]); }
//@loop 0
    invariant
        path@.len() > 0, tree_with(g, from as int, d, pr, tau), ag_ok(g), d.len() == g.len(), d == self.distances@, pr == self.predecessors@, path@.last() < g.len(), d[path@.last() as int] < CAP,
        walk(g, path@.last() as int, to as int, b), wlen(g, path@.last() as int, b) <= d[to as int] - d[path@.last() as int], path@.reverse() =~= wnodes(g, path@.last() as int, b),
    decreases d[path@.last() as int], tau[path@.last() as int]
//@at loop_begin 0
    let ghost v = path@.last() as int; let ghost k = lemma_tree_step(g, from as int, d, pr, tau, v);
    proof { lemma_walk_cons(g, pr[v].0 as int, k, b); b = seq![k] + b; }
//@at loop_end 0
    proof { assert(path@.drop_last().push(path@.last()) =~= path@); assert(path@.reverse() =~= seq![path@.last()] + path@.drop_last().reverse()); }
//@at after_loop 0
    proof { assert(walk(g, from as int, to as int, b)); }
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraData::edge_path
//@sig fn edge_path(&self, from: NodeId, to: NodeId, Ghost(g): Ghost<Ag<PredLink>>) -> (r: Vec<PredLink>)
//@rw subopt path.push(self.predecessors[$e].1) => path.push(vf_copy(&self.predecessors[$e].1))
//@rw subopt path.reverse(); => vf_reverse(&mut path);
//@spec
    requires self.tree_for(g, from as int), from < g.len(), to < g.len(), self.distances@[to as int] < CAP
    ensures is_edge_path(g, from as int, to as int, r@, self.distances@[to as int] - self.distances@[from as int])
//@at start
    let ghost d = self.distances@; let ghost pr = self.predecessors@; let ghost tau = pick_tau(g, from as int, d, pr);
    let ghost mut b: Seq<int> = Seq::empty();
    proof { lemma_tree_pick(g, from as int, d, pr, tau); }
//@at before_loop 0
    proof { assert(path@.reverse() =~= Seq::<PredLink>::empty()); assert(wlinks(g, to as int, b) =~= Seq::<PredLink>::empty()); }
//@loop 0
    invariant
        tree_with(g, from as int, d, pr, tau), ag_ok(g), d.len() == g.len(), d == self.distances@, pr == self.predecessors@, cur < g.len(), d[cur as int] < CAP,
        walk(g, cur as int, to as int, b), wlen(g, cur as int, b) <= d[to as int] - d[cur as int], path@.reverse() =~= wlinks(g, cur as int, b),
    decreases d[cur as int], tau[cur as int]
//@at loop_begin 0
    let ghost v = cur as int; let ghost k = lemma_tree_step(g, from as int, d, pr, tau, v); let ghost p0 = path@;
    proof { lemma_walk_cons(g, pr[v].0 as int, k, b); b = seq![k] + b; }
//@at loop_end 0
    proof { assert(path@ =~= p0.push(pr[v].1)); assert(path@.reverse() =~= seq![pr[v].1] + p0.reverse()); }
//@at after_loop 0
    proof { assert(walk(g, from as int, to as int, b)); }
//@endfn
}
