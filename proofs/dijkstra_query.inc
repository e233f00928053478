// ---------------------------------------------------------------- potentials and queries
/// weights only
spec fn plain<L>(g: Ag<L>) -> Ag<()> { Seq::new(g.len(), |u: int| Seq::new(g[u].len(), |k: int| (g[u][k].0, g[u][k].1, ()))) }
proof fn lemma_plain<L>(g: Ag<L>, t: int, p: Pot)
    requires feasible(plain(g), t, p)
    ensures feasible(g, t, p)
{
    let h = plain(g);
    assert forall|v: int| 0 <= v < g.len() && #[trigger] p(v) is Some implies p(v).unwrap() <= CAP by { }
    assert forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() implies arc_feasible(p, u, #[trigger] g[u][k]) by { assert(h[u][k] == (g[u][k].0, g[u][k].1, ())); assert(arc_feasible(p, u, h[u][k])); }
}
/// what a search may rely on: after init(target) the answers are a feasible potential towards the target for every graph the potential was made for
trait Potential: Sized {
    spec fn pot(&self) -> Pot;
    spec fn made_for(&self) -> ISet<Ag<()>>;
    spec fn accepts(&self, target: NodeId) -> bool;
    fn init(&mut self, target: NodeId)
        requires old(self).accepts(target)
        ensures final(self).made_for() == old(self).made_for(), forall|g: Ag<()>| #[trigger] old(self).made_for().contains(g) ==> feasible(g, target as int, final(self).pot());
    fn potential(&mut self, node: NodeId) -> (r: Option<Weight>)
        ensures r == (old(self).pot())(node as int), final(self).pot() == old(self).pot(), final(self).made_for() == old(self).made_for();
}
impl<P: Potential> VfPot for P { spec fn pot(&self) -> Pot { Potential::pot(self) } spec fn made_for(&self) -> ISet<Ag<()>> { Potential::made_for(self) } fn call(&mut self, node: NodeId) -> (r: Option<Weight>) { self.potential(node) } }
struct ZeroPotential();
impl Potential for ZeroPotential {
    spec fn pot(&self) -> Pot { zero_pot() }
    spec fn made_for(&self) -> ISet<Ag<()>> { ISet::new(|g: Ag<()>| ag_ok(g)) }
    spec fn accepts(&self, target: NodeId) -> bool { true }
//@fn engine/src/algo/a_star.rs Potential for ZeroPotential::init
//@sig fn init(&mut self, _target: NodeId)
//@endfn
//@fn engine/src/algo/a_star.rs Potential for ZeroPotential::potential
//@sig fn potential(&mut self, _node: NodeId) -> (r: Option<Weight>)
//@endfn
}
trait GenQuery { spec fn s(&self) -> NodeId; spec fn t(&self) -> NodeId; spec fn d0(&self) -> Weight;
    fn from(&self) -> (r: NodeId) ensures r == self.s();
    fn to(&self) -> (r: NodeId) ensures r == self.t();
    fn initial_state(&self) -> (r: Weight) ensures r == self.d0(); }
#[derive(Clone, Copy)]
//@item engine/src/algo/mod.rs struct Query
impl GenQuery for Query {
    spec fn s(&self) -> NodeId { self.from }
    spec fn t(&self) -> NodeId { self.to }
    spec fn d0(&self) -> Weight { 0 }
//@fn engine/src/algo/mod.rs GenQuery for Query::from
//@sig fn from(&self) -> (r: NodeId)
//@endfn
//@fn engine/src/algo/mod.rs GenQuery for Query::to
//@sig fn to(&self) -> (r: NodeId)
//@endfn
//@fn engine/src/algo/mod.rs GenQuery for Query::initial_state
//@sig fn initial_state(&self) -> (r: Weight)
//@endfn
}
impl DijkstraInit {
//@fn engine/src/algo/dijkstra.rs DijkstraInit::from_query
//@sig fn from_query<Q: GenQuery>(q: &Q) -> (r: Self)
//@spec
    ensures r.source.0 == q.s(), r.initial_state == q.d0()
//@endfn
//@fn engine/src/algo/dijkstra.rs DijkstraInit::from
//@sig fn from(node: NodeId) -> (r: Self)
//@spec
    ensures r.source.0 == node, r.initial_state == 0
//@endfn
}
/// the server's graph type parameter GraphBorrow is taken to be Graph itself
//@item engine/src/algo/dijkstra/query/dijkstra.rs struct Server <Graph~=~OwnedGraph,~Ops~=~DefaultOps,~P~=~ZeroPotential,~GraphBorrow~=~Graph>=><Graph,~Ops,~P> graph:~GraphBorrow=>graph:~Graph DijkstraData<Ops::Label,~Ops::PredecessorLink>=>DijkstraData<Ops::PredecessorLink>
impl<Graph, Ops, P> Server<Graph, Ops, P>
where
    Ops: DijkstraOps<Graph>,
    Graph: VfLinks<Ops::Arc>,
    P: Potential,
{
    spec fn g(&self) -> Ag<Ops::PredecessorLink> { agraph::<Ops, Graph>(&self.graph, &Ops::dflt()) }
    spec fn wf(&self) -> bool { graph_ok::<Ops, Graph>(&self.graph, &Ops::dflt()) && self.dijkstra.wf(self.graph.lists().len() as int) && self.potential.made_for().contains(plain(self.g())) }
    /// the answer of a query and the data paths are read from
    spec fn answered(&self, s: int, d0: int, t: int, r: Option<Weight>) -> bool {
        let g = self.g(); let d = self.dijkstra.distances@;
        &&& self.dijkstra.tree_for(g, s) && d[s] == d0
        &&& 0 <= t < g.len() ==> is_dist(g, s, d0, t, d[t] as int) && (r matches Some(x) ==> x == d[t] && x < CAP) && (r is None ==> d[t] == CAP)
        &&& !(0 <= t < g.len()) ==> r is None
        &&& !(0 <= t < g.len()) && (forall|v: int| 0 <= v < g.len() ==> (#[trigger] (self.potential.pot())(v)) is Some) ==> forall|v: int| 0 <= v < g.len() ==> is_dist(g, s, d0, v, #[trigger] d[v] as int)
    }
//@fn engine/src/algo/dijkstra/query/dijkstra.rs Server::with_potential
//@sig fn with_potential(graph: Graph, potential: P, pred_link_default: Ops::PredecessorLink) -> (r: Self)
//@rw sub DijkstraData::new(graph.borrow().num_nodes()) => DijkstraData::new_with_pred_link(graph.num_nodes(), pred_link_default)
//@spec
    requires graph_ok::<Ops, Graph>(&graph, &Ops::dflt()), potential.made_for().contains(plain(agraph::<Ops, Graph>(&graph, &Ops::dflt())))
    ensures r.wf(), r.graph == graph, r.potential == potential
//@endfn
//@fn engine/src/algo/dijkstra/query/dijkstra.rs Server::node_path
//@sig fn node_path<Q: GenQuery>(&self, query: Q) -> (r: Vec<NodeId>)
//@rw sub self.dijkstra.node_path($a, $b) => self.dijkstra.node_path($a, $b, Ghost(self.g()))
//@spec
    requires self.wf(), query.s() < self.g().len(), query.t() < self.g().len(), self.answered(query.s() as int, query.d0() as int, query.t() as int, Some(self.dijkstra.distances@[query.t() as int]))
    ensures is_shortest_nodes(self.g(), query.s() as int, query.t() as int, r@)
//@at start
    proof { lemma_answered_path(self.g(), self.dijkstra.distances@, query.s() as int, query.d0() as int, query.t() as int); }
//@endfn
//@fn engine/src/algo/dijkstra/query/dijkstra.rs Server::edge_path
//@sig fn edge_path<Q: GenQuery>(&self, query: Q) -> (r: Vec<Ops::PredecessorLink>)
//@rw sub self.dijkstra.edge_path($a, $b) => self.dijkstra.edge_path($a, $b, Ghost(self.g()))
//@spec
    requires self.wf(), query.s() < self.g().len(), query.t() < self.g().len(), self.answered(query.s() as int, query.d0() as int, query.t() as int, Some(self.dijkstra.distances@[query.t() as int]))
    ensures is_shortest_links(self.g(), query.s() as int, query.t() as int, r@)
//@at start
    proof { lemma_answered_path(self.g(), self.dijkstra.distances@, query.s() as int, query.d0() as int, query.t() as int); }
//@endfn
//@fn engine/src/algo/dijkstra/query/dijkstra.rs Server::one_to_all
//@sig fn one_to_all(&mut self, from: NodeId)
//@rw sub self.graph.borrow() => (&self.graph)
//@rw sub ServerWrapper(self) ===> ()
//@spec
    requires old(self).wf(), from < old(self).graph.lists().len(), old(self).potential.accepts(old(self).graph.lists().len() as u32)
    ensures final(self).wf(), final(self).graph == old(self).graph,
        (forall|v: int| 0 <= v < final(self).g().len() ==> (#[trigger] (final(self).potential.pot())(v)) is Some) ==> forall|v: int| 0 <= v < final(self).g().len() ==> is_dist(final(self).g(), from as int, 0, v, #[trigger] final(self).dijkstra.distances@[v] as int)
//@endfn
//@fn engine/src/algo/dijkstra/query/dijkstra.rs Server::distance
//@sig fn distance<Q: GenQuery>(&mut self, query: Q) -> (r: Option<Weight>)
//@rw dropcall report!($e);
//@rw whilelet
//@rw subopt let mut result = None; => let mut result: Option<Weight> = None;
//@rw sub self.graph.borrow() => &self.graph
//@rw sub dijkstra.next_step_with_potential(|$n:id| potential.potential($n)) => dijkstra.next_step_with_potential(potential, Ghost(s), Ghost(d0))
//@rw subopt num_queue_pops += 1; => vf_inc(&mut num_queue_pops);
//@spec
    requires old(self).wf(), query.s() < old(self).graph.lists().len(), query.d0() < CAP, old(self).potential.accepts(query.t())
    ensures final(self).wf(), final(self).graph == old(self).graph, final(self).answered(query.s() as int, query.d0() as int, query.t() as int, r)
//@at start
    hide(inv); hide(graph_ok); hide(agraph); hide(feasible); hide(improved); hide(exact); hide(is_dist); hide(tree); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::view); hide(IndexdMinHeap::wf); hide(plain); hide(settled); hide(DijkstraRun::inv); hide(pot_ok); hide(DijkstraRun::fresh); hide(ag_ok);
    let ghost s = query.s() as int; let ghost d0 = query.d0() as int; let ghost t = query.t() as int; let ghost g = self.g(); let ghost graph0 = self.graph;
//@at before_loop 0
    let ghost p = potential.pot(); let ghost run0 = dijkstra; let ghost n = g.len() as int;
    proof {
        lemma_agraph::<Ops, Graph>(&self.graph, &Ops::dflt(), 0);
        dijkstra.lemma_fresh(s, d0, p); dijkstra.lemma_inv(p, s, d0); dijkstra.lemma_fresh_q(s, d0); lemma_plain(g, t, p); lemma_feasible_ok(g, t, p);
    }
//@loop 0
    invariant_except_break
        result is None, 0 <= t < n && dijkstra.distances@[t] < CAP ==> dijkstra.queue@.dom().contains(t as usize),
    invariant
        dijkstra.inv(p, s, d0), d0 >= 0, dijkstra.same(run0), dijkstra.g() == g, g.len() == n, p == potential.pot(), feasible(g, t, p), pot_ok(p, n), to == t, *run0.ops == Ops::dflt(), run0.graph == &graph0, g == agraph::<Ops, Graph>(&graph0, &Ops::dflt()),
        dijkstra.distances@.len() == n, potential.made_for().contains(plain(g)),
    ensures
        0 <= t < n ==> is_dist(g, s, d0, t, dijkstra.distances@[t] as int) && (result matches Some(x) ==> x == dijkstra.distances@[t] && x < CAP) && (result is None ==> dijkstra.distances@[t] == CAP),
        !(0 <= t < n) ==> result is None && dijkstra.queue@.dom() =~= ISet::empty(),
    decreases dsum(dijkstra.distances@), qcount(dijkstra.queue@, n)
//@at loop_begin 0
    let ghost pre = dijkstra; let ghost q0 = dijkstra.queue@; let ghost dd = dijkstra.distances@;
    proof { pre.lemma_inv(p, s, d0); lemma_feasible_ok(g, t, p); lemma_inv_len(g, p, s, d0, dd, pre.predecessors@, q0); if q0.dom() =~= ISet::empty() && 0 <= t < n { lemma_none(g, p, s, d0, dd, pre.predecessors@, q0, t); } }
//@at before 0 vf_inc
    proof {
        lemma_settled(g, p, s, d0, dd, q0, dijkstra.distances@, dijkstra.queue@, node, t);
        lemma_measure(g, p, s, d0, dd, q0, dijkstra.distances@, dijkstra.queue@, node);
        dijkstra.lemma_inv(p, s, d0);
        if node == t { lemma_exact(g, p, s, d0, dd, pre.predecessors@, q0, t); }
    }
//@at past_loop 0
    proof { dijkstra.lemma_inv(p, s, d0); lemma_inv_len(g, p, s, d0, dijkstra.distances@, dijkstra.predecessors@, dijkstra.queue@); lemma_all_done(g, p, s, d0, dijkstra.distances@, dijkstra.predecessors@, dijkstra.queue@); }
//@endfn
}
proof fn lemma_settled<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, q: Qu, d2: Seq<u32>, q2: Qu, u: NodeId, t: int)
    requires settled(g, p, s, d0, d, q, d2, q2, u), d.len() == g.len(), g.len() < u32::MAX, 0 <= t < g.len() ==> p(t) is Some && (d[t] < CAP ==> q.dom().contains(t as usize)) && d[t] <= CAP
    ensures u < g.len(), d2[u as int] == d[u as int], 0 <= t < g.len() && t != u && d2[t] < CAP ==> q2.dom().contains(t as usize), q.dom().contains(u as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[u as usize].key <= q[id].key
{ if 0 <= t < g.len() && t != u { assert(d2[t] <= d[t]); if d2[t] < CAP && d[t] < CAP { assert(q.remove(u as usize).dom().contains(t as usize)); } } }
proof fn lemma_all_done<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu)
    requires inv(g, p, s, d0, d, pr, q), d0 >= 0
    ensures q.dom() =~= ISet::empty() && (forall|x: int| 0 <= x < g.len() ==> #[trigger] p(x) is Some) ==> forall|v: int| 0 <= v < g.len() ==> is_dist(g, s, d0, v, #[trigger] d[v] as int)
{ if q.dom() =~= ISet::empty() && (forall|x: int| 0 <= x < g.len() ==> #[trigger] p(x) is Some) { assert forall|v: int| 0 <= v < g.len() implies is_dist(g, s, d0, v, #[trigger] d[v] as int) by { lemma_done(g, p, s, d0, d, pr, q, v); } } }
proof fn lemma_inv_len<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu) requires inv(g, p, s, d0, d, pr, q) ensures d.len() == g.len(), ag_ok(g), g.len() < u32::MAX, d[s] == d0, 0 <= s < g.len(), tree(g, s, d, pr), forall|v: int| 0 <= v < g.len() ==> #[trigger] d[v] <= CAP { }
proof fn lemma_feasible_ok<L>(g: Ag<L>, t: int, p: Pot) requires feasible(g, t, p) ensures pot_ok(p, g.len() as int), 0 <= t < g.len() ==> p(t) == Some(0u32) { }
/// the nodes (recorded links) of a walk from s to t no other walk from s to t undercuts
spec fn is_shortest_nodes<L>(g: Ag<L>, s: int, t: int, nodes: Seq<NodeId>) -> bool { exists|a: Seq<int>| #[trigger] walk(g, s, t, a) && at_most(g, s, 0, t, wlen(g, s, a)) && wnodes(g, s, a) == nodes }
spec fn is_shortest_links<L>(g: Ag<L>, s: int, t: int, links: Seq<L>) -> bool { exists|a: Seq<int>| #[trigger] walk(g, s, t, a) && at_most(g, s, 0, t, wlen(g, s, a)) && wlinks(g, s, a) == links }
proof fn lemma_answered_path<L>(g: Ag<L>, d: Seq<u32>, s: int, d0: int, t: int)
    requires is_dist(g, s, d0, t, d[t] as int), d[s] == d0
    ensures forall|nodes: Seq<NodeId>| #[trigger] is_node_path(g, s, t, nodes, d[t] - d[s]) ==> is_shortest_nodes(g, s, t, nodes), forall|links: Seq<L>| #[trigger] is_edge_path(g, s, t, links, d[t] - d[s]) ==> is_shortest_links(g, s, t, links)
{
    assert forall|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) <= d[t] - d[s] implies at_most(g, s, 0, t, wlen(g, s, a)) by {
        assert forall|b: Seq<int>| #[trigger] walk(g, s, t, b) implies wlen(g, s, a) <= wlen(g, s, b) by { }
    }
}
