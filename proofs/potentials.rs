//@include prelude.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include_contracts index_heap.inc index_heap
//@include_contracts timestamped.inc containers
impl Clone for InRangeOption<u32> { fn clone(&self) -> (r: Self) { InRangeOption(self.0) } }
impl Reset for InRangeOption<u32> { spec fn dflt() -> Self { InRangeOption(u32::MAX) } fn vf_default() -> (r: Self) { InRangeOption(u32::MAX) } fn reset(&mut self) { *self = InRangeOption(u32::MAX); } }
//@include walk.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct NodeIdT
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct EdgeIdT
//@include state.inc
//@include_contracts dijkstra.inc dijkstra
//@include_contracts dijkstra_server.inc dijkstra
//@include updown.inc
proof fn lemma_agraph_bg<G: VfLinks<Link>>(g: &G, o: &DefaultOps)
    requires links_ok(g.lists())
    ensures agraph::<DefaultOps, G>(g, o) =~= bg(g.lists()), graph_ok::<DefaultOps, G>(g, o)
{
    lemma_bg(g.lists());
    let a = agraph::<DefaultOps, G>(g, o);
    assert forall|u: int| 0 <= u < g.lists().len() implies #[trigger] a[u] =~= bg(g.lists())[u] by { }
    assert(a =~= bg(g.lists()));
}
proof fn lemma_all_done<L>(g: Ag<L>, p: Pot, s: int, d0: int, d: Seq<u32>, pr: Seq<(NodeId, L)>, q: Qu)
    requires inv(g, p, s, d0, d, pr, q), d0 >= 0
    ensures q.dom() =~= ISet::empty() && (forall|x: int| 0 <= x < g.len() ==> #[trigger] p(x) is Some) ==> forall|v: int| 0 <= v < g.len() ==> is_dist(g, s, d0, v, #[trigger] d[v] as int)
{ if q.dom() =~= ISet::empty() && (forall|x: int| 0 <= x < g.len() ==> #[trigger] p(x) is Some) { assert forall|v: int| 0 <= v < g.len() implies is_dist(g, s, d0, v, #[trigger] d[v] as int) by { lemma_done(g, p, s, d0, d, pr, q, v); } } }
impl DijkstraInit {
//@fn engine/src/algo/dijkstra.rs DijkstraInit::from
//@sig fn from(node: NodeId) -> (r: Self)
//@spec
    ensures r.source.0 == node, r.initial_state == 0
//@endfn
}
//@include potential.inc
// ---------------------------------------------------------------- wrappers
struct ZeroPotential();
impl Potential for ZeroPotential {
    spec fn pre(&self) -> bool { true }
    spec fn has(&self, node: int) -> bool { true }
    spec fn after(&self, target: int) -> bool { true }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { r == Some(0u32) }
//@fn engine/src/algo/a_star.rs Potential for ZeroPotential::init
//@endfn
//@fn engine/src/algo/a_star.rs Potential for ZeroPotential::potential
//@sig fn potential(&mut self, _node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@endfn
}
//@item engine/src/algo/a_star.rs struct TurnExpandedPotential Potential>=>P> potential:~Potential=>potential:~P
impl<P: Potential> Potential for TurnExpandedPotential<P> {
    spec fn pre(&self) -> bool { self.potential.pre() }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.tail@.len() && self.potential.has(self.tail@[node] as int) }
    spec fn after(&self, target: int) -> bool { self.potential.after(self.tail@[target] as int) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { self.potential.says(self.tail@[target] as int, self.tail@[node] as int, r) }
//@fn engine/src/algo/a_star.rs Potential for TurnExpandedPotential::init
//@endfn
//@fn engine/src/algo/a_star.rs Potential for TurnExpandedPotential::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw subopt self.potential.potential($e) ===> self.potential.potential($e, Ghost(self.tail@[t] as int))
//@endfn
}
//@item engine/src/algo/a_star.rs struct RecyclingPotential Potential>=>P> potential:~Potential=>potential:~P
impl<P: Potential> RecyclingPotential<P> {
//@fn engine/src/algo/a_star.rs RecyclingPotential::new
//@spec
    requires potential.pre()
    ensures r.pre(), r.potential == potential
//@endfn
}
impl<P: Potential> Potential for RecyclingPotential<P> {
    /// the target remembered is one the inner potential answers for
    spec fn pre(&self) -> bool { self.potential.pre() && (self.target matches Some(t) ==> self.potential.after(t as int) && self.potential.has(t as int)) }
    spec fn has(&self, node: int) -> bool { 0 <= node <= u32::MAX && self.potential.has(node) }
    spec fn after(&self, target: int) -> bool { 0 <= target <= u32::MAX && self.target == Some(target as u32) && self.potential.after(target) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { self.potential.says(target, node, r) }
//@fn engine/src/algo/a_star.rs Potential for RecyclingPotential::init
//@rw subopt self.target != Some(target) => !vf_is(self.target, target)
//@endfn
//@fn engine/src/algo/a_star.rs Potential for RecyclingPotential::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw subopt self.potential.potential($e) ===> self.potential.potential($e, Ghost(t))
//@endfn
}
fn vf_is(a: Option<NodeId>, b: NodeId) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }
//@item engine/src/algo/a_star.rs struct PotentialForPermutated
impl<P: Potential> Potential for PotentialForPermutated<P> {
    spec fn pre(&self) -> bool { self.potential.pre() && self.order.wf() }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.order.n() && self.potential.has(self.order.node_order@[node] as int) }
    spec fn after(&self, target: int) -> bool { self.potential.after(self.order.node_order@[target] as int) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { self.potential.says(self.order.node_order@[target] as int, self.order.node_order@[node] as int, r) }
//@fn engine/src/algo/a_star.rs Potential for PotentialForPermutated::init
//@endfn
//@fn engine/src/algo/a_star.rs Potential for PotentialForPermutated::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw subopt self.potential.potential($e) ===> self.potential.potential($e, Ghost(self.order.node_order@[t] as int))
//@endfn
}
// ---------------------------------------------------------------- Dijkstra on the reversed graph
/// every arc of g lies reversed in h
spec fn mirrors(g: Ag<()>, h: Ag<()>) -> bool { g.len() == h.len() && forall|u: int, k: int| 0 <= u < g.len() && 0 <= k < g[u].len() ==> has_arc(h, (#[trigger] g[u][k]).0, u, g[u][k].1) }
spec fn has_arc(h: Ag<()>, v: int, u: int, w: int) -> bool { exists|k: int| 0 <= k < h[v].len() && (#[trigger] h[v][k]).0 == u && h[v][k].1 == w }
proof fn lemma_mirror(g: Ag<()>, h: Ag<()>, s: int, a: Seq<int>) -> (b: Seq<int>)
    requires ag_ok(g), ag_ok(h), mirrors(g, h), 0 <= s < g.len(), wok(g, s, a)
    ensures walk(h, wend(g, s, a), s, b), wlen(h, wend(g, s, a), b) == wlen(g, s, a)
    decreases a.len()
{
    if a.len() == 0 { assert(wend(h, s, Seq::empty()) == s); Seq::empty() }
    else {
        let a0 = a.drop_last(); let u = wend(g, s, a0); let k = a.last();
        lemma_walk_range(g, s, a0);
        let b0 = lemma_mirror(g, h, s, a0);
        let v = g[u][k].0;
        assert(has_arc(h, v, u, g[u][k].1));
        let j = choose|j: int| 0 <= j < h[v].len() && (#[trigger] h[v][j]).0 == u && h[v][j].1 == g[u][k].1;
        lemma_cons(h, v, j, b0);
        seq![j] + b0
    }
}
/// distances from t in the reversed graph are distances to t
proof fn prop_reversed(g: Ag<()>, h: Ag<()>, t: int, v: int, d: int)
    requires ag_ok(g), ag_ok(h), mirrors(g, h), mirrors(h, g), 0 <= t < g.len(), 0 <= v < g.len(), is_dist(h, t, 0, v, d)
    ensures is_dist(g, v, 0, t, d)
{
    assert forall|a: Seq<int>| #[trigger] walk(g, v, t, a) implies d <= 0 + wlen(g, v, a) by { let b = lemma_mirror(g, h, v, a); assert(walk(h, t, v, b)); }
    if d < CAP { let b = choose|b: Seq<int>| #[trigger] walk(h, t, v, b) && 0 + wlen(h, t, b) == d; let a = lemma_mirror(h, g, t, b); assert(walk(g, v, t, a)); }
}
spec fn all_dist(g: Ag<()>, t: int, d: Seq<u32>) -> bool { d.len() == g.len() && forall|v: int| 0 <= v < g.len() ==> is_dist(g, t, 0, v, #[trigger] d[v] as int) }
/// OwnedGraph as far as the potential uses it
//@item engine/src/algo/a_star.rs struct BaselinePotential BaselinePotential=>BaselinePotential<G> OwnedGraph=>G DijkstraData<Weight>=>DijkstraData<()>
impl<G: VfLinks<Link>> Potential for BaselinePotential<G> {
    spec fn pre(&self) -> bool { links_ok(self.graph.lists()) && self.data.wf(self.graph.lists().len() as int) }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.graph.lists().len() }
    spec fn after(&self, target: int) -> bool { all_dist(bg(self.graph.lists()), target, self.data.distances@) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { is_dist(bg(self.graph.lists()), target, 0, node, match r { Some(d) => d as int, None => CAP }) && (r matches Some(d) ==> d < INFINITY) }
//@fn engine/src/algo/a_star.rs Potential for BaselinePotential::init
//@rw sub report_time_with_key($a, $b, || $c) ===> $c
//@rw sub let dijkstra = => let mut dijkstra =
//@rw sub for _ in dijkstra {} ===> loop { let vf_u = dijkstra.next(Ghost(t), Ghost(0)); if vf_u.is_none() { break; } }
//@at start
    hide(inv); hide(graph_ok); hide(agraph); hide(improved); hide(exact); hide(is_dist); hide(tree); hide(settled); hide(DijkstraRun::inv); hide(DijkstraRun::fresh); hide(ag_ok); hide(links_ok);
    let ghost t = target as int;
    let ghost n = self.graph.lists().len() as int;
    let ghost f = bg(self.graph.lists());
    proof { assert(links_ok(self.graph.lists())); lemma_bg(self.graph.lists()); lemma_agraph_bg::<G>(&self.graph, &DefaultOps()); assert(n < u32::MAX) by { reveal(links_ok); } }
//@at before_loop 0
    let ghost run0 = dijkstra;
    proof { dijkstra.lemma_fresh(t, 0, zero_pot()); dijkstra.lemma_inv(zero_pot(), t, 0); assert(dijkstra.g() == f); }
//@loop 0
    invariant dijkstra.inv(zero_pot(), t, 0), dijkstra.same(run0), dijkstra.g() == f, f.len() == n, n < u32::MAX, dijkstra.dist().len() == n,
    ensures dijkstra.qu().dom() =~= ISet::empty()
    decreases dsum(dijkstra.dist()), qcount(dijkstra.qu(), n)
//@at loop_begin 0
    let ghost pre = dijkstra;
    proof { pre.lemma_inv(zero_pot(), t, 0); }
//@at loop_end 0
    proof { dijkstra.lemma_inv(zero_pot(), t, 0); lemma_measure(f, zero_pot(), t, 0, pre.dist(), pre.qu(), dijkstra.dist(), dijkstra.qu(), vf_u->0); }
//@at past_loop 0
    let ghost df = dijkstra.dist();
    proof { dijkstra.lemma_inv(zero_pot(), t, 0); lemma_all_done(f, zero_pot(), t, 0, df, dijkstra.preds(), dijkstra.qu()); }
//@endfn
//@fn engine/src/algo/a_star.rs Potential for BaselinePotential::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw sub self.data.distances[$e] ===> *self.data.distances.index($e)
//@endfn
}
// ---------------------------------------------------------------- contraction hierarchies
/// known values are lengths of shortest up-down walks
spec fn known_ok(b: Ag<()>, f: Ag<()>, t: int, p: Seq<InRangeOption<u32>>) -> bool { p.len() == f.len() && forall|v: int| 0 <= v < p.len() && (#[trigger] p[v])@ is Some ==> ud(b, f, t, v, p[v]@->0 as int) }
spec fn at(p: Seq<InRangeOption<u32>>) -> spec_fn(int) -> int { |v: int| if 0 <= v < p.len() && p[v]@ is Some { p[v]@->0 as int } else { CAP } }
fn vf_last(v: &Vec<u32>) -> (r: Option<u32>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()) { if v.len() == 0 { None } else { Some(v[v.len() - 1]) } }
spec fn top_ok(st: Seq<u32>, node: u32, n: int, p: Seq<InRangeOption<u32>>) -> bool { (forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) < n) && (st.len() == 0 ==> p[node as int]@ is Some) && (st.len() > 0 ==> st[0] == node) }
spec fn grown(st: Seq<u32>, st2: Seq<u32>, n: int) -> bool { st2.len() >= st.len() && (forall|i: int| 0 <= i < st.len() ==> st2[i] == #[trigger] st[i]) && (forall|i: int| 0 <= i < st2.len() ==> (#[trigger] st2[i]) < n) }
proof fn lemma_step(b: Ag<()>, ls: Lk, t: int, v: int, k: int, df: int, d: u32, p: Seq<InRangeOption<u32>>, d2: u32)
    requires links_ok(ls), b.len() == ls.len(), known_ok(b, bg(ls), t, p), 0 <= v < ls.len(), 0 <= k < ls[v].len(), p[ls[v][k].node as int]@ is Some, sweep(b, bg(ls), t, v, k, df, d as int, at(p)),
        d2 == (if p[ls[v][k].node as int]@->0 + ls[v][k].weight < d { p[ls[v][k].node as int]@->0 + ls[v][k].weight } else { d as int })
    ensures sweep(b, bg(ls), t, v, k + 1, df, d2 as int, at(p))
{ lemma_bg(ls); let h = ls[v][k].node as int; assert(bg(ls)[v][k] == (h, ls[v][k].weight as int, ())); assert(h < ls.len()); assert(ud(b, bg(ls), t, h, p[h]@->0 as int)); assert(at(p)(h) == p[h]@->0); lemma_sweep_step(b, bg(ls), t, v, k, df, d as int, at(p), d2 as int); }
proof fn lemma_value(b: Ag<()>, ls: Lk, t: int, v: int, df: Seq<u32>, d: u32, p: Seq<InRangeOption<u32>>)
    requires links_ok(ls), b.len() == ls.len(), ag_ok(b), known_ok(b, bg(ls), t, p), all_dist(b, t, df), 0 <= v < ls.len(), forall|k: int| 0 <= k < ls[v].len() ==> p[(#[trigger] ls[v][k]).node as int]@ is Some, sweep(b, bg(ls), t, v, ls[v].len() as int, df[v] as int, d as int, at(p))
    ensures ud(b, bg(ls), t, v, d as int)
{
    lemma_bg(ls); let f = bg(ls); let r = at(p);
    assert forall|j: int| 0 <= j < f[v].len() implies ud(b, f, t, (#[trigger] f[v][j]).0, r(f[v][j].0)) by { let h = ls[v][j].node as int; assert(f[v][j] == (h, ls[v][j].weight as int, ())); assert(p[h]@ is Some); assert(r(h) == p[h]@->0); }
    assert(is_dist(b, t, 0, v, df[v] as int));
    lemma_sweep_done(b, f, t, v, df[v] as int, d as int, r);
}
proof fn lemma_known_le(b: Ag<()>, f: Ag<()>, t: int, p: Seq<InRangeOption<u32>>, v: int) requires known_ok(b, f, t, p), 0 <= v < p.len(), p[v]@ is Some ensures p[v]@->0 <= CAP, ud(b, f, t, v, p[v]@->0 as int) { }
proof fn lemma_known_set(b: Ag<()>, f: Ag<()>, t: int, p: Seq<InRangeOption<u32>>, v: int, x: InRangeOption<u32>) requires known_ok(b, f, t, p), 0 <= v < p.len(), x@ matches Some(d) && ud(b, f, t, v, d as int) ensures known_ok(b, f, t, p.update(v, x)) { }
proof fn lemma_dist_le(g: Ag<()>, t: int, d: Seq<u32>, v: int) requires all_dist(g, t, d), 0 <= v < g.len() ensures d[v] <= CAP, is_dist(g, t, 0, v, d[v] as int), d.len() == g.len() { }
proof fn lemma_link_le(ls: Lk, u: int, k: int) requires links_ok(ls), 0 <= u < ls.len(), 0 <= k < ls[u].len() ensures ls[u][k].node < ls.len(), ls[u][k].weight <= INFINITY { }
//@item engine/src/algo/ch_potentials.rs struct CHPotential DijkstraData<Weight>=>DijkstraData<()>
impl<GF: VfLinks<Link>, GB: VfLinks<Link>> CHPotential<GF, GB> {
    spec fn fl(&self) -> Lk { self.forward.lists() }
    spec fn bl(&self) -> Lk { self.backward.lists() }
    spec fn n(&self) -> int { self.fl().len() as int }
//@fn engine/src/algo/ch_potentials.rs CHPotential::num_pot_computations
//@endfn
//@fn engine/src/algo/ch_potentials.rs CHPotential::new
//@rw subopt DijkstraData::new(n) => DijkstraData::new_with_pred_link(n, ())
//@spec
    requires links_ok(forward.lists()), links_ok(backward.lists()), forward.lists().len() == backward.lists().len(), order.wf(), order.n() == forward.lists().len()
    ensures r.pre(), r.forward == forward, r.backward == backward, r.order == order
//@endfn
}
#[verifier::external_body]
fn vf_count(a: usize) -> usize { a + 1 }
impl<GF: VfLinks<Link>, GB: VfLinks<Link>> Potential for CHPotential<GF, GB> {
    spec fn pre(&self) -> bool { links_ok(self.fl()) && links_ok(self.bl()) && self.fl().len() == self.bl().len() && self.order.wf() && self.order.n() == self.n() && self.potentials.wf() && self.potentials@.len() == self.n() && self.dijkstra_data.wf(self.n()) && self.stack@.len() == 0 }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.n() }
    spec fn after(&self, target: int) -> bool { let t = self.order.ranks@[target] as int; 0 <= t < self.n() && all_dist(bg(self.bl()), t, self.dijkstra_data.distances@) && known_ok(bg(self.bl()), bg(self.fl()), t, self.potentials@) }
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { ud(bg(self.bl()), bg(self.fl()), self.order.ranks@[target] as int, self.order.ranks@[node] as int, match r { Some(d) => d as int, None => CAP }) && (r matches Some(d) ==> d < INFINITY) }
//@fn engine/src/algo/ch_potentials.rs Potential for CHPotential::init
//@rw sub for _ in DijkstraRun::query($a) {} ===> let mut dijkstra = DijkstraRun::query($a); loop { let vf_u = dijkstra.next(Ghost(t), Ghost(0)); if vf_u.is_none() { break; } }
//@at start
    hide(inv); hide(graph_ok); hide(agraph); hide(improved); hide(exact); hide(is_dist); hide(tree); hide(settled); hide(DijkstraRun::inv); hide(DijkstraRun::fresh); hide(ag_ok); hide(links_ok);
    let ghost t = self.order.ranks@[target as int] as int;
    let ghost n = self.bl().len() as int;
    let ghost f = bg(self.bl());
    proof { assert(links_ok(self.bl())); lemma_bg(self.bl()); lemma_agraph_bg::<GB>(&self.backward, &DefaultOps()); assert(n < u32::MAX) by { reveal(links_ok); } }
//@at before_loop 0
    let ghost run0 = dijkstra;
    proof { dijkstra.lemma_fresh(t, 0, zero_pot()); dijkstra.lemma_inv(zero_pot(), t, 0); assert(dijkstra.g() == f); }
//@loop 0
    invariant dijkstra.inv(zero_pot(), t, 0), dijkstra.same(run0), dijkstra.g() == f, f.len() == n, n < u32::MAX, dijkstra.dist().len() == n,
    ensures dijkstra.qu().dom() =~= ISet::empty()
    decreases dsum(dijkstra.dist()), qcount(dijkstra.qu(), n)
//@at loop_begin 0
    let ghost pre = dijkstra;
    proof { pre.lemma_inv(zero_pot(), t, 0); }
//@at loop_end 0
    proof { dijkstra.lemma_inv(zero_pot(), t, 0); lemma_measure(f, zero_pot(), t, 0, pre.dist(), pre.qu(), dijkstra.dist(), dijkstra.qu(), vf_u->0); }
//@at past_loop 0
    let ghost df = dijkstra.dist();
    proof { dijkstra.lemma_inv(zero_pot(), t, 0); lemma_all_done(f, zero_pot(), t, 0, df, dijkstra.preds(), dijkstra.qu()); }
//@endfn
//@fn engine/src/algo/ch_potentials.rs Potential for CHPotential::potential
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@sig fn potential(&mut self, node: NodeId, Ghost(vf_t): Ghost<int>) -> (r: Option<u32>)
//@rw sub while let Some(&node) = self.stack.last() => while let Some(node) = vf_last(&self.stack)
//@rw sub LinkIterable::<Link>::link_iter($g, $u) => vf_seq_links($g, $u)
//@rw sub self.num_pot_computations += $e; => self.num_pot_computations = vf_count(self.num_pot_computations);
//@rw sub self.potentials[$e] = $v; ===> *self.potentials.index_mut($e) = $v;
//@rw sub self.potentials[$e] ===> self.potentials.index($e)
//@rw sub self.dijkstra_data.distances[$e] ===> *self.dijkstra_data.distances.index($e)
//@rw for
//@rw whilelet
//@at start
    hide(is_dist); hide(ag_ok); hide(links_ok); hide(ud); hide(sweep); hide(known_ok); hide(all_dist); hide(bg); hide(DijkstraData::wf); hide(TimestampedVector::wf); hide(TimestampedVector::view);
    let ghost me = *self;
    let ghost t = self.order.ranks@[vf_t] as int;
    let ghost (ls, b, f, n) = (self.fl(), bg(self.bl()), bg(self.fl()), self.n());
    let ghost df = self.dijkstra_data.distances@;
    proof { lemma_bg(self.fl()); lemma_bg(self.bl()); }
//@at before 0 self.stack.push(node);
    let ghost start = node;
//@loop 0
    invariant
        self.forward == me.forward, self.backward == me.backward, self.order == me.order, self.dijkstra_data == me.dijkstra_data, me.pre(), ls == me.fl(), b == bg(me.bl()), f == bg(ls), n == ls.len(), b.len() == n, f.len() == n, ag_ok(b), links_ok(ls), eq_ok::<u32>(), df == me.dijkstra_data.distances@, 
        self.potentials.wf(), self.potentials@.len() == n, known_ok(b, f, t, self.potentials@), all_dist(b, t, df), start < n, top_ok(self.stack@, start, n, self.potentials@),
    ensures self.stack@.len() == 0
//@at loop_begin 0
    let ghost st0 = self.stack@;
    let ghost p0 = self.potentials@;
//@at before 0 let mut dist
    proof { lemma_dist_le(b, t, df, node as int); lemma_sweep_start(b, f, t, node as int, df[node as int] as int, at(p0)); reveal(DijkstraData::wf); }
//@loop 1
    invariant
        vf_i1 <= vf_it1@.len(), node < n, vf_it1@ == ls[node as int], self.forward == me.forward, self.backward == me.backward, self.order == me.order, self.dijkstra_data == me.dijkstra_data, self.potentials.wf(), self.potentials@ == p0, p0.len() == n, links_ok(ls), n == ls.len(), b.len() == n, f == bg(ls), known_ok(b, f, t, p0), eq_ok::<u32>(),
        grown(st0, self.stack@, n), !missing ==> self.stack@ == st0 && sweep(b, f, t, node as int, vf_i1 as int, df[node as int] as int, dist as int, at(p0)) && (forall|k: int| 0 <= k < vf_i1 ==> p0[(#[trigger] ls[node as int][k]).node as int]@ is Some), dist <= CAP,
    decreases vf_it1@.len() - vf_i1
//@at loop_begin 1
    let ghost d0 = dist;
    let ghost st1 = self.stack@;
    proof { let k = vf_i1 as int; lemma_link_le(ls, node as int, k); let h = ls[node as int][k].node as int; if p0[h]@ is Some { lemma_known_le(b, f, t, p0, h); } }
//@at loop_end 1
    proof { let k = vf_i1 - 1; if !missing { lemma_step(b, ls, t, node as int, k, df[node as int] as int, d0, p0, dist); } }
//@at past_loop 1
    proof { if !missing { lemma_value(b, self.fl(), t, node as int, df, dist, p0); } }
//@at after 0 *self.potentials.index_mut(node as usize) = InRangeOption::some(dist);
    proof { lemma_known_set(b, f, t, p0, node as int, self.potentials@[node as int]); assert(self.potentials@ =~= p0.update(node as int, self.potentials@[node as int])); }
//@at end
    proof { lemma_known_le(b, f, t, self.potentials@, node as int); assert(dist == self.potentials@[node as int]@->0); assert(CAP == INFINITY); }
//@endfn
}
// ---------------------------------------------------------------- landmarks
fn vf_satsub(a: &u32, b: u32) -> (r: u32) ensures r == (if *a > b { *a - b } else { 0 }) { if *a > b { *a - b } else { 0 } }
fn vf_maxo(m: Option<u32>, x: u32) -> (r: Option<u32>) ensures r == Some(if m matches Some(y) && y > x { m->0 } else { x }) { match m { Some(y) => if y > x { Some(y) } else { Some(x) }, None => Some(x) } }
fn vf_slice(s: &[u32], a: usize, b: usize) -> (r: &[u32]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { vstd::slice::slice_subrange(s, a, b) }
spec fn sat(a: u32, b: u32) -> int { if a > b { a - b } else { 0 } }
/// the rows of a table with k columns
spec fn cell(d: Seq<u32>, k: int, v: int, i: int) -> u32 { d[v * k + i] }
spec fn table_ok(d: Seq<u32>, k: int, n: int) -> bool { k > 0 && n >= 0 && d.len() == n * k }
proof fn lemma_row(k: int, n: int, v: int) requires k > 0, 0 <= v < n ensures 0 <= v * k, v * k + k <= n * k { assert(v * k + k <= n * k && 0 <= v * k) by (nonlinear_arith) requires k > 0, 0 <= v < n; }
/// the largest saturating difference over the first i landmarks towards and the first j landmarks from a node
spec fn up_to(f: Seq<u32>, b: Seq<u32>, k: int, v: int, t: int, i: int, j: int, m: Option<u32>) -> bool {
    &&& m is None <==> i <= 0 && j <= 0
    &&& forall|l: int| 0 <= l < i ==> m is Some && m->0 >= sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l))
    &&& forall|l: int| 0 <= l < j ==> m is Some && m->0 >= sat(#[trigger] cell(b, k, v, l), cell(b, k, t, l))
    &&& m is Some ==> (exists|l: int| 0 <= l < i && m->0 == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l))) || (exists|l: int| 0 <= l < j && m->0 == sat(#[trigger] cell(b, k, v, l), cell(b, k, t, l)))
}
proof fn lemma_up_f(f: Seq<u32>, b: Seq<u32>, k: int, v: int, t: int, i: int, m: Option<u32>, m2: Option<u32>)
    requires up_to(f, b, k, v, t, i, 0, m), 0 <= i < k, ({ let x = sat(cell(f, k, t, i), cell(f, k, v, i)); m2 is Some && m2->0 == (if m is Some && m->0 > x { m->0 as int } else { x }) })
    ensures up_to(f, b, k, v, t, i + 1, 0, m2)
{ if m is Some && m->0 == m2->0 { if exists|l: int| 0 <= l < i && m->0 == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l)) { let l = choose|l: int| 0 <= l < i && m->0 == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l)); assert(m2->0 == sat(cell(f, k, t, l), cell(f, k, v, l))); } } else { assert(m2->0 == sat(cell(f, k, t, i), cell(f, k, v, i))); } }
proof fn lemma_up_b(f: Seq<u32>, b: Seq<u32>, k: int, v: int, t: int, j: int, m: Option<u32>, m2: Option<u32>)
    requires up_to(f, b, k, v, t, k, j, m), 0 <= j < k, ({ let x = sat(cell(b, k, v, j), cell(b, k, t, j)); m2 is Some && m2->0 == (if m is Some && m->0 > x { m->0 as int } else { x }) })
    ensures up_to(f, b, k, v, t, k, j + 1, m2)
{
    if m is Some && m->0 == m2->0 {
        if exists|l: int| 0 <= l < k && m->0 == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l)) { let l = choose|l: int| 0 <= l < k && m->0 == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l)); assert(m2->0 == sat(cell(f, k, t, l), cell(f, k, v, l))); }
        else { let l = choose|l: int| 0 <= l < j && m->0 == sat(#[trigger] cell(b, k, v, l), cell(b, k, t, l)); assert(m2->0 == sat(cell(b, k, v, l), cell(b, k, t, l))); }
    } else { assert(m2->0 == sat(cell(b, k, v, j), cell(b, k, t, j))); }
}
//@item engine/src/algo/alt.rs struct ALTPotential
impl ALTPotential<'_> {
    spec fn k(&self) -> int { self.num_landmarks as int }
    spec fn n(&self) -> int { self.landmark_forward_distances@.len() as int / self.k() }
    spec fn wf(&self) -> bool { table_ok(self.landmark_forward_distances@, self.k(), self.n()) && table_ok(self.landmark_backward_distances@, self.k(), self.n()) }
//@fn engine/src/algo/alt.rs ALTPotential::landmark_dists_to
//@rw sub &self.landmark_forward_distances[$a..$b] ===> vf_slice(self.landmark_forward_distances, $a, $b)
//@spec
    requires self.wf(), 0 <= node < self.n()
    ensures r@.len() == self.k(), forall|i: int| 0 <= i < self.k() ==> #[trigger] r@[i] == cell(self.landmark_forward_distances@, self.k(), node as int, i)
//@at start
    proof { lemma_row(self.k(), self.n(), node as int); assert(self.landmark_forward_distances.len() == self.landmark_forward_distances@.len()); assert(self.landmark_backward_distances.len() == self.landmark_backward_distances@.len()); }
//@endfn
//@fn engine/src/algo/alt.rs ALTPotential::landmark_dists_from
//@rw sub &self.landmark_backward_distances[$a..$b] ===> vf_slice(self.landmark_backward_distances, $a, $b)
//@spec
    requires self.wf(), 0 <= node < self.n()
    ensures r@.len() == self.k(), forall|i: int| 0 <= i < self.k() ==> #[trigger] r@[i] == cell(self.landmark_backward_distances@, self.k(), node as int, i)
//@at start
    proof { lemma_row(self.k(), self.n(), node as int); assert(self.landmark_forward_distances.len() == self.landmark_forward_distances@.len()); assert(self.landmark_backward_distances.len() == self.landmark_backward_distances@.len()); }
//@endfn
}
impl Potential for ALTPotential<'_> {
    spec fn pre(&self) -> bool { self.wf() }
    spec fn has(&self, node: int) -> bool { 0 <= node < self.n() && node <= u32::MAX }
    spec fn after(&self, target: int) -> bool { self.target == target }
    /// the largest difference any landmark proves; nothing if that is infinite
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool { exists|m: u32| #[trigger] up_to(self.landmark_forward_distances@, self.landmark_backward_distances@, self.k(), node, target, self.k(), self.k(), Some(m)) && r == (if m < INFINITY { Some(m) } else { None }) }
//@fn engine/src/algo/alt.rs Potential for ALTPotential::init
//@endfn
//@fn engine/src/algo/alt.rs Potential for ALTPotential::potential
//@sig fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
//@rw sub let max_pot = $a.iter().zip($b.iter()).map(|(node_dist, target_dist)| $ea).chain($c.iter().zip($d.iter()).map(|(node_dist, target_dist)| $eb),).max().unwrap(); ===> let mut vf_m: Option<Weight> = None; let vf_a = $a; let vf_b = $b; let mut vf_i: usize = 0; while vf_i < vf_a.len() && vf_i < vf_b.len() { let node_dist = &vf_a[vf_i]; let target_dist = &vf_b[vf_i]; vf_m = vf_maxo(vf_m, $ea); vf_i = vf_i + 1; } let vf_c = $c; let vf_d = $d; let mut vf_j: usize = 0; while vf_j < vf_c.len() && vf_j < vf_d.len() { let node_dist = &vf_c[vf_j]; let target_dist = &vf_d[vf_j]; vf_m = vf_maxo(vf_m, $eb); vf_j = vf_j + 1; } let max_pot = vf_m.unwrap();
//@rw sub $x:id.saturating_sub($y) ===> vf_satsub($x, $y)
//@at start
    let ghost (f, b, k, v) = (self.landmark_forward_distances@, self.landmark_backward_distances@, self.k(), node as int);
//@loop 0
    invariant vf_i <= k, vf_a@.len() == k, vf_b@.len() == k, k > 0, up_to(f, b, k, v, t, vf_i as int, 0, vf_m), forall|i: int| 0 <= i < k ==> #[trigger] vf_a@[i] == cell(f, k, v, i), forall|i: int| 0 <= i < k ==> #[trigger] vf_b@[i] == cell(f, k, t, i),
    decreases k - vf_i
//@at loop_begin 0
    let ghost m0 = vf_m;
//@at loop_end 0
    proof { lemma_up_f(f, b, k, v, t, vf_i - 1, m0, vf_m); }
//@loop 1
    invariant vf_j <= k, vf_c@.len() == k, vf_d@.len() == k, k > 0, up_to(f, b, k, v, t, k, vf_j as int, vf_m), forall|i: int| 0 <= i < k ==> #[trigger] vf_c@[i] == cell(b, k, v, i), forall|i: int| 0 <= i < k ==> #[trigger] vf_d@[i] == cell(b, k, t, i),
    decreases k - vf_j
//@at loop_begin 1
    let ghost m1 = vf_m;
//@at loop_end 1
    proof { lemma_up_b(f, b, k, v, t, vf_j - 1, m1, vf_m); }
//@endfn
}
/// the tables hold the distances from and to the landmarks
spec fn tables<'a>(p: ALTPotential<'a>, g: Ag<()>, lm: Seq<int>) -> bool {
    &&& p.wf() && ag_ok(g) && p.n() == g.len() && lm.len() == p.k()
    &&& forall|i: int| 0 <= i < lm.len() ==> 0 <= #[trigger] lm[i] < g.len()
    &&& forall|i: int, v: int| 0 <= i < lm.len() && 0 <= v < g.len() ==> is_dist(g, lm[i], 0, v, #[trigger] cell(p.landmark_forward_distances@, p.k(), v, i) as int)
    &&& forall|i: int, v: int| 0 <= i < lm.len() && 0 <= v < g.len() ==> is_dist(g, v, 0, lm[i], #[trigger] cell(p.landmark_backward_distances@, p.k(), v, i) as int)
}
proof fn lemma_triangle(g: Ag<()>, a: int, b: int, c: int, ab: int, bc: int, ac: int)
    requires ag_ok(g), 0 <= a < g.len(), 0 <= b < g.len(), is_dist(g, a, 0, b, ab), is_dist(g, b, 0, c, bc), is_dist(g, a, 0, c, ac)
    ensures ac <= ab + bc
{
    if ab < CAP && bc < CAP {
        let x = choose|x: Seq<int>| #[trigger] walk(g, a, b, x) && 0 + wlen(g, a, x) == ab;
        let y = choose|y: Seq<int>| #[trigger] walk(g, b, c, y) && 0 + wlen(g, b, y) == bc;
        lemma_cat(g, a, x, y);
        assert(walk(g, a, c, x + y));
    } else {
        if ab < CAP { let x = choose|x: Seq<int>| #[trigger] walk(g, a, b, x) && 0 + wlen(g, a, x) == ab; lemma_walk_range(g, a, x); }
        if bc < CAP { let y = choose|y: Seq<int>| #[trigger] walk(g, b, c, y) && 0 + wlen(g, b, y) == bc; lemma_walk_range(g, b, y); }
    }
}
proof fn lemma_cat(g: Ag<()>, s: int, a: Seq<int>, b: Seq<int>)
    requires wok(g, s, a), wok(g, wend(g, s, a), b)
    ensures wok(g, s, a + b), wend(g, s, a + b) == wend(g, wend(g, s, a), b), wlen(g, s, a + b) == wlen(g, s, a) + wlen(g, wend(g, s, a), b)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cat(g, s, a, b.drop_last()); } }
/// landmark potentials never exceed the distance to the target
proof fn prop_admissible<'a>(p: ALTPotential<'a>, g: Ag<()>, lm: Seq<int>, t: int, v: int, r: Option<u32>, d: int)
    requires tables(p, g, lm), 0 <= t < g.len(), 0 <= v < g.len(), p.says(t, v, r), is_dist(g, v, 0, t, d)
    ensures r matches Some(x) ==> x <= d, r is None ==> d == CAP
{
    let (f, b, k) = (p.landmark_forward_distances@, p.landmark_backward_distances@, p.k());
    let m = choose|m: u32| #[trigger] up_to(f, b, k, v, t, k, k, Some(m)) && r == (if m < INFINITY { Some(m) } else { None });
    if d < CAP { let x = choose|x: Seq<int>| #[trigger] walk(g, v, t, x) && 0 + wlen(g, v, x) == d; lemma_walk_range(g, v, x); }
    if exists|l: int| 0 <= l < k && m == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l)) {
        let l = choose|l: int| 0 <= l < k && m == sat(#[trigger] cell(f, k, t, l), cell(f, k, v, l));
        lemma_triangle(g, lm[l], v, t, cell(f, k, v, l) as int, d, cell(f, k, t, l) as int);
    } else {
        let l = choose|l: int| 0 <= l < k && m == sat(#[trigger] cell(b, k, v, l), cell(b, k, t, l));
        lemma_triangle(g, v, t, lm[l], d, cell(b, k, t, l) as int, cell(b, k, v, l) as int);
    }
}
//@item engine/src/algo/alt.rs struct ALTPotData
impl ALTPotData {
    spec fn made_of(&self, f: Seq<Vec<u32>>, b: Seq<Vec<u32>>) -> bool {
        let (k, n) = (f.len() as int, f[0]@.len() as int);
        &&& self.num_landmarks == k && self.landmark_forward_distances@.len() == n * k && self.landmark_backward_distances@.len() == n * k
        &&& forall|v: int, i: int| 0 <= v < n && 0 <= i < k ==> #[trigger] cell(self.landmark_forward_distances@, k, v, i) == f[i]@[v] && cell(self.landmark_backward_distances@, k, v, i) == b[i]@[v]
    }
//@fn engine/src/algo/alt.rs ALTPotData::new_with_landmark_distances
//@rw for
//@spec
    requires forward@.len() > 0, backward@.len() == forward@.len(), forward@[0]@.len() * forward@.len() <= usize::MAX, forall|i: int| 0 <= i < forward@.len() ==> (#[trigger] forward@[i])@.len() == forward@[0]@.len(), forall|i: int| 0 <= i < backward@.len() ==> (#[trigger] backward@[i])@.len() == forward@[0]@.len()
    ensures r.made_of(forward@, backward@)
//@loop 0
    invariant vf_i0 <= vf_e0, vf_e0 == n, n == forward@[0]@.len(), k == forward@.len(), k > 0, n * k <= usize::MAX, backward@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] forward@[i])@.len() == n, forall|i: int| 0 <= i < k ==> (#[trigger] backward@[i])@.len() == n,
        landmark_forward_distances@.len() == vf_i0 * k, landmark_backward_distances@.len() == vf_i0 * k,
        forall|v: int, i: int| 0 <= v < vf_i0 && 0 <= i < k ==> #[trigger] cell(landmark_forward_distances@, k as int, v, i) == forward@[i]@[v] && cell(landmark_backward_distances@, k as int, v, i) == backward@[i]@[v],
    decreases n - vf_i0
//@at loop_start 0
    let ghost (fd0, bd0) = (landmark_forward_distances@, landmark_backward_distances@);
    proof { assert((node + 1) * k == node * k + k) by (nonlinear_arith); }
//@loop 1
    invariant vf_i1 <= vf_e1, vf_e1 == k, node < n, n == forward@[0]@.len(), k == forward@.len(), k > 0, n * k <= usize::MAX, backward@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] forward@[i])@.len() == n, forall|i: int| 0 <= i < k ==> (#[trigger] backward@[i])@.len() == n,
        fd0.len() == node * k, bd0.len() == node * k, landmark_forward_distances@.len() == node * k + vf_i1, landmark_backward_distances@.len() == node * k + vf_i1,
        forall|e: int| 0 <= e < fd0.len() ==> #[trigger] landmark_forward_distances@[e] == fd0[e], forall|e: int| 0 <= e < bd0.len() ==> #[trigger] landmark_backward_distances@[e] == bd0[e],
        forall|i: int| 0 <= i < vf_i1 ==> #[trigger] landmark_forward_distances@[node * k + i] == forward@[i]@[node as int] && landmark_backward_distances@[node * k + i] == backward@[i]@[node as int],
    decreases k - vf_i1
//@at loop_end 0
    proof {
        let (fd, bd) = (landmark_forward_distances@, landmark_backward_distances@);
        assert forall|v: int, i: int| 0 <= v < node + 1 && 0 <= i < k implies #[trigger] cell(fd, k as int, v, i) == forward@[i]@[v] && cell(bd, k as int, v, i) == backward@[i]@[v] by {
            if v < node { lemma_row(k as int, node as int, v); assert(cell(fd0, k as int, v, i) == forward@[i]@[v]); assert(fd[v * k + i] == fd0[v * k + i]); assert(bd[v * k + i] == bd0[v * k + i]); }
            else { assert(fd[node * k + i] == forward@[i]@[node as int]); }
        }
    }
//@endfn
//@fn engine/src/algo/alt.rs ALTPotData::forward_potential
//@spec
    ensures r.landmark_forward_distances@ == self.landmark_forward_distances@, r.landmark_backward_distances@ == self.landmark_backward_distances@, r.num_landmarks == self.num_landmarks
//@endfn
//@fn engine/src/algo/alt.rs ALTPotData::backward_potential
//@spec
    ensures r.landmark_forward_distances@ == self.landmark_backward_distances@, r.landmark_backward_distances@ == self.landmark_forward_distances@, r.num_landmarks == self.num_landmarks
//@endfn
}
} // verus!
fn main() {}
