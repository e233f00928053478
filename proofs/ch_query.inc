// ---- the CH query: two upward searches, stopped when both have passed the best meeting found
proof fn lemma_agraph_bg<G: VfLinks<Link>>(g: &G, o: &DefaultOps)
    requires links_ok(g.lists())
    ensures agraph::<DefaultOps, G>(g, o) =~= bg(g.lists()), graph_ok::<DefaultOps, G>(g, o)
{
    lemma_bg(g.lists());
    let a = agraph::<DefaultOps, G>(g, o);
    assert forall|u: int| 0 <= u < g.lists().len() implies #[trigger] a[u] =~= bg(g.lists())[u] by { }
    assert(a =~= bg(g.lists()));
}
/// every walk from s shorter than m leads to a node that is settled with a label no longer than the walk
spec fn front(g: Ag<()>, s: int, d: Seq<u32>, q: Qu, m: int) -> bool {
    forall|x: int, p: int| 0 <= x < g.len() && #[trigger] realised(g, s, 0, x, p) && p < m && p < CAP ==> d[x] <= p && !q.dom().contains(x as usize)
}
spec fn side(g: Ag<()>, s: int, d: Seq<u32>, q: Qu, m: int) -> bool { labels(g, s, 0, d) && front(g, s, d, q, m) }
proof fn lemma_front_pre(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, m: int)
    requires inv(g, zero_pot(), s, 0, d, pr, q), forall|id: usize| #[trigger] q.dom().contains(id) ==> m <= d[id as int]
    ensures front(g, s, d, q, m)
{
    assert forall|x: int, p: int| 0 <= x < g.len() && #[trigger] realised(g, s, 0, x, p) && p < m && p < CAP implies d[x] <= p && !q.dom().contains(x as usize) by {
        let a = choose|a: Seq<int>| #[trigger] walk(g, s, x, a) && 0 + wlen(g, s, a) == p;
        let i = lemma_front(g, zero_pot(), s, 0, d, q, a, a.len() as int);
        let y = wend(g, s, a.take(i));
        lemma_walk_take(g, s, a, i);
        assert(a.take(a.len() as int) =~= a);
        if q.dom().contains(y as usize) { assert(m <= d[y]); assert(wlen(g, s, a.take(i)) <= wlen(g, s, a)); }
    }
}
proof fn lemma_side_labels(g: Ag<()>, s: int, d: Seq<u32>, q: Qu, m: int)
    requires side(g, s, d, q, m)
    ensures labels(g, s, 0, d), d[s] == 0, d.len() == g.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] d[x] <= CAP
{ }
proof fn lemma_side_start(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu)
    requires inv(g, zero_pot(), s, 0, d, pr, q)
    ensures side(g, s, d, q, 0), ag_ok(g), 0 <= s < g.len(), d.len() == g.len(), d[s] == 0
{ assert forall|x: int, p: int| 0 <= x < g.len() && #[trigger] realised(g, s, 0, x, p) implies p >= 0 by { let a = choose|a: Seq<int>| #[trigger] walk(g, s, x, a) && 0 + wlen(g, s, a) == p; lemma_walk_range(g, s, a); } }
proof fn lemma_side_empty(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu)
    requires inv(g, zero_pot(), s, 0, d, pr, q), q.dom() =~= ISet::empty()
    ensures side(g, s, d, q, CAP), d[s] == 0, d.len() == g.len()
{ lemma_front_pre(g, s, d, pr, q, CAP); }
spec fn smallest_ok(d: Seq<u32>, q: Qu) -> bool { forall|id: usize| #[trigger] q.dom().contains(id) ==> q[id].key == d[id as int] }
proof fn lemma_inv_parts(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu)
    requires inv(g, zero_pot(), s, 0, d, pr, q)
    ensures labels(g, s, 0, d), d[s] == 0, 0 <= s < g.len(), ag_ok(g), d.len() == g.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] d[x] <= CAP && (d[x] < CAP ==> realised(g, s, 0, x, d[x] as int)), forall|id: usize| #[trigger] q.dom().contains(id) ==> id < g.len() && d[id as int] < CAP,
        smallest_ok(d, q) || (forall|id: usize| #[trigger] q.dom().contains(id) ==> id == s)
{ }
proof fn lemma_side_step(g: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, d2: Seq<u32>, pr2: Seq<(NodeId, ())>, q2: Qu, u: NodeId)
    requires inv(g, zero_pot(), s, 0, d, pr, q), settled(g, zero_pot(), s, 0, d, q, d2, q2, u), inv(g, zero_pot(), s, 0, d2, pr2, q2), g.len() < u32::MAX
    ensures side(g, s, d2, q2, d2[u as int] as int), d2[s] == 0, u < g.len(), d2.len() == g.len(), d2[u as int] < CAP, !q2.dom().contains(u as usize), forall|x: int| 0 <= x < g.len() ==> #[trigger] d2[x] <= d[x] && d2[x] <= CAP,
        forall|v: int| 0 <= v < g.len() && v != u && !#[trigger] q2.dom().contains(v as usize) ==> !q.dom().contains(v as usize) && d2[v] == d[v]
{
    hide(inv); hide(labels); hide(exact); hide(realised);
    lemma_inv_parts(g, s, d, pr, q); lemma_inv_parts(g, s, d2, pr2, q2);
    let m = d2[u as int] as int;
    assert(q.dom().contains(u as usize));
    let w = smallest_ok(d, q);
    assert forall|id: usize| #[trigger] q.dom().contains(id) implies m <= d[id as int] by { if w { assert(q[u as usize].key <= q[id].key); assert(q[id].key == d[id as int]); assert(q[u as usize].key == d[u as int]); } else { assert(id == s && u == s); } }
    lemma_front_pre(g, s, d, pr, q, m);
    assert forall|v: int| 0 <= v < g.len() && v != u && !#[trigger] q2.dom().contains(v as usize) implies !q.dom().contains(v as usize) && d2[v] == d[v] by {
        assert(d2[v] <= d[v]); if q.dom().contains(v as usize) { assert(q.remove(u as usize).dom().contains(v as usize)); } }
    assert forall|x: int, p: int| 0 <= x < g.len() && #[trigger] realised(g, s, 0, x, p) && p < m && p < CAP implies d2[x] <= p && !q2.dom().contains(x as usize) by {
        assert(d2[x] <= d[x] <= p);
        if q2.dom().contains(x as usize) {
            assert(!q.dom().contains(x as usize));
            assert(!q.remove(u as usize).dom().contains(x as usize));
            assert(d2[x] < d[x]);
            assert(realised(g, s, 0, x, d2[x] as int));
            assert(d[x] <= d2[x]);
        }
    }
}

/// the value found so far is the length of some up-down walk
spec fn found(f: Ag<()>, b: Ag<()>, s: int, t: int, d: int) -> bool { d <= CAP && (d < CAP ==> exists|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, t, x, p, q) && d == p + q) }
/// every node settled or unlabelled on both sides has been looked at
spec fn met(n: int, fd: Seq<u32>, fq: Qu, bd: Seq<u32>, bq: Qu, d: int) -> bool { forall|x: int| 0 <= x < n && !#[trigger] fq.dom().contains(x as usize) && !bq.dom().contains(x as usize) ==> d <= fd[x] + bd[x] }
spec fn meeting(fd: Seq<u32>, bd: Seq<u32>, x: int, d: int) -> bool { d < CAP ==> 0 <= x < fd.len() && fd[x] + bd[x] <= d }
proof fn lemma_met_start(f: Ag<()>, b: Ag<()>, s: int, t: int, fd: Seq<u32>, fq: Qu, bd: Seq<u32>, bq: Qu)
    requires labels(f, s, 0, fd), labels(b, t, 0, bd), f.len() == b.len(), forall|x: int| 0 <= x < f.len() && #[trigger] fd[x] < CAP ==> x == s && fq.dom().contains(x as usize)
    ensures met(f.len() as int, fd, fq, bd, bq, CAP), found(f, b, s, t, CAP)
{ assert forall|x: int| 0 <= x < f.len() && !#[trigger] fq.dom().contains(x as usize) && !bq.dom().contains(x as usize) implies CAP <= fd[x] + bd[x] by { assert(fd[x] <= CAP); } }
/// one side settles u and compares the sum of the labels of u with the value
proof fn lemma_met_step(f: Ag<()>, b: Ag<()>, s: int, t: int, fd: Seq<u32>, fq: Qu, fd2: Seq<u32>, fq2: Qu, bd: Seq<u32>, bq: Qu, u: NodeId, d: int, d2: int, x: NodeId, x2: NodeId)
    requires labels(f, s, 0, fd2), labels(b, t, 0, bd), f.len() == b.len(), fd.len() == f.len(), u < f.len(), met(f.len() as int, fd, fq, bd, bq, d), found(f, b, s, t, d), fd2[u as int] < CAP,
        forall|v: int| 0 <= v < f.len() ==> #[trigger] fd2[v] <= fd[v], meeting(fd, bd, x as int, d),
        forall|v: int| 0 <= v < f.len() && v != u && !#[trigger] fq2.dom().contains(v as usize) ==> !fq.dom().contains(v as usize) && fd2[v] == fd[v],
        d2 == (if fd2[u as int] + bd[u as int] < d { fd2[u as int] + bd[u as int] } else { d }), x2 == (if fd2[u as int] + bd[u as int] < d { u } else { x })
    ensures met(f.len() as int, fd2, fq2, bd, bq, d2), found(f, b, s, t, d2), meeting(fd2, bd, x2 as int, d2), d2 <= d, d2 <= fd2[u as int] + bd[u as int]
{
    if d2 < d { assert(bd[u as int] < CAP); assert(realised(f, s, 0, u as int, fd2[u as int] as int)); assert(realised(b, t, 0, u as int, bd[u as int] as int)); assert(ud_meets(f, b, s, t, u as int, fd2[u as int] as int, bd[u as int] as int)); }
    else if d < CAP { assert(fd2[x as int] <= fd[x as int]); }
    assert forall|v: int| 0 <= v < f.len() && !#[trigger] fq2.dom().contains(v as usize) && !bq.dom().contains(v as usize) implies d2 <= fd2[v] + bd[v] by { if v != u { assert(!fq.dom().contains(v as usize)); } }
}
proof fn lemma_flip(f: Ag<()>, b: Ag<()>, s: int, t: int, d: int)
    requires found(f, b, s, t, d), f.len() == b.len()
    ensures found(b, f, t, s, d)
{ if d < CAP { let (x, p, q) = choose|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, t, x, p, q) && d == p + q; assert(ud_meets(b, f, t, s, x, q, p)); } }
proof fn lemma_flip_met(n: int, fd: Seq<u32>, fq: Qu, bd: Seq<u32>, bq: Qu, d: int, x: int)
    requires met(n, fd, fq, bd, bq, d), meeting(fd, bd, x, d), fd.len() == bd.len()
    ensures met(n, bd, bq, fd, fq, d), meeting(bd, fd, x, d)
{ assert forall|v: int| 0 <= v < n && !#[trigger] bq.dom().contains(v as usize) && !fq.dom().contains(v as usize) implies d <= bd[v] + fd[v] by { assert(!fq.dom().contains(v as usize)); } }
/// the step of the other side
proof fn lemma_met_step_b(f: Ag<()>, b: Ag<()>, s: int, t: int, fd: Seq<u32>, fq: Qu, bd: Seq<u32>, bq: Qu, bd2: Seq<u32>, bq2: Qu, u: NodeId, d: int, d2: int, x: NodeId, x2: NodeId)
    requires labels(b, t, 0, bd2), labels(f, s, 0, fd), f.len() == b.len(), bd.len() == f.len(), u < f.len(), met(f.len() as int, fd, fq, bd, bq, d), found(f, b, s, t, d), bd2[u as int] < CAP,
        forall|v: int| 0 <= v < f.len() ==> #[trigger] bd2[v] <= bd[v], meeting(fd, bd, x as int, d),
        forall|v: int| 0 <= v < f.len() && v != u && !#[trigger] bq2.dom().contains(v as usize) ==> !bq.dom().contains(v as usize) && bd2[v] == bd[v],
        d2 == (if fd[u as int] + bd2[u as int] < d { fd[u as int] + bd2[u as int] } else { d }), x2 == (if fd[u as int] + bd2[u as int] < d { u } else { x })
    ensures met(f.len() as int, fd, fq, bd2, bq2, d2), found(f, b, s, t, d2), meeting(fd, bd2, x2 as int, d2), d2 <= d, d2 <= fd[u as int] + bd2[u as int]
{
    lemma_flip(f, b, s, t, d); lemma_flip_met(f.len() as int, fd, fq, bd, bq, d, x as int);
    lemma_met_step(b, f, t, s, bd, bq, bd2, bq2, fd, fq, u, d, d2, x, x2);
    lemma_flip(b, f, t, s, d2); lemma_flip_met(f.len() as int, bd2, bq2, fd, fq, d2, x2 as int);
}
proof fn lemma_met_done(f: Ag<()>, b: Ag<()>, s: int, t: int, fd: Seq<u32>, fq: Qu, bd: Seq<u32>, bq: Qu, mf: int, mb: int, d: int, x: int)
    requires side(f, s, fd, fq, mf), side(b, t, bd, bq, mb), f.len() == b.len(), met(f.len() as int, fd, fq, bd, bq, d), found(f, b, s, t, d), d <= mf, d <= mb, meeting(fd, bd, x, d)
    ensures ud(f, b, s, t, d), d < CAP ==> 0 <= x < f.len() && fd[x] + bd[x] == d
{
    assert forall|x: int, p: int, q: int| #[trigger] ud_meets(f, b, s, t, x, p, q) implies d <= p + q by {
        let a = choose|a: Seq<int>| #[trigger] walk(f, s, x, a) && 0 + wlen(f, s, a) == p; lemma_walk_range(f, s, a);
        let c = choose|c: Seq<int>| #[trigger] walk(b, t, x, c) && 0 + wlen(b, t, c) == q; lemma_walk_range(b, t, c);
        if p + q < d { assert(fd[x] <= p && !fq.dom().contains(x as usize)); assert(bd[x] <= q); }
    }
    if d < CAP { assert(fd[x] <= CAP && bd[x] <= CAP); assert(realised(f, s, 0, x, fd[x] as int)); assert(realised(b, t, 0, x, bd[x] as int)); assert(ud_meets(f, b, s, t, x, fd[x] as int, bd[x] as int)); }
}
//@item engine/src/algo/contraction_hierarchy/query.rs struct Server struct~Server=>struct~ChServer<G> OwnedGraph=>G DijkstraData<Weight>=>DijkstraData<()>
impl<G: VfLinks<Link>> ChServer<G> {
    spec fn n(&self) -> int { self.order.n() as int }
    spec fn graphs_ok(&self) -> bool { self.order.wf() && self.forward.lists().len() == self.n() && self.backward.lists().len() == self.n() && links_ok(self.forward.lists()) && links_ok(self.backward.lists()) }
    spec fn wf(&self) -> bool { self.graphs_ok() && self.forward_data.wf(self.n()) && self.backward_data.wf(self.n()) }
    spec fn f(&self) -> Ag<()> { bg(self.forward.lists()) }
    spec fn b(&self) -> Ag<()> { bg(self.backward.lists()) }
    proof fn lemma_wf(&self, v: NodeId)
        requires self.graphs_ok(), v < self.n()
        ensures self.order.wf(), links_ok(self.forward.lists()), links_ok(self.backward.lists()), self.order.n() == self.n(), self.forward.lists().len() == self.n(), self.backward.lists().len() == self.n(), self.order.ranks@[v as int] < self.n(), self.n() < u32::MAX,
            ag_ok(self.f()), ag_ok(self.b()), self.f().len() == self.n(), self.b().len() == self.n(),
            agraph::<DefaultOps, G>(&self.forward, &DefaultOps()) == self.f(), agraph::<DefaultOps, G>(&self.backward, &DefaultOps()) == self.b(),
            graph_ok::<DefaultOps, G>(&self.forward, &DefaultOps()), graph_ok::<DefaultOps, G>(&self.backward, &DefaultOps())
    { lemma_bg(self.forward.lists()); lemma_bg(self.backward.lists()); lemma_agraph_bg::<G>(&self.forward, &DefaultOps()); lemma_agraph_bg::<G>(&self.backward, &DefaultOps()); }
//@fn engine/src/algo/contraction_hierarchy/query.rs Server::distance
//@sig fn distance(&mut self, from: NodeId, to: NodeId) -> (r: Option<Weight>)
//@rw sub forward_dijkstra.next() => forward_dijkstra.next(Ghost(s), Ghost(0))
//@rw sub backward_dijkstra.next() => backward_dijkstra.next(Ghost(t), Ghost(0))
//@spec
    requires old(self).wf(), from < old(self).n(), to < old(self).n()
    ensures final(self).wf(), final(self).forward == old(self).forward, final(self).backward == old(self).backward, final(self).order == old(self).order,
        ud(old(self).f(), old(self).b(), old(self).order.ranks@[from as int] as int, old(self).order.ranks@[to as int] as int, match r { Some(d) => d as int, None => CAP }), r matches Some(d) ==> d < CAP,
//@at start
    hide(inv); hide(graph_ok); hide(agraph); hide(improved); hide(exact); hide(is_dist); hide(tree); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::view); hide(IndexdMinHeap::wf); hide(settled); hide(DijkstraRun::inv); hide(DijkstraRun::fresh); hide(DijkstraRun::wf); hide(DijkstraData::wf); hide(ag_ok); hide(ud); hide(side); hide(met); hide(found); hide(meeting); hide(links_ok); hide(labels); hide(NodeOrder::wf); hide(ChServer::wf); hide(ChServer::graphs_ok);
    let ghost me = *self;
    proof { assert(self.graphs_ok() && self.forward_data.wf(self.n()) && self.backward_data.wf(self.n())) by { reveal(ChServer::wf); } }
    let ghost n = self.n();
    let ghost f = self.f();
    let ghost b = self.b();
    let ghost s = self.order.ranks@[from as int] as int;
    let ghost t = self.order.ranks@[to as int] as int;
    proof { self.lemma_wf(from); self.lemma_wf(to); }
//@loop 0
    invariant
        n < u32::MAX, f.len() == n, b.len() == n, from == s, to == t, 0 <= s < n, 0 <= t < n, n == self.forward.lists().len(), n == self.backward.lists().len(),
        self.forward == me.forward, self.backward == me.backward, self.order == me.order,
        forward_dijkstra.inv(zero_pot(), s, 0), forward_dijkstra.same(fr0), forward_dijkstra.g() == f, forward_dijkstra.dist().len() == n,
        backward_dijkstra.inv(zero_pot(), t, 0), backward_dijkstra.same(br0), backward_dijkstra.g() == b, backward_dijkstra.dist().len() == n,
        side(f, s, forward_dijkstra.dist(), forward_dijkstra.qu(), mf), side(b, t, backward_dijkstra.dist(), backward_dijkstra.qu(), mb),
        met(n, forward_dijkstra.dist(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.qu(), tentative_distance as int), found(f, b, s, t, tentative_distance as int),
        meeting(forward_dijkstra.dist(), backward_dijkstra.dist(), self.meeting_node as int, tentative_distance as int),
        tentative_distance <= INFINITY, if forward_done { tentative_distance <= mf } else { mf == forward_progress }, if backward_done { tentative_distance <= mb } else { mb == backward_progress },
    ensures tentative_distance <= mf && tentative_distance <= mb
    decreases dsum(forward_dijkstra.dist()), qcount(forward_dijkstra.qu(), n), dsum(backward_dijkstra.dist()), qcount(backward_dijkstra.qu(), n), (if forward_done { 0int } else { 1 }) + (if backward_done { 0int } else { 1 })
//@at before_loop 0
    let ghost fr0 = forward_dijkstra; let ghost br0 = backward_dijkstra;
    let ghost mut mf = 0int; let ghost mut mb = 0int;
    proof {
        assert(f == forward_dijkstra.g()); assert(b == backward_dijkstra.g());
        forward_dijkstra.lemma_fresh(s, 0, zero_pot()); forward_dijkstra.lemma_inv(zero_pot(), s, 0); forward_dijkstra.lemma_fresh_q(s, 0);
        backward_dijkstra.lemma_fresh(t, 0, zero_pot()); backward_dijkstra.lemma_inv(zero_pot(), t, 0);
        lemma_side_start(f, s, forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu()); lemma_side_start(b, t, backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu());
        lemma_side_labels(f, s, forward_dijkstra.dist(), forward_dijkstra.qu(), 0); lemma_side_labels(b, t, backward_dijkstra.dist(), backward_dijkstra.qu(), 0);
        lemma_met_start(f, b, s, t, forward_dijkstra.dist(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.qu());
        assert(meeting(forward_dijkstra.dist(), backward_dijkstra.dist(), self.meeting_node as int, CAP)) by { reveal(meeting); }
    }
//@at loop_start 0
    let ghost (fd, fp, fq) = (forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu());
    let ghost (bd, bp, bq) = (backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu());
    let ghost d = tentative_distance; let ghost x = self.meeting_node; let ghost fdone = forward_done;
    let ghost mut fu: Option<NodeId> = None; let ghost mut bu: Option<NodeId> = None;
    proof { forward_dijkstra.lemma_inv(zero_pot(), s, 0); backward_dijkstra.lemma_inv(zero_pot(), t, 0); lemma_side_labels(f, s, fd, fq, mf); lemma_side_labels(b, t, bd, bq, mb); }
//@at before let distance = *forward_dijkstra
    proof { fu = Some(node); forward_dijkstra.lemma_inv(zero_pot(), s, 0); lemma_measure(f, zero_pot(), s, 0, fd, fq, forward_dijkstra.dist(), forward_dijkstra.qu(), node);
        lemma_side_step(f, s, fd, fp, fq, forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu(), node); mf = forward_dijkstra.dist()[node as int] as int; lemma_side_labels(f, s, forward_dijkstra.dist(), forward_dijkstra.qu(), mf); }
//@at before let distance = *backward_dijkstra
    proof { bu = Some(node); backward_dijkstra.lemma_inv(zero_pot(), t, 0); lemma_measure(b, zero_pot(), t, 0, bd, bq, backward_dijkstra.dist(), backward_dijkstra.qu(), node);
        lemma_side_step(b, t, bd, bp, bq, backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu(), node); mb = backward_dijkstra.dist()[node as int] as int; lemma_side_labels(b, t, backward_dijkstra.dist(), backward_dijkstra.qu(), mb); }
//@at loop_end 0
    proof {
        if let Some(u) = fu { lemma_met_step(f, b, s, t, fd, fq, forward_dijkstra.dist(), forward_dijkstra.qu(), bd, bq, u, d as int, tentative_distance as int, x, self.meeting_node); }
        else if let Some(u) = bu { lemma_met_step_b(f, b, s, t, fd, fq, bd, bq, backward_dijkstra.dist(), backward_dijkstra.qu(), u, d as int, tentative_distance as int, x, self.meeting_node); }
        else if forward_done && !fdone { lemma_side_empty(f, s, fd, fp, fq); mf = CAP; }
        else { lemma_side_empty(b, t, bd, bp, bq); mb = CAP; }
    }
//@at past_loop 0
    proof { lemma_met_done(f, b, s, t, forward_dijkstra.dist(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.qu(), mf, mb, tentative_distance as int, self.meeting_node as int);
        assert(forward_dijkstra.wf()) by { reveal(DijkstraRun::inv); } assert(backward_dijkstra.wf()) by { reveal(DijkstraRun::inv); }
        assert(self.wf()) by { reveal(DijkstraRun::wf); reveal(DijkstraData::wf); reveal(ChServer::wf); reveal(ChServer::graphs_ok); lemma_agraph::<DefaultOps, G>(&self.forward, &DefaultOps(), 0); lemma_agraph::<DefaultOps, G>(&self.backward, &DefaultOps(), 0); } }
//@endfn
}
