use core::marker::PhantomData;
// ---------------------------------------------------------------- the closures of distance_with_cap (captured variables become fields; RefCell becomes a plain mutable borrow)
proof fn lemma_pruned(c: Side, v: BiV, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, u: int, k: int, du: int, top: int)
    requires c.p == v.fp, side_ok(c), side_ok(flip(c, v.bp)), raw_ok(c, v.fr), binv(flip(c, v.bp), e, er, eq, lim, -1), lim <= CAP, 0 <= u < c.g.len(), 0 <= k < c.g[u].len(), realised(c.g, c.s, 0, u, du), du + c.g[u][k].1 < CAP,
        c.s == c.t || lim <= du + e[u], forall|id: usize| #[trigger] eq.dom().contains(id) ==> top <= eq[id].key, top >= 0,
        prune_ok(v.fr, v.bp, c.g[u][k].0, du + c.g[u][k].1, top, lim)
    ensures dead(c, c.g[u][k].0, du + c.g[u][k].1, lim)
{
    let h = c.g[u][k].0; let x = du + c.g[u][k].1; let o = flip(c, v.bp);
    lemma_realise(c.g, c.s, 0, u, du, k); assert(0 <= h < c.g.len());
    if x + or_cap((v.fr)(h)) >= lim {
        lemma_realised_ge(c.g, c.s, 0, h, x);
        assert forall|b: Seq<int>| #[trigger] walk(c.h, c.t, h, b) implies lim <= x + wlen(c.h, c.t, b) by { }
    } else if (v.bp)(h) is None {
        let a = choose|a: Seq<int>| #[trigger] walk(c.g, c.s, h, a) && 0 + wlen(c.g, c.s, a) == x;
        assert forall|b: Seq<int>| #[trigger] walk(c.h, c.t, h, b) implies lim <= x + wlen(c.h, c.t, b) by { if x + wlen(c.h, c.t, b) < CAP { assert(via(o, h, b, a)); } }
    } else {
        let y = (v.bp)(h).unwrap();
        let rest = if top <= y { 0 } else { top - y };
        lemma_prune(c, v.bp, e, er, eq, lim, u, k, du, top, rest);
    }
}
proof fn lemma_meeting_len(c: Side, z: int, x: int, y: int)
    requires graphs_ok(c), realised(c.g, c.s, 0, z, x), realised(c.h, c.t, 0, z, y)
    ensures realised(c.g, c.s, 0, c.t, x + y)
{
    let a = choose|a: Seq<int>| #[trigger] walk(c.g, c.s, z, a) && 0 + wlen(c.g, c.s, a) == x;
    let b = choose|b: Seq<int>| #[trigger] walk(c.h, c.t, z, b) && 0 + wlen(c.h, c.t, b) == y;
    let r = lemma_join(c, z, a, b);
    assert(walk(c.g, c.s, c.t, r));
}
spec fn tent_ok(c: Side, tent: int) -> bool { 0 <= tent <= CAP && (tent < CAP ==> realised(c.g, c.s, 0, c.t, tent)) }
spec fn lim2(a: int, b: int) -> int { if a <= b { a } else { b } }
fn vf_top(q: &IndexdMinHeap<State>) -> (r: Option<Weight>)
    requires q.wf()
    ensures r is None <==> q@ =~= IMap::<usize, State>::empty(), r matches Some(x) ==> (exists|i: usize| #[trigger] q@.dom().contains(i) && q@[i].key == x) && forall|id: usize| #[trigger] q@.dom().contains(id) ==> x <= q@[id].key
{
    match q.peek() { Some(s) => { proof { assert forall|id: usize| #[trigger] q@.dom().contains(id) implies s.key <= q@[id].key by { assert(!lt(q@[id], *s)); } } Some(s.key) }, None => None }
}
proof fn lemma_cb_pre(c: Side, v: BiV, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, u: int, k: int)
    requires bi_ok(v, c), binv(flip(c, v.bp), e, er, eq, lim, -1), 0 <= u < c.g.len(), 0 <= k < c.g[u].len()
    ensures 0 <= c.g[u][k].0 < c.g.len(), c.g.len() == c.h.len(), 0 <= c.g[u][k].1, (v.may)(c.g[u][k].0), e.len() == c.g.len(), 0 <= e[c.g[u][k].0] <= CAP, c.p == v.fp, side_ok(c), side_ok(flip(c, v.bp)), raw_ok(c, v.fr), graphs_ok(c),
        e[c.g[u][k].0] < CAP ==> realised(c.h, c.t, 0, c.g[u][k].0, e[c.g[u][k].0] as int)
{ assert(0 <= c.g[u][k].0 < c.g.len()); assert(e[c.g[u][k].0] <= CAP); }
/// the same answers seen from the other side
spec fn vflip(v: BiV) -> BiV { BiV { fp: v.bp, bp: v.fp, fr: v.br, br: v.fr, mu: v.mu, pmax: v.pmax, may: v.may, made: v.made } }
proof fn lemma_flip2(c: Side, v: BiV)
    requires bi_ok(v, c)
    ensures flip(flip(c, v.bp), v.fp) == c, side_ok(c), side_ok(flip(c, v.bp)), raw_ok(flip(c, v.bp), v.br), graphs_ok(c), graphs_ok(flip(c, v.bp)), c.g.len() == c.h.len(), forall|x: int| 0 <= x < c.g.len() ==> #[trigger] (v.may)(x), c.p == v.fp
{ assert(c.h.len() == c.g.len()); }
proof fn lemma_cb_pre2(c: Side, v: BiV, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, u: int, k: int)
    requires bi_ok(v, c), binv(c, e, er, eq, lim, -1), 0 <= u < c.h.len(), 0 <= k < c.h[u].len()
    ensures 0 <= c.h[u][k].0 < c.g.len(), c.g.len() == c.h.len(), 0 <= c.h[u][k].1, (v.may)(c.h[u][k].0), e.len() == c.g.len(), 0 <= e[c.h[u][k].0] <= CAP, c.p == v.fp, side_ok(c), side_ok(flip(c, v.bp)), raw_ok(flip(c, v.bp), v.br), graphs_ok(c), flip(flip(c, v.bp), v.fp) == c,
        e[c.h[u][k].0] < CAP ==> realised(c.g, c.s, 0, c.h[u][k].0, e[c.h[u][k].0] as int)
{ lemma_flip2(c, v); assert(0 <= c.h[u][k].0 < c.h.len()); assert(e[c.h[u][k].0] <= CAP); }
struct VfFwCb<'a, 'b, H, P> where H: VfLinks<Link>, P: BiDirPotential { potential: &'a mut P, tentative_distance: &'a mut Weight, meeting_node: &'a mut NodeId, backward_dijkstra: &'a DijkstraRun<'b, H, DefaultOps>, maximum_distance: Weight, side: Ghost<Side> }
impl<'a, 'b, H: VfLinks<Link>, P: BiDirPotential> VfBiCb for VfFwCb<'a, 'b, H, P> {
    spec fn c(&self) -> Side { self.side@ }
    spec fn e(&self) -> Seq<u32> { self.backward_dijkstra.dist() }
    spec fn lim(&self) -> int { lim2(*self.tentative_distance as int, self.maximum_distance as int) }
    spec fn tent(&self) -> int { *self.tentative_distance as int }
    spec fn mt(&self) -> int { *self.meeting_node as int }
    spec fn ok(&self) -> bool { bi_ok(self.potential.v(), self.side@) && self.backward_dijkstra.binv(flip(self.side@, self.potential.v().bp), self.lim()) && tent_ok(self.side@, self.tent()) }
    #[verifier::prophetic] spec fn same(&self, o: &Self) -> bool {
        &&& *final(self.potential) == *final(o.potential) && *final(self.tentative_distance) == *final(o.tentative_distance) && *final(self.meeting_node) == *final(o.meeting_node)
        &&& self.backward_dijkstra == o.backward_dijkstra && self.maximum_distance == o.maximum_distance && self.side == o.side && self.potential.v() == o.potential.v()
    }
    proof fn lemma_refl(&self) { }
    proof fn lemma_ok(&self) { lemma_flip2(self.side@, self.potential.v()); lemma_binv(flip(self.side@, self.potential.v().bp), self.e(), self.backward_dijkstra.preds(), self.backward_dijkstra.qu(), self.lim(), -1); }
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs nested Server::distance_with_cap::closure_head_dist_0
//@sig fn improve(&mut self, head: NodeId, dist: Weight, Ghost(u): Ghost<int>, Ghost(k): Ghost<int>, Ghost(du): Ghost<int>) -> (r: bool)
//@rw sub if potential.borrow_mut().prune_forward($a, $b, $t, $m,) { ===> let vf_t: Weight = $t; if self.potential.prune_forward($a, $b, vf_t, $m) {
//@rw sub backward_dijkstra.queue().peek().map(|$q:id| $q.key) => vf_top(self.backward_dijkstra.queue())
//@rw sub backward_dijkstra.tentative_distance($e) => self.backward_dijkstra.vf_td($e)
//@rw sub tentative_distance => vf_tent_ref
//@rw sub vf_tent_ref => *self.tentative_distance
//@rw sub *meeting_node => *self.meeting_node
//@rw sub maximum_distance => vf_max_ref
//@rw sub vf_max_ref => self.maximum_distance
//@at start
    hide(binv); hide(side_ok); hide(raw_ok); hide(sum_ok); hide(below); hide(dead); hide(realised); hide(graphs_ok); hide(IndexdMinHeap::wf); hide(IndexdMinHeap::view); hide(labels); hide(bi_ok); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::heap_ok); hide(IndexdMinHeap::maps_ok); hide(agraph); hide(graph_ok);
    let ghost s0 = self.side@; let ghost c = self.c(); let ghost v = self.potential.v(); let ghost f = flip(self.side@, self.potential.v().bp); let ghost e = self.e(); let ghost lim = self.lim();
    let ghost er = self.backward_dijkstra.preds(); let ghost eq = self.backward_dijkstra.qu(); let ghost t0 = self.tent();
    proof { lemma_cb_pre(c, v, e, er, eq, lim, u, k); lemma_realise(c.g, c.s, 0, u, du, k); }
//@at before return false
    proof { lemma_pruned(c, v, e, er, eq, lim, u, k, du, vf_t as int); }
//@at end
    proof { lemma_lim(f, e, er, eq, lim, -1, self.lim()); if self.tent() < t0 { assert(e[head as int] < CAP); lemma_meeting_len(s0, head as int, dist as int, e[head as int] as int); } }
//@endfn
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs nested Server::distance_with_cap::closure_node_0
//@sig fn potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@rw sub potential.borrow_mut() => self.potential
//@at start
    proof { lemma_flip2(self.side@, self.potential.v()); }
//@endfn
}
struct VfBwCb<'a, 'b, H, P> where H: VfLinks<Link>, P: BiDirPotential { potential: &'a mut P, tentative_distance: &'a mut Weight, meeting_node: &'a mut NodeId, forward_dijkstra: &'a DijkstraRun<'b, H, DefaultOps>, maximum_distance: Weight, side: Ghost<Side> }
impl<'a, 'b, H: VfLinks<Link>, P: BiDirPotential> VfBiCb for VfBwCb<'a, 'b, H, P> {
    spec fn c(&self) -> Side { flip(self.side@, self.potential.v().bp) }
    spec fn e(&self) -> Seq<u32> { self.forward_dijkstra.dist() }
    spec fn lim(&self) -> int { lim2(*self.tentative_distance as int, self.maximum_distance as int) }
    spec fn tent(&self) -> int { *self.tentative_distance as int }
    spec fn mt(&self) -> int { *self.meeting_node as int }
    spec fn ok(&self) -> bool { bi_ok(self.potential.v(), self.side@) && self.forward_dijkstra.binv(self.side@, self.lim()) && tent_ok(self.side@, self.tent()) }
    #[verifier::prophetic] spec fn same(&self, o: &Self) -> bool {
        &&& *final(self.potential) == *final(o.potential) && *final(self.tentative_distance) == *final(o.tentative_distance) && *final(self.meeting_node) == *final(o.meeting_node)
        &&& self.forward_dijkstra == o.forward_dijkstra && self.maximum_distance == o.maximum_distance && self.side == o.side && self.potential.v() == o.potential.v()
    }
    proof fn lemma_refl(&self) { }
    proof fn lemma_ok(&self) { lemma_flip2(self.side@, self.potential.v()); lemma_binv(self.side@, self.e(), self.forward_dijkstra.preds(), self.forward_dijkstra.qu(), self.lim(), -1); }
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs nested Server::distance_with_cap::closure_head_dist_1
//@sig fn improve(&mut self, head: NodeId, dist: Weight, Ghost(u): Ghost<int>, Ghost(k): Ghost<int>, Ghost(du): Ghost<int>) -> (r: bool)
//@rw sub if potential.borrow_mut().prune_backward($a, $b, $t, $m,) { ===> let vf_t: Weight = $t; if self.potential.prune_backward($a, $b, vf_t, $m) {
//@rw sub forward_dijkstra.queue().peek().map(|$q:id| $q.key) => vf_top(self.forward_dijkstra.queue())
//@rw sub forward_dijkstra.tentative_distance($e) => self.forward_dijkstra.vf_td($e)
//@rw sub tentative_distance => vf_tent_ref
//@rw sub vf_tent_ref => *self.tentative_distance
//@rw sub *meeting_node => *self.meeting_node
//@rw sub maximum_distance => vf_max_ref
//@rw sub vf_max_ref => self.maximum_distance
//@at start
    hide(binv); hide(side_ok); hide(raw_ok); hide(sum_ok); hide(below); hide(dead); hide(realised); hide(graphs_ok); hide(IndexdMinHeap::wf); hide(IndexdMinHeap::view); hide(labels); hide(bi_ok); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::heap_ok); hide(IndexdMinHeap::maps_ok); hide(agraph); hide(graph_ok);
    let ghost s0 = self.side@; let ghost c = self.c(); let ghost v = self.potential.v(); let ghost f = self.side@; let ghost e = self.e(); let ghost lim = self.lim();
    let ghost er = self.forward_dijkstra.preds(); let ghost eq = self.forward_dijkstra.qu(); let ghost t0 = self.tent();
    proof { lemma_cb_pre2(s0, v, e, er, eq, lim, u, k); lemma_realise(c.g, c.s, 0, u, du, k); }
//@at before return false
    proof { lemma_pruned(c, vflip(v), e, er, eq, lim, u, k, du, vf_t as int); }
//@at end
    proof { lemma_lim(f, e, er, eq, lim, -1, self.lim()); if self.tent() < t0 { assert(e[head as int] < CAP); lemma_meeting_len(s0, head as int, e[head as int] as int, dist as int); } }
//@endfn
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs nested Server::distance_with_cap::closure_node_1
//@sig fn potential(&mut self, node: NodeId) -> (r: Option<Weight>)
//@rw sub potential.borrow_mut() => self.potential
//@at start
    proof { lemma_flip2(self.side@, self.potential.v()); }
//@endfn
}
// ---------------------------------------------------------------- what a query answers
/// the answer to s–t with paths of length maxd or more left out
spec fn answer(g: Ag<()>, s: int, t: int, maxd: int, r: Option<Weight>) -> bool {
    &&& r matches Some(x) ==> x < CAP && realised(g, s, 0, t, x as int)
    &&& forall|a: Seq<int>| #[trigger] walk(g, s, t, a) && wlen(g, s, a) < maxd && wlen(g, s, a) < CAP ==> (r matches Some(x) && x <= wlen(g, s, a))
}
proof fn lemma_answer_dist(g: Ag<()>, s: int, t: int, maxd: int, r: Option<Weight>)
    requires answer(g, s, t, maxd, r), maxd >= CAP
    ensures is_dist(g, s, 0, t, or_cap(r))
{ }
/// every walk shorter than lim is at least x long
spec fn beyond(c: Side, lim: int, x: int) -> bool { forall|a: Seq<int>| #[trigger] walk(c.g, c.s, c.t, a) && wlen(c.g, c.s, a) < lim ==> x <= wlen(c.g, c.s, a) }
proof fn lemma_beyond_le(c: Side, lim: int, x: int, y: int) requires beyond(c, lim, x), y <= x ensures beyond(c, lim, y) { }
proof fn lemma_answer(c: Side, tent0: int, maxd: int, tent: int, r: Option<Weight>)
    requires tent_ok(c, tent), beyond(c, lim2(tent0, maxd), tent), tent <= tent0, r == (if tent == CAP { None } else { Some(tent as u32) })
    ensures answer(c.g, c.s, c.t, maxd, r)
{ }
/// the smallest key of a queue
spec fn top_key(q: Qu, k: Option<Weight>) -> bool { (k is None ==> q.dom() =~= ISet::empty()) && (k matches Some(x) ==> (exists|i: usize| #[trigger] q.dom().contains(i) && q[i].key == x) && forall|id: usize| #[trigger] q.dom().contains(id) ==> x <= q[id].key) }
proof fn lemma_key_in(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, k: Option<Weight>)
    requires bi_ok(v, c), binv(c, d, pr, q, lim, -1), top_key(q, k), k is Some
    ensures key_in(v, k)
{
    let i = choose|i: usize| #[trigger] q.dom().contains(i) && q[i].key == k.unwrap();
    assert(bkey(c, d, q, lim, i));
    if i != c.s { assert((c.p)(i as int) is Some); assert((v.fp)(i as int).unwrap() <= v.pmax); }
}
proof fn lemma_key_in2(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int, k: Option<Weight>)
    requires bi_ok(v, c), binv(flip(c, v.bp), d, pr, q, lim, -1), top_key(q, k), k is Some
    ensures key_in(v, k)
{
    let i = choose|i: usize| #[trigger] q.dom().contains(i) && q[i].key == k.unwrap();
    let f = flip(c, v.bp);
    assert(bkey(f, d, q, lim, i)); assert(f.g.len() == c.g.len());
    if i != f.s { assert((f.p)(i as int) is Some); assert((v.bp)(i as int).unwrap() <= v.pmax); }
}
/// with s = t both queues hold exactly the source until the first step
spec fn at_start(c: Side, d: Seq<u32>, q: Qu) -> bool { c.s == c.t ==> q.dom() =~= ISet::empty().insert(c.s as usize) && q[c.s as usize].key == 0 && d[c.s] == 0 }
proof fn lemma_stop(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int, fk: Option<Weight>, bk: Option<Weight>)
    requires bi_ok(v, c), binv(c, d, pr, q, lim, -1), binv(flip(c, v.bp), e, er, eq, lim, -1), meet(c, d, e, lim), lim <= CAP, top_key(q, fk), top_key(eq, bk), stop_ok(v, fk, bk, lim), at_start(c, d, q), at_start(flip(c, v.bp), e, eq)
    ensures forall|a: Seq<int>| #[trigger] walk(c.g, c.s, c.t, a) ==> lim <= wlen(c.g, c.s, a), forall|x: int| #[trigger] beyond(c, lim, x)
{
    assert forall|a: Seq<int>| #[trigger] walk(c.g, c.s, c.t, a) implies lim <= wlen(c.g, c.s, a) by {
        lemma_walk_range(c.g, c.s, a);
        if wlen(c.g, c.s, a) < lim {
            if c.s == c.t {
                assert(q.dom().contains(c.s as usize)); assert(eq.dom().contains(c.s as usize));
            } else {
                let r = lemma_open(c, v.bp, d, pr, q, e, er, eq, lim, a);
                assert(q.dom().contains(r.0 as usize)); assert(eq.dom().contains(r.1 as usize));
                if v.mu is Some {
                    let (a1, b1) = choose|a1: Seq<int>, b1: Seq<int>| #[trigger] via(c, r.1, a1, b1);
                    assert(via(c, r.1, a1, b1));
                } else {
                    let w = wlen(c.g, c.s, a);
                    assert(exists|l: int, b: Seq<int>| #[trigger] walk(c.h, c.t, r.0, b) && q[r.0 as usize].key <= l + (c.p)(r.0).unwrap() && #[trigger] (l + wlen(c.h, c.t, b)) == w);
                }
            }
        }
    }
}
/// the forward search settled the target
proof fn lemma_settled_target(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int)
    requires bi_ok(v, c), binv(c, d, pr, q, lim, -1), lim <= CAP, q.dom().contains(c.t as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[c.t as usize].key <= q[id].key, at_start(c, d, q)
    ensures beyond(c, lim, d[c.t] as int), d[c.t] < CAP, realised(c.g, c.s, 0, c.t, d[c.t] as int)
{
    assert(d[c.t] <= CAP);
    assert forall|a: Seq<int>| #[trigger] walk(c.g, c.s, c.t, a) && wlen(c.g, c.s, a) < lim implies d[c.t] <= wlen(c.g, c.s, a) by {
        if c.s == c.t { lemma_walk_range(c.g, c.s, a); } else { lemma_top(c, v.bp, d, pr, q, lim, a); }
    }
}
proof fn lemma_walk_back(c: Side, a: Seq<int>) -> (r: Seq<int>)
    requires graphs_ok(c), walk(c.g, c.s, c.t, a)
    ensures walk(c.h, c.t, c.s, r), wlen(c.h, c.t, r) == wlen(c.g, c.s, a)
{
    let f = flip(c, c.p); lemma_flip_ok(c, c.p);
    let e: Seq<int> = Seq::empty();
    assert(walk(c.h, c.t, c.t, e)); assert(wlen(c.h, c.t, e) == 0);
    lemma_join(f, c.t, e, a)
}
proof fn lemma_beyond_back(c: Side, o: Pot, lim: int, x: int)
    requires graphs_ok(c), beyond(flip(c, o), lim, x), realised(c.h, c.t, 0, c.s, x)
    ensures beyond(c, lim, x), realised(c.g, c.s, 0, c.t, x)
{
    assert forall|a: Seq<int>| #[trigger] walk(c.g, c.s, c.t, a) && wlen(c.g, c.s, a) < lim implies x <= wlen(c.g, c.s, a) by { let b = lemma_walk_back(c, a); assert(walk(flip(c, o).g, flip(c, o).s, flip(c, o).t, b)); }
    let b = choose|b: Seq<int>| #[trigger] walk(c.h, c.t, c.s, b) && 0 + wlen(c.h, c.t, b) == x;
    lemma_flip_ok(c, o);
    let a = lemma_walk_back(flip(c, o), b); assert(walk(c.g, c.s, c.t, a));
}
/// the backward search settled the source
proof fn lemma_settled_source(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, lim: int)
    requires bi_ok(v, c), binv(flip(c, v.bp), d, pr, q, lim, -1), lim <= CAP, q.dom().contains(c.s as usize), forall|id: usize| #[trigger] q.dom().contains(id) ==> q[c.s as usize].key <= q[id].key, at_start(flip(c, v.bp), d, q)
    ensures beyond(c, lim, d[c.s] as int), d[c.s] < CAP, realised(c.g, c.s, 0, c.t, d[c.s] as int)
{
    let f = flip(c, v.bp);
    lemma_flip2(c, v);
    assert(d[f.t] <= CAP);
    assert forall|a: Seq<int>| #[trigger] walk(f.g, f.s, f.t, a) && wlen(f.g, f.s, a) < lim implies d[f.t] <= wlen(f.g, f.s, a) by {
        if f.s == f.t { lemma_walk_range(f.g, f.s, a); } else { lemma_top(f, v.fp, d, pr, q, lim, a); }
    }
    lemma_beyond_back(c, v.bp, lim, d[f.t] as int);
}
proof fn lemma_meet_flip(c: Side, o: Pot, d: Seq<u32>, e: Seq<u32>, lim: int)
    requires c.g.len() == c.h.len()
    ensures meet(c, d, e, lim) == meet(flip(c, o), e, d, lim), forall|x: int, t: int| #[trigger] meeting2(d, e, x, t) == meeting2(e, d, x, t)
{
    let f = flip(c, o);
    if meet(c, d, e, lim) { assert(meet(f, e, d, lim)); }
    if meet(f, e, d, lim) { assert(meet(c, d, e, lim)); }
}
/// both searches begin
proof fn lemma_wnodes_last<L>(g: Ag<L>, s: int, a: Seq<int>)
    requires ag_ok(g), 0 <= s < g.len(), wok(g, s, a)
    ensures wnodes(g, s, a).len() > 0, wnodes(g, s, a).last() == wend(g, s, a)
{ lemma_walk_range(g, s, a); }
proof fn lemma_trees(c: Side, v: BiV, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, e: Seq<u32>, er: Seq<(NodeId, ())>, eq: Qu, lim: int)
    requires bi_ok(v, c), binv(c, d, pr, q, lim, -1), binv(flip(c, v.bp), e, er, eq, lim, -1)
    ensures ag_ok(c.g), ag_ok(c.h), d.len() == c.g.len(), e.len() == c.h.len(), tree(c.g, c.s, d, pr), tree(c.h, c.t, e, er), d[c.s] == 0, e[c.t] == 0
{ }
proof fn lemma_meeting3(d: Seq<u32>, e: Seq<u32>, x: int, t: int, u: int)
    requires meeting2(d, e, x, t), 0 <= u < d.len()
    ensures meeting2(d, e, u, d[u] + e[u]), forall|z: int| 0 <= x < d.len() && d[x] + e[x] <= t && t <= z ==> #[trigger] meeting2(d, e, x, z)
{ }
proof fn lemma_begin(c: Side, v: BiV, f: DRun0, b: DRun0, lim: int)
    requires bi_ok(v, c), lim <= CAP, drun_fresh(f, c.g.len() as int, c.s), drun_fresh(b, c.h.len() as int, c.t)
    ensures binv(c, f.d, f.pr, f.q, lim, -1), binv(flip(c, v.bp), b.d, b.pr, b.q, lim, -1), meet(c, f.d, b.d, lim), at_start(c, f.d, f.q), at_start(flip(c, v.bp), b.d, b.q), forall|x: int| meeting2(f.d, b.d, x, CAP)
{
    lemma_start2(c, f.d, f.pr, f.q, lim); lemma_start2(flip(c, v.bp), b.d, b.pr, b.q, lim);
    assert(c.h.len() == c.g.len());
    assert(meet(c, f.d, b.d, lim));
}
/// the state of one search
struct DRun0 { d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu }
spec fn drun_fresh(f: DRun0, n: int, s: int) -> bool { f.d =~= Seq::new(n as nat, |i: int| INFINITY).update(s, 0u32) && f.pr.len() == n && f.q =~= IMap::<usize, State>::empty().insert(s as usize, State { key: 0, node: s as u32 }) }

// ---------------------------------------------------------------- the bidirectional server
trait BidirChooseDir: Sized {
    fn default() -> (r: Self);
    fn choose(&mut self, fw_min_key: Option<Weight>, bw_min_key: Option<Weight>) -> (r: bool);
    fn may_stop(&self) -> (r: bool);
}
/// the inspection callback: may ask the potential, but does not change its answers
trait VfInspect<P: BiDirPotential> {
    fn call(&mut self, node: NodeId, dist: Weight, potential: &mut P) ensures final(potential).v() == old(potential).v();
}
struct VfNothing();
impl<P: BiDirPotential> VfInspect<P> for VfNothing { fn call(&mut self, node: NodeId, dist: Weight, potential: &mut P) { } }
//@item engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs struct Server Server=>BiServer DijkstraData<Weight>=>DijkstraData<()> ~P~=~BiDirZeroPot,~D~=~ChooseMinKeyDir=>~P,~D
impl<G: VfLinks<Link>, H: VfLinks<Link>, P: BiDirPotential, D: BidirChooseDir> BiServer<G, H, P, D> {
    spec fn g(&self) -> Ag<()> { agraph::<DefaultOps, G>(&self.forward, &DefaultOps()) }
    spec fn h(&self) -> Ag<()> { agraph::<DefaultOps, H>(&self.backward, &DefaultOps()) }
    spec fn side(&self, s: int, t: int) -> Side { Side { g: self.g(), h: self.h(), s: s, t: t, p: self.potential.v().fp } }
    spec fn wf(&self) -> bool {
        &&& graph_ok::<DefaultOps, G>(&self.forward, &DefaultOps()) && graph_ok::<DefaultOps, H>(&self.backward, &DefaultOps()) && mirrors(self.g(), self.h()) && mirrors(self.h(), self.g())
        &&& self.forward_data.wf(self.g().len() as int) && self.backward_data.wf(self.h().len() as int) && self.potential.v().made.contains((self.g(), self.h()))
    }
    /// paths of length at most x can be read from the data
    spec fn ready(&self, s: int, t: int, x: int) -> bool {
        self.forward_data.tree_for(self.g(), s) && self.backward_data.tree_for(self.h(), t) && meeting2(self.forward_data.distances@, self.backward_data.distances@, self.meeting_node as int, x) && x < CAP && 0 <= s < self.g().len() && 0 <= t < self.g().len()
    }
    proof fn lemma_wf(&self) requires self.wf() ensures self.g().len() == self.forward.lists().len(), self.h().len() == self.backward.lists().len(), self.g().len() == self.h().len(), ag_ok(self.g()), ag_ok(self.h())
    { lemma_agraph::<DefaultOps, G>(&self.forward, &DefaultOps(), 0); lemma_agraph::<DefaultOps, H>(&self.backward, &DefaultOps(), 0); }
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs Server::distance_with_cap
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(100)]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@sig fn distance_with_cap<I: VfInspect<P>>(&mut self, from: NodeId, to: NodeId, maximum_distance: Weight, mut inspect: I) -> (r: Option<Weight>)
//@rw dropcall report!($e);
//@rw dropcall D::report();
//@rw dropcall P::report();
//@rw sub RefCell::new(&mut self.potential) => &mut self.potential
//@rw sub let mut potential = => let potential =
//@rw sub D = Default::default() => D = D::default()
//@rw sub let result = (|| { $b })(); result ===> $b
//@rw sub while !(dir_chooser.may_stop() && potential.get_mut().stop($a, $b, $m,)) { $c } ===> loop { if dir_chooser.may_stop() { let vf_fk = $a; let vf_bk = $b; if potential.stop(vf_fk, vf_bk, $m) { break; } } $c }
//@rw sub if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(|$h:id, &$d:id| { $i }, |$n:id| $p,) { ===> let mut vf_cb = VfFwCb { potential: &mut *potential, tentative_distance: &mut tentative_distance, meeting_node: &mut *meeting_node, backward_dijkstra: &backward_dijkstra, maximum_distance: maximum_distance, side: Ghost(c) }; let vf_n = forward_dijkstra.next_with_improve_callback_and_potential(&mut vf_cb); if let Some(node) = vf_n {
//@rw sub if let Some(node) = backward_dijkstra.next_with_improve_callback_and_potential(|$h:id, &$d:id| { $i }, |$n:id| $p,) { ===> let mut vf_cb = VfBwCb { potential: &mut *potential, tentative_distance: &mut tentative_distance, meeting_node: &mut *meeting_node, forward_dijkstra: &forward_dijkstra, maximum_distance: maximum_distance, side: Ghost(c) }; let vf_n = backward_dijkstra.next_with_improve_callback_and_potential(&mut vf_cb); if let Some(node) = vf_n {
//@rw sub forward_dijkstra.queue().peek().map(|$q:id| $q.key) => vf_top(forward_dijkstra.queue())
//@rw sub backward_dijkstra.queue().peek().map(|$q:id| $q.key) => vf_top(backward_dijkstra.queue())
//@rw sub *forward_dijkstra.tentative_distance($e) => forward_dijkstra.vf_td($e)
//@rw sub *backward_dijkstra.tentative_distance($e) => backward_dijkstra.vf_td($e)
//@rw sub inspect($a, $b, &mut potential.borrow_mut()) => inspect.call($a, $b, potential)
//@rw sub num_queue_pops += 1; => vf_inc(&mut num_queue_pops);
//@spec
    requires old(self).wf(), from < old(self).g().len(), to < old(self).g().len(), old(self).potential.accepts(from, to)
    ensures final(self).wf(), final(self).forward == old(self).forward, final(self).backward == old(self).backward, answer(old(self).g(), from as int, to as int, maximum_distance as int, r), r matches Some(x) ==> final(self).ready(from as int, to as int, x as int)
//@at start
    hide(binv); hide(side_ok); hide(bi_ok); hide(labels); hide(graph_ok); hide(agraph); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::wf); hide(IndexdMinHeap::view); hide(mirrors); hide(meet); hide(meeting2); hide(realised); hide(walk); hide(ag_ok); hide(beyond); hide(answer); hide(sum_ok); hide(raw_ok); hide(tree); hide(mirrors); hide(cons); hide(present); hide(below); hide(pot_ok); hide(stop_ok);
    let ghost s = from as int; let ghost t = to as int; let ghost self0 = *self; let ghost g = self.g(); let ghost h = self.h();
    proof { self.lemma_wf(); }
//@at before_loop 0
    let ghost v = potential.v(); let ghost c = Side { g: g, h: h, s: s, t: t, p: v.fp }; let ghost f = flip(c, v.bp); let ghost fw0 = forward_dijkstra; let ghost bw0 = backward_dijkstra;
    proof {
        assert(graphs_ok(c));
        assert(bi_ok(v, c));
        lemma_begin(c, v, DRun0 { d: forward_dijkstra.dist(), pr: forward_dijkstra.preds(), q: forward_dijkstra.qu() }, DRun0 { d: backward_dijkstra.dist(), pr: backward_dijkstra.preds(), q: backward_dijkstra.qu() }, lim2(tentative_distance as int, maximum_distance as int));
    }
//@loop 0
    invariant
        bi_ok(v, c), potential.v() == v, f == flip(c, v.bp), c == (Side { g: g, h: h, s: s, t: t, p: v.fp }), from == s, to == t, 0 <= s < g.len(), 0 <= t < g.len(), g.len() == h.len(),
        forward_dijkstra.same(fw0), backward_dijkstra.same(bw0), fw0.g() == g, bw0.g() == h,
        forward_dijkstra.binv(c, lim2(tentative_distance as int, maximum_distance as int)), backward_dijkstra.binv(f, lim2(tentative_distance as int, maximum_distance as int)),
        meet(c, forward_dijkstra.dist(), backward_dijkstra.dist(), lim2(tentative_distance as int, maximum_distance as int)), meeting2(forward_dijkstra.dist(), backward_dijkstra.dist(), *meeting_node as int, tentative_distance as int),
        at_start(c, forward_dijkstra.dist(), forward_dijkstra.qu()), at_start(f, backward_dijkstra.dist(), backward_dijkstra.qu()), tent_ok(c, tentative_distance as int),
    ensures
        answer(g, s, t, maximum_distance as int, if tentative_distance == CAP { None } else { Some(tentative_distance) }),
        ag_ok(g), ag_ok(h), tree(g, s, forward_dijkstra.dist(), forward_dijkstra.preds()), tree(h, t, backward_dijkstra.dist(), backward_dijkstra.preds()),
//@at loop_begin 0
    let ghost lim0 = lim2(tentative_distance as int, maximum_distance as int); let ghost t0 = tentative_distance; let ghost fd = forward_dijkstra.dist(); let ghost fp = forward_dijkstra.preds(); let ghost fq = forward_dijkstra.qu(); let ghost bd = backward_dijkstra.dist(); let ghost bp = backward_dijkstra.preds(); let ghost bq = backward_dijkstra.qu();
    proof { lemma_flip2(c, v); lemma_meet_flip(c, v.bp, fd, bd, lim0); lemma_binv(c, fd, fp, fq, lim0, -1); lemma_binv(f, bd, bp, bq, lim0, -1); }
//@at before if potential.stop
    proof {
        assert(top_key(fq, vf_fk)); assert(top_key(bq, vf_bk));
        if vf_fk is Some { lemma_key_in(c, v, fd, fp, fq, lim0, vf_fk); }
        if vf_bk is Some { lemma_key_in2(c, v, bd, bp, bq, lim0, vf_bk); }
    }
//@at before break;
    proof { lemma_trees(c, v, forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu(), lim2(t0 as int, maximum_distance as int)); lemma_stop(c, v, fd, fp, fq, bd, bp, bq, lim0, vf_fk, vf_bk); lemma_answer(c, t0 as int, maximum_distance as int, t0 as int, if t0 == CAP { None } else { Some(t0) }); }
//@at after let vf_n = forward_dijkstra.next_with_improve_callback_and_potential(&mut vf_cb);
    let ghost vf_t1 = tentative_distance;
    proof { if s == t { assert(fq.dom().contains(s as usize)); } lemma_meeting3(forward_dijkstra.dist(), bd, *meeting_node as int, tentative_distance as int, t); lemma_meet_flip(c, v.bp, forward_dijkstra.dist(), bd, lim2(tentative_distance as int, maximum_distance as int)); }
//@at after let vf_n = backward_dijkstra.next_with_improve_callback_and_potential(&mut vf_cb);
    let ghost vf_t1 = tentative_distance;
    proof { if s == t { assert(bq.dom().contains(t as usize)); } lemma_meet_flip(c, v.bp, fd, backward_dijkstra.dist(), lim2(tentative_distance as int, maximum_distance as int)); lemma_meeting3(fd, backward_dijkstra.dist(), *meeting_node as int, tentative_distance as int, s); }
//@at before 0 return Some
    proof { lemma_trees(c, v, forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu(), lim2(vf_t1 as int, maximum_distance as int)); lemma_settled_target(c, v, fd, fp, fq, lim0); lemma_beyond_le(c, lim0, fd[t] as int, tentative_distance as int); lemma_answer(c, t0 as int, maximum_distance as int, tentative_distance as int, Some(tentative_distance)); }
//@at before 1 return Some
    proof { lemma_trees(c, v, forward_dijkstra.dist(), forward_dijkstra.preds(), forward_dijkstra.qu(), backward_dijkstra.dist(), backward_dijkstra.preds(), backward_dijkstra.qu(), lim2(vf_t1 as int, maximum_distance as int)); lemma_settled_source(c, v, bd, bp, bq, lim0); lemma_beyond_le(c, lim0, bd[s] as int, tentative_distance as int); lemma_answer(c, t0 as int, maximum_distance as int, tentative_distance as int, Some(tentative_distance)); }
//@endfn
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs Server::distance
//@sig fn distance(&mut self, from: NodeId, to: NodeId) -> (r: Option<Weight>)
//@rw sub |_, _, _| () => VfNothing()
//@spec
    requires old(self).wf(), from < old(self).g().len(), to < old(self).g().len(), old(self).potential.accepts(from, to)
    ensures final(self).wf(), final(self).forward == old(self).forward, final(self).backward == old(self).backward, is_dist(old(self).g(), from as int, 0, to as int, or_cap(r)), r matches Some(x) ==> final(self).ready(from as int, to as int, x as int)
//@at start
    proof { assert forall|r: Option<Weight>| #[trigger] answer(self.g(), from as int, to as int, CAP, r) implies is_dist(self.g(), from as int, 0, to as int, or_cap(r)) by { lemma_answer_dist(self.g(), from as int, to as int, CAP, r); } }
//@endfn
//@fn engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs Server::node_path
//@sig fn node_path(&self, query: Query, Ghost(x): Ghost<int>) -> (r: Vec<NodeId>)
//@rw subopt *path.last().unwrap() => path[path.len() - 1]
//@rw subopt path.reverse(); => vf_reverse(&mut path);
//@spec
    requires self.wf(), self.ready(query.from as int, query.to as int, x)
    ensures is_node_path(self.g(), query.from as int, query.to as int, r@, x)
//@at start
    hide(graph_ok); hide(agraph); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::wf); hide(IndexdMinHeap::view);
    let ghost g = self.g(); let ghost h = self.h(); let ghost s = query.from as int; let ghost t = query.to as int; let ghost d = self.forward_data.distances@; let ghost pr = self.forward_data.predecessors@; let ghost tau = pick_tau(g, s, d, pr); let ghost e = self.backward_data.distances@; let ghost er = self.backward_data.predecessors@; let ghost tau2 = pick_tau(h, t, e, er);
    let ghost m = self.meeting_node as int; let ghost mut b: Seq<int> = Seq::empty(); let ghost c = Side { g: g, h: h, s: s, t: t, p: zero_pot() };
    proof { self.lemma_wf(); lemma_tree_pick(g, s, d, pr, tau); lemma_tree_pick(h, t, e, er, tau2); assert(graphs_ok(c)); assert(d[m] + e[m] <= x); }
//@at before_loop 0
    proof { assert(path@.reverse() =~= seq![self.meeting_node]); assert(wnodes(g, m, b) =~= seq![self.meeting_node]); }
//@loop 0
    invariant
        path@.len() > 0, tree_with(g, s, d, pr, tau), ag_ok(g), d.len() == g.len(), self.forward_data.predecessors@ == pr, pr.len() == g.len(), path@.last() < g.len(), d[path@.last() as int] < CAP, s == query.from, 0 <= m < g.len(),
        walk(g, path@.last() as int, m, b), wlen(g, path@.last() as int, b) <= d[m] - d[path@.last() as int], path@.reverse() =~= wnodes(g, path@.last() as int, b),
    decreases d[path@.last() as int], tau[path@.last() as int]
//@at loop_begin 0
    let ghost v = path@.last() as int; let ghost k = lemma_tree_step(g, s, d, pr, tau, v);
    proof { lemma_walk_cons(g, pr[v].0 as int, k, b); b = seq![k] + b; }
//@at loop_end 0
    proof { assert(path@.drop_last().push(path@.last()) =~= path@); assert(path@.reverse() =~= seq![path@.last()] + path@.drop_last().reverse()); }
//@at before_loop 1
    proof { assert(wnodes(g, s, b) == path@); assert(wnodes(g, s, b).last() == wend(g, s, b)) by { lemma_wnodes_last(g, s, b); } }
//@loop 1
    invariant
        path@.len() > 0, tree_with(h, t, e, er, tau2), ag_ok(g), ag_ok(h), graphs_ok(c), c == (Side { g: g, h: h, s: s, t: t, p: zero_pot() }), e.len() == h.len(), h.len() == g.len(), self.backward_data.predecessors@ == er, er.len() == h.len(), path@.last() < g.len(), e[path@.last() as int] < CAP, t == query.to, 0 <= s < g.len(),
        walk(g, s, path@.last() as int, b), wlen(g, s, b) + e[path@.last() as int] <= x, path@ =~= wnodes(g, s, b),
    decreases e[path@.last() as int], tau2[path@.last() as int]
//@at loop_begin 1
    let ghost v = path@.last() as int; let ghost k = lemma_tree_step(h, t, e, er, tau2, v); let ghost b0 = b;
    proof { lemma_flip_ok(c, c.p); let j = lemma_arc_back(flip(c, c.p), er[v].0 as int, k); lemma_walk_push(g, s, b, j); b = b.push(j); }
//@at loop_end 1
    proof { assert(b.drop_last() =~= b0); }
//@at after_loop 1
    proof { assert(walk(g, s, t, b)); }
//@endfn
}
