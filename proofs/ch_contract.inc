// ---- the links of one node, as a map from the other end to (weight, middle node)
type Ls = Seq<(Link, NodeId)>;
type Lm = IMap<u32, (u32, u32)>;
spec fn uniq(l: Ls) -> bool { forall|j: int, k: int| 0 <= j < l.len() && 0 <= k < l.len() && (#[trigger] l[j]).0.node == (#[trigger] l[k]).0.node ==> j == k }
spec fn links_to(l: Ls, k: int, v: u32) -> bool { 0 <= k < l.len() && l[k].0.node == v }
spec fn lm(l: Ls) -> Lm { IMap::new(|v: u32| exists|k: int| #[trigger] links_to(l, k, v), |v: u32| { let k = choose|k: int| #[trigger] links_to(l, k, v); (l[k].0.weight, l[k].1) }) }
proof fn lemma_lm(l: Ls, k: int)
    requires uniq(l), 0 <= k < l.len()
    ensures lm(l).dom().contains(l[k].0.node), lm(l)[l[k].0.node] == (l[k].0.weight, l[k].1)
{ assert(links_to(l, k, l[k].0.node)); }
proof fn lemma_lm_find(l: Ls, v: u32) -> (k: int)
    requires uniq(l), lm(l).dom().contains(v)
    ensures 0 <= k < l.len(), l[k].0.node == v, lm(l)[v] == (l[k].0.weight, l[k].1)
{ let k = choose|k: int| #[trigger] links_to(l, k, v); k }
proof fn lemma_lm_push(l: Ls, x: (Link, NodeId))
    requires uniq(l), !lm(l).dom().contains(x.0.node)
    ensures uniq(l.push(x)), lm(l.push(x)) =~= lm(l).insert(x.0.node, (x.0.weight, x.1))
{
    let l2 = l.push(x);
    assert forall|j: int, k: int| 0 <= j < l2.len() && 0 <= k < l2.len() && (#[trigger] l2[j]).0.node == (#[trigger] l2[k]).0.node implies j == k by {
        if j < l.len() { lemma_lm(l, j); } if k < l.len() { lemma_lm(l, k); } }
    let m = lm(l).insert(x.0.node, (x.0.weight, x.1));
    assert forall|k: int| 0 <= k < l2.len() implies m.dom().contains((#[trigger] l2[k]).0.node) && m[l2[k].0.node] == (l2[k].0.weight, l2[k].1) by { if k < l.len() { lemma_lm(l, k); } }
    assert forall|v: u32| #[trigger] m.dom().contains(v) implies exists|k: int| #[trigger] links_to(l2, k, v) by { if v == x.0.node { assert(links_to(l2, l.len() as int, v)); } else { let k = lemma_lm_find(l, v); assert(links_to(l2, k, v)); } }
    lemma_lm_ext(l2, lm(l).insert(x.0.node, (x.0.weight, x.1)));
}
/// lm(l) is m if m holds exactly the links of l
proof fn lemma_lm_ext(l: Ls, m: Lm)
    requires uniq(l), forall|k: int| 0 <= k < l.len() ==> m.dom().contains((#[trigger] l[k]).0.node) && m[l[k].0.node] == (l[k].0.weight, l[k].1),
        forall|v: u32| #[trigger] m.dom().contains(v) ==> exists|k: int| #[trigger] links_to(l, k, v)
    ensures lm(l) =~= m
{
    assert forall|v: u32| lm(l).dom().contains(v) <==> m.dom().contains(v) by { if lm(l).dom().contains(v) { let k = lemma_lm_find(l, v); assert(m.dom().contains(l[k].0.node)); } }
    assert forall|v: u32| lm(l).dom().contains(v) implies lm(l)[v] == m[v] by { let k = lemma_lm_find(l, v); assert(m.dom().contains(l[k].0.node)); }
}

proof fn lemma_lm_set(l: Ls, k: int, x: (Link, NodeId))
    requires uniq(l), 0 <= k < l.len(), x.0.node == l[k].0.node
    ensures uniq(l.update(k, x)), lm(l.update(k, x)) =~= lm(l).insert(x.0.node, (x.0.weight, x.1))
{
    let l2 = l.update(k, x); let m = lm(l).insert(x.0.node, (x.0.weight, x.1));
    assert forall|i: int, j: int| 0 <= i < l2.len() && 0 <= j < l2.len() && (#[trigger] l2[i]).0.node == (#[trigger] l2[j]).0.node implies i == j by { assert(l[i].0.node == l[j].0.node); }
    assert forall|i: int| 0 <= i < l2.len() implies m.dom().contains((#[trigger] l2[i]).0.node) && m[l2[i].0.node] == (l2[i].0.weight, l2[i].1) by { lemma_lm(l, i); if i != k { assert(l[i].0.node != l[k].0.node); } }
    assert forall|v: u32| #[trigger] m.dom().contains(v) implies exists|j: int| #[trigger] links_to(l2, j, v) by { if v == x.0.node { assert(links_to(l2, k, v)); } else { let j = lemma_lm_find(l, v); assert(links_to(l2, j, v)); } }
    lemma_lm_ext(l2, m);
}
proof fn lemma_lm_remove(l: Ls, k: int)
    requires uniq(l), 0 <= k < l.len()
    ensures uniq(l.update(k, l.last()).drop_last()), lm(l.update(k, l.last()).drop_last()) =~= lm(l).remove(l[k].0.node)
{
    let l2 = l.update(k, l.last()).drop_last(); let m = lm(l).remove(l[k].0.node); let z = l.len() - 1;
    assert forall|i: int, j: int| 0 <= i < l2.len() && 0 <= j < l2.len() && (#[trigger] l2[i]).0.node == (#[trigger] l2[j]).0.node implies i == j by { let a = if i == k { z } else { i }; let b = if j == k { z } else { j }; assert(l[a].0.node == l[b].0.node); }
    assert forall|i: int| 0 <= i < l2.len() implies m.dom().contains((#[trigger] l2[i]).0.node) && m[l2[i].0.node] == (l2[i].0.weight, l2[i].1) by { let a = if i == k { z } else { i }; lemma_lm(l, a); assert(l[a].0.node != l[k].0.node); }
    assert forall|v: u32| #[trigger] m.dom().contains(v) implies exists|j: int| #[trigger] links_to(l2, j, v) by { let j = lemma_lm_find(l, v); assert(j != k); assert(links_to(l2, if j == z { k } else { j }, v)); }
    lemma_lm_ext(l2, m);
}
/// position of the link to v
fn vf_link_position(l: &Vec<(Link, NodeId)>, v: NodeId) -> (r: usize)
    requires uniq(l@), lm(l@).dom().contains(v)
    ensures r < l@.len(), l@[r as int].0.node == v
{
    let ghost k = lemma_lm_find(l@, v);
    let mut i: usize = 0; let n = l.len();
    while l[i].0.node != v invariant n == l@.len(), i <= k < l@.len(), l@[k].0.node == v decreases k - i { i = i + 1; }
    i
}
fn vf_set_link(l: &mut Vec<(Link, NodeId)>, i: usize, weight: Weight, over: NodeId)
    requires i < old(l)@.len()
    ensures final(l)@ == old(l)@.update(i as int, (Link { node: old(l)@[i as int].0.node, weight }, over))
{ let node = l[i].0.node; l[i] = (Link { node, weight }, over); }
#[derive(PartialEq, Eq, Structural)]
//@item engine/src/algo/contraction_hierarchy/mod.rs enum ShortcutResult
//@item engine/src/algo/contraction_hierarchy/mod.rs struct Node
spec fn better(m: Lm, v: u32, w: u32) -> bool { !m.dom().contains(v) || w < m[v].0 }
spec fn decreased(m: Lm, v: u32, w: u32, over: u32) -> Lm { if better(m, v, w) { m.insert(v, (w, over)) } else { m } }
spec fn outcome(m: Lm, v: u32, w: u32) -> ShortcutResult { if !m.dom().contains(v) { ShortcutResult::NewShortcut } else if w < m[v].0 { ShortcutResult::ShortenedExisting } else { ShortcutResult::ShorterExisting } }
impl Node {
    spec fn wf(&self) -> bool { uniq(self.outgoing@) && uniq(self.incoming@) }
    spec fn om(&self) -> Lm { lm(self.outgoing@) }
    spec fn im(&self) -> Lm { lm(self.incoming@) }
//@fn engine/src/algo/contraction_hierarchy/mod.rs Node::insert_or_decrease
//@rw sub for &mut (Link { node: other, weight: ref mut other_weight, }, ref mut shortcut_middle,) in links.iter_mut() => for vf_k in 0..links.len()
//@rw sub node == other => node == links[vf_k].0.node
//@rw sub weight < *other_weight => weight < links[vf_k].0.weight
//@rw sub *shortcut_middle = over; *other_weight = weight; => vf_set_link(links, vf_k, weight, over);
//@rw for
//@spec
    requires uniq(old(links)@)
    ensures uniq(final(links)@), lm(final(links)@) == decreased(lm(old(links)@), node, weight, over), r == outcome(lm(old(links)@), node, weight)
//@at start
    let ghost l0 = links@;
//@loop 0
    invariant links@ == l0, l0 == old(links)@, uniq(l0), vf_i0 <= vf_e0, vf_e0 == l0.len(), forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] l0[k]).0.node != node
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { lemma_lm(l0, vf_k as int); if l0[vf_k as int].0.node == node { lemma_lm_set(l0, vf_k as int, (Link { node, weight }, over)); } }
//@at past_loop 0
    proof { if lm(l0).dom().contains(node) { let k = lemma_lm_find(l0, node); assert(l0[k].0.node != node); } lemma_lm_push(l0, (Link { node, weight }, over)); }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs Node::insert_or_decrease_outgoing
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).incoming == old(self).incoming, final(self).om() == decreased(old(self).om(), to, weight, over), r == outcome(old(self).om(), to, weight)
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs Node::insert_or_decrease_incoming
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).outgoing == old(self).outgoing, final(self).im() == decreased(old(self).im(), from, weight, over), r == outcome(old(self).im(), from, weight)
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs Node::remove_outgoing
//@rw sub $x:chain.iter().position(|&(Link { node, .. }, _)| $a:id == node).unwrap() ===> vf_link_position(&$x, $a)
//@spec
    requires old(self).wf(), old(self).om().dom().contains(to)
    ensures final(self).wf(), final(self).incoming == old(self).incoming, final(self).om() == old(self).om().remove(to)
//@at before self.outgoing.swap_remove
    proof { lemma_lm_remove(self.outgoing@, pos as int); }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs Node::remove_incmoing
//@rw sub $x:chain.iter().position(|&(Link { node, .. }, _)| $a:id == node).unwrap() ===> vf_link_position(&$x, $a)
//@spec
    requires old(self).wf(), old(self).im().dom().contains(from)
    ensures final(self).wf(), final(self).outgoing == old(self).outgoing, final(self).im() == old(self).im().remove(from)
//@at before self.incoming.swap_remove
    proof { lemma_lm_remove(self.incoming@, pos as int); }
//@endfn
}
//@item engine/src/algo/contraction_hierarchy/mod.rs struct PartialContractionGraph
//@item engine/src/algo/contraction_hierarchy/mod.rs struct ContractionGraph
#[verifier::external_body]
fn vf_split_first_mut<'a, T>(s: &'a mut [T]) -> (r: Option<(&'a mut T, &'a mut [T])>)
    ensures match r {
        None => old(s)@.len() == 0 && final(s)@ == old(s)@,
        Some((a, b)) => old(s)@.len() > 0 && *a == old(s)@[0] && b@ == old(s)@.subrange(1, old(s)@.len() as int) && final(s)@ == seq![*final(a)] + final(b)@ && final(b)@.len() == b@.len(),
    }
{ s.split_first_mut() }
#[verifier::external_body]
fn vf_all_mut<'a, T>(s: &'a mut Vec<T>) -> (r: &'a mut [T]) ensures r@ == old(s)@, final(s)@ == final(r)@, final(r)@.len() == r@.len() { &mut s[..] }
/// the search data of the witness search
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct DijkstraData<T> { t: T }
impl<T> DijkstraData<T> { #[verifier::external_body] fn new(n: usize) -> (r: Self) { unimplemented!() } }
/// shortcut weights are assumed to stay below INFINITY (in particular not to overflow)
#[verifier::external_body]
fn vf_shortcut_weight(a: Weight, b: Weight) -> (r: Weight) ensures r == a + b, r <= INFINITY { a + b }

// ---- the remaining graph: nodes off, off + 1, ... with links among them, stored at both ends
spec fn om_ok(ns: Seq<Node>, off: int, u: int, v: u32) -> bool { off <= v < off + ns.len() && v != u + off && ns[v - off].im().dom().contains((u + off) as u32) && ns[v - off].im()[(u + off) as u32] == ns[u].om()[v] && ns[u].om()[v].0 <= INFINITY }
spec fn im_ok(ns: Seq<Node>, off: int, u: int, v: u32) -> bool { off <= v < off + ns.len() && v != u + off && ns[v - off].om().dom().contains((u + off) as u32) && ns[v - off].om()[(u + off) as u32] == ns[u].im()[v] }
spec fn pg_ok(ns: Seq<Node>, off: int) -> bool {
    &&& 0 <= off && off + ns.len() < u32::MAX
    &&& forall|u: int| 0 <= u < ns.len() ==> (#[trigger] ns[u]).wf()
    &&& forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].om().dom().contains(v) ==> om_ok(ns, off, u, v)
    &&& forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].im().dom().contains(v) ==> im_ok(ns, off, u, v)
}
spec fn has_out(ns: Seq<Node>, off: int, u: int, v: int, w: int) -> bool { off <= u < off + ns.len() && 0 <= v <= u32::MAX && ns[u - off].om().dom().contains(v as u32) && ns[u - off].om()[v as u32].0 == w }
spec fn has_in(ns: Seq<Node>, off: int, u: int, v: int, w: int) -> bool { off <= u < off + ns.len() && 0 <= v <= u32::MAX && ns[u - off].im().dom().contains(v as u32) && ns[u - off].im()[v as u32].0 == w }
spec fn og(ns: Seq<Node>, off: int) -> Er { |u: int, v: int, w: int| has_out(ns, off, u, v, w) }
spec fn ig(ns: Seq<Node>, off: int) -> Er { |u: int, v: int, w: int| has_in(ns, off, u, v, w) }
spec fn cut(a: Node, b: Node, x: u32) -> bool { b.wf() && b.om() == a.om().remove(x) && b.im() == a.im().remove(x) }
/// ns2 is ns without the links from and to x
spec fn cut_all(ns: Seq<Node>, ns2: Seq<Node>, x: u32) -> bool { ns2.len() == ns.len() && forall|u: int| 0 <= u < ns.len() ==> cut(ns[u], #[trigger] ns2[u], x) }
spec fn in_prefix(l: Ls, j: int, v: u32) -> bool { exists|k: int| 0 <= k < j && (#[trigger] l[k]).0.node == v }
/// after removing the links from the first j incoming neighbours to x
spec fn cut_outs(ns: Seq<Node>, ns2: Seq<Node>, off: int, l: Ls, j: int, x: u32) -> bool {
    ns2.len() == ns.len() && forall|u: int| 0 <= u < ns.len() ==> (#[trigger] ns2[u]).wf() && ns2[u].im() == ns[u].im() && ns2[u].om() == (if in_prefix(l, j, (u + off) as u32) { ns[u].om().remove(x) } else { ns[u].om() })
}
spec fn cut_ins(ns: Seq<Node>, ns2: Seq<Node>, off: int, l: Ls, j: int, x: u32) -> bool {
    ns2.len() == ns.len() && forall|u: int| 0 <= u < ns.len() ==> (#[trigger] ns2[u]).wf() && ns2[u].om() == ns[u].om().remove(x) && ns2[u].im() == (if in_prefix(l, j, (u + off) as u32) { ns[u].im().remove(x) } else { ns[u].im() })
}
proof fn lemma_prefix(l: Ls, j: int, v: u32)
    requires 0 <= j < l.len()
    ensures in_prefix(l, j + 1, v) <==> in_prefix(l, j, v) || l[j].0.node == v, uniq(l) ==> !in_prefix(l, j, l[j].0.node)
{ if in_prefix(l, j, v) { let k = choose|k: int| 0 <= k < j && (#[trigger] l[k]).0.node == v; assert(l[k].0.node == v); } if l[j].0.node == v { assert(0 <= j < j + 1); } }
proof fn lemma_prefix_all(l: Ls, v: u32) requires uniq(l) ensures in_prefix(l, l.len() as int, v) <==> lm(l).dom().contains(v)
{ if lm(l).dom().contains(v) { let k = lemma_lm_find(l, v); assert(l[k].0.node == v); } if in_prefix(l, l.len() as int, v) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0.node == v; lemma_lm(l, k); } }
/// facts about the neighbours of the lowest node
proof fn lemma_first(all: Seq<Node>, off: int, j: int)
    requires pg_ok(all, off), all.len() > 0
    ensures all[0].wf(), 0 <= j < all[0].incoming@.len() ==> ({ let v = all[0].incoming@[j].0.node; off + 1 <= v < off + all.len() && all[v - off].om().dom().contains(off as u32) && all[v - off].om()[off as u32] == (all[0].incoming@[j].0.weight, all[0].incoming@[j].1) && all[0].incoming@[j].0.weight <= INFINITY }),
        0 <= j < all[0].outgoing@.len() ==> ({ let v = all[0].outgoing@[j].0.node; off + 1 <= v < off + all.len() && all[v - off].im().dom().contains(off as u32) && all[v - off].im()[off as u32] == (all[0].outgoing@[j].0.weight, all[0].outgoing@[j].1) && all[0].outgoing@[j].0.weight <= INFINITY })
{
    assert(all[0].wf());
    if 0 <= j < all[0].incoming@.len() { let v = all[0].incoming@[j].0.node; lemma_lm(all[0].incoming@, j); assert(all[0].im().dom().contains(v)); assert(im_ok(all, off, 0, v)); assert(all[v - off].om().dom().contains(off as u32)); assert(om_ok(all, off, v - off, off as u32)); }
    if 0 <= j < all[0].outgoing@.len() { let v = all[0].outgoing@[j].0.node; lemma_lm(all[0].outgoing@, j); assert(all[0].om().dom().contains(v)); assert(om_ok(all, off, 0, v)); }
}
proof fn lemma_cut_pg(all: Seq<Node>, ns: Seq<Node>, ns2: Seq<Node>, off: int)
    requires pg_ok(all, off), all.len() > 0, ns == all.subrange(1, all.len() as int), cut_all(ns, ns2, off as u32)
    ensures pg_ok(ns2, off + 1)
{
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].om().dom().contains(v) implies om_ok(ns2, off + 1, u, v) by {
        assert(cut(ns[u], ns2[u], off as u32)); assert(all[u + 1].om().dom().contains(v)); assert(om_ok(all, off, u + 1, v)); assert(v != off); assert(ns[v - off - 1] == all[v - off]); assert(cut(ns[v - off - 1], ns2[v - off - 1], off as u32)); }
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].im().dom().contains(v) implies im_ok(ns2, off + 1, u, v) by {
        assert(cut(ns[u], ns2[u], off as u32)); assert(all[u + 1].im().dom().contains(v)); assert(im_ok(all, off, u + 1, v)); assert(v != off); assert(ns[v - off - 1] == all[v - off]); assert(cut(ns[v - off - 1], ns2[v - off - 1], off as u32)); }
    assert forall|u: int| 0 <= u < ns2.len() implies (#[trigger] ns2[u]).wf() by { assert(cut(ns[u], ns2[u], off as u32)); }
}
spec fn inserted(ns: Seq<Node>, ns2: Seq<Node>, off: int, from: u32, to: u32, w: u32, over: u32) -> bool {
    ns2.len() == ns.len() && forall|u: int| 0 <= u < ns.len() ==> (#[trigger] ns2[u]).wf()
        && ns2[u].om() == (if u == from - off { decreased(ns[u].om(), to, w, over) } else { ns[u].om() }) && ns2[u].im() == (if u == to - off { decreased(ns[u].im(), from, w, over) } else { ns[u].im() })
}
proof fn lemma_same_ends(ns: Seq<Node>, off: int, u: u32, v: u32)
    requires pg_ok(ns, off), off <= u < off + ns.len(), off <= v < off + ns.len()
    ensures ns[u - off].om().dom().contains(v) <==> ns[v - off].im().dom().contains(u), ns[u - off].om().dom().contains(v) ==> ns[u - off].om()[v] == ns[v - off].im()[u]
{ if ns[u - off].om().dom().contains(v) { assert(om_ok(ns, off, u - off, v)); } if ns[v - off].im().dom().contains(u) { assert(im_ok(ns, off, v - off, u)); } }
proof fn lemma_inserted_pg(ns: Seq<Node>, ns2: Seq<Node>, off: int, from: u32, to: u32, w: u32, over: u32)
    requires pg_ok(ns, off), inserted(ns, ns2, off, from, to, w, over), off <= from < off + ns.len(), off <= to < off + ns.len(), from != to, w <= INFINITY
    ensures pg_ok(ns2, off)
{
    lemma_same_ends(ns, off, from, to);
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].om().dom().contains(v) implies om_ok(ns2, off, u, v) by {
        if ns[u].om().dom().contains(v) { assert(om_ok(ns, off, u, v)); }
        assert(ns2[v - off].wf()); assert(ns2[u].wf()); }
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].im().dom().contains(v) implies im_ok(ns2, off, u, v) by {
        if ns[u].im().dom().contains(v) { assert(im_ok(ns, off, u, v)); }
        assert(ns2[v - off].wf()); assert(ns2[u].wf()); }
}
/// the bidirectional search over the wrapped graph (property C15): what it returns is the length of a walk
struct VfWitness<'a, 'b> { graph: &'a PartialContractionGraph<'b>, forward_data: DijkstraData<Weight>, backward_data: DijkstraData<Weight> }
impl<'a, 'b> VfWitness<'a, 'b> {
    #[verifier::external_body]
    fn distance_with_cap(&mut self, from: NodeId, to: NodeId, maximum_distance: Weight) -> (r: Option<Weight>)
        requires from < old(self).graph.nodes@.len(), to < old(self).graph.nodes@.len()
        ensures r matches Some(d) ==> wk(og(old(self).graph.nodes@, old(self).graph.off()), from + old(self).graph.off(), to + old(self).graph.off(), d as int)
    { unimplemented!() }
}
impl<'a> PartialContractionGraph<'a> {
    spec fn off(&self) -> int { self.id_offset as int }
    spec fn vf_ns(&self) -> Seq<Node> { self.nodes@ }
//@fn engine/src/algo/contraction_hierarchy/mod.rs PartialContractionGraph::remove_edges_to_removed
//@rw sub self.nodes[$e].remove_outgoing($x) => vf_node(self.nodes, $e).remove_outgoing($x)
//@rw sub self.nodes[$e].remove_incmoing($x) => vf_node(self.nodes, $e).remove_incmoing($x)
//@rw for
//@spec
    requires old(self).id_offset > 0, pg_ok(seq![*node] + old(self).nodes@, old(self).id_offset - 1)
    ensures cut_all(old(self).nodes@, final(self).nodes@, (old(self).id_offset - 1) as u32), pg_ok(final(self).nodes@, final(self).off()), final(self).id_offset == old(self).id_offset, final(final(self).nodes)@ == final(old(self).nodes)@
//@at start
    let ghost me = *self;
    let ghost ns = self.nodes@; let ghost off = self.id_offset - 1; let ghost x = off as u32;
    let ghost all = seq![*node] + ns;
    proof { assert(all.subrange(1, all.len() as int) =~= ns); assert(all[0] == *node); assert forall|u: int| 0 <= u < ns.len() implies (#[trigger] ns[u]).wf() by { assert(all[u + 1].wf()); } lemma_first(all, off, -1); }
//@loop 0
    invariant vf_it0@ == node.incoming@, vf_i0 <= vf_it0@.len(), pg_ok(all, off), all == seq![*node] + ns, self.id_offset == off + 1, x == off, final(self.nodes)@ == final(me.nodes)@, node.wf(),
        cut_outs(ns, self.nodes@, off + 1, node.incoming@, vf_i0 as int, x),
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    let ghost b4 = self.nodes@;
    proof { lemma_first(all, off, vf_i0 - 1); lemma_prefix(node.incoming@, vf_i0 - 1, from); assert(all[from - off] == ns[from - off - 1]); assert(b4[from - off - 1].wf()); }
//@at loop_end 0
    proof { assert forall|u: int| 0 <= u < ns.len() implies (#[trigger] self.nodes@[u]).wf() && self.nodes@[u].im() == ns[u].im() && self.nodes@[u].om() == (if in_prefix(node.incoming@, vf_i0 as int, (u + off + 1) as u32) { ns[u].om().remove(x) } else { ns[u].om() }) by { lemma_prefix(node.incoming@, vf_i0 - 1, (u + off + 1) as u32); assert(b4[u].wf()); } }
//@at before_loop 1
    let ghost mid = self.nodes@;
    proof { assert forall|u: int| 0 <= u < ns.len() implies (#[trigger] mid[u]).wf() && mid[u].im() == ns[u].im() && mid[u].om() == ns[u].om().remove(x) by {
            lemma_prefix_all(node.incoming@, (u + off + 1) as u32); assert(mid[u].wf());
            assert(all[u + 1] == ns[u]);
            if ns[u].om().dom().contains(x) { assert(all[u + 1].om().dom().contains(x)); assert(om_ok(all, off, u + 1, x)); }
            else { assert(ns[u].om().remove(x) =~= ns[u].om()); } } }
//@loop 1
    invariant vf_it1@ == node.outgoing@, vf_i1 <= vf_it1@.len(), pg_ok(all, off), all == seq![*node] + ns, self.id_offset == off + 1, x == off, final(self.nodes)@ == final(me.nodes)@, node.wf(),
        cut_ins(ns, self.nodes@, off + 1, node.outgoing@, vf_i1 as int, x),
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost b4 = self.nodes@;
    proof { lemma_first(all, off, vf_i1 - 1); lemma_prefix(node.outgoing@, vf_i1 - 1, to); assert(all[to - off] == ns[to - off - 1]); assert(b4[to - off - 1].wf()); }
//@at loop_end 1
    proof { assert forall|u: int| 0 <= u < ns.len() implies (#[trigger] self.nodes@[u]).wf() && self.nodes@[u].om() == ns[u].om().remove(x) && self.nodes@[u].im() == (if in_prefix(node.outgoing@, vf_i1 as int, (u + off + 1) as u32) { ns[u].im().remove(x) } else { ns[u].im() }) by { lemma_prefix(node.outgoing@, vf_i1 - 1, (u + off + 1) as u32); assert(b4[u].wf()); } }
//@at finish
    proof {
        assert forall|u: int| 0 <= u < ns.len() implies cut(ns[u], #[trigger] self.nodes@[u], x) by {
            lemma_prefix_all(node.outgoing@, (u + off + 1) as u32); assert(self.nodes@[u].wf());
            assert(all[u + 1] == ns[u]);
            if ns[u].im().dom().contains(x) { assert(all[u + 1].im().dom().contains(x)); assert(im_ok(all, off, u + 1, x)); }
            else { assert(ns[u].im().remove(x) =~= ns[u].im()); } }
        lemma_cut_pg(all, ns, self.nodes@, off);
    }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs PartialContractionGraph::remove_lowest
//@rw subopt self.nodes.split_first_mut() => vf_split_first_mut(self.nodes)
//@spec
    requires pg_ok(self.nodes@, self.off())
    ensures match r {
        None => old(self.nodes)@.len() == 0 && final(self.nodes)@ == old(self.nodes)@,
        Some((node, sub)) => old(self.nodes)@.len() > 0 && *node == old(self.nodes)@[0] && sub.id_offset == self.id_offset + 1 && final(self.nodes)@ == seq![*node] + final(sub.nodes)@
            && cut_all(old(self.nodes)@.subrange(1, old(self.nodes)@.len() as int), sub.nodes@, self.id_offset) && pg_ok(sub.nodes@, sub.off())
    }
//@at before subgraph.remove_edges_to_removed
    proof { assert(seq![*node] + subgraph.nodes@ =~= old(self.nodes)@); }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs PartialContractionGraph::insert_or_decrease
//@rw sub self.nodes[$e].insert_or_decrease_outgoing($x) => vf_node(self.nodes, $e).insert_or_decrease_outgoing($x)
//@rw sub self.nodes[$e].insert_or_decrease_incoming($x) => vf_node(self.nodes, $e).insert_or_decrease_incoming($x)
//@spec
    requires pg_ok(old(self).nodes@, old(self).off()), old(self).off() <= from < old(self).off() + old(self).nodes@.len(), old(self).off() <= to < old(self).off() + old(self).nodes@.len(), from != to, weight <= INFINITY
    ensures final(self).id_offset == old(self).id_offset, final(final(self).nodes)@ == final(old(self).nodes)@, final(self).nodes@.len() == old(self).nodes@.len(), inserted(old(self).nodes@, final(self).nodes@, old(self).off(), from, to, weight, over), pg_ok(final(self).nodes@, final(self).off())
//@at start
    let ghost ns = self.nodes@; let ghost off = self.off();
    proof { lemma_same_ends(ns, off, from, to); assert(ns[from - off].wf()); assert(ns[to - off].wf()); }
//@at end
    proof { assert forall|u: int| 0 <= u < ns.len() implies (#[trigger] self.nodes@[u]).wf()
        && self.nodes@[u].om() == (if u == from - off { decreased(ns[u].om(), to, weight, over) } else { ns[u].om() }) && self.nodes@[u].im() == (if u == to - off { decreased(ns[u].im(), from, weight, over) } else { ns[u].im() }) by { assert(ns[u].wf()); }
        lemma_inserted_pg(ns, self.nodes@, off, from, to, weight, over); }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs PartialContractionGraph::shortcut_required
//@sig fn shortcut_required(&self, from: NodeId, to: NodeId, shortcut_weight: Weight, recycled: (DijkstraData<Weight>, DijkstraData<Weight>)) -> (r: (bool, (DijkstraData<Weight>, DijkstraData<Weight>)))
//@rw sub crate::algo::dijkstra::query::bidirectional_dijkstra::Server { $f } ===> VfWitness { graph: self, forward_data: recycled.0, backward_data: recycled.1 }
//@rw sub server.distance_with_cap($a, $b, $c, |_, _, _| ()) ===> server.distance_with_cap($a, $b, $c)
//@spec
    requires pg_ok(self.nodes@, self.off()), self.off() <= from < self.off() + self.nodes@.len(), self.off() <= to < self.off() + self.nodes@.len()
    ensures r.0 ==> from != to, !r.0 ==> from == to || wle(og(self.vf_ns(), self.off()), from as int, to as int, shortcut_weight as int)
//@endfn
}
fn vf_node<'a>(s: &'a mut [Node], i: usize) -> (r: &'a mut Node) requires i < old(s)@.len() ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)) { &mut s[i] }

/// the origin of a link from u to v: an arc of the input (middle n) or two links of a contracted node
spec fn mid_ok(e0: Er, fz: Seq<Node>, n: int, u: int, v: int, w: u32, m: u32) -> bool {
    if m == n { rstep(e0, u, v, w as int) }
    else { m < fz.len() && u != v && 0 <= u <= u32::MAX && 0 <= v <= u32::MAX && fz[m as int].im().dom().contains(u as u32) && fz[m as int].om().dom().contains(v as u32) && fz[m as int].im()[u as u32].0 + fz[m as int].om()[v as u32].0 == w }
}
spec fn mids(e0: Er, fz: Seq<Node>, n: int, ns: Seq<Node>, off: int) -> bool {
    &&& forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].om().dom().contains(v) ==> mid_ok(e0, fz, n, u + off, v as int, ns[u].om()[v].0, ns[u].om()[v].1)
    &&& forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].im().dom().contains(v) ==> mid_ok(e0, fz, n, v as int, u + off, ns[u].im()[v].0, ns[u].im()[v].1)
}
/// frozen nodes: links go up and carry their origin
spec fn frozen_up(fz: Seq<Node>, n: int) -> bool {
    forall|u: int| 0 <= u < fz.len() ==> (#[trigger] fz[u]).wf() && (forall|v: u32| #[trigger] fz[u].om().dom().contains(v) ==> u < v < n && fz[u].om()[v].0 <= INFINITY) && (forall|v: u32| #[trigger] fz[u].im().dom().contains(v) ==> u < v < n && fz[u].im()[v].0 <= INFINITY)
}
spec fn rev(e: Er) -> Er { |u: int, v: int, w: int| e(v, u, w) }
/// what contraction keeps true after the nodes of fz were contracted
spec fn contracted(e0: Er, fz: Seq<Node>, ns: Seq<Node>, n: int) -> bool {
    let off = fz.len() as int;
    &&& off + ns.len() == n && pg_ok(ns, off) && frozen_up(fz, n)
    &&& hier(e0, og(fz, 0), ig(fz, 0), og(ns, off), off)
    &&& real(og(ns, off), e0) && real(og(fz, 0), e0) && real(rev(ig(fz, 0)), e0)
    &&& mids(e0, fz, n, ns, off) && mids(e0, fz, n, fz, 0)
}
proof fn lemma_contracted(e0: Er, fz: Seq<Node>, ns: Seq<Node>, n: int) requires contracted(e0, fz, ns, n) ensures fz.len() + ns.len() == n, n < u32::MAX, pg_ok(ns, fz.len() as int) { }
proof fn lemma_pairs0(e: Er, node: Node) ensures pairs_done(e, node, 0, 0) { }
proof fn lemma_pairs_next(e: Er, node: Node, j: int, k: int) requires pairs_done(e, node, j, k), pair_done(e, node, j, k) ensures pairs_done(e, node, j, k + 1) { }
proof fn lemma_pairs_row(e: Er, node: Node, j: int) requires pairs_done(e, node, j, node.outgoing@.len() as int) ensures pairs_done(e, node, j + 1, 0) { }
proof fn lemma_start(ns: Seq<Node>, n: int)
    requires pg_ok(ns, 0), n == ns.len(), forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].om().dom().contains(v) ==> ns[u].om()[v].1 == n
    ensures contracted(og(ns, 0), Seq::empty(), ns, n)
{
    let e0 = og(ns, 0); let fz = Seq::<Node>::empty();
    lemma_hier_start(e0, og(fz, 0), ig(fz, 0)); lemma_sub_real(e0, e0);
    assert forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].om().dom().contains(v) implies mid_ok(e0, fz, n, u + 0, v as int, ns[u].om()[v].0, ns[u].om()[v].1) by { assert(om_ok(ns, 0, u, v)); assert(has_out(ns, 0, u, v as int, ns[u].om()[v].0 as int)); }
    assert forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].im().dom().contains(v) implies mid_ok(e0, fz, n, v as int, u + 0, ns[u].im()[v].0, ns[u].im()[v].1) by { assert(im_ok(ns, 0, u, v)); assert(ns[v as int].om().dom().contains(u as u32)); assert(om_ok(ns, 0, v as int, u as u32)); assert(has_out(ns, 0, v as int, u, ns[u].im()[v].0 as int)); }
}
proof fn lemma_og(ns: Seq<Node>, off: int, u: u32, v: u32)
    requires off <= u < off + ns.len(), ns[u - off].om().dom().contains(v)
    ensures rstep(og(ns, off), u as int, v as int, ns[u - off].om()[v].0 as int)
{ assert(has_out(ns, off, u as int, v as int, ns[u - off].om()[v].0 as int)); }
/// inserting a shortcut that is realised in the input
proof fn lemma_insert(e0: Er, ns: Seq<Node>, ns2: Seq<Node>, off: int, from: u32, to: u32, w: u32, over: u32, fz: Seq<Node>, n: int)
    requires pg_ok(ns, off), pg_ok(ns2, off), inserted(ns, ns2, off, from, to, w, over), off <= from < off + ns.len(), off <= to < off + ns.len(), from != to, wk(e0, from as int, to as int, w as int), real(og(ns, off), e0),
        mids(e0, fz, n, ns, off), mid_ok(e0, fz, n, from as int, to as int, w, over)
    ensures dom(og(ns, off), og(ns2, off)), wle(og(ns2, off), from as int, to as int, w as int), real(og(ns2, off), e0), mids(e0, fz, n, ns2, off)
{
    let e = og(ns, off); let e2 = og(ns2, off);
    assert forall|u: int, v: int, x: int| #[trigger] rstep(e, u, v, x) implies wle(e2, u, v, x) by {
        assert(has_out(ns, off, u, v, x)); let a = ns2[u - off];
        assert(a.om().dom().contains(v as u32));
        lemma_og(ns2, off, u as u32, v as u32); lemma_wk1(e2, u, v, a.om()[v as u32].0 as int);
        assert(a.om()[v as u32].0 <= x);
    }
    assert(ns2[from - off].om().dom().contains(to));
    lemma_og(ns2, off, from, to); lemma_wk1(e2, from as int, to as int, ns2[from - off].om()[to].0 as int);
    assert(ns2[from - off].om()[to].0 <= w);
    assert forall|u: int, v: int, x: int| #[trigger] rstep(e2, u, v, x) implies wk(e0, u, v, x) by {
        assert(has_out(ns2, off, u, v, x)); let a = ns2[u - off];
        if u == from && v == to && better(ns[u - off].om(), to, w) { assert(x == w); }
        else { assert(ns[u - off].om().dom().contains(v as u32)); assert(has_out(ns, off, u, v, x)); assert(rstep(e, u, v, x)); }
    }
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].om().dom().contains(v) implies mid_ok(e0, fz, n, u + off, v as int, ns2[u].om()[v].0, ns2[u].om()[v].1) by { if !(u + off == from && v == to && better(ns[u].om(), to, w)) { assert(ns[u].om().dom().contains(v)); } }
    assert forall|u: int, v: u32| 0 <= u < ns2.len() && #[trigger] ns2[u].im().dom().contains(v) implies mid_ok(e0, fz, n, v as int, u + off, ns2[u].im()[v].0, ns2[u].im()[v].1) by { if !(u + off == to && v == from && better(ns[u].im(), from, w)) { assert(ns[u].im().dom().contains(v)); } }
}
/// splitting off the lowest node
proof fn lemma_split(e0: Er, fz: Seq<Node>, all: Seq<Node>, ns: Seq<Node>, n: int)
    requires contracted(e0, fz, all, n), all.len() > 0, cut_all(all.subrange(1, all.len() as int), ns, fz.len() as u32), pg_ok(ns, fz.len() as int + 1)
    ensures real(og(ns, fz.len() as int + 1), e0), mids(e0, fz.push(all[0]), n, ns, fz.len() as int + 1), mids(e0, fz.push(all[0]), n, fz.push(all[0]), 0), frozen_up(fz.push(all[0]), n), all[0].wf(),
        dom(og(ns, fz.len() as int + 1), og(all, fz.len() as int)), forall|u: int, v: int, w: int| #[trigger] rstep(og(all, fz.len() as int), u, v, w) && u != fz.len() && v != fz.len() ==> rstep(og(ns, fz.len() as int + 1), u, v, w)
{
    let off = fz.len() as int; let x = off as u32; let fz2 = fz.push(all[0]); let e = og(all, off); let e2 = og(ns, off + 1);
    let r = all.subrange(1, all.len() as int);
    assert forall|u: int, v: int, w: int| #[trigger] rstep(e2, u, v, w) implies rstep(e, u, v, w) by { assert(has_out(ns, off + 1, u, v, w)); assert(cut(r[u - off - 1], ns[u - off - 1], x)); assert(r[u - off - 1] == all[u - off]); assert(has_out(all, off, u, v, w)); }
    lemma_sub_real(e2, e);
    assert forall|u: int, v: int, w: int| #[trigger] rstep(e2, u, v, w) implies wk(e0, u, v, w) by { assert(rstep(e, u, v, w)); }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) && u != off && v != off implies rstep(e2, u, v, w) by { assert(has_out(all, off, u, v, w)); assert(cut(r[u - off - 1], ns[u - off - 1], x)); assert(r[u - off - 1] == all[u - off]); assert(has_out(ns, off + 1, u, v, w)); }
    assert forall|u: int, v: int, w: u32, m: u32| #[trigger] mid_ok(e0, fz, n, u, v, w, m) implies mid_ok(e0, fz2, n, u, v, w, m) by { if m != n { assert(fz2[m as int] == fz[m as int]); } }
    assert forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].om().dom().contains(v) implies mid_ok(e0, fz2, n, u + off + 1, v as int, ns[u].om()[v].0, ns[u].om()[v].1) by { assert(cut(r[u], ns[u], x)); assert(all[u + 1] == r[u]); assert(all[u + 1].om().dom().contains(v)); assert(mid_ok(e0, fz, n, u + 1 + off, v as int, ns[u].om()[v].0, ns[u].om()[v].1)); }
    assert forall|u: int, v: u32| 0 <= u < ns.len() && #[trigger] ns[u].im().dom().contains(v) implies mid_ok(e0, fz2, n, v as int, u + off + 1, ns[u].im()[v].0, ns[u].im()[v].1) by { assert(cut(r[u], ns[u], x)); assert(all[u + 1] == r[u]); assert(all[u + 1].im().dom().contains(v)); assert(mid_ok(e0, fz, n, v as int, u + 1 + off, ns[u].im()[v].0, ns[u].im()[v].1)); }
    assert(all[0].wf());
    assert forall|u: int, v: u32| 0 <= u < fz2.len() && #[trigger] fz2[u].om().dom().contains(v) implies mid_ok(e0, fz2, n, u + 0, v as int, fz2[u].om()[v].0, fz2[u].om()[v].1) by { if u < off { assert(fz[u].om().dom().contains(v)); } else { assert(all[0].om().dom().contains(v)); } }
    assert forall|u: int, v: u32| 0 <= u < fz2.len() && #[trigger] fz2[u].im().dom().contains(v) implies mid_ok(e0, fz2, n, v as int, u + 0, fz2[u].im()[v].0, fz2[u].im()[v].1) by { if u < off { assert(fz[u].im().dom().contains(v)); } else { assert(all[0].im().dom().contains(v)); } }
    assert forall|u: int| 0 <= u < fz2.len() implies (#[trigger] fz2[u]).wf() && (forall|v: u32| #[trigger] fz2[u].om().dom().contains(v) ==> u < v < n && fz2[u].om()[v].0 <= INFINITY) && (forall|v: u32| #[trigger] fz2[u].im().dom().contains(v) ==> u < v < n && fz2[u].im()[v].0 <= INFINITY) by {
        if u < off { assert(fz2[u] == fz[u]); assert(fz[u].wf()); } else {
            assert forall|v: u32| #[trigger] fz2[u].om().dom().contains(v) implies u < v < n && fz2[u].om()[v].0 <= INFINITY by { assert(all[0].om().dom().contains(v)); assert(om_ok(all, off, 0, v)); }
            assert forall|v: u32| #[trigger] fz2[u].im().dom().contains(v) implies u < v < n && fz2[u].im()[v].0 <= INFINITY by { assert(all[0].im().dom().contains(v)); assert(im_ok(all, off, 0, v)); assert(all[v - off].om().dom().contains(off as u32)); assert(om_ok(all, off, v - off, off as u32)); }
        } }
}
spec fn pair_done(e: Er, node: Node, j: int, k: int) -> bool {
    node.incoming@[j].0.node == node.outgoing@[k].0.node || wle(e, node.incoming@[j].0.node as int, node.outgoing@[k].0.node as int, node.incoming@[j].0.weight + node.outgoing@[k].0.weight)
}
/// all pairs of the first j incoming links are matched, and the first k of the next one
spec fn pairs_done(e: Er, node: Node, j: int, k: int) -> bool {
    &&& forall|a: int, c: int| 0 <= a < j && a < node.incoming@.len() && 0 <= c < node.outgoing@.len() ==> #[trigger] pair_done(e, node, a, c)
    &&& forall|c: int| 0 <= c < k && c < node.outgoing@.len() && 0 <= j < node.incoming@.len() ==> #[trigger] pair_done(e, node, j, c)
}
proof fn lemma_pairs_dom(e: Er, e2: Er, node: Node, j: int, k: int)
    requires pairs_done(e, node, j, k), dom(e, e2)
    ensures pairs_done(e2, node, j, k)
{
    assert forall|a: int, c: int| 0 <= a < j && a < node.incoming@.len() && 0 <= c < node.outgoing@.len() implies #[trigger] pair_done(e2, node, a, c) by { assert(pair_done(e, node, a, c)); if node.incoming@[a].0.node != node.outgoing@[c].0.node { lemma_wle_dom(e, e2, node.incoming@[a].0.node as int, node.outgoing@[c].0.node as int, node.incoming@[a].0.weight + node.outgoing@[c].0.weight); } }
    assert forall|c: int| 0 <= c < k && c < node.outgoing@.len() && 0 <= j < node.incoming@.len() implies #[trigger] pair_done(e2, node, j, c) by { assert(pair_done(e, node, j, c)); if node.incoming@[j].0.node != node.outgoing@[c].0.node { lemma_wle_dom(e, e2, node.incoming@[j].0.node as int, node.outgoing@[c].0.node as int, node.incoming@[j].0.weight + node.outgoing@[c].0.weight); } }
}
proof fn lemma_freeze(e0: Er, fz: Seq<Node>, all: Seq<Node>, ns: Seq<Node>, ns2: Seq<Node>, n: int)
    requires contracted(e0, fz, all, n), all.len() > 0, ns.len() == all.len() - 1, ns2.len() == ns.len(), pg_ok(ns2, fz.len() as int + 1), real(og(ns2, fz.len() as int + 1), e0), mids(e0, fz.push(all[0]), n, ns2, fz.len() as int + 1), mids(e0, fz.push(all[0]), n, fz.push(all[0]), 0), frozen_up(fz.push(all[0]), n),
        forall|u: int, v: int, w: int| #[trigger] rstep(og(all, fz.len() as int), u, v, w) && u != fz.len() && v != fz.len() ==> rstep(og(ns, fz.len() as int + 1), u, v, w),
        dom(og(ns, fz.len() as int + 1), og(ns2, fz.len() as int + 1)), pairs_done(og(ns2, fz.len() as int + 1), all[0], all[0].incoming@.len() as int, 0)
    ensures contracted(e0, fz.push(all[0]), ns2, n)
{
    let off = fz.len() as int; let x = off as u32; let fz2 = fz.push(all[0]); let e = og(all, off); let e1 = og(ns, off + 1); let e2 = og(ns2, off + 1); let node = all[0];
    let (f, b, f2, b2) = (og(fz, 0), ig(fz, 0), og(fz2, 0), ig(fz2, 0));
    assert(node.wf());
    assert forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) implies u >= off && v >= off && u != v by { assert(has_out(all, off, u, v, w)); assert(om_ok(all, off, u - off, v as u32)); }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(e, u, v, w) && u != off && v != off implies wle(e2, u, v, w) by { assert(rstep(e1, u, v, w)); }
    assert forall|u: int, v: int, w1: int, w2: int| #[trigger] rstep(e, u, off, w1) && #[trigger] rstep(e, off, v, w2) && u != v implies wle(e2, u, v, w1 + w2) by {
        assert(has_out(all, off, u, off, w1)); assert(has_out(all, off, off, v, w2)); assert(om_ok(all, off, u - off, x));
        let j = lemma_lm_find(node.incoming@, u as u32); let k = lemma_lm_find(node.outgoing@, v as u32);
        assert(pair_done(e2, node, j, k));
    }
    assert(bypassed(e, off, e2));
    assert forall|u: int, v: int, w: int| #[trigger] rstep(f, u, v, w) implies rstep(f2, u, v, w) by { assert(has_out(fz, 0, u, v, w)); assert(has_out(fz2, 0, u, v, w)); }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(b, u, v, w) implies rstep(b2, u, v, w) by { assert(has_in(fz, 0, u, v, w)); assert(has_in(fz2, 0, u, v, w)); }
    assert forall|v: int, w: int| #[trigger] rstep(e, off, v, w) implies rstep(f2, off, v, w) && v > off by { assert(has_out(all, off, off, v, w)); assert(fz2[off] == node); assert(has_out(fz2, 0, off, v, w)); }
    assert forall|v: int, w: int| #[trigger] rstep(e, v, off, w) implies rstep(b2, off, v, w) && v > off by { assert(has_out(all, off, v, off, w)); assert(om_ok(all, off, v - off, x)); assert(fz2[off] == node); assert(has_in(fz2, 0, off, v, w)); }
    lemma_hier_step(e0, f, b, e, off, f2, b2, e2);
    assert forall|u: int, v: int, w: int| #[trigger] rstep(f2, u, v, w) implies wk(e0, u, v, w) by {
        assert(has_out(fz2, 0, u, v, w));
        if u < off { assert(fz2[u] == fz[u]); assert(has_out(fz, 0, u, v, w)); assert(rstep(f, u, v, w)); } else { assert(fz2[u] == node); assert(has_out(all, off, u, v, w)); assert(rstep(e, u, v, w)); } }
    assert forall|u: int, v: int, w: int| #[trigger] rstep(rev(b2), u, v, w) implies wk(e0, u, v, w) by {
        assert(has_in(fz2, 0, v, u, w));
        if v < off { assert(fz2[v] == fz[v]); assert(has_in(fz, 0, v, u, w)); assert(rstep(rev(b), u, v, w)); } else { assert(fz2[v] == node); assert(node.im().dom().contains(u as u32)); assert(im_ok(all, off, 0, u as u32)); assert(has_out(all, off, u, v, w)); assert(rstep(e, u, v, w)); } }
}

impl ContractionGraph {
//@fn engine/src/algo/contraction_hierarchy/mod.rs ContractionGraph::partial_graph
//@rw sub &mut $x:chain[..] => vf_all_mut(&mut $x)
//@spec
    ensures r.nodes@ == old(self).nodes@, r.id_offset == 0, final(self).nodes@ == final(r.nodes)@
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs ContractionGraph::contract
//@rw subopt self.contract_partially($e) ===> self.contract_partially($e);
//@spec
    requires pg_ok(old(self).nodes@, 0), forall|u: int, v: u32| 0 <= u < old(self).nodes@.len() && #[trigger] old(self).nodes@[u].om().dom().contains(v) ==> old(self).nodes@[u].om()[v].1 == old(self).nodes@.len()
    ensures contracted(og(old(self).nodes@, 0), final(self).nodes@, Seq::empty(), old(self).nodes@.len() as int), final(self).nodes@.len() == old(self).nodes@.len()
//@at start
    let ghost n = self.nodes@.len() as int;
//@at finish
    proof { assert(self.nodes@.subrange(0, n) =~= self.nodes@); assert(self.nodes@.subrange(n, n) =~= Seq::empty()); }
//@endfn
//@fn engine/src/algo/contraction_hierarchy/mod.rs ContractionGraph::contract_partially
//@rw sub from_wght + to_wght ===> vf_shortcut_weight(from_wght, to_wght)
//@rw for
//@spec
    requires pg_ok(old(self).nodes@, 0), forall|u: int, v: u32| 0 <= u < old(self).nodes@.len() && #[trigger] old(self).nodes@[u].om().dom().contains(v) ==> old(self).nodes@[u].om()[v].1 == old(self).nodes@.len()
    ensures final(self).nodes@.len() == old(self).nodes@.len(), ({ let k = if contraction_count < old(self).nodes@.len() { contraction_count as int } else { old(self).nodes@.len() as int };
        contracted(og(old(self).nodes@, 0), final(self).nodes@.subrange(0, k), final(self).nodes@.subrange(k, old(self).nodes@.len() as int), old(self).nodes@.len() as int) })
//@at start
    hide(contracted); hide(pg_ok); hide(real); hide(dom); hide(mids); hide(pairs_done); hide(pair_done); hide(wle); hide(wk); hide(Node::wf); hide(Node::om); hide(Node::im); hide(og); hide(inserted); hide(mid_ok); hide(lm); hide(cut);
    let ghost ns0 = self.nodes@; let ghost n = ns0.len() as int; let ghost e0 = og(ns0, 0); let ghost count = contraction_count;
    let ghost mut fz: Seq<Node> = Seq::empty();
    proof { lemma_start(ns0, n); }
//@at before_loop 0
    let ghost g0 = graph;
    proof { assert(fz + final(graph.nodes)@ =~= final(graph.nodes)@); }
//@loop 0
    invariant fz.len() == graph.id_offset, contracted(e0, fz, graph.nodes@, n), final(g0.nodes)@ == fz + final(graph.nodes)@, fz.len() + contraction_count == count,
    ensures fz.len() == graph.id_offset, contracted(e0, fz, graph.nodes@, n), final(g0.nodes)@ == fz + final(graph.nodes)@, fz.len() + contraction_count == count, contraction_count == 0 || graph.nodes@.len() == 0, final(graph.nodes)@ == graph.nodes@
    decreases contraction_count
//@at loop_start 0
    let ghost all = graph.nodes@;
    proof { lemma_contracted(e0, fz, all, n); }
//@at before_loop 1
    let ghost sg = subgraph; let ghost ns = subgraph.nodes@; let ghost off = fz.len() as int; let ghost fz2 = fz.push(*node);
    proof { lemma_pairs0(og(ns, off + 1), *node); lemma_split(e0, fz, all, ns, n); lemma_sub_real(og(ns, off + 1), og(ns, off + 1)); }
//@loop 1
    invariant vf_it1@ == node.incoming@, vf_i1 <= vf_it1@.len(), subgraph.id_offset == off + 1, subgraph.nodes@.len() == ns.len(), final(subgraph.nodes)@ == final(sg.nodes)@, pg_ok(subgraph.nodes@, off + 1), dom(og(ns, off + 1), og(subgraph.nodes@, off + 1)), real(og(subgraph.nodes@, off + 1), e0), mids(e0, fz2, n, subgraph.nodes@, off + 1),
        contracted(e0, fz, all, n), all.len() == ns.len() + 1, all[0] == *node, off == fz.len(), fz2 == fz.push(*node), pairs_done(og(subgraph.nodes@, off + 1), *node, vf_i1 as int, 0),
    decreases vf_it1@.len() - vf_i1
//@loop 2
    invariant vf_it2@ == node.outgoing@, vf_i2 <= vf_it2@.len(), 0 < vf_i1 <= node.incoming@.len(), from == node.incoming@[vf_i1 - 1].0.node, from_wght == node.incoming@[vf_i1 - 1].0.weight, subgraph.id_offset == off + 1, subgraph.nodes@.len() == ns.len(), final(subgraph.nodes)@ == final(sg.nodes)@, pg_ok(subgraph.nodes@, off + 1), dom(og(ns, off + 1), og(subgraph.nodes@, off + 1)), real(og(subgraph.nodes@, off + 1), e0), mids(e0, fz2, n, subgraph.nodes@, off + 1),
        contracted(e0, fz, all, n), all.len() == ns.len() + 1, all[0] == *node, off == fz.len(), fz2 == fz.push(*node), pairs_done(og(subgraph.nodes@, off + 1), *node, vf_i1 - 1, vf_i2 as int),
    decreases vf_it2@.len() - vf_i2
//@at loop_start 2
    let ghost b4 = subgraph.nodes@;
    proof { lemma_contracted(e0, fz, all, n); lemma_first(all, off, vf_i1 - 1); lemma_first(all, off, vf_i2 - 1); if from != to { lemma_detour(e0, fz, all, n, vf_i1 - 1, vf_i2 - 1); } }
//@at loop_end 2
    proof {
        let e = og(b4, off + 1); let e2 = og(subgraph.nodes@, off + 1);
        if shortcut_required && from != to { lemma_insert(e0, b4, subgraph.nodes@, off + 1, from, to, (from_wght + to_wght) as u32, off as u32, fz2, n); } else { lemma_sub_real(e, e2); }
        lemma_dom_trans(og(ns, off + 1), e, e2);
        lemma_pairs_dom(e, e2, *node, vf_i1 - 1, vf_i2 - 1);
        assert(pair_done(e2, *node, vf_i1 - 1, vf_i2 - 1)) by { reveal(pair_done); }
        lemma_pairs_next(e2, *node, vf_i1 - 1, vf_i2 - 1);
    }
//@at loop_end 1
    proof { lemma_pairs_row(og(subgraph.nodes@, off + 1), *node, vf_i1 - 1); }
//@at after_loop 1
    proof {
        lemma_freeze(e0, fz, all, ns, subgraph.nodes@, n);
        fz = fz2;
        assert(fz.drop_last() + (seq![*node] + final(subgraph.nodes)@) =~= fz + final(subgraph.nodes)@);
    }
//@at past_loop 0
    proof {
        lemma_contracted(e0, fz, graph.nodes@, n);
        let k = fz.len() as int; let all = fz + graph.nodes@;
        assert(all.subrange(0, k) =~= fz); assert(all.subrange(k, n) =~= graph.nodes@);
    }
//@endfn
}
/// the way over the lowest node is the length of a walk of the input
proof fn lemma_detour(e0: Er, fz: Seq<Node>, all: Seq<Node>, n: int, j: int, k: int)
    requires contracted(e0, fz, all, n), all.len() > 0, 0 <= j < all[0].incoming@.len(), 0 <= k < all[0].outgoing@.len(), all[0].incoming@[j].0.node != all[0].outgoing@[k].0.node
    ensures wk(e0, all[0].incoming@[j].0.node as int, all[0].outgoing@[k].0.node as int, all[0].incoming@[j].0.weight + all[0].outgoing@[k].0.weight),
        forall|w: u32| w == all[0].incoming@[j].0.weight + all[0].outgoing@[k].0.weight ==> #[trigger] mid_ok(e0, fz.push(all[0]), n, all[0].incoming@[j].0.node as int, all[0].outgoing@[k].0.node as int, w, fz.len() as u32)
{
    hide(hier); hide(mids); hide(frozen_up); hide(wk); hide(uniq); hide(lm);
    assert(pg_ok(all, fz.len() as int) && real(og(all, fz.len() as int), e0));
    let off = fz.len() as int; let u = all[0].incoming@[j].0.node; let v = all[0].outgoing@[k].0.node; let e = og(all, off);
    lemma_first(all, off, j); lemma_first(all, off, k); lemma_lm(all[0].incoming@, j); lemma_lm(all[0].outgoing@, k);
    lemma_og(all, off, u, off as u32); lemma_og(all, off, off as u32, v);
    lemma_wk_trans(e0, u as int, off, v as int, all[0].incoming@[j].0.weight as int, all[0].outgoing@[k].0.weight as int);
    assert(fz.push(all[0])[off] == all[0]);
}
