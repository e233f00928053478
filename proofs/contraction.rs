//@include prelude.inc
//@include perm.inc
//@include arcs.inc
//@include graph.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include links.inc
//@include_contracts adj.inc reverse
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
use std::cmp::Ordering;

/// strictly increasing: sorted and free of duplicates
spec fn inc(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
//@item engine/src/algo/customizable_contraction_hierarchy/contraction.rs enum ShortcutResult
//@item engine/src/algo/customizable_contraction_hierarchy/contraction.rs struct Node
/// neighbour lists
spec fn lists_of(s: Seq<Node>) -> Seq<Seq<u32>> { Seq::new(s.len(), |i: int| s[i].edges@) }
spec fn adj(ls: Seq<Seq<u32>>, u: int, v: int) -> bool { 0 <= u < ls.len() && 0 <= v <= u32::MAX && ls[u].contains(v as u32) }
/// every list is strictly increasing and leads upwards
spec fn upward(ls: Seq<Seq<u32>>) -> bool {
    &&& forall|u: int| 0 <= u < ls.len() ==> inc(#[trigger] ls[u])
    &&& forall|u: int, v: int| #[trigger] adj(ls, u, v) ==> u < v < ls.len()
}
spec fn covers(a: Seq<Seq<u32>>, b: Seq<Seq<u32>>) -> bool { a.len() == b.len() && forall|u: int, v: int| #[trigger] adj(a, u, v) ==> adj(b, u, v) }
/// any two upper neighbours of a node are connected
spec fn chordal(ls: Seq<Seq<u32>>) -> bool { forall|u: int, v: int, w: int| #[trigger] adj(ls, u, v) && #[trigger] adj(ls, u, w) && v < w ==> adj(ls, v, w) }
/// the upper neighbours of u other than the lowest are neighbours of the lowest
spec fn pushed(ls: Seq<Seq<u32>>, u: int) -> bool { forall|v: int| #[trigger] adj(ls, u, v) && v != ls[u][0] ==> adj(ls, ls[u][0] as int, v) }
proof fn lemma_lowest(ls: Seq<Seq<u32>>, u: int, v: int)
    requires upward(ls), adj(ls, u, v)
    ensures ls[u].len() > 0, ls[u][0] <= v, adj(ls, u, ls[u][0] as int)
{
    let i = choose|i: int| 0 <= i < ls[u].len() && ls[u][i] == v as u32;
    if i > 0 { assert(ls[u][0] < ls[u][i]); }
    assert(ls[u].contains(ls[u][0]));
}
proof fn lemma_chordal(ls: Seq<Seq<u32>>, u: int, v: int, w: int)
    requires upward(ls), forall|u: int| 0 <= u < ls.len() ==> #[trigger] pushed(ls, u), adj(ls, u, v), adj(ls, u, w), v < w
    ensures adj(ls, v, w)
    decreases v - u
{
    assert(pushed(ls, u));
    lemma_lowest(ls, u, v);
    let p = ls[u][0] as int;
    if p != v { lemma_chordal(ls, p, v, w); }
}
spec fn contr_inv(ls0: Seq<Seq<u32>>, cur: Seq<Node>, k: int) -> bool {
    &&& upward(lists_of(cur))
    &&& covers(ls0, lists_of(cur))
    &&& forall|u: int| 0 <= u < k ==> #[trigger] pushed(lists_of(cur), u)
}
/// contracting node k: its other neighbours became neighbours of its lowest neighbour
spec fn merged(cur: Seq<Node>, nxt: Seq<Node>, k: int) -> bool {
    let l = cur[k].edges@;
    if l.len() == 0 { nxt == cur } else {
        &&& nxt == cur.update(l[0] as int, nxt[l[0] as int])
        &&& inc(nxt[l[0] as int].edges@)
        &&& forall|x: u32| #[trigger] nxt[l[0] as int].edges@.contains(x) <==> cur[l[0] as int].edges@.contains(x) || l.subrange(1, l.len() as int).contains(x)
    }
}
proof fn lemma_step(ls0: Seq<Seq<u32>>, cur: Seq<Node>, nxt: Seq<Node>, k: int)
    requires contr_inv(ls0, cur, k), 0 <= k < cur.len(), merged(cur, nxt, k), cur.len() < u32::MAX
    ensures contr_inv(ls0, nxt, k + 1)
{
    let (a, b) = (lists_of(cur), lists_of(nxt));
    let l = cur[k].edges@;
    if l.len() == 0 {
        assert(a[k] == l);
        assert(pushed(b, k));
    } else {
        let p = l[0] as int;
        assert(a[k] == l && a[k].contains(l[0]) && adj(a, k, p));
        assert forall|v: int| #[trigger] adj(a, k, v) && v != p implies l.subrange(1, l.len() as int).contains(v as u32) by {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == v as u32;
            assert(l.subrange(1, l.len() as int)[i - 1] == v as u32);
        }
        assert forall|x: u32| l.subrange(1, l.len() as int).contains(x) implies adj(a, k, x as int) && x > p by {
            let i = choose|i: int| 0 <= i < l.len() - 1 && l.subrange(1, l.len() as int)[i] == x;
            assert(l[i + 1] == x && l[0] < l[i + 1]);
            assert(l.contains(x));
        }
        assert forall|u: int, v: int| #[trigger] adj(a, u, v) implies adj(b, u, v) by { if u == p { assert(a[p].contains(v as u32)); assert(b[p].contains(v as u32)); } else { assert(b[u] == a[u]); } }
        assert forall|u: int, v: int| #[trigger] adj(b, u, v) implies u < v < b.len() by {
            if u != p { assert(b[u] == a[u]); assert(adj(a, u, v)); } else {
                assert(b[p].contains(v as u32));
                if a[p].contains(v as u32) { assert(adj(a, p, v)); } else { assert(adj(a, k, v)); }
            }
        }
        assert forall|u: int| 0 <= u < b.len() implies inc(#[trigger] b[u]) by { if u != p { assert(b[u] == a[u]); } }
        assert forall|u: int| 0 <= u < k + 1 implies #[trigger] pushed(b, u) by {
            assert(u < p && b[u] == a[u]);
            assert forall|v: int| #[trigger] adj(b, u, v) && v != b[u][0] implies adj(b, b[u][0] as int, v) by {
                assert(adj(a, u, v));
                if u < k { assert(pushed(a, u)); assert(adj(a, a[u][0] as int, v)); }
                else { assert(nxt[p].edges@.contains(v as u32)); assert(adj(b, p, v)); }
            }
        }
    }
}
/// Peekable::peek of a slice iterator
fn vf_peek<'a, T: Copy>(c: &VfCur<'a, T>) -> (r: Option<T>) requires c.wf() ensures r == (if c.pos < c.s@.len() { Some(c.s@[c.pos as int]) } else { None })
{ if c.pos < c.s.len() { Some(c.s[c.pos]) } else { None } }
/// std: slice::split_first_mut, split_at_mut, sort_unstable, Vec::dedup
#[verifier::external_body]
fn vf_split_first_mut<'a, T>(s: &'a mut [T]) -> (r: Option<(&'a mut T, &'a mut [T])>)
    ensures match r {
        None => old(s)@.len() == 0 && final(s)@ == old(s)@,
        Some((a, b)) => old(s)@.len() > 0 && *a == old(s)@[0] && b@ == old(s)@.subrange(1, old(s)@.len() as int) && final(s)@ == seq![*final(a)] + final(b)@ && final(b)@.len() == b@.len(),
    }
{ s.split_first_mut() }
#[verifier::external_body]
fn vf_split_at_mut<'a, T>(s: &'a mut Vec<T>, k: usize) -> (r: (&'a mut [T], &'a mut [T]))
    requires k <= old(s)@.len()
    ensures r.0@ == old(s)@.subrange(0, k as int), r.1@ == old(s)@.subrange(k as int, old(s)@.len() as int), final(s)@ == final(r.0)@ + final(r.1)@,
        final(r.0)@.len() == r.0@.len(), final(r.1)@.len() == r.1@.len()
{ s.split_at_mut(k) }
#[verifier::external_body]
fn vf_all_mut<'a, T>(s: &'a mut Vec<T>) -> (r: &'a mut [T]) ensures r@ == old(s)@, final(s)@ == final(r)@, final(r)@.len() == r@.len() { &mut s[..] }
spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
#[verifier::external_body]
fn vf_sort(s: &mut Vec<u32>) ensures sorted(final(s)@), forall|x: u32| #[trigger] final(s)@.contains(x) == old(s)@.contains(x) { s.sort_unstable() }
#[verifier::external_body]
fn vf_dedup(s: &mut Vec<u32>) ensures forall|x: u32| #[trigger] final(s)@.contains(x) == old(s)@.contains(x), sorted(old(s)@) ==> inc(final(s)@) { s.dedup() }

/// std: slice::split_first
fn vf_split_first<'a, T: Copy>(s: &'a Vec<T>) -> (r: Option<(T, &'a [T])>)
    ensures match r { None => s@.len() == 0, Some((a, b)) => s@.len() > 0 && a == s@[0] && b@ == s@.subrange(1, s@.len() as int) }
{ if s.len() == 0 { None } else { Some((s[0], vstd::slice::slice_subrange(s.as_slice(), 1, s.len()))) } }
/// the counter of inserted arcs is only reported
#[verifier::external_body]
fn vf_add(a: usize, b: usize) -> usize { a + b }
impl Node {
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs Node::insert
//@rw for
//@spec
    ensures final(self).edges@ == (if old(self).edges@.contains(node) { old(self).edges@ } else { old(self).edges@.push(node) })
//@loop 0
    invariant vf_it0@ == self.edges@, *self == *old(self), vf_i0 <= self.edges@.len(), forall|j: int| 0 <= j < vf_i0 ==> self.edges@[j] != node
    decreases self.edges@.len() - vf_i0
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs Node::merge_neighbors
//@rw sub $x:chain.iter().peekable() => vf_cur(&$x)
//@rw subopt (self_iter.peek(), other_iter.peek()) => (vf_peek(&self_iter), vf_peek(&other_iter))
//@rw sub Some(&&$x:id) => Some($x)
//@rw subopt Vec::with_capacity($e) => Vec::new()
//@rw subopt $x:id.cmp(&$y:id) => vf_cmp($x, $y)
//@spec
    requires inc(old(self).edges@), inc(others@)
    ensures final(self).edges@.len() >= old(self).edges@.len(), inc(final(self).edges@), forall|x: u32| #[trigger] final(self).edges@.contains(x) <==> old(self).edges@.contains(x) || others@.contains(x)
//@loop 0
    invariant self_iter.wf(), other_iter.wf(), self_iter.s@ == old(self).edges@, other_iter.s@ == others@, *self == *old(self), inc(old(self).edges@), inc(others@), inc(new_edges@), new_edges@.len() >= self_iter.pos,
        forall|j: int| 0 <= j < new_edges@.len() ==> (self_iter.pos < old(self).edges@.len() ==> #[trigger] new_edges@[j] < old(self).edges@[self_iter.pos as int]) && (other_iter.pos < others@.len() ==> new_edges@[j] < others@[other_iter.pos as int]),
        forall|j: int| 0 <= j < new_edges@.len() ==> old(self).edges@.contains(#[trigger] new_edges@[j]) || others@.contains(new_edges@[j]),
        forall|i: int| 0 <= i < self_iter.pos ==> new_edges@.contains(#[trigger] old(self).edges@[i]),
        forall|i: int| 0 <= i < other_iter.pos ==> new_edges@.contains(#[trigger] others@[i]),
    ensures self_iter.pos >= old(self).edges@.len(), other_iter.pos >= others@.len()
    decreases old(self).edges@.len() - self_iter.pos + others@.len() - other_iter.pos
//@at loop_start 0
    let ghost e0 = new_edges@;
//@at loop_end 0
    proof {
        assert(new_edges@.drop_last() == e0);
        assert(new_edges@.contains(new_edges@.last()));
        assert forall|x: u32| e0.contains(x) implies new_edges@.contains(x) by { let i = choose|i: int| 0 <= i < e0.len() && e0[i] == x; assert(new_edges@[i] == x); }
    }
//@endfn
}
fn vf_cmp(a: u32, b: u32) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

/// a link of the input graph from u to v
spec fn lk(ls: Seq<Seq<NodeIdT>>, u: int, v: int) -> bool { exists|i: int| 0 <= i < ls[u].len() && (#[trigger] ls[u][i]).0 == v }
spec fn heads_ok(ls: Seq<Seq<NodeIdT>>) -> bool { forall|u: int, i: int| 0 <= u < ls.len() && 0 <= i < ls[u].len() ==> (#[trigger] ls[u][i]).0 < ls.len() }
/// ranks x and y are different and the input has a link between their nodes
spec fn first(ls: Seq<Seq<NodeIdT>>, o: NodeOrder, x: int, y: int) -> bool { 0 <= x < ls.len() && 0 <= y < ls.len() && x != y && lk(ls, o.node_order@[x] as int, o.node_order@[y] as int) }
/// the upward lists hold exactly the input's edges in the new numbering, without direction
spec fn translated(ls: Seq<Seq<NodeIdT>>, o: NodeOrder, up: Seq<Seq<u32>>) -> bool {
    up.len() == ls.len() && forall|x: int, y: int| #[trigger] adj(up, x, y) <==> x < y && (first(ls, o, x, y) || first(ls, o, y, x))
}
/// every adjacency comes from a link, every link is present at its tail, and those of the ranks below k (and the first j of k) also at their head
spec fn both_ways(ls: Seq<Seq<NodeIdT>>, o: NodeOrder, c: Seq<Seq<u32>>, k: int, j: int) -> bool {
    &&& c.len() == ls.len()
    &&& forall|x: int, y: int| #[trigger] adj(c, x, y) ==> first(ls, o, x, y) || first(ls, o, y, x)
    &&& forall|x: int, y: int| #[trigger] first(ls, o, x, y) ==> adj(c, x, y)
    &&& forall|x: int, y: int| #[trigger] first(ls, o, x, y) && x < k ==> adj(c, y, x)
    &&& forall|i: int| 0 <= i < j ==> adj(c, #[trigger] c[k][i] as int, k)
}
proof fn lemma_both_ways(ls: Seq<Seq<NodeIdT>>, o: NodeOrder, c0: Seq<Seq<u32>>, c1: Seq<Seq<u32>>, k: int, j: int)
    requires both_ways(ls, o, c0, k, j), 0 <= k < c0.len(), 0 <= j < c0[k].len(), c1.len() == c0.len(), ls.len() < u32::MAX,
        ({ let v = c0[k][j] as int; c1 == c0.update(v, if c0[v].contains(k as u32) { c0[v] } else { c0[v].push(k as u32) }) })
    ensures both_ways(ls, o, c1, k, j + 1)
{
    let v = c0[k][j] as int;
    assert(c0[k].contains(c0[k][j]) && adj(c0, k, v));
    assert(v != k && 0 <= v < c0.len());
    if !c0[v].contains(k as u32) { assert(c1[v].last() == k as u32); assert(c1[v].contains(c1[v].last())); assert(c1[v].drop_last() == c0[v]); }
    assert forall|x: int, y: int| #[trigger] adj(c0, x, y) implies adj(c1, x, y) by { if x == v { let i = choose|i: int| 0 <= i < c0[x].len() && c0[x][i] == y as u32; assert(c1[x][i] == y as u32); } }
    assert forall|x: int, y: int| #[trigger] adj(c1, x, y) implies first(ls, o, x, y) || first(ls, o, y, x) by {
        if x == v && !adj(c0, x, y) { let i = choose|i: int| 0 <= i < c1[x].len() && c1[x][i] == y as u32; assert(i < c0[x].len() ==> c0[x][i] == y as u32); assert(y == k); }
        else { assert(adj(c0, x, y)); }
    }
    assert(c1[k] == c0[k]);
}
/// std: Vec::retain keeps exactly the elements the closure accepted, in order
#[verifier::external_body]
fn vf_retain<T>(data: &mut Vec<T>, keep: &Vec<bool>, Ghost(ok): Ghost<spec_fn(T) -> bool>)
    requires keep@.len() == old(data)@.len(), forall|i: int| 0 <= i < keep@.len() ==> #[trigger] keep@[i] == ok(old(data)@[i])
    ensures final(data)@ == old(data)@.filter(ok), forall|x: T| #[trigger] final(data)@.contains(x) <==> old(data)@.contains(x) && ok(x)
{ let mut i = 0; data.retain(|_| { i += 1; keep[i - 1] }) }
//@item engine/src/algo/customizable_contraction_hierarchy/contraction.rs struct PartialContractionGraph
impl<'a> PartialContractionGraph<'a> {
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs PartialContractionGraph::remove_lowest
//@rw subopt self.nodes.split_first_mut() => vf_split_first_mut(self.nodes)
//@spec
    requires self.id_offset + self.nodes@.len() < u32::MAX
    ensures match r {
        None => old(self.nodes)@.len() == 0 && final(self.nodes)@ == old(self.nodes)@,
        Some((node, sub)) => old(self.nodes)@.len() > 0 && *node == old(self.nodes)@[0] && sub.nodes@ == old(self.nodes)@.subrange(1, old(self.nodes)@.len() as int) && sub.id_offset == self.id_offset + 1
            && final(self.nodes)@ == seq![*node] + final(sub.nodes)@,
    }
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs Index for PartialContractionGraph::index
//@sig fn index(&self, idx: usize) -> (r: &Node)
//@spec
    requires self.vf_off() <= idx < self.vf_off() + self.vf_nodes().len()
    ensures *r == self.vf_nodes()[idx - self.vf_off()]
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs IndexMut for PartialContractionGraph::index_mut
//@sig fn index_mut(&mut self, idx: usize) -> (r: &mut Node)
//@spec
    requires old(self).vf_off() <= idx < old(self).vf_off() + old(self).vf_nodes().len()
    ensures *r == old(self).vf_nodes()[idx - old(self).vf_off()], final(self).id_offset == old(self).id_offset,
        final(self).vf_nodes() == old(self).vf_nodes().update(idx - old(self).vf_off(), *final(r)), final(final(self).nodes)@ == final(old(self).nodes)@
//@endfn
    spec fn vf_off(&self) -> int { self.id_offset as int }
    spec fn vf_nodes(&self) -> Seq<Node> { self.nodes@ }
}
//@item engine/src/algo/customizable_contraction_hierarchy/contraction.rs struct ContractionGraph
//@item engine/src/algo/customizable_contraction_hierarchy/contraction.rs struct ContractedGraph
impl<'a, Graph: VfLinks<NodeIdT>> ContractionGraph<'a, Graph> {
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs ContractionGraph::partial_graph
//@rw sub &mut $x:chain[..] => vf_all_mut(&mut $x)
//@spec
    ensures r.nodes@ == old(self).nodes@, r.id_offset == 0, final(self).nodes@ == final(r.nodes)@, final(self).node_order == old(self).node_order, final(self).original_graph == old(self).original_graph
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs ContractionGraph::contract
//@sig fn contract(self) -> (r: ContractedGraph<'a, Graph>)
//@rw dropcall report!($e);
//@rw sub report_time_with_key($a, $k, || { $b }); => { $b }
//@rw sub Some((&$a:id, $b:id)) = $x:chain.split_first() => Some(($a, $b)) = vf_split_first(&$x)
//@rw sub self => vf_self
//@rw sub subgraph[$x].merge_neighbors($y) => subgraph.index_mut($x).merge_neighbors($y)
//@rw sub subgraph[$x].edges.len() => subgraph.index($x).edges.len()
//@rw subopt num_shortcut_arcs += $e; => num_shortcut_arcs = vf_add(num_shortcut_arcs, $e);
//@spec
    requires upward(lists_of(self.nodes@)), self.nodes@.len() < u32::MAX
    ensures upward(lists_of(r.0.nodes@)), covers(lists_of(self.nodes@), lists_of(r.0.nodes@)), chordal(lists_of(r.0.nodes@)), r.0.node_order == self.node_order, r.0.original_graph == self.original_graph
//@at start
    let mut vf_self = self;
    let ghost ls0 = lists_of(self.nodes@);
    let ghost mut pre: Seq<Node> = Seq::empty();
//@at before_loop 0
    let ghost vf_g0 = graph;
    proof { assert(pre + graph.nodes@ =~= self.nodes@); assert(pre + final(graph.nodes)@ =~= final(graph.nodes)@); }
//@loop 0
    invariant
        pre.len() == graph.id_offset, pre.len() + graph.nodes@.len() == ls0.len(), ls0.len() < u32::MAX,
        contr_inv(ls0, pre + graph.nodes@, pre.len() as int),
        final(vf_g0.nodes)@ == pre + final(graph.nodes)@,
    ensures contr_inv(ls0, pre, ls0.len() as int), pre.len() == ls0.len(), final(vf_g0.nodes)@ == pre
    decreases graph.nodes@.len()
//@at loop_start 0
    let ghost cur = pre + seq![*node] + subgraph.nodes@;
    let ghost k = pre.len() as int;
    proof {
        assert(cur == pre + graph.nodes@) by { assert(seq![*node] + subgraph.nodes@ =~= graph.nodes@); assert(cur =~= pre + (seq![*node] + subgraph.nodes@)); }
        assert(lists_of(cur)[k] == node.edges@);
        if node.edges@.len() > 0 { assert(node.edges@.contains(node.edges@[0])); assert(adj(lists_of(cur), k, node.edges@[0] as int)); }
        assert(forall|i: int| 0 <= i < subgraph.nodes@.len() ==> inc(lists_of(cur)[k + 1 + i]) && lists_of(cur)[k + 1 + i] == #[trigger] subgraph.nodes@[i].edges@);
    }
//@at loop_end 0
    proof {
        let nxt = pre + seq![*node] + subgraph.nodes@;
        let l = cur[k].edges@;
        if l.len() > 0 { assert(nxt =~= cur.update(l[0] as int, nxt[l[0] as int])); } else { assert(nxt =~= cur); }
        lemma_step(ls0, cur, nxt, k);
        pre = pre.push(*node);
        assert(nxt =~= pre + graph.nodes@);
        assert(pre + final(graph.nodes)@ =~= pre.drop_last() + (seq![*node] + final(graph.nodes)@));
    }
//@at after_loop 0
    proof {
        let ls = lists_of(pre);
        assert forall|u: int, v: int, w: int| #[trigger] adj(ls, u, v) && #[trigger] adj(ls, u, w) && v < w implies adj(ls, v, w) by { lemma_chordal(ls, u, v, w); }
        assert(vf_self.nodes@ == pre);
    }
//@endfn

//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs ContractionGraph::new
//@rw sub (0..n).map(|$x:id| { $b }).collect(); => { let mut vf_v: Vec<Node> = Vec::new(); for $x in 0..n { let vf_x = { $b }; vf_v.push(vf_x); } vf_v };
//@rw sub graph.link_iter($u).filter(|$x:id| $c).map(|$y:id| { $b }).collect() => { let mut vf_e: Vec<NodeId> = Vec::new(); for vf_l in vf_seq_links(graph, $u) { let vf_c = { let $x = &vf_l; $c }; if vf_c { let vf_y = { let $y = vf_l; $b }; vf_e.push(vf_y); } } vf_e }
//@rw subopt nodes.split_at_mut($e) => vf_split_at_mut(&mut nodes, $e)
//@rw subopt $x:id.split_first_mut().unwrap() => vf_split_first_mut($x).unwrap()
//@rw sub $x:chain.retain(|&$y:id| $c); => let mut vf_keep: Vec<bool> = Vec::new(); while vf_keep.len() < $x.len() { let $y = $x[vf_keep.len()]; let vf_b: bool = $c; vf_keep.push(vf_b); } vf_retain(&mut $x, &vf_keep, Ghost(vf_p));
//@rw sub $x:chain.sort_unstable(); => vf_sort(&mut $x);
//@rw sub $x:chain.dedup(); => vf_dedup(&mut $x);
//@rw for
//@spec
    requires node_order.wf(), node_order.n() == graph.lists().len(), graph.lists().len() < u32::MAX, heads_ok(graph.lists())
    ensures translated(graph.lists(), node_order, lists_of(r.nodes@)), upward(lists_of(r.nodes@)), r.node_order == node_order, r.original_graph == graph
//@at start
    let ghost ls = graph.lists();
    let ghost o = node_order;
//@loop 0
    invariant vf_e0 == n, n == ls.len(), ls == graph.lists(), o == node_order, vf_i0 <= n, vf_v@.len() == vf_i0, node_order.wf(), node_order.n() == n, ls.len() < u32::MAX, heads_ok(ls),
        forall|x: int, y: int| 0 <= x < vf_i0 ==> (#[trigger] adj(lists_of(vf_v@), x, y) <==> first(ls, o, x, y)),
    decreases n - vf_i0
//@at loop_start 0
    let ghost v0 = vf_v@;
    let ghost me = vf_i0 - 1;
//@loop 1
    invariant vf_it1@ == ls[old_node_id as int], vf_i1 <= vf_it1@.len(), n == ls.len(), ls == graph.lists(), o == node_order, 0 <= me < n, node == me, old_node_id == o.node_order@[me], node_order.wf(), node_order.n() == n, ls.len() < u32::MAX, heads_ok(ls), old_node_id < n,
        forall|y: u32| #[trigger] vf_e@.contains(y) <==> exists|i: int| 0 <= i < vf_i1 && (#[trigger] ls[old_node_id as int][i]).0 != old_node_id && o.ranks@[ls[old_node_id as int][i].0 as int] == y,
    decreases vf_it1@.len() - vf_i1
//@at loop_start 1
    let ghost e0 = vf_e@;
    proof { assert(ls[old_node_id as int][vf_i1 - 1].0 < n); }
//@at loop_end 1
    proof {
        let l = ls[old_node_id as int];
        assert forall|y: u32| #[trigger] vf_e@.contains(y) <==> exists|i: int| 0 <= i < vf_i1 && (#[trigger] l[i]).0 != old_node_id && o.ranks@[l[i].0 as int] == y by {
            assert(vf_e@ == e0 || (vf_e@.drop_last() == e0 && vf_e@.len() == e0.len() + 1));
            if e0.contains(y) {
                let q = choose|q: int| 0 <= q < e0.len() && e0[q] == y; assert(vf_e@[q] == y);
                let i = choose|i: int| 0 <= i < vf_i1 - 1 && (#[trigger] l[i]).0 != old_node_id && o.ranks@[l[i].0 as int] == y; assert(l[i].0 != old_node_id);
            }
            if vf_e@.contains(y) && !e0.contains(y) { let q = choose|q: int| 0 <= q < vf_e@.len() && vf_e@[q] == y; assert(q < e0.len() ==> e0[q] == y); assert(l[vf_i1 - 1].0 != old_node_id); }
            if l[vf_i1 - 1].0 != old_node_id && o.ranks@[l[vf_i1 - 1].0 as int] == y { assert(vf_e@.last() == y); assert(vf_e@.contains(vf_e@.last())); }
        }
    }
//@at loop_end 0
    proof {
        assert(vf_v@.drop_last() == v0);
        assert forall|x: int, y: int| 0 <= x < vf_i0 implies (#[trigger] adj(lists_of(vf_v@), x, y) <==> first(ls, o, x, y)) by {
            if x < me { assert(lists_of(vf_v@)[x] == lists_of(v0)[x]); assert(adj(lists_of(v0), x, y) <==> first(ls, o, x, y)); }
            else {
                let l = ls[o.node_order@[me] as int];
                assert(lists_of(vf_v@)[x] == vf_v@[x].edges@);
                if adj(lists_of(vf_v@), x, y) {
                    let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 != o.node_order@[me] && o.ranks@[l[i].0 as int] == y as u32;
                    assert(o.node_order@[o.ranks@[l[i].0 as int] as int] == l[i].0);
                    assert(o.ranks@[o.node_order@[me] as int] == me);
                    assert(l[i].0 == o.node_order@[y]);
                }
                if first(ls, o, x, y) {
                    let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == o.node_order@[y];
                    assert(o.ranks@[o.node_order@[y] as int] == y && o.ranks@[o.node_order@[x] as int] == x);
                    assert(l[i].0 != o.node_order@[me]);
                    assert(vf_v@[x].edges@.contains(y as u32));
                }
            }
        }
    }
//@loop 2
    invariant vf_e2 == n, n == ls.len(), vf_i2 <= n, ls == graph.lists(), o == node_order, nodes@.len() == n, ls.len() < u32::MAX,
        both_ways(ls, o, lists_of(nodes@), vf_i2 as int, 0),
    decreases n - vf_i2
//@at loop_start 2
    let ghost me = node_id as int;
    let ghost nodes0 = nodes@;
//@loop 3
    invariant n == ls.len(), me < n, me == node_id, vf_i3 <= vf_it3@.len(), node.edges@ == vf_it3@, nodes_before@.len() == node_id, nodes_after@.len() == n - node_id - 1, ls.len() < u32::MAX,
        both_ways(ls, o, lists_of(nodes_before@ + seq![*node] + nodes_after@), me, vf_i3 as int),
    decreases vf_it3@.len() - vf_i3
//@at before_loop 3
    proof { assert(nodes_before@ + seq![*node] + nodes_after@ =~= nodes0); }
//@at loop_start 3
    let ghost c0 = nodes_before@ + seq![*node] + nodes_after@;
    proof {
        assert(lists_of(c0)[me] == node.edges@);
        assert(node.edges@.contains(neighbor) && adj(lists_of(c0), me, neighbor as int));
    }
//@at loop_end 3
    proof {
        let c1 = nodes_before@ + seq![*node] + nodes_after@;
        assert(c1 =~= c0.update(neighbor as int, c1[neighbor as int]));
        let v = neighbor as int;
        assert(lists_of(c0)[me][vf_i3 - 1] == neighbor);
        assert(lists_of(c1) =~= lists_of(c0).update(v, c1[v].edges@));
        assert(c1[v].edges@ == if c0[v].edges@.contains(me as u32) { c0[v].edges@ } else { c0[v].edges@.push(me as u32) });
        lemma_both_ways(ls, o, lists_of(c0), lists_of(c1), me, vf_i3 - 1);
    }
//@at past_loop 3
    let ghost c2 = nodes_before@ + seq![*node] + nodes_after@;
//@at loop_end 2
    proof {
        assert(nodes@ =~= c2);
        assert forall|y: int| first(ls, o, me, y) implies adj(lists_of(c2), y, me) by { assert(adj(lists_of(c2), me, y)); }
    }
//@loop 4
    invariant
        vf_i4 <= nodes@.len(), nodes@.len() == n, n == ls.len(), ls.len() < u32::MAX,
        both_ways(ls, o, lists_of(nodes2), n as int, 0), nodes2.len() == n,
        forall|x: int| vf_i4 <= x < n ==> nodes@[x] == nodes2[x],
        forall|x: int| 0 <= x < vf_i4 ==> inc(#[trigger] lists_of(nodes@)[x]),
        forall|x: int, y: int| 0 <= x < vf_i4 ==> (#[trigger] adj(lists_of(nodes@), x, y) <==> adj(lists_of(nodes2), x, y) && x < y),
    decreases n - vf_i4
//@at before_loop 4
    let ghost nodes2 = nodes@;
//@at loop_begin 4
    let ghost nodes3 = nodes@;
//@at loop_start 4
    let ghost vf_p = |y: u32| y > node_id as NodeId;
    let ghost q0 = node.edges@;
//@loop 5
    invariant node.edges@ == q0, vf_keep@.len() <= q0.len(), forall|i: int| 0 <= i < vf_keep@.len() ==> #[trigger] vf_keep@[i] == vf_p(q0[i]), vf_p == (|y: u32| y > node_id as NodeId)
    decreases q0.len() - vf_keep@.len()
//@at loop_end 4
    proof {
        let me = vf_i4 - 1;
        assert(lists_of(nodes@)[me] == nodes@[me].edges@);
        assert(lists_of(nodes2)[me] == q0);
        assert forall|x: int, y: int| 0 <= x < vf_i4 implies (#[trigger] adj(lists_of(nodes@), x, y) <==> adj(lists_of(nodes2), x, y) && x < y) by {
            if x < me { assert(adj(lists_of(nodes3), x, y) <==> adj(lists_of(nodes2), x, y) && x < y); assert(lists_of(nodes@)[x] == lists_of(nodes3)[x]); }
        }
        assert forall|x: int| 0 <= x < vf_i4 implies inc(#[trigger] lists_of(nodes@)[x]) by { if x < me { assert(lists_of(nodes@)[x] == lists_of(nodes3)[x]); } }
    }
//@endfn
}
//@item engine/src/datastr/graph/first_out_graph.rs struct UnweightedFirstOutGraph
type UnweightedOwnedGraph = UnweightedFirstOutGraph<Vec<EdgeId>, Vec<NodeId>>;
impl UnweightedFirstOutGraph<Vec<EdgeId>, Vec<NodeId>> {
//@fn engine/src/datastr/graph/first_out_graph.rs UnweightedFirstOutGraph::new panics=1
//@sig fn new(first_out: Vec<EdgeId>, head: Vec<NodeId>) -> (r: Self)
//@rw sub $x:id.as_ref() => $x
//@rw subopt <NodeId>::max_value() => u32::MAX
//@rw subopt <EdgeId>::max_value() => u32::MAX
//@spec
    requires first_out@.len() >= 1
    ensures r.first_out@ == first_out@, r.head@ == head@, first_out@.len() < u32::MAX, head@.len() < u32::MAX, first_out@[0] == 0, first_out@[first_out@.len() - 1] == head@.len()
//@endfn
//@fn engine/src/datastr/graph/first_out_graph.rs Graph for UnweightedFirstOutGraph::num_nodes
//@rw sub self.first_out() => self.first_out
//@spec
    requires self.first_out@.len() > 0
    ensures r == self.first_out@.len() - 1
//@endfn
}
/// the lists, node by node, as an array graph
spec fn array_of(g: UnweightedOwnedGraph, ls: Seq<Seq<u32>>) -> bool {
    &&& g.first_out@.len() == ls.len() + 1 && g.head@.len() == offset(ls, ls.len() as int) && ls.len() + 1 < u32::MAX && g.head@.len() < u32::MAX
    &&& forall|u: int| 0 <= u <= ls.len() ==> #[trigger] g.first_out@[u] == offset(ls, u)
    &&& forall|u: int, i: int| 0 <= u < ls.len() && 0 <= i < ls[u].len() ==> g.head@[offset(ls, u) + i] == #[trigger] ls[u][i]
}
/// the parent of a node is its lowest upper neighbour, the nodes without one are the roots
spec fn elimination(ls: Seq<Seq<u32>>, t: Seq<InRangeOption<NodeId>>) -> bool {
    t.len() == ls.len() && forall|u: int| 0 <= u < ls.len() ==> (#[trigger] t[u])@ == (if ls[u].len() == 0 { None } else { Some(ls[u][0]) })
}
/// slice::first
fn vf_first(s: &Vec<u32>) -> (r: Option<u32>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { if s.len() == 0 { None } else { Some(s[0]) } }
/// the first link the graph yields for a node
fn vf_first_link(g: &UnweightedOwnedGraph, u: NodeId) -> (r: Option<NodeId>)
    requires u + 1 < g.first_out@.len(), g.first_out@[u as int] <= g.first_out@[u + 1] <= g.head@.len()
    ensures r == (if g.first_out@[u as int] == g.first_out@[u + 1] { None } else { Some(g.head@[g.first_out@[u as int] as int]) })
{ if g.first_out[u as usize] == g.first_out[u as usize + 1] { None } else { Some(g.head[g.first_out[u as usize] as usize]) } }
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs -::adjancecy_lists_to_first_out_graph
//@rw sub let $d:id = $x:id.iter().map(|$n:id| $e); => let mut $d: Vec<EdgeId> = Vec::new(); for $n in $x.iter() { $d.push($e); }
//@rw sub degrees_to_first_out($d:id).collect() => degrees_to_first_out($d)
//@rw sub $x:id.into_iter().flat_map(|$n:id| $n:id.edges.into_iter()).collect() => { let mut vf_a: Vec<NodeId> = Vec::new(); for $n in $x.iter() { for &vf_l in $n.edges.iter() { vf_a.push(vf_l); } } vf_a }
//@rw for
//@spec
    requires adjancecy_lists@.len() < u32::MAX - 1, offset(lists_of(adjancecy_lists@), adjancecy_lists@.len() as int) < u32::MAX
    ensures array_of(r, lists_of(adjancecy_lists@))
//@at start
    let ghost ls = lists_of(adjancecy_lists@);
    let ghost nn = ls.len() as int;
    let ghost mut dg: Seq<u32> = Seq::empty();
//@loop 0
    invariant vf_it0@ == adjancecy_lists@, ls == lists_of(adjancecy_lists@), nn == ls.len(), vf_i0 <= nn, offset(ls, nn) < u32::MAX, degrees@.len() == vf_i0, total(degrees@, vf_i0 as int) == offset(ls, vf_i0 as int),
        forall|k: int| 0 <= k <= vf_i0 ==> total(degrees@, k) == #[trigger] offset(ls, k),
    decreases nn - vf_i0
//@at loop_start 0
    let ghost d0 = degrees@;
    proof { lemma_offset_step(ls, vf_i0 - 1, nn); lemma_offset_mono(ls, 0, vf_i0 - 1); }
//@at loop_end 0
    proof {
        assert forall|k: int| 0 <= k <= vf_i0 implies total(degrees@, k) == #[trigger] offset(ls, k) by {
            if k < vf_i0 { lemma_total_prefix(d0, degrees@, k); } else { lemma_total_prefix(d0, degrees@, k - 1); }
        }
    }
//@at after_loop 0
    proof { dg = degrees@; }
//@at before_loop 1
    proof {
        assert forall|u: int| 0 <= u <= nn implies #[trigger] first_out@[u] == offset(ls, u) by { assert(total(dg, u) == offset(ls, u)); }
    }
//@loop 1
    invariant vf_it1@ == adjancecy_lists@, ls == lists_of(adjancecy_lists@), nn == ls.len(), vf_i1 <= nn, offset(ls, nn) < u32::MAX, vf_a@.len() == offset(ls, vf_i1 as int),
        forall|u: int, i: int| 0 <= u < vf_i1 && 0 <= i < ls[u].len() ==> vf_a@[offset(ls, u) + i] == #[trigger] ls[u][i],
        first_out@.len() == nn + 1, forall|u: int| 0 <= u <= nn ==> #[trigger] first_out@[u] == offset(ls, u),
    decreases nn - vf_i1
//@loop 2
    invariant ls == lists_of(adjancecy_lists@), nn == ls.len(), 1 <= vf_i1 <= nn, vf_it2@ == ls[vf_i1 - 1], vf_i2 <= vf_it2@.len(), vf_a@.len() == offset(ls, vf_i1 - 1) + vf_i2,
        forall|u: int, i: int| 0 <= u < vf_i1 - 1 && 0 <= i < ls[u].len() ==> vf_a@[offset(ls, u) + i] == #[trigger] ls[u][i],
        forall|i: int| 0 <= i < vf_i2 ==> vf_a@[offset(ls, vf_i1 - 1) + i] == #[trigger] ls[vf_i1 - 1][i],
        first_out@.len() == nn + 1, forall|u: int| 0 <= u <= nn ==> #[trigger] first_out@[u] == offset(ls, u),
    decreases vf_it2@.len() - vf_i2
//@at loop_start 2
    let ghost a0 = vf_a@;
//@at loop_end 2
    proof {
        assert forall|u: int, i: int| 0 <= u < vf_i1 - 1 && 0 <= i < ls[u].len() implies vf_a@[offset(ls, u) + i] == #[trigger] ls[u][i] by {
            lemma_offset_step(ls, u, vf_i1 - 1); lemma_offset_mono(ls, 0, u);
            assert(a0[offset(ls, u) + i] == ls[u][i]);
        }
    }
//@endfn
impl<'a, Graph> ContractedGraph<'a, Graph> {
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs ContractedGraph::decompose
//@spec
    requires self.0.nodes@.len() < u32::MAX - 1, offset(lists_of(self.0.nodes@), self.0.nodes@.len() as int) < u32::MAX
    ensures array_of(r.0, lists_of(self.0.nodes@)), r.1 == self.0.node_order, r.2 == self.0.original_graph
//@endfn
//@fn engine/src/algo/customizable_contraction_hierarchy/contraction.rs ContractedGraph::elimination_tree
//@sig fn elimination_tree(&self) -> (r: Vec<InRangeOption<NodeId>>)
//@rw sub self.0.nodes.iter().map(|$x:id| $e).map(InRangeOption::new).collect() => let mut vf_v: Vec<InRangeOption<NodeId>> = Vec::new(); for $x in self.0.nodes.iter() { let vf_p = $e; vf_v.push(InRangeOption::new(vf_p)); } vf_v
//@rw sub $x:chain.first().copied() => vf_first(&$x)
//@rw for
//@spec
    ensures elimination(lists_of(self.0.nodes@), r@)
//@loop 0
    invariant vf_it0@ == self.0.nodes@, vf_i0 <= vf_it0@.len(), vf_v@.len() == vf_i0,
        forall|u: int| 0 <= u < vf_i0 ==> (#[trigger] vf_v@[u])@ == (if self.0.nodes@[u].edges@.len() == 0 { None } else { Some(self.0.nodes@[u].edges@[0]) })
    decreases vf_it0@.len() - vf_i0
//@endfn
}
//@fn engine/src/algo/customizable_contraction_hierarchy/mod.rs CCH::build_elimination_tree
//@sig fn build_elimination_tree(graph: &UnweightedOwnedGraph, Ghost(ls): Ghost<Seq<Seq<u32>>>) -> (r: Vec<InRangeOption<NodeId>>)
//@rw sub (0..$n).map(|$x:id| $e).map(InRangeOption::new).collect() => let mut vf_v: Vec<InRangeOption<NodeId>> = Vec::new(); for $x in 0..$n { let vf_p = $e; vf_v.push(InRangeOption::new(vf_p)); } vf_v
//@rw sub LinkIterable::<NodeIdT>::link_iter($g:id, $u).map(|NodeIdT($n:id)| $n:id).next() => vf_first_link($g, $u)
//@rw for
//@spec
    requires array_of(*graph, ls)
    ensures elimination(ls, r@)
//@loop 0
    invariant array_of(*graph, ls), vf_e0 == ls.len(), vf_i0 <= vf_e0, vf_v@.len() == vf_i0,
        forall|u: int| 0 <= u < vf_i0 ==> (#[trigger] vf_v@[u])@ == (if ls[u].len() == 0 { None } else { Some(ls[u][0]) })
    decreases vf_e0 - vf_i0
//@at loop_start 0
    proof { let u = vf_i0 - 1; lemma_offset_step(ls, u, ls.len() as int); lemma_offset_mono(ls, u, u + 1); lemma_offset_mono(ls, 0, u);
        assert(graph.first_out@[u] == offset(ls, u) && graph.first_out@[u + 1] == offset(ls, u + 1));
        if ls[u].len() > 0 { assert(graph.head@[offset(ls, u) + 0] == ls[u][0]); } }
//@endfn
/// the property: every edge of the input is present in the new numbering, at its lower end
proof fn prop_input_edges(ls: Seq<Seq<NodeIdT>>, o: NodeOrder, a: Seq<Seq<u32>>, b: Seq<Seq<u32>>, u: int, i: int)
    requires translated(ls, o, a), covers(a, b), heads_ok(ls), o.wf(), o.n() == ls.len(), ls.len() < u32::MAX, 0 <= u < ls.len(), 0 <= i < ls[u].len(), ls[u][i].0 != u
    ensures ({ let x = o.ranks@[u] as int; let y = o.ranks@[ls[u][i].0 as int] as int; adj(b, vf_min_s(x, y), if x < y { y } else { x }) })
{
    let x = o.ranks@[u] as int; let y = o.ranks@[ls[u][i].0 as int] as int;
    assert(o.node_order@[x] == u && o.node_order@[y] == ls[u][i].0);
    assert(lk(ls, u, ls[u][i].0 as int));
    assert(first(ls, o, x, y));
    assert(adj(a, vf_min_s(x, y), if x < y { y } else { x }));
}
/// the property: walking up from a node, each parent is an upper neighbour and every upper neighbour is reached (the tree of a chordal graph)
proof fn prop_tree(ls: Seq<Seq<u32>>, t: Seq<InRangeOption<NodeId>>, u: int)
    requires upward(ls), elimination(ls, t), 0 <= u < ls.len()
    ensures t[u]@ is None <==> ls[u].len() == 0, t[u]@ matches Some(p) ==> u < p < ls.len() && adj(ls, u, p as int) && forall|v: int| #[trigger] adj(ls, u, v) ==> p <= v
{ if ls[u].len() > 0 { assert(ls[u].contains(ls[u][0])); assert(adj(ls, u, ls[u][0] as int)); assert forall|v: int| #[trigger] adj(ls, u, v) implies ls[u][0] <= v by { lemma_lowest(ls, u, v); } } }
} // verus!
fn main() {}
