#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct NodeIdT
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct EdgeIdT

/// LinkIterable<L>: link_iter yields a fixed finite sequence for every node (the contract every implementation has to satisfy)
trait VfLinks<L> {
    spec fn lists(&self) -> Seq<Seq<L>>;
    fn num_nodes(&self) -> (r: usize) ensures r == self.lists().len();
    fn num_arcs(&self) -> (r: usize) ensures r == offset(self.lists(), self.lists().len() as int);
    fn link_iter(&self, node: NodeId) -> (r: Vec<L>) requires node < self.lists().len() ensures r@ == self.lists()[node as int];
}
trait VfArc { spec fn h(&self) -> int; spec fn pay(&self) -> int; }
impl VfArc for Link { spec fn h(&self) -> int { self.node as int } spec fn pay(&self) -> int { self.weight as int } }
impl VfArc for NodeIdT { spec fn h(&self) -> int { self.0 as int } spec fn pay(&self) -> int { 0 } }
impl VfArc for (NodeIdT, EdgeIdT) { spec fn h(&self) -> int { self.0.0 as int } spec fn pay(&self) -> int { self.1.0 as int } }
/// all arcs in iteration order
spec fn flat<L: VfArc>(lists: Seq<Seq<L>>, u: int) -> Seq<A> decreases u {
    if u <= 0 { Seq::empty() } else { flat(lists, u - 1) + Seq::new(lists[u - 1].len(), |i: int| A { u: u - 1, v: lists[u - 1][i].h(), w: lists[u - 1][i].pay() }) }
}
spec fn arcs<L: VfArc>(lists: Seq<Seq<L>>) -> Seq<A> { flat(lists, lists.len() as int) }
spec fn fits<L: VfArc>(lists: Seq<Seq<L>>) -> bool {
    &&& lists.len() < u32::MAX - 1 && offset(lists, lists.len() as int) < u32::MAX
    &&& forall|u: int, i: int| 0 <= u < lists.len() && 0 <= i < lists[u].len() ==> (#[trigger] lists[u][i]).h() < lists.len() && 0 <= lists[u][i].h()
}
proof fn lemma_flat<L: VfArc>(lists: Seq<Seq<L>>, u: int)
    requires 0 <= u <= lists.len()
    ensures flat(lists, u).len() == offset(lists, u),
        forall|x: int, i: int| 0 <= x < u && 0 <= i < lists[x].len() ==> flat(lists, u)[offset(lists, x) + i] == (A { u: x, v: (#[trigger] lists[x][i]).h(), w: lists[x][i].pay() }),
    decreases u
{
    if u > 0 {
        lemma_flat(lists, u - 1);
        assert forall|x: int, i: int| 0 <= x < u && 0 <= i < lists[x].len() implies flat(lists, u)[offset(lists, x) + i] == (A { u: x, v: (#[trigger] lists[x][i]).h(), w: lists[x][i].pay() }) by {
            lemma_offset_mono(lists, 0, x);
            if x < u - 1 { lemma_offset_step(lists, x, u - 1); }
        }
    }
}
proof fn lemma_arc_bounds<L: VfArc>(lists: Seq<Seq<L>>, u: int)
    requires fits(lists), 0 <= u <= lists.len()
    ensures forall|e: int| 0 <= e < flat(lists, u).len() ==> 0 <= (#[trigger] flat(lists, u)[e]).v < lists.len() && 0 <= flat(lists, u)[e].u < u
    decreases u
{
    if u > 0 {
        lemma_arc_bounds(lists, u - 1);
        assert forall|e: int| 0 <= e < flat(lists, u).len() implies 0 <= (#[trigger] flat(lists, u)[e]).v < lists.len() && 0 <= flat(lists, u)[e].u < u by {
            let f = flat(lists, u - 1);
            if e < f.len() { assert(flat(lists, u)[e] == f[e]); } else { let i = e - f.len(); assert(flat(lists, u)[e].v == lists[u - 1][i].h()); }
        }
    }
}
proof fn lemma_arcs<L: VfArc>(lists: Seq<Seq<L>>)
    requires fits(lists)
    ensures arcs(lists).len() == offset(lists, lists.len() as int),
        forall|e: int| 0 <= e < arcs(lists).len() ==> 0 <= (#[trigger] arcs(lists)[e]).v < lists.len() && 0 <= arcs(lists)[e].u < lists.len(),
        forall|x: int, i: int| 0 <= x < lists.len() && 0 <= i < lists[x].len() ==> arcs(lists)[offset(lists, x) + i] == (A { u: x, v: (#[trigger] lists[x][i]).h(), w: lists[x][i].pay() }),
{ lemma_flat(lists, lists.len() as int); lemma_arc_bounds(lists, lists.len() as int); }

fn vf_seq_links<L, G: VfLinks<L> + ?Sized>(g: &G, node: NodeId) -> (r: Vec<L>) requires node < g.lists().len() ensures r@ == g.lists()[node as int] { g.link_iter(node) }
