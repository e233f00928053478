type NodeId = u32;
type EdgeId = u32;
type Weight = u32;
//@item engine/src/datastr/graph.rs const INFINITY std::u32::MAX=>u32::MAX
/// FirstOutGraph with Vec containers and Weight weights (the type parameters and the PhantomData field are dropped)
struct OwnedGraph { first_out: Vec<EdgeId>, head: Vec<NodeId>, weight: Vec<Weight> }
/// offsets 0 = fo[0] <= fo[1] <= ... <= fo[n] = m
spec fn offsets(fo: Seq<u32>, m: int) -> bool {
    &&& fo.len() >= 1 && fo.len() < u32::MAX && fo[0] == 0 && fo[fo.len() - 1] == m
    &&& forall|i: int, j: int| 0 <= i <= j < fo.len() ==> #[trigger] fo[i] <= #[trigger] fo[j]
}
spec fn heads_below(h: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] < n }
impl OwnedGraph {
    spec fn n(&self) -> int { self.first_out@.len() - 1 }
    spec fn m(&self) -> int { self.head@.len() as int }
    spec fn wf(&self) -> bool {
        &&& offsets(self.first_out@, self.m())
        &&& self.weight@.len() == self.m()
        &&& self.m() < u32::MAX
        &&& heads_below(self.head@, self.n())
    }
//@fn engine/src/datastr/graph/first_out_graph.rs FirstOutGraph::new panics=1
//@sig fn new(first_out: Vec<EdgeId>, head: Vec<NodeId>, weight: Vec<Weight>) -> (r: Self)
//@rw sub $x:id.as_ref() => $x
//@rw subopt <NodeId>::max_value() => u32::MAX
//@rw subopt <EdgeId>::max_value() => u32::MAX
//@rw dropcall _phantom: Default::default(),
//@spec
    requires first_out@.len() >= 1
    ensures r.first_out@ == first_out@, r.head@ == head@, r.weight@ == weight@,
        first_out@.len() < u32::MAX, head@.len() < u32::MAX, first_out@[0] == 0, first_out@[first_out@.len() - 1] == head@.len(), weight@.len() == head@.len()
//@endfn
//@fn engine/src/datastr/graph/first_out_graph.rs Graph for FirstOutGraph::num_nodes
//@rw sub self.first_out() => self.first_out
//@spec
    requires self.wf()
    ensures r == self.n()
//@endfn
//@fn engine/src/datastr/graph/first_out_graph.rs Graph for FirstOutGraph::num_arcs
//@rw sub self.head() => self.head
//@spec
    ensures r == self.m()
//@endfn
//@fn engine/src/datastr/graph/first_out_graph.rs Graph for FirstOutGraph::degree
//@rw sub self.first_out() => self.first_out
//@spec
    requires self.wf(), node < self.n()
    ensures r == self.first_out@[node + 1] - self.first_out@[node as int]
//@endfn
}
