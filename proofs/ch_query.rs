//@include prelude.inc
//@include perm.inc
//@include graph_types.inc
type Rank = u32;
//@include_contracts node_order.inc node_order
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include_contracts index_heap.inc index_heap
//@include_contracts timestamped.inc containers
//@include walk.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct NodeIdT
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct EdgeIdT
//@include state.inc
//@include_contracts dijkstra.inc dijkstra
//@include_contracts dijkstra_server.inc dijkstra
//@include_contracts dijkstra_query.inc dijkstra
//@include updown.inc
//@include ch_query.inc
} // verus!
fn main() {}
