//@include prelude.inc
//@include graph_types.inc
//@include_contracts index_heap.inc index_heap
//@include_contracts timestamped.inc containers
//@include walk.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct NodeIdT
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct EdgeIdT

//@include state.inc
//@include_contracts dijkstra.inc dijkstra
//@include_contracts dijkstra_server.inc dijkstra
//@include_contracts dijkstra_query.inc dijkstra
//@include bidir.inc
//@include bidir_pots.inc
//@include bidir_server.inc
fn main() {}
}
