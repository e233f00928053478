//@include prelude.inc
//@include graph_types.inc
//@include_contracts index_heap.inc index_heap
//@include_contracts timestamped.inc containers
//@include walk.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct NodeIdT
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct EdgeIdT

//@include state.inc
//@include dijkstra.inc
//@include dijkstra_server.inc
//@include dijkstra_query.inc
fn main() {}
}
