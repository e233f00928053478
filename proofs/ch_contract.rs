//@include prelude.inc
//@include graph_types.inc
#[derive(Clone, Copy)]
//@item engine/src/datastr/graph.rs struct Link
//@include rel.inc
//@include ch_contract.inc
} // verus!
fn main() {}
