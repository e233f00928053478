type NodeId = u32;
type EdgeId = u32;
type Weight = u32;
//@item engine/src/datastr/graph.rs const INFINITY std::u32::MAX=>u32::MAX
