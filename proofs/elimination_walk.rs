//@include prelude.inc
//@include arcs.inc
//@include graph_types.inc
//@include links.inc
//@include_contracts in_range.inc in_range
impl Sentinel for u32 { spec fn snt() -> u32 { u32::MAX } #[verifier::external_body] fn vf_sentinel() -> (r: u32) { u32::MAX } }
//@include etree.inc
//@include ewalk.inc
} // verus!
fn main() {}
