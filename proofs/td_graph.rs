//@include prelude.inc
use std::ops::Range;
type Timestamp = u32;
type Weight = u32;
//@include_contracts ranges.inc ranges
//@include_contracts locate.inc ranges
//@include plf.inc
//@include_contracts plf_code.inc plf
//@include td_graph.inc
} // verus!
fn main() {}
