//@include prelude.inc
use std::ops::Range;
type Timestamp = u32;
type Weight = u32;
//@include ranges.inc
//@include locate.inc
//@include plf.inc
//@include plf_code.inc
} // verus!
fn main() {}
