//@include prelude.inc
use std::ops::Range;
type Timestamp = u32;
//@include ranges.inc
//@include locate.inc
} // verus!
fn main() {}
