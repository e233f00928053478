//@include prelude.inc
//@include in_range.inc
} // verus!
fn main() {}
