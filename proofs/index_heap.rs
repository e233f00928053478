//@include prelude.inc

//@include index_heap.inc
fn main() {}
}
