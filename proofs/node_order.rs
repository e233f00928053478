//@include prelude.inc
//@include perm.inc
type NodeId = u32;
type Rank = u32;
//@include node_order.inc
/// building from ranks and from the corresponding order gives the same mapping
proof fn same_mapping(a: NodeOrder, b: NodeOrder)
    requires a.wf(), b.wf(), a.ranks@ == b.ranks@ || a.node_order@ == b.node_order@
    ensures a.ranks@ =~= b.ranks@, a.node_order@ =~= b.node_order@
{
    if a.ranks@ == b.ranks@ {
        assert forall|i: int| 0 <= i < a.node_order@.len() implies a.node_order@[i] == b.node_order@[i] by { assert(a.ranks@[a.node_order@[i] as int] == i); assert(b.node_order@[b.ranks@[a.node_order@[i] as int] as int] == a.node_order@[i]); }
    } else {
        assert forall|i: int| 0 <= i < a.ranks@.len() implies a.ranks@[i] == b.ranks@[i] by { assert(a.node_order@[a.ranks@[i] as int] == i); assert(b.ranks@[b.node_order@[a.ranks@[i] as int] as int] == a.ranks@[i]); }
    }
}
} // verus!
fn main() {}
