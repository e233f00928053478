//@item engine/src/datastr/node_order.rs struct NodeOrder Arc<[NodeId]>=>Vec<NodeId> Arc<[Rank]>=>Vec<Rank>

/// `s` contains `x` nowhere
fn vf_absent(s: &Vec<u32>, x: u32) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] != x)
{
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> #[trigger] s@[j] != x decreases s@.len() - i { if s[i] == x { return false; } i += 1; }
    true
}
#[verifier::external_body]
fn vf_iota(n: u32) -> (r: Vec<u32>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == i { (0..n).collect() }

impl NodeOrder {
    /// rank and node lookups are mutually inverse
    spec fn wf(&self) -> bool { inverse(self.node_order@, self.ranks@) }
    spec fn n(&self) -> nat { self.node_order@.len() }

//@fn engine/src/datastr/node_order.rs NodeOrder::identity
//@rw subopt (0..n as u32).collect() => vf_iota(n as u32)
//@spec
    requires n < u32::MAX
    ensures r.wf(), r.n() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.ranks@[i] == i
//@endfn

//@fn engine/src/datastr/node_order.rs NodeOrder::from_node_order
//@rw for
//@rw subopt <NodeId>::max_value() => u32::MAX
//@rw subopt vf_assert(($a:chain.iter().position(|&$y:id| $y:id == $e)) == (None)) => vf_assert(vf_absent(&$a, $e))
//@rw subopt node_order.into() => node_order
//@rw subopt ranks.into() => ranks
//@spec
    requires perm(node_order@), node_order@.len() < u32::MAX
    ensures r.wf(), r.node_order@ == node_order@
//@loop 0
    invariant n == node_order@.len(), n < u32::MAX, ranks@.len() == n, vf_i0 <= n, vf_it0@ == node_order@, perm(node_order@),
        forall|k: int| 0 <= k < vf_i0 ==> ranks@[#[trigger] node_order@[k] as int] == k,
    decreases n - vf_i0
//@at after_loop 0
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] ranks@[v] < n && node_order@[ranks@[v] as int] == v by {
            lemma_perm_onto(node_order@, v);
            let k = choose|k: int| 0 <= k < n && #[trigger] node_order@[k] == v;
            assert(ranks@[node_order@[k] as int] == k);
        }
    }
//@endfn

//@fn engine/src/datastr/node_order.rs NodeOrder::from_ranks
//@rw for
//@rw subopt <NodeId>::max_value() => u32::MAX
//@rw subopt vf_assert(($a:chain.iter().position(|&$y:id| $y:id == $e)) == (None)) => vf_assert(vf_absent(&$a, $e))
//@rw subopt node_order.into() => node_order
//@rw subopt ranks.into() => ranks
//@spec
    requires perm(ranks@), ranks@.len() < u32::MAX
    ensures r.wf(), r.ranks@ == ranks@
//@loop 0
    invariant n == ranks@.len(), n < u32::MAX, node_order@.len() == n, vf_i0 <= n, vf_it0@ == ranks@, perm(ranks@),
        forall|k: int| 0 <= k < vf_i0 ==> node_order@[#[trigger] ranks@[k] as int] == k,
    decreases n - vf_i0
//@at after_loop 0
    proof {
        assert forall|v: int| 0 <= v < n implies #[trigger] node_order@[v] < n && ranks@[node_order@[v] as int] == v by {
            lemma_perm_onto(ranks@, v);
            let k = choose|k: int| 0 <= k < n && #[trigger] ranks@[k] == v;
            assert(node_order@[ranks@[k] as int] == k);
        }
    }
//@endfn

//@fn engine/src/datastr/node_order.rs NodeOrder::order
//@spec
    ensures r@ == self.node_order@
//@endfn
//@fn engine/src/datastr/node_order.rs NodeOrder::ranks
//@spec
    ensures r@ == self.ranks@
//@endfn
//@fn engine/src/datastr/node_order.rs NodeOrder::rank
//@spec
    requires self.wf(), node < self.n()
    ensures r < self.n(), r == self.ranks@[node as int], self.node_order@[r as int] == node
//@endfn
//@fn engine/src/datastr/node_order.rs NodeOrder::node
//@spec
    requires self.wf(), rank < self.n()
    ensures r < self.n(), r == self.node_order@[rank as int], self.ranks@[r as int] == rank
//@endfn
//@fn engine/src/datastr/node_order.rs NodeOrder::len
//@spec
    ensures r == self.n()
//@endfn
//@fn engine/src/datastr/node_order.rs NodeOrder::is_empty
//@spec
    ensures r == (self.n() == 0)
//@endfn
}
