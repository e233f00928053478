//@include prelude.inc
//@include bits.inc
//@include rank_select.inc
//@include_contracts rank_select_bitvec.inc rank_select
//@include graph.inc
/// std: slice::binary_search
#[verifier::external_body]
fn vf_binary_search(v: &[u32], x: u32) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i <= j < v@.len() ==> #[trigger] v@[i] <= #[trigger] v@[j]
    ensures r matches Ok(k) ==> k < v@.len() && v@[k as int] == x,
        r matches Err(k) ==> k <= v@.len() && (forall|i: int| 0 <= i < k ==> #[trigger] v@[i] < x) && (forall|i: int| k <= i < v@.len() ==> #[trigger] v@[i] > x)
{ v.binary_search(&x) }

//@item engine/src/datastr/graph/link_id_to_tail_mapper.rs struct LinkIdToTailMapper

/// number of nodes with at least one arc among the first v
spec fn busy(fo: Seq<u32>, v: int) -> int decreases v { if v <= 0 { 0 } else { busy(fo, v - 1) + if fo[v] > fo[v - 1] { 1int } else { 0 } } }
proof fn lemma_busy(fo: Seq<u32>, v: int) ensures 0 <= busy(fo, v) <= (if v < 0 { 0 } else { v }) decreases v { if v > 0 { lemma_busy(fo, v - 1); } }
proof fn lemma_busy_mono(fo: Seq<u32>, a: int, b: int) requires a <= b ensures busy(fo, a) <= busy(fo, b) <= busy(fo, a) + (b - a) decreases b - a { if a < b { lemma_busy_mono(fo, a, b - 1); } }
/// exactly the first arcs of the nodes below v are marked
spec fn marked(bits: Seq<u64>, fo: Seq<u32>, v: int) -> bool {
    &&& forall|u: int| #![trigger nd(u)] 0 <= u < v && nd(u) && fo[u] < fo[u + 1] ==> abit(bits, fo[u] as int)
    &&& forall|u: int, i: int| 0 <= u < v && fo[u] < i < fo[u + 1] ==> !(#[trigger] abit(bits, i) && #[trigger] nd(u))
    &&& forall|i: int| fo[v] <= i ==> !#[trigger] abit(bits, i)
}
spec fn nd(u: int) -> bool { true }
/// the offsets of the nodes without arcs, in order: node u is entry u - busy(u)
spec fn zeros(z: Seq<u32>, fo: Seq<u32>, v: int) -> bool {
    &&& z.len() == v - busy(fo, v)
    &&& forall|u: int| #![trigger nd(u)] 0 <= u < v && nd(u) && fo[u] == fo[u + 1] ==> u - busy(fo, u) < z.len() && z[u - busy(fo, u)] == fo[u]
    &&& forall|u: int, j: int| 0 <= u <= v && 0 <= j < u - busy(fo, u) ==> #[trigger] z[j] <= fo[u] || !#[trigger] nd(u)
    &&& forall|u: int, j: int| 0 <= u <= v && u - busy(fo, u) <= j < z.len() ==> #[trigger] z[j] >= fo[u] || !#[trigger] nd(u)
    &&& forall|i: int, j: int| 0 <= i <= j < z.len() ==> #[trigger] z[i] <= #[trigger] z[j]
}
proof fn lemma_ones_busy(bits: Seq<u64>, fo: Seq<u32>, m: int, n: int, v: int)
    requires offsets(fo, m), n == fo.len() - 1, 0 <= v <= n, marked(bits, fo, n)
    ensures ones(bits, fo[v] as int) == busy(fo, v)
    decreases v
{
    if v > 0 {
        lemma_ones_busy(bits, fo, m, n, v - 1);
        let a = fo[v - 1] as int; let b = fo[v] as int;
        if a < b {
            assert(nd(v - 1));
            assert(abit(bits, fo[v - 1] as int));
            assert forall|i: int| a < i < b implies !abit(bits, i) by { assert(nd(v - 1)); }
            lemma_ones_beyond(bits, a + 1, b);
            assert(ones(bits, a + 1) == ones(bits, a) + 1);
        }
    }
}
impl LinkIdToTailMapper {
    spec fn maps(&self, fo: Seq<u32>, m: int) -> bool {
        &&& offsets(fo, m) && m < u32::MAX
        &&& self.link_id_to_tail.wf()
        &&& self.link_id_to_tail.contained_keys_flags.size == m + 1
        &&& marked(self.link_id_to_tail.data(), fo, fo.len() - 1)
        &&& zeros(self.deg_zero_nodes_indices@, fo, fo.len() - 1)
    }
//@fn engine/src/datastr/graph/link_id_to_tail_mapper.rs LinkIdToTailMapper::link_id_to_tail
//@sig fn link_id_to_tail(&self, link_id: EdgeId, Ghost(fo): Ghost<Seq<u32>>, Ghost(v): Ghost<int>) -> (r: NodeId)
//@rw sub self.deg_zero_nodes_indices.binary_search(&link_id) => vf_binary_search(self.deg_zero_nodes_indices.as_slice(), link_id)
//@rw subopt Ok(ref mut $i:id) => Ok(mut $i)
//@rw subopt *index => index
//@spec
    requires fo.len() > 0, self.maps(fo, fo[fo.len() - 1] as int), 0 <= v < fo.len() - 1, fo[v] <= link_id < fo[v + 1]
    ensures r == v
//@at start
    let ghost z = self.deg_zero_nodes_indices@;
    let ghost zv = v - busy(fo, v);
    proof {
        let n = fo.len() - 1;
        lemma_ones_busy(self.link_id_to_tail.data(), fo, fo[n] as int, n as int, v);
        lemma_busy(fo, v); lemma_busy_mono(fo, v + 1, n as int);
        assert(busy(fo, v + 1) == busy(fo, v) + 1);
        assert(nd(v) && nd(v + 1));
        assert forall|j: int| 0 <= j < zv implies #[trigger] z[j] <= link_id by { }
        assert forall|j: int| zv <= j < z.len() implies #[trigger] z[j] > link_id by { assert(v + 1 - busy(fo, v + 1) == zv); }
        let b = self.link_id_to_tail.data();
        assert(abit(b, fo[v] as int));
        if fo[v] < link_id {
            assert(!abit(b, link_id as int));
            assert forall|i: int| fo[v] < i < link_id implies !abit(b, i) by { assert(nd(v)); }
            assert(ones(b, fo[v] + 1) == ones(b, fo[v] as int) + 1);
            lemma_ones_beyond(b, fo[v] + 1, link_id as int);
        }
    }
//@loop 0
    invariant index <= zv, z == self.deg_zero_nodes_indices@, 0 <= zv <= z.len(), forall|j: int| zv <= j < z.len() ==> #[trigger] z[j] > link_id, forall|j: int| 0 <= j < zv ==> #[trigger] z[j] <= link_id,
        forall|i: int, j: int| 0 <= i <= j < z.len() ==> #[trigger] z[i] <= #[trigger] z[j],
        index < z.len() ==> z[index as int] >= link_id,
    ensures index == zv
    decreases zv - index
//@at end
    proof { if num_deg_zeros_below < zv { assert(z[num_deg_zeros_below as int] <= link_id); } if num_deg_zeros_below > zv { assert(z[zv] > link_id); } }
//@endfn
//@fn engine/src/datastr/graph/link_id_to_tail_mapper.rs LinkIdToTailMapper::new
//@sig fn new(graph: &OwnedGraph) -> (r: LinkIdToTailMapper)
//@rw for
//@rw subopt mapper.link_id_to_tail($e) => mapper.link_id_to_tail($e, Ghost(fo), Ghost(node as int))
//@rw subopt let mut deg_zero_nodes_indices = Vec::new() => let mut deg_zero_nodes_indices: Vec<EdgeId> = Vec::new()
//@spec
    requires graph.wf()
    ensures r.maps(graph.first_out@, graph.m())
//@at start
    let ghost fo = graph.first_out@;
//@at before_loop 0
    proof { assert forall|i: int| !#[trigger] abit(first_out_bits.data@, i) by { assert(!first_out_bits.at(i)); } }
//@loop 0
    invariant graph.wf(), fo == graph.first_out@, vf_i0 <= vf_e0, vf_e0 == graph.n(), counter == fo[vf_i0 as int], first_out_bits.wf(), first_out_bits.size == graph.m() + 1,
        marked(first_out_bits.data@, fo, vf_i0 as int), zeros(deg_zero_nodes_indices@, fo, vf_i0 as int),
    decreases vf_e0 - vf_i0
//@at loop_start 0
    let ghost z0 = deg_zero_nodes_indices@;
    let ghost b0 = first_out_bits;
    proof { lemma_busy(fo, node as int); }
//@at loop_end 0
    proof {
        let v = node as int;
        assert forall|i: int| #[trigger] abit(first_out_bits.data@, i) == (abit(b0.data@, i) || (i == fo[v] && deg > 0)) by { assert(first_out_bits.at(i) == (b0.at(i) || (i == fo[v] && deg > 0))); }
        assert forall|u: int| #![trigger nd(u)] 0 <= u < v + 1 && nd(u) && fo[u] < fo[u + 1] implies abit(first_out_bits.data@, fo[u] as int) by { if u < v { assert(abit(b0.data@, fo[u] as int)); } }
        assert forall|u: int, i: int| 0 <= u < v + 1 && fo[u] < i < fo[u + 1] implies !(#[trigger] abit(first_out_bits.data@, i) && #[trigger] nd(u)) by {
            if u < v { assert(!(abit(b0.data@, i) && nd(u))); assert(fo[u + 1] <= fo[v]); } else { assert(!abit(b0.data@, i)); }
        }
        assert(busy(fo, v + 1) == busy(fo, v) + if fo[v + 1] > fo[v] { 1int } else { 0 });
        let z = deg_zero_nodes_indices@;
        assert forall|u: int, j: int| 0 <= u <= v + 1 && 0 <= j < u - busy(fo, u) && #[trigger] nd(u) implies #[trigger] z[j] <= fo[u] by { if u <= v { lemma_busy_mono(fo, u, v); assert(z0[j] <= fo[u] || !nd(u)); } else { assert(nd(v)); if j < z0.len() { assert(z0[j] <= fo[v] || !nd(v)); } } }
        assert forall|u: int, j: int| 0 <= u <= v + 1 && u - busy(fo, u) <= j < z.len() && #[trigger] nd(u) implies #[trigger] z[j] >= fo[u] by { if u <= v { if j < z0.len() { assert(z0[j] >= fo[u] || !nd(u)); } } }
        assert forall|i: int, j: int| 0 <= i <= j < z.len() implies #[trigger] z[i] <= #[trigger] z[j] by { if j < z0.len() { assert(z0[i] <= z0[j]); } else if i < z0.len() { assert(nd(v)); assert(z0[i] <= fo[v] || !nd(v)); } }
        assert forall|u: int| #![trigger nd(u)] 0 <= u < v + 1 && nd(u) && fo[u] == fo[u + 1] implies u - busy(fo, u) < z.len() && z[u - busy(fo, u)] == fo[u] by { lemma_busy(fo, u); if u < v { assert(z0[u - busy(fo, u)] == fo[u]); } }
    }
//@loop 1
    invariant graph.wf(), fo == graph.first_out@, vf_i1 <= vf_e1, vf_e1 == graph.n(), counter == fo[vf_i1 as int], mapper.maps(fo, graph.m()),
    decreases vf_e1 - vf_i1
//@loop 2
    invariant graph.wf(), fo == graph.first_out@, vf_e2 == deg, node < graph.n(), fo[node as int] <= fo[node + 1], counter == fo[node as int], mapper.maps(fo, graph.m()), deg == fo[node + 1] - fo[node as int],
    decreases vf_e2 - vf_i2
//@endfn
}
//@fn engine/src/datastr/graph/link_id_to_tail_mapper.rs -::link_id_to_tail
//@rw subopt vf_assert(first_out.last().unwrap() > &link_id) => vf_assert(*first_out.last().unwrap() > link_id)
//@rw sub first_out.binary_search(&link_id) => vf_binary_search(first_out, link_id)
//@spec
    requires offsets(first_out@, first_out@[first_out@.len() - 1] as int), link_id < first_out@[first_out@.len() - 1]
    ensures r < first_out@.len() - 1, first_out@[r as int] <= link_id < first_out@[r + 1]
//@loop 0
    invariant offsets(first_out@, first_out@[first_out@.len() - 1] as int), link_id < first_out@[first_out@.len() - 1], i < first_out@.len() - 1, first_out@[i as int] == link_id
    ensures i < first_out@.len() - 1, first_out@[i as int] == link_id, first_out@[i + 1] > link_id
    decreases first_out@.len() - i
//@endfn
} // verus!
fn main() {}
