//@include prelude.inc
type Weight = u32;
type Ent = (u64, i32, usize, usize);
uninterp spec fn top(q: Multiset<Ent>) -> Ent;
/// std's BinaryHeap of Reverse tuples as a multiset: peek and pop agree on one of the greatest entries (equal entries are identical)
#[verifier::external_body]
struct VfQueue { h: std::collections::BinaryHeap<std::cmp::Reverse<Ent>> }
impl VfQueue {
    uninterp spec fn view(&self) -> Multiset<Ent>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Multiset::<Ent>::empty() { VfQueue { h: std::collections::BinaryHeap::new() } }
    #[verifier::external_body]
    fn push(&mut self, e: Ent) ensures final(self)@ == old(self)@.insert(e) { self.h.push(std::cmp::Reverse(e)) }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.h.is_empty() }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<Ent>) ensures r == (if self@.len() == 0 { None } else { Some(top(self@)) }), self@.len() > 0 ==> self@.contains(top(self@)) { self.h.peek().map(|x| x.0) }
    #[verifier::external_body]
    fn pop(&mut self) ensures old(self)@.len() > 0 ==> final(self)@ == old(self)@.remove(top(old(self)@)), old(self)@.len() == 0 ==> final(self)@ == old(self)@ { self.h.pop(); }
    #[verifier::external_body]
    fn retain<F: Fn(Ent) -> bool>(&mut self, f: F)
        requires forall|e: Ent| call_requires(f, (e,))
        ensures forall|e: Ent| #[trigger] final(self)@.contains(e) ==> old(self)@.contains(e) && call_ensures(f, (e,), true),
            forall|e: Ent| #[trigger] old(self)@.contains(e) && !call_ensures(f, (e,), false) ==> final(self)@.contains(e)
    { self.h.retain(|x| f(x.0)) }
}
/// the keys of the queue and the shared bound may have any value: the groups must be right under every schedule
#[verifier::external_body]
fn vf_any() -> u64 { 0 }
fn vf_group_min(group: &Vec<usize>, metrics: &[&[Weight]], e: usize) -> (r: Weight)
    requires group@.len() > 0, forall|i: int| 0 <= i < group@.len() ==> (#[trigger] group@[i]) < metrics@.len() && e < metrics@[group@[i] as int]@.len()
{
    let mut b = metrics[group[0]][e];
    let mut i = 1;
    while i < group.len()
        invariant 1 <= i <= group@.len(), forall|i: int| 0 <= i < group@.len() ==> (#[trigger] group@[i]) < metrics@.len() && e < metrics@[group@[i] as int]@.len()
        decreases group@.len() - i
    { let w = metrics[group[i]][e]; if w < b { b = w; } i += 1; }
    b
}
/// std: Vec::retain keeps exactly the elements the closure accepted, in order
#[verifier::external_body]
fn vf_retain<T>(data: &mut Vec<T>, keep: &Vec<bool>, Ghost(ok): Ghost<spec_fn(T) -> bool>)
    requires keep@.len() == old(data)@.len(), forall|i: int| 0 <= i < keep@.len() ==> #[trigger] keep@[i] == ok(old(data)@[i])
    ensures final(data)@ == old(data)@.filter(ok)
{ let mut i = 0; data.retain(|_| { i += 1; keep[i - 1] }) }

type Groups = Seq<Vec<usize>>;
/// how often metric x occurs in the first n groups
spec fn occ(g: Groups, n: int, x: usize) -> int decreases n { if n <= 0 { 0 } else { occ(g, n - 1, x) + g[n - 1]@.to_multiset().count(x) } }
/// the non-empty groups among the first n
spec fn alive(g: Groups, n: int) -> int decreases n { if n <= 0 { 0 } else { alive(g, n - 1) + if g[n - 1]@.len() > 0 { 1int } else { 0 } } }
/// every metric occurs exactly once
spec fn partition(g: Groups, k: int) -> bool { forall|x: usize| #[trigger] occ(g, g.len() as int, x) == if x < k { 1int } else { 0 } }
spec fn pairs_alive(g: Groups, q: Multiset<Ent>, m: int) -> bool { forall|e: Ent| #[trigger] q.contains(e) ==> e.2 < e.3 < g.len() && g[e.2 as int]@.len() > 0 && g[e.3 as int]@.len() > 0 && 0 <= e.1 <= m }
spec fn listed(q: Multiset<Ent>, i: int, j: int) -> bool { exists|e: Ent| #[trigger] q.contains(e) && e.2 == i && e.3 == j }
spec fn all_listed(g: Groups, q: Multiset<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() && g[i]@.len() > 0 && g[j]@.len() > 0 ==> #[trigger] listed(q, i, j) }

broadcast proof fn lemma_ins(q: Multiset<Ent>, e: Ent, x: Ent) ensures #[trigger] q.insert(e).contains(x) <==> q.contains(x) || x == e { }
broadcast proof fn lemma_rem(q: Multiset<Ent>, e: Ent, x: Ent) ensures #[trigger] q.remove(e).contains(x) ==> q.contains(x) { }
proof fn lemma_kept(q: Multiset<Ent>, e: Ent, x: Ent) requires q.contains(x), x != e ensures q.remove(e).contains(x) { }
spec fn ent_ok(g: Groups, e: Ent, m: int) -> bool { e.2 < e.3 < g.len() && g[e.2 as int]@.len() > 0 && g[e.3 as int]@.len() > 0 && 0 <= e.1 <= m }
spec fn tcl(t: Seq<Ent>, c: int, i: int, j: int) -> bool { exists|a: int| c <= a < t.len() && (#[trigger] t[a]).2 == i && t[a].3 == j }
proof fn lemma_occ_nonneg(g: Groups, n: int, x: usize) requires 0 <= n <= g.len() ensures 0 <= occ(g, n, x), n > 0 ==> occ(g, n, x) >= occ(g, n - 1, x) decreases n { if n > 0 { lemma_occ_nonneg(g, n - 1, x); } }
proof fn lemma_occ_same(g: Groups, h: Groups, n: int, x: usize) requires 0 <= n <= g.len(), n <= h.len(), forall|i: int| 0 <= i < n ==> g[i] == h[i] ensures occ(g, n, x) == occ(h, n, x), alive(g, n) == alive(h, n) decreases n { if n > 0 { lemma_occ_same(g, h, n - 1, x); } }
proof fn lemma_update(g: Groups, i: int, v: Vec<usize>, n: int, x: usize)
    requires 0 <= i < g.len(), 0 <= n <= g.len()
    ensures occ(g.update(i, v), n, x) == occ(g, n, x) + (if i < n { v@.to_multiset().count(x) - g[i]@.to_multiset().count(x) } else { 0int }),
        alive(g.update(i, v), n) == alive(g, n) + (if i < n { (if v@.len() > 0 { 1int } else { 0 }) - (if g[i]@.len() > 0 { 1int } else { 0 }) } else { 0 }),
    decreases n
{ if n > 0 { lemma_update(g, i, v, n - 1, x); } }
/// members of groups are metrics
proof fn lemma_member(g: Groups, n: int, i: int, x: usize)
    requires 0 <= i < n <= g.len(), g[i]@.contains(x)
    ensures occ(g, n, x) >= 1
    decreases n
{
    if i == n - 1 { lemma_occ_nonneg(g, n - 1, x); vstd::seq_lib::to_multiset_contains(g[i]@, x); assert(g[i]@.to_multiset().count(x) > 0); }
    else { lemma_member(g, n - 1, i, x); }
}
proof fn lemma_two(g: Groups, n: int, i: int, j: int)
    requires 0 <= i < j < n <= g.len(), g[i]@.len() > 0, g[j]@.len() > 0
    ensures alive(g, n) >= 2
    decreases n
{ if j == n - 1 { lemma_one(g, n - 1, i); } else { lemma_two(g, n - 1, i, j); } }
proof fn lemma_one(g: Groups, n: int, i: int) requires 0 <= i < n <= g.len(), g[i]@.len() > 0 ensures alive(g, n) >= 1 decreases n { lemma_alive(g, n - 1); if i < n - 1 { lemma_one(g, n - 1, i); } }
proof fn lemma_alive(g: Groups, n: int) requires 0 <= n <= g.len() ensures 0 <= alive(g, n) <= n decreases n { if n > 0 { lemma_alive(g, n - 1); } }
/// at most one group is left if no two are
proof fn lemma_few(g: Groups, n: int)
    requires 0 <= n <= g.len(), forall|i: int, j: int| 0 <= i < j < g.len() ==> !(#[trigger] g[i]@.len() > 0 && #[trigger] g[j]@.len() > 0)
    ensures alive(g, n) <= 1, alive(g, n) == 1 ==> exists|i: int| 0 <= i < n && #[trigger] g[i]@.len() > 0
    decreases n
{
    if n > 0 { lemma_few(g, n - 1);
        if g[n - 1]@.len() > 0 { if alive(g, n - 1) == 1 { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] g[i]@.len() > 0; assert(g[i]@.len() > 0 && g[n - 1]@.len() > 0); } lemma_alive(g, n - 1); }
        else if alive(g, n) == 1 { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] g[i]@.len() > 0; }
    }
}
proof fn lemma_drop_empty(g: Groups, ok: spec_fn(Vec<usize>) -> bool, x: usize)
    requires forall|v: Vec<usize>| #[trigger] ok(v) == (v@.len() > 0)
    ensures occ(g.filter(ok), g.filter(ok).len() as int, x) == occ(g, g.len() as int, x), g.filter(ok).len() == alive(g, g.len() as int), forall|i: int| 0 <= i < g.filter(ok).len() ==> (#[trigger] g.filter(ok)[i])@.len() > 0
    decreases g.len()
{
    reveal(Seq::filter);
    if g.len() > 0 {
        let d = g.drop_last(); let n = g.len() as int;
        lemma_drop_empty(d, ok, x);
        lemma_occ_same(d, g, n - 1, x);
        let f = d.filter(ok);
        if ok(g.last()) { lemma_occ_same(f, f.push(g.last()), f.len() as int, x); assert(g.filter(ok) == f.push(g.last())); }
        else { assert(g.last()@.len() == 0); assert(g.last()@ =~= Seq::<usize>::empty()); vstd::seq_lib::to_multiset_len(g.last()@); assert(g.last()@.to_multiset().count(x) == 0); assert(g.filter(ok) == f); }
    }
}
proof fn lemma_append(a: Seq<usize>, b: Seq<usize>, x: usize) ensures (a + b).to_multiset().count(x) == a.to_multiset().count(x) + b.to_multiset().count(x) { vstd::seq_lib::lemma_multiset_commutative(a, b); }
proof fn lemma_single(i: usize, x: usize) ensures seq![i].to_multiset().count(x) == if x == i { 1nat } else { 0 } { assert(seq![i] =~= Seq::<usize>::empty().push(i)); vstd::seq_lib::to_multiset_build(Seq::<usize>::empty(), i); vstd::seq_lib::to_multiset_len(Seq::<usize>::empty()); }

//@fn engine/src/algo/metric_merging.rs -::merge panics=1
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@rw dropcall report!($e);
//@rw sub for metric in metrics { => for metric in metrics.iter() {
//@rw sub BinaryHeap::new() => VfQueue::new()
//@rw sub let mut merged: Vec<_> = (0..$n).map(|$x:id| vec![$e]).collect(); => let mut merged: Vec<Vec<usize>> = Vec::new(); for $x in 0..$n { let mut vf_g: Vec<usize> = Vec::new(); vf_g.push($e); merged.push(vf_g); }
//@rw sub $x:id.retain(|&Reverse((_, _, $a:id, $b:id))| $c); => $x.retain(|vf_e: Ent| -> (vf_r: bool) ensures vf_r == (vf_e.2 != idx1 && vf_e.2 != idx2 && vf_e.3 != idx1 && vf_e.3 != idx2) { let (_, _, $a, $b) = vf_e; $c });
//@rw sub let &Reverse(($p)) = => let ($p) =
//@rw sub Some(&Reverse(($p))) => Some(($p))
//@rw sub Reverse(($p)) => ($p)
//@rw sub let mut tmp = Vec::new(); => let mut tmp: Vec<usize> = Vec::new();
//@rw sub let mut to_compute = Vec::new(); => let mut to_compute: Vec<Ent> = Vec::new();
//@rw dropcall let min_final_key = AtomicU64::new(min_final_key);
//@rw sub let queue = std::sync::Mutex::new(&mut queue); => let queue = &mut queue;
//@rw sub rayon::scope(|s| { $b }); => { $b }
//@rw sub s.spawn(move |_| { $b }); => $b
//@rw sub for ($p) in to_compute { => for &($p) in to_compute.iter() {
//@rw dropcall let min_final_key = &min_final_key;
//@rw dropcall let queue = &queue;
//@rw dropcall let merged = &merged;
//@rw sub min_final_key.load(SeqCst) => vf_any()
//@rw dropcall min_final_key.fetch_min($e, SeqCst);
//@rw sub queue.lock().unwrap().push => queue.push
//@rw sub $g:chain.iter().map(|&idx| metrics[idx][$e:id]).min().unwrap() => vf_group_min(&$g, metrics, $e)
//@rw sub sum_of_squared_diffs += $e; => sum_of_squared_diffs = vf_any();
//@rw sub merged.retain(|$x:id| $c); => let mut vf_keep: Vec<bool> = Vec::new(); while vf_keep.len() < merged.len() { let $x = &merged[vf_keep.len()]; let vf_b: bool = $c; vf_keep.push(vf_b); } vf_retain(&mut merged, &vf_keep, Ghost(vf_p));
//@rw for
//@spec
    requires metrics@.len() > 0, target_size >= 1, metrics@[0]@.len() < i32::MAX
    ensures partition(r@, metrics@.len() as int), r@.len() <= target_size, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() > 0
//@at start
    broadcast use {lemma_ins, lemma_rem};
    let ghost k = metrics@.len() as int;
//@loop 0
    invariant vf_it0@ == metrics@, vf_i0 <= vf_it0@.len(), forall|i: int| 0 <= i < vf_i0 ==> (#[trigger] metrics@[i])@.len() == m
//@loop 1
    invariant vf_e1 == k, vf_i1 <= k, k == metrics@.len(), merged@.len() == vf_i1, forall|i: int| 0 <= i < vf_i1 ==> (#[trigger] merged@[i])@.len() > 0, alive(merged@, vf_i1 as int) == vf_i1,
        forall|x: usize| #[trigger] occ(merged@, vf_i1 as int, x) == if x < vf_i1 { 1int } else { 0 },
//@at loop_start 1
    let ghost g0 = merged@;
//@at loop_end 1
    proof {
        let n = vf_i1 - 1;
        assert(merged@[n]@ =~= seq![idx]);
        assert forall|x: usize| #[trigger] occ(merged@, vf_i1 as int, x) == if x < vf_i1 { 1int } else { 0 } by { lemma_occ_same(g0, merged@, n, x); assert(occ(g0, n, x) == if x < n { 1int } else { 0 }); lemma_single(idx, x); }
        lemma_occ_same(g0, merged@, n, 0);
    }
//@loop 2
    invariant vf_it2@ == metrics@, vf_i2 <= k, k == metrics@.len(), merged@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] merged@[i])@.len() > 0,
        pairs_alive(merged@, queue@, m as int),
        forall|i: int, j: int| 0 <= i < j < k && i < vf_i2 ==> #[trigger] listed(queue@, i, j),
//@loop 3
    invariant vf_it3@ == metrics@, vf_i3 <= k, k == metrics@.len(), merged@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] merged@[i])@.len() > 0, idx == vf_i2 - 1, 0 < vf_i2 <= k,
        pairs_alive(merged@, queue@, m as int),
        forall|i: int, j: int| 0 <= i < j < k && (i < idx || i == idx && j < vf_i3) ==> #[trigger] listed(queue@, i, j),
//@at loop_start 3
    let ghost q0 = queue@;
//@at loop_end 3
    proof {
        assert forall|e: Ent| #[trigger] queue@.contains(e) implies ent_ok(merged@, e, m as int) by { if q0.contains(e) { assert(ent_ok(merged@, e, m as int)); } }
        assert(pairs_alive(merged@, queue@, m as int));
        assert forall|i: int, j: int| 0 <= i < j < k && (i < idx || i == idx && j < vf_i3) implies #[trigger] listed(queue@, i, j) by {
            if i < idx || j < vf_i3 - 1 { assert(listed(q0, i, j)); let e = choose|e: Ent| #[trigger] q0.contains(e) && e.2 == i && e.3 == j; assert(queue@.contains(e)); }
            else { let e: Ent = (0, 0, idx, other_idx); assert(queue@.contains(e)); }
        }
    }
//@loop 4
    invariant k == metrics@.len(), merged@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] metrics@[i])@.len() == m, m < i32::MAX, target_size >= 1,
        partition(merged@, k), pairs_alive(merged@, queue@, m as int), all_listed(merged@, queue@), remaining_metrics == alive(merged@, k),
    ensures partition(merged@, k), merged@.len() == k, alive(merged@, k) <= target_size
//@at loop_start 4
    let ghost q1 = queue@;
    let ghost g1 = merged@;
    proof {
        if q1.len() == 0 {
            assert forall|i: int, j: int| 0 <= i < j < g1.len() implies !(#[trigger] g1[i]@.len() > 0 && #[trigger] g1[j]@.len() > 0) by { if g1[i]@.len() > 0 && g1[j]@.len() > 0 { assert(listed(q1, i, j)); let e = choose|e: Ent| #[trigger] q1.contains(e); assert(q1.remove(e).len() == q1.len() - 1); } }
            lemma_few(g1, k);
        }
    }
//@at before queue.retain
    proof {
        assert(merged@ =~= g1.update(idx2 as int, merged@[idx2 as int]).update(idx1 as int, merged@[idx1 as int]));
        let h = g1.update(idx2 as int, merged@[idx2 as int]);
        lemma_two(g1, k, idx1 as int, idx2 as int);
        assert forall|x: usize| #[trigger] occ(merged@, k, x) == if x < k { 1int } else { 0 } by {
            assert(occ(g1, k, x) == if x < k { 1int } else { 0 });
            lemma_update(g1, idx2 as int, merged@[idx2 as int], k, x);
            lemma_update(h, idx1 as int, merged@[idx1 as int], k, x);
            lemma_append(g1[idx1 as int]@, g1[idx2 as int]@, x);
            vstd::seq_lib::to_multiset_len(Seq::<usize>::empty());
        }
        lemma_update(g1, idx2 as int, merged@[idx2 as int], k, 0);
        lemma_update(h, idx1 as int, merged@[idx1 as int], k, 0);
    }
//@loop 5
    invariant vf_it5@ == merged@, vf_i5 <= k, merged@.len() == k, idx1 < k, merged@[idx1 as int]@.len() > 0, partition(merged@, k), pairs_alive(merged@, queue@, m as int),
        forall|i: int, j: int| 0 <= i < j < k && merged@[i]@.len() > 0 && merged@[j]@.len() > 0 && (i != idx1 && j != idx1 || i != idx1 && i < vf_i5 || j != idx1 && j < vf_i5) ==> #[trigger] listed(queue@, i, j),
//@at loop_start 5
    let ghost q3 = queue@;
//@at loop_end 5
    proof {
        assert forall|e: Ent| #[trigger] queue@.contains(e) implies ent_ok(merged@, e, m as int) by { if q3.contains(e) { assert(ent_ok(merged@, e, m as int)); } }
        assert(pairs_alive(merged@, queue@, m as int));
        assert forall|i: int, j: int| 0 <= i < j < k && merged@[i]@.len() > 0 && merged@[j]@.len() > 0 && (i != idx1 && j != idx1 || i != idx1 && i < vf_i5 || j != idx1 && j < vf_i5) implies #[trigger] listed(queue@, i, j) by {
            if listed(q3, i, j) { let e = choose|e: Ent| #[trigger] q3.contains(e) && e.2 == i && e.3 == j; assert(queue@.contains(e)); }
            else { let e: Ent = if idx1 < other_idx { (0, 0, idx1, other_idx) } else { (0, 0, other_idx, idx1) }; assert(queue@.contains(e)); }
        }
    }
//@loop 6
    invariant merged@ == g1, g1.len() == k, pairs_alive(g1, queue@, m as int), forall|a: int| 0 <= a < to_compute@.len() ==> ent_ok(g1, #[trigger] to_compute@[a], m as int),
        forall|i: int, j: int| 0 <= i < j < k && g1[i]@.len() > 0 && g1[j]@.len() > 0 && !tcl(to_compute@, 0, i, j) ==> #[trigger] listed(queue@, i, j),
//@at loop_start 6
    let ghost q2 = queue@;
    let ghost t2 = to_compute@;
//@at loop_end 6
    proof {
        assert forall|e: Ent| #[trigger] queue@.contains(e) implies ent_ok(g1, e, m as int) by { assert(q2.contains(e)); }
        assert(pairs_alive(g1, queue@, m as int));
        assert forall|i: int, j: int| 0 <= i < j < k && g1[i]@.len() > 0 && g1[j]@.len() > 0 && !tcl(to_compute@, 0, i, j) implies #[trigger] listed(queue@, i, j) by {
            if tcl(t2, 0, i, j) { let a = choose|a: int| 0 <= a < t2.len() && (#[trigger] t2[a]).2 == i && t2[a].3 == j; assert(to_compute@[a] == t2[a]); }
            assert(listed(q2, i, j));
            let e = choose|e: Ent| #[trigger] q2.contains(e) && e.2 == i && e.3 == j;
            assert(to_compute@[t2.len() as int] == top(q2));
            assert(queue@.contains(e));
        }
    }
//@loop 7
    invariant merged@ == g1, g1.len() == k, partition(g1, k), k == metrics@.len(), m < i32::MAX, forall|i: int| 0 <= i < k ==> (#[trigger] metrics@[i])@.len() == m,
        vf_it7@ == to_compute@, vf_i7 <= to_compute@.len(), pairs_alive(g1, queue@, m as int), forall|a: int| 0 <= a < to_compute@.len() ==> ent_ok(g1, #[trigger] to_compute@[a], m as int),
        forall|i: int, j: int| 0 <= i < j < k && g1[i]@.len() > 0 && g1[j]@.len() > 0 && !tcl(to_compute@, vf_i7 as int, i, j) ==> #[trigger] listed(queue@, i, j),
//@at loop_start 7
    let ghost q4 = queue@;
    proof { assert(ent_ok(g1, to_compute@[vf_i7 - 1], m as int)); }
//@loop 8
    invariant merged@ == g1, g1.len() == k, partition(g1, k), k == metrics@.len(), m < i32::MAX, forall|i: int| 0 <= i < k ==> (#[trigger] metrics@[i])@.len() == m,
        idx1 < k, idx2 < k, g1[idx1 as int]@.len() > 0, g1[idx2 as int]@.len() > 0, vf_e8 == m, 0 <= edges_checked <= vf_i8, vf_i8 <= m
//@at loop_start 8
    proof {
        assert forall|i: int| 0 <= i < g1[idx1 as int]@.len() implies #[trigger] g1[idx1 as int]@[i] < k by { let x = g1[idx1 as int]@[i]; assert(g1[idx1 as int]@.contains(x)); lemma_member(g1, k, idx1 as int, x); assert(occ(g1, k, x) == if x < k { 1int } else { 0 }); }
        assert forall|i: int| 0 <= i < g1[idx2 as int]@.len() implies #[trigger] g1[idx2 as int]@[i] < k by { let x = g1[idx2 as int]@[i]; assert(g1[idx2 as int]@.contains(x)); lemma_member(g1, k, idx2 as int, x); assert(occ(g1, k, x) == if x < k { 1int } else { 0 }); }
    }
//@at loop_end 7
    proof {
        assert forall|e: Ent| #[trigger] queue@.contains(e) implies ent_ok(g1, e, m as int) by { if q4.contains(e) { assert(ent_ok(g1, e, m as int)); } }
        assert(pairs_alive(g1, queue@, m as int));
        let e: Ent = (sum_of_squared_diffs, edges_checked, idx1, idx2);
        assert(queue@.contains(e));
        assert forall|i: int, j: int| 0 <= i < j < k && g1[i]@.len() > 0 && g1[j]@.len() > 0 && !tcl(to_compute@, vf_i7 as int, i, j) implies #[trigger] listed(queue@, i, j) by {
            if tcl(to_compute@, vf_i7 - 1, i, j) { let a = choose|a: int| vf_i7 - 1 <= a < to_compute@.len() && (#[trigger] to_compute@[a]).2 == i && to_compute@[a].3 == j; assert(a == vf_i7 - 1); }
            else { assert(listed(q4, i, j)); let e = choose|e: Ent| #[trigger] q4.contains(e) && e.2 == i && e.3 == j; assert(queue@.contains(e)); }
        }
    }
//@at before_loop 5
    proof {
        assert forall|e: Ent| #[trigger] queue@.contains(e) implies ent_ok(merged@, e, m as int) by { assert(q1.contains(e)); assert(ent_ok(g1, e, m as int)); assert(merged@[e.2 as int] == g1[e.2 as int] && merged@[e.3 as int] == g1[e.3 as int]); }
        assert(pairs_alive(merged@, queue@, m as int));
        assert forall|i: int, j: int| 0 <= i < j < k && merged@[i]@.len() > 0 && merged@[j]@.len() > 0 && i != idx1 && j != idx1 implies #[trigger] listed(queue@, i, j) by {
            assert(g1[i] == merged@[i] && g1[j] == merged@[j]);
            assert(listed(q1, i, j)); let e = choose|e: Ent| #[trigger] q1.contains(e) && e.2 == i && e.3 == j;
            lemma_kept(q1, top(q1), e);
        }
    }
//@at before_loop 9
    let ghost vf_p = |v: Vec<usize>| v@.len() > 0;
    let ghost g9 = merged@;
//@loop 9
    invariant merged@ == g9, vf_keep@.len() <= g9.len(), vf_p == (|v: Vec<usize>| v@.len() > 0), forall|i: int| 0 <= i < vf_keep@.len() ==> #[trigger] vf_keep@[i] == vf_p(g9[i])
//@at end
    proof {
        assert forall|x: usize| #[trigger] occ(merged@, merged@.len() as int, x) == if x < k { 1int } else { 0 } by { lemma_drop_empty(g9, vf_p, x); assert(occ(g9, k, x) == if x < k { 1int } else { 0 }); }
        lemma_drop_empty(g9, vf_p, 0);
    }
//@endfn
} // verus!
fn main() {}
