// ---- the selection: selected nodes and everything above them, heads before tails
type Ids = Seq<InRangeOption<u32>>;
fn vf_seq_take(v: &mut Vec<u32>) -> (r: Vec<u32>) ensures r@ == old(v)@, final(v)@ == Seq::<u32>::empty() { let mut r = Vec::new(); r.append(v); r }
fn vf_last(v: &Vec<u32>) -> (r: Option<u32>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()) { if v.len() == 0 { None } else { Some(v[v.len() - 1]) } }
spec fn numbered(ids: Ids, rn: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < rn.len() ==> (#[trigger] rn[i]) < ids.len() && ids[rn[i] as int]@ == Some(i as u32)
    &&& forall|v: int| 0 <= v < ids.len() ==> ((#[trigger] ids[v])@ matches Some(i) ==> i < rn.len() && rn[i as int] == v)
}
spec fn entry_ok(ls: Lk, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, i: int, k: int) -> bool {
    let e = fo[i] + k;
    0 <= e < hd.len() && hd[e] < i && rn[hd[e] as int] == ls[rn[i] as int][k].node && wt[e] == ls[rn[i] as int][k].weight
}
spec fn row_ok(ls: Lk, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, i: int) -> bool { fo[i + 1] == fo[i] + ls[rn[i] as int].len() && forall|k: int| 0 <= k < ls[rn[i] as int].len() ==> #[trigger] entry_ok(ls, rn, fo, hd, wt, i, k) }
spec fn sel_ok(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>) -> bool {
    &&& ids.len() == ls.len() && numbered(ids, rn) && rn.len() + open(ids, ls.len() as int) == ls.len() && fo.len() == rn.len() + 1 && fo[0] == 0 && hd.len() == wt.len() && fo[rn.len() as int] == hd.len() && hd.len() == used(ls, ids, ls.len() as int)
    &&& forall|i: int| 0 <= i < rn.len() ==> #[trigger] row_ok(ls, rn, fo, hd, wt, i)
}
/// links of numbered nodes below v; nodes not numbered below v
spec fn used(ls: Lk, ids: Ids, v: int) -> int decreases v { if v <= 0 { 0 } else { used(ls, ids, v - 1) + if ids[v - 1]@ is Some { ls[v - 1].len() as int } else { 0 } } }
spec fn open(ids: Ids, v: int) -> int decreases v { if v <= 0 { 0 } else { open(ids, v - 1) + if ids[v - 1]@ is Some { 0int } else { 1 } } }
spec fn loff(ls: Lk, u: int) -> int decreases u { if u <= 0 { 0 } else { loff(ls, u - 1) + ls[u - 1].len() } }
proof fn lemma_used(ls: Lk, ids: Ids, v: int) requires 0 <= v <= ids.len(), v <= ls.len() ensures 0 <= used(ls, ids, v) <= loff(ls, v), 0 <= open(ids, v) <= v decreases v { if v > 0 { lemma_used(ls, ids, v - 1); } }
proof fn lemma_used_set(ls: Lk, ids: Ids, x: int, o: InRangeOption<u32>, v: int)
    requires 0 <= x < ids.len(), ids.len() == ls.len(), ids[x]@ is None, o@ is Some, 0 <= v <= ids.len()
    ensures used(ls, ids.update(x, o), v) == used(ls, ids, v) + (if x < v { ls[x].len() as int } else { 0 }), open(ids.update(x, o), v) == open(ids, v) - (if x < v { 1int } else { 0 })
    decreases v
{ if v > 0 { lemma_used_set(ls, ids, x, o, v - 1); } }
proof fn lemma_used_none(ls: Lk, ids: Ids, v: int) requires 0 <= v <= ids.len(), forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i])@ is None ensures used(ls, ids, v) == 0, open(ids, v) == v decreases v { if v > 0 { lemma_used_none(ls, ids, v - 1); } }
/// upward search for nodes to number: strictly increasing, all open except possibly a lone first one
spec fn stack_ok(ids: Ids, st: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) < ids.len() && (st.len() > 1 ==> ids[st[i] as int]@ is None)
    &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> #[trigger] st[i] < #[trigger] st[j]
}
proof fn lemma_stack_len(ids: Ids, st: Seq<u32>, k: int) requires stack_ok(ids, st), 0 <= k < st.len() ensures st[k] >= k, st.len() > 0 ==> k < ids.len() decreases k { if k > 0 { lemma_stack_len(ids, st, k - 1); assert(st[k - 1] < st[k]); } }
proof fn lemma_add(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, x: int, o: InRangeOption<u32>, hd2: Seq<u32>, wt2: Seq<u32>)
    requires sel_ok(ls, ids, rn, fo, hd, wt), 0 <= x < ids.len(), ids[x]@ is None, o@ == Some(rn.len() as u32), upward(ls), rn.len() < u32::MAX, loff(ls, ls.len() as int) < u32::MAX,
        hd2.len() == hd.len() + ls[x].len(), wt2.len() == hd2.len(), forall|e: int| 0 <= e < hd.len() ==> #[trigger] hd2[e] == hd[e] && wt2[e] == wt[e],
        forall|k: int| 0 <= k < ls[x].len() ==> ids.update(x, o)[(#[trigger] ls[x][k]).node as int]@ == Some(hd2[hd.len() + k]) && wt2[hd.len() + k] == ls[x][k].weight,
    ensures sel_ok(ls, ids.update(x, o), rn.push(x as u32), fo.push(hd2.len() as u32), hd2, wt2)
{
    let (ids2, rn2, fo2) = (ids.update(x, o), rn.push(x as u32), fo.push(hd2.len() as u32));
    let n = ls.len() as int; let m = rn.len() as int;
    lemma_used_set(ls, ids, x, o, n); lemma_used(ls, ids2, n);
    assert(numbered(ids2, rn2)) by {
        assert forall|i: int| 0 <= i < rn2.len() implies (#[trigger] rn2[i]) < ids2.len() && ids2[rn2[i] as int]@ == Some(i as u32) by { if i < m { assert(ids[rn[i] as int]@ == Some(i as u32)); } }
        assert forall|v: int| 0 <= v < ids2.len() implies ((#[trigger] ids2[v])@ matches Some(i) ==> i < rn2.len() && rn2[i as int] == v) by { if v != x { assert(ids[v] == ids2[v]); } }
    }
    assert forall|i: int| 0 <= i < rn2.len() implies #[trigger] row_ok(ls, rn2, fo2, hd2, wt2, i) by {
        if i < m {
            assert(row_ok(ls, rn, fo, hd, wt, i));
            assert forall|k: int| 0 <= k < ls[rn2[i] as int].len() implies #[trigger] entry_ok(ls, rn2, fo2, hd2, wt2, i, k) by { assert(entry_ok(ls, rn, fo, hd, wt, i, k)); }
        } else {
            assert forall|k: int| 0 <= k < ls[rn2[i] as int].len() implies #[trigger] entry_ok(ls, rn2, fo2, hd2, wt2, i, k) by {
                let h = ls[x][k].node as int; assert(x < h < n); assert(ids2[h] == ids[h]); assert(ids[h]@ is Some);
            }
        }
    }
}
//@item engine/src/algo/rphast.rs struct RPHAST
impl<GF: VfLinks<Link>, GB: VfLinks<Link>> RPHAST<GF, GB> {
    spec fn fl(&self) -> Lk { self.forward.lists() }
    spec fn bl(&self) -> Lk { self.backward.lists() }
    spec fn graphs_ok(&self) -> bool { self.order.wf() && self.order.n() == self.bl().len() && self.fl().len() == self.bl().len() && links_ok(self.fl()) && upward(self.bl()) && loff(self.bl(), self.bl().len() as int) < u32::MAX }
    spec fn wf(&self) -> bool { self.graphs_ok() && self.selection_stack@.len() == 0 && sel_ok(self.bl(), self.restricted_ids@, self.restricted_nodes@, self.restricted_first_out@, self.restricted_head@, self.restricted_weight@) }
    spec fn id(&self, t: NodeId) -> Option<u32> { self.restricted_ids@[self.order.ranks@[t as int] as int]@ }
    proof fn lemma_wf(&self, v: NodeId)
        requires self.wf(), v < self.order.n()
        ensures links_ok(self.fl()), links_ok(self.bl()), self.order.wf(), self.order.n() == self.bl().len(), self.fl().len() == self.bl().len(), sel_ok(self.bl(), self.restricted_ids@, self.restricted_nodes@, self.restricted_first_out@, self.restricted_head@, self.restricted_weight@),
            self.bl().len() < u32::MAX, self.order.ranks@[v as int] < self.bl().len()
    { }
//@fn engine/src/algo/rphast.rs RPHAST::new
//@rw sub vec![InRangeOption::NONE; $n] ===> vf_nones($n)
//@spec
    requires order.wf(), order.n() == backward.lists().len(), forward.lists().len() == backward.lists().len(), links_ok(forward.lists()), upward(backward.lists()), loff(backward.lists(), backward.lists().len() as int) < u32::MAX
    ensures r.wf(), r.order == order, r.forward == forward, r.backward == backward
//@at start
    proof { let ls = backward.lists(); assert forall|ids: Ids| ids.len() == ls.len() && (forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i])@ is None) implies #[trigger] used(ls, ids, ls.len() as int) == 0 by { lemma_used_none(ls, ids, ls.len() as int); }
        assert forall|ids: Ids| ids.len() == ls.len() && (forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i])@ is None) implies #[trigger] open(ids, ls.len() as int) == ls.len() by { lemma_used_none(ls, ids, ls.len() as int); } }
//@endfn
//@fn engine/src/algo/rphast.rs RPHAST::select
//@rw sub self.restricted_nodes.drain(..) => vf_seq_take(&mut self.restricted_nodes)
//@rw sub while let Some(&node) = self.selection_stack.last() => while let Some(node) = vf_last(&self.selection_stack)
//@rw sub InRangeOption::NONE ===> InRangeOption::new(None)
//@rw sub for &node in nodes { => for &node in nodes.iter() {
//@rw sub self.backward.link_iter($n) => vf_seq_links(&self.backward, $n)
//@rw for
//@rw subopt let mut local_idx_counter = 0; => let mut local_idx_counter: u32 = 0;
//@spec
    requires old(self).wf(), forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]) < old(self).order.n()
    ensures final(self).wf(), final(self).order == old(self).order, final(self).forward == old(self).forward, final(self).backward == old(self).backward,
        forall|i: int| 0 <= i < nodes@.len() ==> final(self).id(#[trigger] nodes@[i]) is Some
//@at start
    let ghost me = *self;
    let ghost ls = self.bl();
    let ghost n = ls.len() as int;
    let ghost ids0 = self.restricted_ids@;
    let ghost rn0 = self.restricted_nodes@;
//@loop 0
    invariant
        vf_i0 <= vf_it0@.len(), vf_it0@ == rn0, self.restricted_ids@.len() == n, numbered(ids0, rn0), ids0.len() == n, self.restricted_nodes@.len() == 0,
        self.restricted_first_out == me.restricted_first_out, self.selection_stack == me.selection_stack, self.order == me.order, self.forward == me.forward, self.backward == me.backward,
        forall|v: int| 0 <= v < n ==> ((#[trigger] self.restricted_ids@[v])@ matches Some(i) ==> vf_i0 <= i && self.restricted_ids@[v] == ids0[v]),
    decreases vf_it0@.len() - vf_i0
//@at loop_start 0
    proof { assert(rn0[vf_i0 - 1] < n); assert(ids0[node as int]@ == Some((vf_i0 - 1) as u32)); }
//@at before_loop 1
    proof { lemma_used_none(ls, self.restricted_ids@, n); assert(sel_ok(ls, self.restricted_ids@, self.restricted_nodes@, self.restricted_first_out@, self.restricted_head@, self.restricted_weight@)); }
//@loop 1
    invariant
        vf_i1 <= nodes@.len(), vf_it1@ == nodes@, self.order == me.order, self.forward == me.forward, self.backward == me.backward, self.graphs_ok(), ls == self.bl(), n == ls.len(),
        self.selection_stack@.len() == 0, forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]) < me.order.n(),
        sel_ok(ls, self.restricted_ids@, self.restricted_nodes@, self.restricted_first_out@, self.restricted_head@, self.restricted_weight@), local_idx_counter == self.restricted_nodes@.len(),
        forall|i: int| 0 <= i < vf_i1 ==> self.id(#[trigger] nodes@[i]) is Some,
    decreases nodes@.len() - vf_i1
//@at loop_start 1
    let ghost target = nodes@[vf_i1 - 1];
    let ghost ids1 = self.restricted_ids@;
//@at before self.selection_stack.push(node);
    let ghost root = node;
//@loop 2
    invariant
        self.order == me.order, self.forward == me.forward, self.backward == me.backward, self.graphs_ok(), ls == self.bl(), n == ls.len(), root < n,
        stack_ok(self.restricted_ids@, self.selection_stack@), self.selection_stack@.len() > 0 ==> self.selection_stack@[0] == root,
        self.selection_stack@.len() == 0 ==> self.restricted_ids@[root as int]@ is Some,
        sel_ok(ls, self.restricted_ids@, self.restricted_nodes@, self.restricted_first_out@, self.restricted_head@, self.restricted_weight@), local_idx_counter == self.restricted_nodes@.len(),
        ids1.len() == n, forall|v: int| 0 <= v < n && (#[trigger] ids1[v])@ is Some ==> self.restricted_ids@[v]@ is Some,
    ensures self.selection_stack@.len() == 0
    decreases open(self.restricted_ids@, n), (if self.selection_stack@.len() == 0 { 0 } else { n + 1 - self.selection_stack@.len() })
//@at loop_start 2
    let ghost st = self.selection_stack@;
    let ghost ids = self.restricted_ids@;
    let ghost rn = self.restricted_nodes@;
    let ghost fo = self.restricted_first_out@;
    let ghost hd = self.restricted_head@;
    let ghost wt = self.restricted_weight@;
    proof { lemma_stack_len(ids, st, st.len() - 1); assert(st[st.len() - 1] == node); lemma_used(ls, ids, n); assert(ids[node as int]@ is Some ==> st.len() == 1); }
//@loop 3
    invariant_except_break
        all_upward_done, self.selection_stack@ == st, forall|k: int| 0 <= k < vf_i3 ==> ids[(#[trigger] ls[node as int][k]).node as int]@ is Some
    invariant
        vf_i3 <= vf_it3@.len(), node < n, vf_it3@ == ls[node as int], upward(ls), n == ls.len(), ids == self.restricted_ids@, ids.len() == n,
        self.order == me.order, self.forward == me.forward, self.backward == me.backward, self.restricted_nodes@ == rn, self.restricted_first_out@ == fo, self.restricted_head@ == hd, self.restricted_weight@ == wt,
    ensures
        all_upward_done ==> self.selection_stack@ == st && forall|k: int| 0 <= k < ls[node as int].len() ==> ids[(#[trigger] ls[node as int][k]).node as int]@ is Some,
        !all_upward_done ==> exists|k: int| 0 <= k < ls[node as int].len() && self.selection_stack@ == st.push((#[trigger] ls[node as int][k]).node) && ids[ls[node as int][k].node as int]@ is None,
    decreases vf_it3@.len() - vf_i3
//@at after 0 self.restricted_ids[node as usize] = InRangeOption::some(local_idx_counter);
    proof { lemma_used_set(ls, ids, node as int, self.restricted_ids@[node as int], n); assert(self.restricted_ids@ =~= ids.update(node as int, self.restricted_ids@[node as int])); }
    let ghost ids2 = self.restricted_ids@;
//@at loop_end 2
    proof {
        lemma_used(ls, self.restricted_ids@, n);
        if all_upward_done {
            lemma_add(ls, ids, rn, fo, hd, wt, node as int, self.restricted_ids@[node as int], self.restricted_head@, self.restricted_weight@);
            assert(self.restricted_first_out@ =~= fo.push(self.restricted_head@.len() as u32));
            assert(self.restricted_nodes@ =~= rn.push(node));
            assert(self.selection_stack@ =~= st.drop_last());
            if st.len() > 1 { assert(st[0] < st[st.len() - 1]); }
        } else {
            let k = choose|k: int| 0 <= k < ls[node as int].len() && self.selection_stack@ == st.push((#[trigger] ls[node as int][k]).node) && ids[ls[node as int][k].node as int]@ is None;
            assert(node < ls[node as int][k].node);
            lemma_stack_len(ids, self.selection_stack@, st.len() as int);
        }
    }
//@loop 4
    invariant
        vf_i4 <= vf_it4@.len(), node < n, vf_it4@ == ls[node as int], upward(ls), n == ls.len(), ids2 == self.restricted_ids@, ids2.len() == n,
        self.order == me.order, self.forward == me.forward, self.backward == me.backward, self.restricted_nodes@ == rn, self.restricted_first_out@ == fo, self.selection_stack@ == st.drop_last(),
        forall|k: int| 0 <= k < ls[node as int].len() ==> ids2[(#[trigger] ls[node as int][k]).node as int]@ is Some,
        self.restricted_head@.len() == hd.len() + vf_i4, self.restricted_weight@.len() == wt.len() + vf_i4, hd.len() == wt.len(),
        forall|e: int| 0 <= e < hd.len() ==> #[trigger] self.restricted_head@[e] == hd[e] && self.restricted_weight@[e] == wt[e],
        forall|k: int| 0 <= k < vf_i4 ==> ids2[(#[trigger] ls[node as int][k]).node as int]@ == Some(self.restricted_head@[hd.len() + k]) && self.restricted_weight@[hd.len() + k] == ls[node as int][k].weight,
    decreases vf_it4@.len() - vf_i4
//@endfn
}
/// vec![InRangeOption::NONE; n]
fn vf_nones(n: usize) -> (r: Vec<InRangeOption<u32>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ is None
{
    let mut r: Vec<InRangeOption<u32>> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ is None decreases n - i { r.push(InRangeOption::new(None)); i = i + 1; }
    r
}
//@item engine/src/algo/rphast.rs struct RPHASTQuery Box<[Weight]>=>Vec<Weight> DijkstraData<Weight>=>DijkstraData<()>
fn vf_infinities(n: usize) -> (r: Vec<Weight>) ensures r@.len() == n
{ let mut r: Vec<Weight> = Vec::new(); let mut i: usize = 0; while i < n invariant i <= n, r@.len() == i decreases n - i { r.push(INFINITY); i = i + 1; } r }
/// the values the sweep has reached, per node
spec fn at(ids: Ids, rd: Seq<u32>) -> spec_fn(int) -> int { |v: int| if 0 <= v < ids.len() && ids[v]@ is Some && ids[v]@->0 < rd.len() { rd[ids[v]@->0 as int] as int } else { CAP } }
proof fn lemma_agraph_bg<G: VfLinks<Link>>(g: &G, o: &DefaultOps)
    requires links_ok(g.lists())
    ensures agraph::<DefaultOps, G>(g, o) =~= bg(g.lists()), graph_ok::<DefaultOps, G>(g, o)
{
    lemma_bg(g.lists());
    let a = agraph::<DefaultOps, G>(g, o);
    assert forall|u: int| 0 <= u < g.lists().len() implies #[trigger] a[u] =~= bg(g.lists())[u] by { }
    assert(a =~= bg(g.lists()));
}
proof fn lemma_sel(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>)
    requires sel_ok(ls, ids, rn, fo, hd, wt)
    ensures rn.len() <= ls.len(), ids.len() == ls.len(), numbered(ids, rn), fo.len() == rn.len() + 1, hd.len() == wt.len()
{ lemma_used(ls, ids, ls.len() as int); }
proof fn lemma_fo_mono(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, i: int, j: int)
    requires sel_ok(ls, ids, rn, fo, hd, wt), 0 <= i <= j <= rn.len()
    ensures fo[i] <= fo[j]
    decreases j - i
{ if i < j { lemma_fo_mono(ls, ids, rn, fo, hd, wt, i, j - 1); assert(row_ok(ls, rn, fo, hd, wt, j - 1)); } }
proof fn lemma_row(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, i: int)
    requires sel_ok(ls, ids, rn, fo, hd, wt), 0 <= i < rn.len()
    ensures fo[i] <= fo[i + 1] <= hd.len(), hd.len() == wt.len(), fo[i + 1] == fo[i] + ls[rn[i] as int].len(), fo.len() == rn.len() + 1, rn[i] < ls.len(), ids.len() == ls.len()
{ assert(row_ok(ls, rn, fo, hd, wt, i)); lemma_fo_mono(ls, ids, rn, fo, hd, wt, i + 1, rn.len() as int); }
proof fn lemma_entry(ls: Lk, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, i: int, k: int)
    requires sel_ok(ls, ids, rn, fo, hd, wt), 0 <= i < rn.len(), 0 <= k < ls[rn[i] as int].len()
    ensures entry_ok(ls, rn, fo, hd, wt, i, k), 0 <= hd[fo[i] + k] < i, ids[rn[hd[fo[i] + k] as int] as int]@ == Some(hd[fo[i] + k])
{ assert(row_ok(ls, rn, fo, hd, wt, i)); assert(entry_ok(ls, rn, fo, hd, wt, i, k)); }
proof fn lemma_ud_cap(f: Ag<()>, b: Ag<()>, s: int, v: int, d: int) requires ud(f, b, s, v, d) ensures d <= CAP { }
/// settling u changes no label that is not queued afterwards
proof fn lemma_settled_keep<L>(g: Ag<L>, s: int, d: Seq<u32>, q: Qu, d2: Seq<u32>, q2: Qu, u: NodeId)
    requires settled(g, zero_pot(), s, 0, d, q, d2, q2, u), d.len() == g.len(), g.len() < u32::MAX
    ensures u < g.len(), d2.len() == d.len(), forall|v: int| 0 <= v < g.len() && v != u && !#[trigger] q2.dom().contains(v as usize) ==> !q.dom().contains(v as usize) && d2[v] == d[v]
{
    assert forall|v: int| 0 <= v < g.len() && v != u && !#[trigger] q2.dom().contains(v as usize) implies !q.dom().contains(v as usize) && d2[v] == d[v] by {
        assert(d2[v] <= d[v]); if q.dom().contains(v as usize) { assert(q.remove(u as usize).dom().contains(v as usize)); } }
}
proof fn lemma_number(ids: Ids, rn: Seq<u32>, v: int) requires numbered(ids, rn), 0 <= v < ids.len() ensures ids[v]@ matches Some(i) ==> i < rn.len() && rn[i as int] == v { }
/// every node that is not queued has its label copied
spec fn copied(rn: Seq<u32>, d: Seq<u32>, q: Qu, rd: Seq<u32>) -> bool { forall|i: int| 0 <= i < rn.len() ==> q.dom().contains((#[trigger] rn[i]) as usize) || rd[i] == d[rn[i] as int] }
proof fn lemma_copied_start(ids: Ids, rn: Seq<u32>, f: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, rd: Seq<u32>)
    requires inv(f, zero_pot(), s, 0, d, pr, q), numbered(ids, rn), ids.len() == f.len(), forall|i: int| 0 <= i < rn.len() ==> (#[trigger] rd[i]) == INFINITY,
        forall|t: int| 0 <= t < f.len() && #[trigger] d[t] < CAP ==> t == s && q.dom().contains(t as usize)
    ensures copied(rn, d, q, rd)
{ assert forall|i: int| 0 <= i < rn.len() implies q.dom().contains((#[trigger] rn[i]) as usize) || rd[i] == d[rn[i] as int] by { assert(rd[i] == INFINITY); assert(d[rn[i] as int] <= CAP); } }
proof fn lemma_copied_step(ids: Ids, rn: Seq<u32>, f: Ag<()>, s: int, d: Seq<u32>, q: Qu, rd: Seq<u32>, d2: Seq<u32>, q2: Qu, rd2: Seq<u32>, u: NodeId)
    requires settled(f, zero_pot(), s, 0, d, q, d2, q2, u), d.len() == f.len(), f.len() < u32::MAX, numbered(ids, rn), ids.len() == f.len(), copied(rn, d, q, rd), rd.len() >= rn.len(), rn.len() <= f.len(),
        rd2 == (if ids[u as int]@ is Some { rd.update(ids[u as int]@->0 as int, d2[u as int]) } else { rd })
    ensures copied(rn, d2, q2, rd2)
{
    lemma_settled_keep(f, s, d, q, d2, q2, u);
    assert forall|i: int| 0 <= i < rn.len() implies q2.dom().contains((#[trigger] rn[i]) as usize) || rd2[i] == d2[rn[i] as int] by {
        let v = rn[i] as int;
        assert(ids[v]@ == Some(i as u32));
        if v != u && !q2.dom().contains(v as usize) { assert(rd[i] == d[v]); if let Some(j) = ids[u as int]@ { assert(rn[j as int] == u); } }
    }
}
spec fn finals(f: Ag<()>, s: int, df: Seq<u32>) -> bool { df.len() == f.len() && forall|v: int| 0 <= v < f.len() ==> is_dist(f, s, 0, v, #[trigger] df[v] as int) }
/// rows below k are swept, the others hold upward distances
spec fn swept(f: Ag<()>, b: Ag<()>, s: int, rn: Seq<u32>, df: Seq<u32>, rd: Seq<u32>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < rn.len() && i < k ==> ud(f, b, s, (#[trigger] rn[i]) as int, rd[i] as int)
    &&& forall|i: int| k <= i < rn.len() ==> rd[i] == df[(#[trigger] rn[i]) as int]
}
proof fn lemma_all_final(ids: Ids, rn: Seq<u32>, f: Ag<()>, s: int, d: Seq<u32>, pr: Seq<(NodeId, ())>, q: Qu, rd: Seq<u32>)
    requires inv(f, zero_pot(), s, 0, d, pr, q), q.dom() =~= ISet::empty(), copied(rn, d, q, rd), numbered(ids, rn)
    ensures finals(f, s, d), forall|b: Ag<()>| #[trigger] swept(f, b, s, rn, d, rd, 0)
{
    lemma_all_done(f, zero_pot(), s, 0, d, pr, q);
    assert forall|b: Ag<()>| #[trigger] swept(f, b, s, rn, d, rd, 0) by { assert forall|i: int| 0 <= i < rn.len() implies rd[i] == d[(#[trigger] rn[i]) as int] by { assert(!q.dom().contains(rn[i] as usize)); } }
}
spec fn heads_ok(f: Ag<()>, b: Ag<()>, s: int, v: int, r: spec_fn(int) -> int) -> bool { forall|j: int| 0 <= j < b[v].len() ==> ud(f, b, s, (#[trigger] b[v][j]).0, r(b[v][j].0)) }
spec fn others_same(ra: Seq<u32>, rb: Seq<u32>, i: int) -> bool { ra.len() == rb.len() && forall|j: int| 0 <= j < ra.len() && j != i ==> (#[trigger] rb[j]) == ra[j] }
proof fn lemma_others(ra: Seq<u32>, rb: Seq<u32>, rc: Seq<u32>, i: int) requires others_same(ra, rb, i), 0 <= i < rb.len(), rc == rb.update(i, rc[i]) ensures others_same(ra, rc, i) { }
proof fn lemma_heads(f: Ag<()>, ls: Lk, s: int, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, df: Seq<u32>, ra: Seq<u32>, i: int)
    requires sel_ok(ls, ids, rn, fo, hd, wt), links_ok(ls), f.len() == ls.len(), finals(f, s, df), swept(f, bg(ls), s, rn, df, ra, i), 0 <= i < rn.len(), rn.len() <= ra.len()
    ensures heads_ok(f, bg(ls), s, rn[i] as int, at(ids, ra)), sweep(f, bg(ls), s, rn[i] as int, 0, df[rn[i] as int] as int, ra[i] as int, at(ids, ra)), others_same(ra, ra, i)
{
    let b = bg(ls); let v = rn[i] as int; let r = at(ids, ra);
    lemma_bg(ls); lemma_row(ls, ids, rn, fo, hd, wt, i);
    lemma_sweep_start(f, b, s, v, df[v] as int, r);
    assert forall|j: int| 0 <= j < b[v].len() implies ud(f, b, s, (#[trigger] b[v][j]).0, r(b[v][j].0)) by {
        let h = hd[fo[i] + j] as int; lemma_entry(ls, ids, rn, fo, hd, wt, i, j); assert(rn[h] == b[v][j].0); assert(r(rn[h] as int) == ra[h]); }
}
proof fn lemma_sweep_arc(f: Ag<()>, ls: Lk, s: int, ids: Ids, rn: Seq<u32>, fo: Seq<u32>, hd: Seq<u32>, wt: Seq<u32>, df: int, ra: Seq<u32>, rb: Seq<u32>, i: int, k: int)
    requires sel_ok(ls, ids, rn, fo, hd, wt), links_ok(ls), f.len() == ls.len(), 0 <= i < rn.len(), rn.len() <= ra.len(), heads_ok(f, bg(ls), s, rn[i] as int, at(ids, ra)), others_same(ra, rb, i), 0 <= k < ls[rn[i] as int].len(),
        sweep(f, bg(ls), s, rn[i] as int, k, df, rb[i] as int, at(ids, ra))
    ensures ({ let e = fo[i] + k; 0 <= e < hd.len() && hd[e] < i && rb[hd[e] as int] == ra[hd[e] as int] && ra[hd[e] as int] <= INFINITY && wt[e] <= INFINITY
        && sweep(f, bg(ls), s, rn[i] as int, k + 1, df, vf_min_s(ra[hd[e] as int] + wt[e], rb[i] as int), at(ids, ra)) })
{
    let b = bg(ls); let v = rn[i] as int; let r = at(ids, ra); let e = fo[i] + k; let h = hd[e] as int;
    lemma_bg(ls); lemma_row(ls, ids, rn, fo, hd, wt, i); lemma_entry(ls, ids, rn, fo, hd, wt, i, k);
    assert(b[v][k] == (ls[v][k].node as int, ls[v][k].weight as int, ()));
    assert(r(rn[h] as int) == ra[h]);
    assert(ud(f, b, s, b[v][k].0, r(b[v][k].0)));
    assert(ls[v][k].weight <= INFINITY);
    lemma_sweep_step(f, b, s, v, k, df, rb[i] as int, r, vf_min_s(ra[h] + ls[v][k].weight, rb[i] as int));
}
proof fn lemma_swept(f: Ag<()>, ls: Lk, s: int, ids: Ids, rn: Seq<u32>, df: Seq<u32>, ra: Seq<u32>, rb: Seq<u32>, i: int)
    requires links_ok(ls), ag_ok(f), f.len() == ls.len(), finals(f, s, df), swept(f, bg(ls), s, rn, df, ra, i), 0 <= i < rn.len(), rn.len() <= ra.len(), others_same(ra, rb, i), rn[i] < ls.len(),
        heads_ok(f, bg(ls), s, rn[i] as int, at(ids, ra)), sweep(f, bg(ls), s, rn[i] as int, ls[rn[i] as int].len() as int, df[rn[i] as int] as int, rb[i] as int, at(ids, ra))
    ensures swept(f, bg(ls), s, rn, df, rb, i + 1)
{
    let b = bg(ls); let v = rn[i] as int;
    lemma_bg(ls);
    assert(is_dist(f, s, 0, v, df[v] as int));
    lemma_sweep_done(f, b, s, v, df[v] as int, rb[i] as int, at(ids, ra));
    assert forall|j: int| 0 <= j < rn.len() && j < i + 1 implies ud(f, b, s, (#[trigger] rn[j]) as int, rb[j] as int) by { if j != i { assert(rb[j] == ra[j]); } }
    assert forall|j: int| i + 1 <= j < rn.len() implies rb[j] == df[(#[trigger] rn[j]) as int] by { assert(rb[j] == ra[j]); }
}
impl RPHASTQuery {
    spec fn wf(&self, n: int) -> bool { self.restricted_distances@.len() == n && self.dijkstra_data.wf(n) }
    /// the values of the selected nodes and of everything above them are up-down distances from s
    spec fn answered<GF: VfLinks<Link>, GB: VfLinks<Link>>(&self, sel: RPHAST<GF, GB>, s: int) -> bool {
        forall|i: int| 0 <= i < sel.restricted_nodes@.len() ==> ud(bg(sel.fl()), bg(sel.bl()), s, (#[trigger] sel.restricted_nodes@[i]) as int, self.restricted_distances@[i] as int)
    }
//@fn engine/src/algo/rphast.rs RPHASTQuery::new
//@sig fn new<GF: VfLinks<Link>, GB: VfLinks<Link>>(rphast: &RPHAST<GF, GB>) -> (r: Self)
//@rw sub std::iter::repeat(INFINITY).take(n).collect() => vf_infinities(n)
//@rw sub DijkstraData::new(n) => DijkstraData::new_with_pred_link(n, ())
//@spec
    requires rphast.graphs_ok()
    ensures r.wf(rphast.fl().len() as int)
//@endfn
//@fn engine/src/algo/rphast.rs RPHASTQuery::query
//@sig fn query<GF: VfLinks<Link>, GB: VfLinks<Link>>(&mut self, node: NodeId, selection: &RPHAST<GF, GB>)
//@rw sub RPHASTResult(self, selection) ===> ()
//@rw sub for dist in self.restricted_distances[0..$e].iter_mut() => for vf_d in 0..$e
//@rw sub *dist = INFINITY; => self.restricted_distances[vf_d] = INFINITY;
//@rw sub let min_dist: *mut Weight = self.restricted_distances.get_unchecked_mut(node); ===> let vf_n = node;
//@rw subopt *min_dist = min($a, $b) ===> *min_dist = min($a, $b);
//@rw sub *min_dist ===> self.restricted_distances[vf_n]
//@rw sub get_unchecked ===> vf_get
//@rw sub query.next() => query.next(Ghost(s), Ghost(0))
//@rw for
//@rw whilelet
//@spec
    requires old(self).wf(selection.fl().len() as int), selection.wf(), node < selection.order.n()
    ensures final(self).wf(selection.fl().len() as int), final(self).answered(*selection, selection.order.ranks@[node as int] as int)
//@at start
    hide(inv); hide(graph_ok); hide(agraph); hide(improved); hide(exact); hide(is_dist); hide(tree); hide(TimestampedVector::wf); hide(TimestampedVector::view); hide(IndexdMinHeap::view); hide(IndexdMinHeap::wf); hide(settled); hide(DijkstraRun::inv); hide(DijkstraRun::fresh); hide(ag_ok); hide(sel_ok); hide(ud); hide(sweep); hide(realised); hide(numbered); hide(links_ok); hide(copied); hide(finals); hide(swept); hide(heads_ok); hide(others_same); hide(upward); hide(NodeOrder::wf); hide(at); hide(bg); hide(loff); hide(RPHAST::graphs_ok); hide(DijkstraRun::wf); hide(DijkstraData::wf);
    let ghost n = selection.fl().len() as int;
    let ghost ls = selection.bl();
    let ghost (ids, rn, fo, hd, wt) = (selection.restricted_ids@, selection.restricted_nodes@, selection.restricted_first_out@, selection.restricted_head@, selection.restricted_weight@);
    let ghost s = selection.order.ranks@[node as int] as int;
    let ghost f = bg(selection.fl());
    let ghost b = bg(ls);
    let ghost me = *self;
    proof { selection.lemma_wf(node); lemma_sel(ls, ids, rn, fo, hd, wt); lemma_bg(ls); lemma_bg(selection.fl()); lemma_agraph_bg::<GF>(&selection.forward, &DefaultOps()); }
//@loop 0
    invariant vf_i0 <= vf_e0, vf_e0 == rn.len(), rn.len() <= n, self.restricted_distances@.len() == n, self.dijkstra_data == me.dijkstra_data, forall|i: int| 0 <= i < vf_i0 ==> (#[trigger] self.restricted_distances@[i]) == INFINITY
    decreases vf_e0 - vf_i0
//@at before_loop 1
    let ghost run0 = query;
    proof { query.lemma_fresh(s, 0, zero_pot()); query.lemma_inv(zero_pot(), s, 0); query.lemma_fresh_q(s, 0); assert(query.g() == f);
        lemma_copied_start(ids, rn, f, s, query.dist(), query.preds(), query.qu(), self.restricted_distances@); }
//@loop 1
    invariant query.inv(zero_pot(), s, 0), query.same(run0), query.g() == f, f.len() == n, query.dist().len() == n, self.restricted_distances@.len() == n, rn.len() <= n, n < u32::MAX, eq_ok::<u32>(),
        selection.restricted_ids@ == ids, ids.len() == n, numbered(ids, rn), copied(rn, query.dist(), query.qu(), self.restricted_distances@),
    ensures query.qu().dom() =~= ISet::empty()
    decreases dsum(query.dist()), qcount(query.qu(), n)
//@at loop_begin 1
    let ghost pre = query; let ghost q0 = query.qu(); let ghost d0 = query.dist(); let ghost rd0 = self.restricted_distances@; let ghost mut u = 0u32;
    proof { pre.lemma_inv(zero_pot(), s, 0); }
//@at before 0 if let Some(restricted_id)
    proof {
        u = node;
        query.lemma_inv(zero_pot(), s, 0);
        lemma_measure(f, zero_pot(), s, 0, d0, q0, query.dist(), query.qu(), node);
        lemma_settled_keep(f, s, d0, q0, query.dist(), query.qu(), node); lemma_number(ids, rn, node as int);
    }
//@at loop_end 1
    proof {
        lemma_copied_step(ids, rn, f, s, d0, q0, rd0, query.dist(), query.qu(), self.restricted_distances@, u);
    }
//@at past_loop 1
    let ghost df = query.dist();
    let ghost rd1 = self.restricted_distances@;
    proof { query.lemma_inv(zero_pot(), s, 0); lemma_all_final(ids, rn, f, s, df, query.preds(), query.qu(), rd1); }
//@loop 2
    invariant vf_i2 <= vf_e2, vf_e2 == rn.len(), rn.len() <= n, self.restricted_distances@.len() == n, selection.restricted_ids@ == ids, selection.restricted_nodes@ == rn, selection.restricted_first_out@ == fo, selection.restricted_head@ == hd, selection.restricted_weight@ == wt,
        sel_ok(ls, ids, rn, fo, hd, wt), b == bg(ls), ag_ok(b), ag_ok(f), f.len() == n, ls.len() == n, links_ok(ls), finals(f, s, df),
        swept(f, b, s, rn, df, self.restricted_distances@, vf_i2 as int),
    decreases vf_e2 - vf_i2
//@at loop_start 2
    let ghost i = node as int;
    let ghost v = rn[i] as int;
    let ghost ra = self.restricted_distances@;
    let ghost r = at(ids, ra);
    proof { lemma_row(ls, ids, rn, fo, hd, wt, i); lemma_heads(f, ls, s, ids, rn, fo, hd, wt, df, ra, i); }
//@loop 3
    invariant fo[i] <= vf_i3 <= vf_e3, vf_e3 == fo[i + 1], fo[i + 1] == fo[i] + ls[v].len(), fo[i + 1] <= hd.len(), hd.len() == wt.len(), i == node, 0 <= i < rn.len(), vf_n == node, v == rn[i], v < n, rn.len() <= n, self.restricted_distances@.len() == n, ra.len() == n, r == at(ids, ra), selection.restricted_head@ == hd, selection.restricted_weight@ == wt,
        sel_ok(ls, ids, rn, fo, hd, wt), ag_ok(b), b == bg(ls), ls.len() == n, links_ok(ls), f.len() == n, heads_ok(f, b, s, v, r),
        others_same(ra, self.restricted_distances@, i),
        sweep(f, b, s, v, vf_i3 - fo[i], df[v] as int, self.restricted_distances@[i] as int, r),
    decreases vf_e3 - vf_i3
//@at loop_start 3
    let ghost rb = self.restricted_distances@;
    proof { lemma_sweep_arc(f, ls, s, ids, rn, fo, hd, wt, df[v] as int, ra, rb, i, edge_idx - fo[i]); }
//@at loop_end 3
    proof { assert(self.restricted_distances@[i] == vf_min_s(ra[hd[edge_idx as int] as int] + wt[edge_idx as int], rb[i] as int)); lemma_others(ra, rb, self.restricted_distances@, i); }
//@at loop_end 2
    proof { lemma_swept(f, ls, s, ids, rn, df, ra, self.restricted_distances@, i); }
//@at end
    proof {
        assert(self.dijkstra_data.wf(n)) by { reveal(DijkstraRun::inv); reveal(DijkstraRun::wf); reveal(DijkstraData::wf); }
        assert forall|i: int| 0 <= i < selection.restricted_nodes@.len() implies ud(bg(selection.fl()), bg(selection.bl()), s, (#[trigger] selection.restricted_nodes@[i]) as int, self.restricted_distances@[i] as int) by { reveal(swept); assert(rn[i] == selection.restricted_nodes@[i]); }
    }
//@endfn
}
//@item engine/src/algo/rphast.rs struct RPHASTResult
impl<'a, GF: VfLinks<Link>, GB: VfLinks<Link>> RPHASTResult<'a, GF, GB> {
//@fn engine/src/algo/rphast.rs RPHASTResult::distance
//@spec
    requires self.1.wf(), self.0.wf(self.1.fl().len() as int), node < self.1.order.n(), self.1.id(node) is Some
    ensures forall|s: int| #[trigger] self.0.answered(*self.1, s) ==> ud(bg(self.1.fl()), bg(self.1.bl()), s, self.1.order.ranks@[node as int] as int, r as int)
//@at start
    proof { let i = self.1.id(node)->0; let rn = self.1.restricted_nodes@; lemma_number(self.1.restricted_ids@, rn, self.1.order.ranks@[node as int] as int); lemma_sel(self.1.bl(), self.1.restricted_ids@, rn, self.1.restricted_first_out@, self.1.restricted_head@, self.1.restricted_weight@);
        assert(rn[i as int] == self.1.order.ranks@[node as int]); }
//@endfn
}
